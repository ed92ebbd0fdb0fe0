INIT Init
NEXT Next
INVARIANTS Ok Tables
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSept = 5
 Vals = {0, 1, 64, 127}
 SegCap = 5
 SegMax = 9
