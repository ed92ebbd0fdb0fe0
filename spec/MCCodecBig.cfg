INIT Init
NEXT Next
INVARIANTS Ok Tables
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSept = 9
 Vals = {0, 64, 127}
 SegCap = 7
 SegMax = 13
