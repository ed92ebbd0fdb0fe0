INIT Init
NEXT Next
CONSTANTS
 N = 3
 Ops = 4
 Ticks = 4
 Broken = "no"
INVARIANTS Allowed Complete
CHECK_DEADLOCK FALSE
