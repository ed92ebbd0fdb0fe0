INIT Init
NEXT Next
CONSTANTS
 N = 2
 Ops = 3
 Ticks = 4
 Broken = "no"
INVARIANTS Allowed Complete
CHECK_DEADLOCK FALSE
