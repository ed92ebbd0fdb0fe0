INIT Init
NEXT Next
INVARIANT Allowed
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 2
 Ops = 3
 Broken = "none"
