INIT Init
NEXT Next
INVARIANT Allowed
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 Ops = 4
 Broken = "none"
