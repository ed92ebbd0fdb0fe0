INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Allowed
INVARIANT Agrees
CONSTANTS
 Ops = 9
 Broken = ""
