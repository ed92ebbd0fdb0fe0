INIT Init
NEXT Next
INVARIANTS Allowed Complete
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 2
 Ops = 2
 Arrivals = 1
 Inits = 1
 Kinds = {"deliver"}
 OpNames = {"list", "read", "del", "process"}
 Errs = {"+CMS ERROR: 500"}
 Broken = "none"
