INIT Init
NEXT Next
INVARIANTS Allowed Complete
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 1
 Ops = 1
 Arrivals = 2
 Inits = 1
 Kinds = {"deliver", "junk"}
 OpNames = {"list", "read", "del", "process"}
 Errs = {"+CMS ERROR: 500"}
 Broken = "none"
