INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Allowed
INVARIANT Complete
CONSTANTS
 Fam = "huawei"
 N = 1
 Ops = 1
 Rings = 1
 Ticks = 0
 Broken = ""
 Kinds = {"answer", "dial"}
