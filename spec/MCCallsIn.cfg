INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Allowed
INVARIANT Complete
CONSTANTS
 Fam = "huawei"
 N = 2
 Ops = 2
 Rings = 2
 Ticks = 1
 Broken = ""
 Kinds = {"answer", "hangup"}
