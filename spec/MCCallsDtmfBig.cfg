INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Allowed
INVARIANT Complete
CONSTANTS
 Fam = "huawei"
 N = 2
 Ops = 2
 Rings = 0
 Ticks = 2
 Broken = ""
 Kinds = {"dial", "hangup", "dtmf"}
