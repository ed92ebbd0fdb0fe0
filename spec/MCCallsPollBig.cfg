INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Allowed
INVARIANT Complete
CONSTANTS
 Fam = "poll"
 N = 2
 Ops = 3
 Rings = 0
 Ticks = 2
 Broken = ""
 Kinds = {"dial", "hangup"}
