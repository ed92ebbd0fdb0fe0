INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Allowed
INVARIANT Complete
CONSTANTS
 Fam = "poll"
 N = 2
 Ops = 2
 Rings = 0
 Ticks = 3
 Broken = ""
 Kinds = {"dial", "hangup"}
