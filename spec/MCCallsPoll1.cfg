INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Allowed
INVARIANT Complete
CONSTANTS
 Fam = "poll"
 N = 1
 Ops = 1
 Rings = 0
 Ticks = 6
 Broken = ""
 Kinds = {"dial"}
