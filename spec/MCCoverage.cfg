INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Allowed
INVARIANT Complete
INVARIANT Bounded
CONSTANTS
 Ticks = 10
 Tmos = {99999, 0, 500, 2500}
 Broken = ""
