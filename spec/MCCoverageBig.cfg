INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Allowed
INVARIANT Complete
INVARIANT Bounded
CONSTANTS
 Ticks = 20
 Tmos = {99999, 0, 500, 2500, 4000, 7000}
 Broken = ""
