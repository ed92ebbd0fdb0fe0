INIT Init
NEXT Next
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
CONSTANT PerBehaviour = 40
