INIT Init
NEXT Next
INVARIANT Allowed
CHECK_DEADLOCK FALSE
CONSTANTS
 Small = TRUE
 Units = {"AT+WIND=50", "ATE0"}
 MaxBusy = 1
 Attempts = 1
 Broken = "none"
