INIT Init
NEXT Next
INVARIANT Allowed
CHECK_DEADLOCK FALSE
CONSTANTS
 Small = FALSE
 Units = {"AT+WIND=50", "AT+CSMP", "AT+CPMS=\"", "AT+CLIP", "ATE0"}
 MaxBusy = 1
 Attempts = 1
 Broken = "none"
