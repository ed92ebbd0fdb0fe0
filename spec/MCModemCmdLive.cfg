SPECIFICATION Spec
CONSTANTS
 N = 2
 MaxCalls = 2
 MaxBusy = 2
 Reset = TRUE
INVARIANTS Allowed
PROPERTIES Served
