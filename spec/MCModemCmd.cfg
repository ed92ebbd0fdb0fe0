SPECIFICATION Spec
CONSTANTS
 N = 2
 MaxCalls = 3
 MaxBusy = 2
 Reset = TRUE
INVARIANTS Allowed Bounded
