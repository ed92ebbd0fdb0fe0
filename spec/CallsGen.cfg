INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 PerBehaviour = 5
 Steps = 8
