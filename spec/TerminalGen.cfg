INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 PerBehaviour = 3
 Steps = 30
