INIT Init
NEXT Next
CONSTANTS
 PerBehaviour = 12
 Steps = 6
