INIT Init
NEXT Next
CONSTANTS
 PerBehaviour = 5
 Steps = 5
