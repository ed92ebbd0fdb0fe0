INIT Init
NEXT Next
CONSTANTS
 PerBehaviour = 40
