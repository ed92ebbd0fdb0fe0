SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Allowed
INVARIANT Ended
PROPERTY Ends
CONSTANTS
 Broken = ""
