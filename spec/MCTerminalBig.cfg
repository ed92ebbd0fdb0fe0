INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Allowed
INVARIANT Agrees
INVARIANT Bounded
INVARIANT OnlyLines
CONSTANTS
 Depth = 9
 Broken = ""
 KeySet = {"a", "=", "left", "bs", "del", "up", "down", "tab", "^Z", "esc", "enter", "home", " ", "?"}
 Max <- MaxMC
 Sends <- SendsMC
