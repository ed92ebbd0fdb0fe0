INIT Init
NEXT Next
CONSTANTS
  N = 2
  Sends = 2
  Parts = 1
  Mems = {"ME", "SM"}
  Broken = "none"
  Ticks = 1
INVARIANTS Allowed Complete
CHECK_DEADLOCK FALSE
