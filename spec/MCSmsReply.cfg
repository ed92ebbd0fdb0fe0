SPECIFICATION Spec
CONSTANTS
  N = 2
  C = 2
  Ops = 4
  Broken = "none"
INVARIANTS NoBad AllSent
CHECK_DEADLOCK FALSE
