INIT TrInit
NEXT TrNext
CHECK_DEADLOCK FALSE
