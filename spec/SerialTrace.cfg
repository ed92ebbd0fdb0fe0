INIT TInit
NEXT TNext
POSTCONDITION Report
