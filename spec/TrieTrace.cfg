INIT TInit
NEXT TNext
CONSTANTS
 Chars = {}
 MaxLen = 0
 Values = {}
 MaxOps = 0
