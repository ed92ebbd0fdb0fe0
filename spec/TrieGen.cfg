INIT GInit
NEXT GNext
CONSTRAINT Emit
CONSTANTS
 Chars = {1, 2, 3}
 MaxLen = 4
 Values = {7, 8}
 MaxOps = 24
