SPECIFICATION Spec
INVARIANT RefinesMap
CONSTANTS
 Chars = {1, 2}
 MaxLen = 2
 Values = {7, 8}
 MaxOps = 6
