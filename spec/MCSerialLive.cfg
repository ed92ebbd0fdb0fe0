SPECIFICATION LiveSpec
CONSTANTS
 Threads = {1, 2}
 Chunks = {"N\r\n", "OK\r\n", ">"}
 Prompts = {">"}
 MaxCalls = 2
 MaxArr = 1
 MaxTime = 4
 Faults = FALSE
PROPERTY Served
