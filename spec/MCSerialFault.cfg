SPECIFICATION MSpec
CONSTANTS
 Threads = {1}
 Chunks = {"N\r\n", "OK\r\n", ">"}
 Prompts = {">"}
 MaxCalls = 2
 MaxArr = 2
 MaxTime = 3
 Faults = TRUE
INVARIANTS NotifiedOnce OneAtATime ResponseShape Answered TimeoutShape FatalOnce AfterClose
