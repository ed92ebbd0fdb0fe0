SPECIFICATION MSpec
CONSTANTS
 Threads = {1, 2}
 Chunks = {"N\r\n", "N", "OK\r\n", ">"}
 Prompts = {">"}
 MaxCalls = 2
 MaxArr = 3
 MaxTime = 3
 Faults = FALSE
INVARIANTS NotifiedOnce OneAtATime ResponseShape Answered TimeoutShape FatalOnce AfterClose
