---------------------------- MODULE TerminalGen ----------------------------
(* Key sequences for Terminal: words and single keys, and what the modem says to each attempt to begin a message. *)
EXTENDS Integers, Sequences, TLC, Json, Verdict
CONSTANTS PerBehaviour, Steps
VARIABLES n, keys, answers
R(S) == RandomElement(S)
Words == {"AT", "at+c", "AT+CMG", "ab", "?AT+CSQ", "help ATZ", "ls", "AT+CMGS=1", "at+cmgs=\"2\"", "AT+CSQ=", "XY=", "x", " ", "?", "AT+W"}
Edits == {"left", "right", "home", "end", "bs", "del", "up", "down", "tab", "odd"}
Ends0 == {"enter", "^Z", "esc"}
Init == n = 0 /\ keys = <<>> /\ answers = <<>>
Next == IF Len(keys) < Steps
  THEN n' = n /\ \E x \in {R(1..10)}, w \in {R(Words)}, d \in {R(Edits)}, f \in {R(Ends0)}, a \in {R({"prompt", "prompt2", "error", "silent", "late"})} :
         /\ keys' = Append(keys, IF x <= 3 THEN w ELSE IF x <= 7 THEN d ELSE IF x <= 9 THEN "enter" ELSE f)
         /\ answers' = IF Len(answers) < 8 THEN Append(answers, IF a = "prompt2" THEN "prompt" ELSE a) ELSE answers
  ELSE /\ n < PerBehaviour /\ n' = n + 1 /\ keys' = <<>> /\ answers' = <<>>
       /\ Behaviour(ToJson([keys |-> keys, answers |-> answers]))
=============================================================================
