---------------------------- MODULE SmsSendGen ----------------------------
(* Environments for SmsSend: what the modem does with every announcement and body, and the report for every message accepted. *)
EXTENDS Integers, Sequences, TLC, Json, Verdict
CONSTANTS PerBehaviour, Steps
VARIABLES n, env, reps
R(S) == RandomElement(S)
Errors == {"ERROR", "+CMS ERROR: 500", "+CMS ERROR: 330", "+CME ERROR: 11", "+CMS ERROR: 38", "+CMS ERROR: 515", "+CME ERROR: 14", "+CME ERROR: 515"}
Init == n = 0 /\ env = <<>> /\ reps = <<>>
Next == IF Len(env) < Steps
  THEN n' = n /\ \E q \in {R(1..8)}, e \in {R(Errors)}, d \in {R({0 - 1, 0, 0, 3, 40, 900, 2000})}, st \in {R({0, 0, 64, 68, 99})}, m \in {R({"ME", "SM", "SR"})} :
         /\ env' = Append(env, CASE q = 1 -> [a |-> e, b |-> "ok"] [] q = 2 -> [a |-> "prompt", b |-> e] [] q = 3 -> [a |-> "prompt", b |-> "noack"]
                                 [] OTHER -> [a |-> "prompt", b |-> "ok"])
         /\ reps' = Append(reps, [delay |-> d, st |-> st, mem |-> m])
  ELSE /\ n < PerBehaviour /\ n' = n + 1 /\ env' = <<>> /\ reps' = <<>>
       /\ \E t \in {R(BOOLEAN)}, k \in {R(1..4)} : Behaviour(ToJson([cmgs |-> env, reports |-> reps, text |-> t, n |-> k]))
=============================================================================
