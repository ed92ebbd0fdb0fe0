---------------------------- MODULE ModemCmdGen ----------------------------
(* Environments for ModemCmd: which thread issues commands, with or without error parsing, and what the modem answers. *)
EXTENDS Naturals, Sequences, TLC, Json, Verdict
CONSTANTS PerBehaviour, Steps
VARIABLES n, env
R(S) == RandomElement(S)
Busy == {"+CME ERROR: 515", "+CMS ERROR: 515", "+CME ERROR: 14", "+CMS ERROR: 14"}
Finals == {"OK", "OK", "ERROR", "COMMAND NOT SUPPORT", "+CME ERROR: 11", "+CME ERROR: 12", "+CME ERROR: 16", "+CMS ERROR: 330", "+CME ERROR: 3",
           "+CMS ERROR: 16", "+CME ERROR: 330", "+CMS ERROR: 500", "+CMS ERROR: 11"}
RECURSIVE Many(_, _)
Many(k, acc) == IF k = 0 THEN acc ELSE LET b == R(Busy) IN Many(k - 1, Append(acc, b))
Init == n = 0 /\ env = <<>>
Next == IF Len(env) < Steps
  THEN /\ n' = n
       /\ \E t \in {R(1..3)}, k \in {R({0, 0, 1, 1, 2, 3, 4})}, f \in {R(Finals)}, q \in {R(1..6)} :
           env' = Append(env, [t |-> t, parse |-> q # 1, silent |-> q = 2,
                               replies |-> IF q = 1 THEN <<f>> ELSE IF q = 2 THEN Many(k, <<>>) ELSE Append(Many(k, <<>>), f)])
  ELSE n < PerBehaviour /\ Behaviour(ToJson(env)) /\ n' = n + 1 /\ env' = <<>>
=============================================================================
