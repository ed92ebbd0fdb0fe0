----------------------------- MODULE SerialGen -----------------------------
(* Environments for SerialLink, chosen by TLC: who calls when with what, what the device answers and when relative to the
   deadline, what it sends unasked, and which faults occur.  ("~" stands for the end of line.) *)
EXTENDS Naturals, Sequences, TLC, Json, Verdict
CONSTANTS PerBehaviour, Steps
VARIABLES n, env, k, now
gvars == <<n, env, k, now>>
R(S) == RandomElement(S)
Texts == {"~OK~", "OK~", "+X: 1~OK~", "~+CME ERROR: 14~", "+CMS ERROR: 38~", "ERROR~", "NOT OK~OK~", "~> ", "+Y: 2~> ", "> ", "OKAY~", "",
          "> ~OK~", "COMMAND NOT SUPPORT~", "ERROR 4~~OK~", "A~B~"}
Unasked == {"RING~", "~RING~", "~+CMTI: x,1~", "OK~", "N1~N2~", "P", "~", "+CDS: 1~00~", "> ", "Q~P", "ERROR~~"}
Offsets == {0, 1, 2}           \* at once, midway, at the deadline
Tmos == {100, 300}
Pieces == {1, 2}
Init == n = 0 /\ env = <<>> /\ k = 0 /\ now = 0
Add(x) == env' = env \o x
Call == \E t \in {R(1..3)}, tmo \in {R(Tmos)}, p \in {R({"", "", "> "})}, w \in {R(1..8)}, s \in {R(Texts)}, s2 \in {R(Texts \cup {""})}, o \in {R(Offsets)}, o2 \in {R(Offsets)} :
  LET cmd == "C" \o ToString(k) IN
  /\ Add(<<[k |-> "call", t |-> t, at |-> now, cmd |-> cmd, tmo |-> tmo, prompt |-> IF w = 1 THEN "" ELSE p, wait |-> w # 1],
           [k |-> "reply", cmd |-> cmd, d |-> (o * tmo) \div 2, s |-> s]>>
         \o (IF R(1..3) = 1 THEN <<[k |-> "reply", cmd |-> cmd, d |-> (o2 * tmo) \div 2, s |-> s2]>> ELSE <<>>))
  /\ k' = k + 1 /\ now' = now
Unsol == \E s \in {R(Unasked)} : Add(<<[k |-> "unsol", at |-> now, s |-> s]>>) /\ UNCHANGED <<k, now>>
Wait == \E d \in {R({50, 100, 150, 300})} : now' = now + d /\ UNCHANGED <<env, k>>
Fault == \E f \in {R({"rdfail", "txfail", "close"})} :
  /\ Add(<<[k |-> f, at |-> now, n |-> R(0..4), t |-> R(1..3)]>>) /\ UNCHANGED <<k, now>>
Next ==
  IF Len(env) < Steps
  THEN n' = n /\ (CASE R(1..12) \in 1..5 -> Call [] R(1..7) \in 1..3 -> Unsol [] R(1..8) = 1 -> Fault [] OTHER -> Wait)
  ELSE n < PerBehaviour /\ Behaviour(ToJson(env)) /\ n' = n + 1 /\ env' = <<>> /\ k' = 0 /\ now' = 0
=============================================================================
