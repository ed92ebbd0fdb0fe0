------------------------------ MODULE UssdGen ------------------------------
(* Environments for Ussd: what the users do in each phase, and how the network treats each request. *)
EXTENDS Integers, Sequences, TLC, Json, Verdict
CONSTANTS PerBehaviour, Steps
VARIABLES n, ph, cur, plans
R(S) == RandomElement(S)
Init == n = 0 /\ ph = <<>> /\ cur = <<<<>>, <<>>>> /\ plans = <<>>
Next == IF Len(plans) < Steps
  THEN n' = n /\ \E k \in {R({"after", "after", "before", "err", "none", "silent", "busy"})}, m \in {R({0, 1, 1, 1, 2})}, rel \in {R({"", "", "first", "last", "later"})}, d \in {R({0, 5, 300, 900, 3000})},
                 op \in {R({"send", "reply", "reply", "cancel", "sleep"})}, tmo \in {R({1000, 2000})}, any \in {R(BOOLEAN)}, back \in {R(0..2)}, ms \in {R({1, 10, 1000})}, t \in {R(1..2)}, cut \in {R(1..3)} :
         /\ plans' = Append(plans, [k |-> k, m |-> m, rel |-> rel, delay |-> d])
         /\ LET o == CASE op = "send" -> [op |-> op, tmo |-> tmo] [] op = "sleep" -> [op |-> op, ms |-> ms] [] OTHER -> [op |-> op, any |-> any, back |-> back]
                c == [cur EXCEPT ![t] = Append(@, o)] IN
            IF cut = 1 THEN ph' = Append(ph, c) /\ cur' = <<<<>>, <<>>>> ELSE ph' = ph /\ cur' = c
  ELSE /\ n < PerBehaviour /\ n' = n + 1 /\ ph' = <<>> /\ cur' = <<<<>>, <<>>>> /\ plans' = <<>>
       /\ Behaviour(ToJson([phases |-> Append(ph, cur), plans |-> plans]))
=============================================================================
