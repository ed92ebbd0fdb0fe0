------------------------------ MODULE CallsGen ------------------------------
(* Environments for Calls: what the users do in each phase, how the network treats each outgoing call (ans/end < 0: never), who calls in. *)
EXTENDS Integers, Sequences, TLC, Json, Verdict
CONSTANTS PerBehaviour, Steps
VARIABLES n, ph, cur, plans, arr, fam
R(S) == RandomElement(S)
None == [t \in 1..3 |-> <<>>]
Init == n = 0 /\ ph = <<>> /\ cur = None /\ plans = <<>> /\ arr = <<>> /\ fam = "huawei"
Next == IF Len(plans) < Steps
  THEN n' = n /\ \E f \in {R({"huawei", "poll", "wavecom", "zte"})}, k \in {R({"ok", "ok2", "ok3", "ok4", "err", "silent", "noinit", "busy"})}, init \in {R({0, 1, 50, 600, 1500})},
                 ans \in {R({0 - 1, 0, 1, 100, 1200, 2500})}, end \in {R({0 - 1, 0, 1, 300, 1800, 4000})},
                 op \in {R({"dial", "dial2", "hangup", "answer", "dtmf", "sleep"})}, tmo \in {R({2000, 2500, 5000})}, live \in {R(BOOLEAN)}, back \in {R(0..2)}, ms \in {R({1, 10, 700, 1500})},
                 t \in {R(1..3)}, cut \in {R(1..4)}, call \in {R(1..3)}, gap0 \in {R({1, 500, 1500, 5000})}, num \in {R({"", "0123456789", "+27821234567"})}, ext \in {R(BOOLEAN)},
                 gap \in {R({600, 1000, 3000})}, rings \in {R(1..3)}, e2 \in {R(BOOLEAN)}, tones \in {R({"1", "*#", "12D"})} :
         /\ fam' = IF plans = <<>> THEN f ELSE fam
         /\ plans' = Append(plans, [k |-> IF k \in {"err", "silent", "noinit", "busy"} THEN k ELSE "ok", init |-> init, ans |-> ans, end |-> end])
         /\ arr' = IF call = 1 THEN Append(arr, [gap0 |-> gap0, num |-> num, ext |-> ext, gap |-> gap, rings |-> rings, end |-> e2]) ELSE arr
         /\ LET o == CASE op \in {"dial", "dial2"} -> [op |-> "dial", tmo |-> tmo] [] op = "sleep" -> [op |-> op, ms |-> ms]
                       [] op = "dtmf" -> [op |-> op, back |-> back, live |-> live, tones |-> tones] [] OTHER -> [op |-> op, back |-> back, live |-> live]
                c == [cur EXCEPT ![t] = Append(@, o)] IN
            IF cut = 1 THEN ph' = Append(ph, c) /\ cur' = None ELSE ph' = ph /\ cur' = c
  ELSE /\ n < PerBehaviour /\ n' = n + 1 /\ ph' = <<>> /\ cur' = None /\ plans' = <<>> /\ arr' = <<>> /\ fam' = fam
       /\ Behaviour(ToJson([fam |-> fam, phases |-> Append(ph, cur), plans |-> plans, arrivals |-> arr]))
=============================================================================
