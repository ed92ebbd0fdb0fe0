------------------------------ MODULE SessionGen ------------------------------
(* Connections one after the other for Session: to which modem, what is done during each, how each ends. *)
EXTENDS Integers, Sequences, TLC, Json, Verdict
CONSTANTS PerBehaviour, Steps
VARIABLES n, eps, cur
R(S) == RandomElement(S)
Ops == {"dial", "ring", "sms", "ussd", "hangup", "answer", "tone", "cancel", "ureply", "smsc", "text", "getsmsc", "list", "send", "csq", "imsi", "model", "look"}
Init == n = 0 /\ eps = <<>> /\ cur = <<>>
(* each step: one more operation, after which the connection may end *)
Next == IF Len(eps) < 4 /\ Len(cur) < Steps /\ ~(Len(eps) > 1 /\ cur = <<>> /\ R(1..3) = 1)
  THEN n' = n /\ \E op \in {R(Ops)}, cut \in {R(1..4)}, f \in {R({"huawei", "wavecom", "zte", "poll"})}, end \in {R({"close", "fail", "failclose"})}, same \in {R(BOOLEAN)}, part \in {R(BOOLEAN)}, nocpms \in {R(1..8)} :
         LET ks == Append(cur, op) IN
         IF cut = 1 \/ Len(ks) = Steps
         THEN eps' = Append(eps, [fam |-> f, kinds |-> ks, end |-> end, same |-> same, part |-> part, nocpms |-> nocpms = 1]) /\ cur' = <<>>
         ELSE cur' = ks /\ eps' = eps
  ELSE /\ n < PerBehaviour /\ n' = n + 1 /\ eps' = <<>> /\ cur' = <<>>
       /\ \E text \in {R(BOOLEAN)}, smsc \in {R({"", "", "+447785016005"})} : Behaviour(ToJson([eps |-> eps, text |-> text, smsc |-> smsc]))
=============================================================================
