------------------------------ MODULE ToolsGen ------------------------------
(* Runs for the command line tools: the SIM and what the user knows of its PIN, coverage over time, what the modem does with the message, what is reported. *)
EXTENDS Integers, Sequences, TLC, Json, Verdict
CONSTANTS PerBehaviour, Steps
VARIABLES n, r, w
R(S) == RandomElement(S)
Init == n = 0 /\ w = <<>> /\ r = [tool |-> "none"]
Next == IF r.tool = "none"
  THEN n' = n /\ w' = <<>> /\ \E tool \in {R({"sendsms", "identify"})}, more \in {R({"sendsms", ""})}, sim \in {R({"ready", "pin", "puk"})}, easy \in {R(1..3)}, given \in {R({"right", "wrong", "none"})}, dl \in {R(BOOLEAN)},
                                a \in {R({"prompt", "prompt", "ERROR", "silent", "+CMS ERROR: 500", "+CME ERROR: 515"})}, b \in {R({"ok", "noack", "silent", "+CMS ERROR: 38"})}, fine \in {R(1..2)},
                                delay \in {R({0, 1, 1000, 14000, 20000})}, st \in {R({0, 70})}, told \in {R(1..4)} :
       r' = [tool |-> IF more = "" THEN tool ELSE more, sim |-> IF easy < 3 THEN "ready" ELSE sim, given |-> given, deliver |-> dl, debug |-> dl,
             cmgs |-> <<IF fine = 1 THEN [a |-> "prompt", b |-> "ok"] ELSE [a |-> a, b |-> b], [a |-> "prompt", b |-> "ok"], [a |-> "prompt", b |-> b]>>,
             reports |-> IF told = 1 THEN <<>> ELSE <<[delay |-> delay, st |-> st]>>]
  ELSE IF Len(w) < Steps
  THEN UNCHANGED <<n, r>> /\ \E reg \in {R(0..5)}, good \in {R(1..3)}, ss \in {R({0, 1, 20, 31, 99})}, for \in {R({300, 1000, 1500, 2400, 5000})} :
         w' = Append(w, [reg |-> IF good > 1 THEN 1 ELSE reg, ss |-> ss, for |-> for])
  ELSE /\ n < PerBehaviour /\ n' = n + 1 /\ w' = <<>> /\ r' = [tool |-> "none"] /\ Behaviour(ToJson([run |-> r, world |-> w]))
=============================================================================
