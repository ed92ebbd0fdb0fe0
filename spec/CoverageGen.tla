---------------------------- MODULE CoverageGen ----------------------------
(* Environments for Coverage: the history of registration and signal strength, who waits how long (negative: forever), whether the modem can report registration. *)
EXTENDS Integers, Sequences, TLC, Json, Verdict
CONSTANTS PerBehaviour, Steps
VARIABLES n, w, waits, cannot
R(S) == RandomElement(S)
Init == n = 0 /\ w = <<>> /\ waits = <<>> /\ cannot = FALSE
Next == IF Len(w) < Steps
  THEN n' = n /\ \E reg \in {R(0..5)}, reg2 \in {R({1, 2, 5})}, ss \in {R({0, 1, 20, 99})}, for \in {R({300, 1000, 1500, 2400, 5000})}, hard \in {R(1..3)}, t \in {R({0 - 1, 0, 500, 1000, 1001, 2500, 7000})}, k \in {R(1..3)}, x \in {R(1..5)} :
         /\ w' = Append(w, [reg |-> IF hard = 1 THEN reg ELSE reg2, ss |-> ss, for |-> for])
         /\ waits' = IF Len(waits) < 2 /\ (waits = <<>> \/ k = 1) THEN Append(waits, <<t>>) ELSE IF k = 2 /\ Len(waits[1]) < 2 THEN [waits EXCEPT ![1] = Append(@, t)] ELSE waits
         /\ cannot' = (x = 1)
  ELSE /\ n < PerBehaviour /\ n' = n + 1 /\ w' = <<>> /\ waits' = <<>> /\ cannot' = cannot
       /\ Behaviour(ToJson([world |-> w, waits |-> waits, cannot |-> cannot]))
=============================================================================
