---------------------------- MODULE SettingsGen ----------------------------
(* Programs for Settings: up to three connections, settings made before and while connected, queries, and which answers of the modem fail. *)
EXTENDS Integers, Sequences, TLC, Json, Verdict
CONSTANTS PerBehaviour, Steps
VARIABLES n, phases, fails, csca, dirty, k
R(S) == RandomElement(S)
New == [pre |-> <<>>, ops |-> <<>>]
Init == n = 0 /\ phases = <<New>> /\ fails = <<>> /\ csca \in {"ok", "330", "nothing", "error"} /\ dirty = FALSE /\ k = 0
Next == IF k < Steps
  THEN k' = k + 1 /\ n' = n /\ csca' = csca /\ \E x \in {R(1..9)}, op \in {R({"set smsc", "set mode", "smsc", "mode", "query"})},
         op2 \in {R({"set smsc", "set mode", "smsc", "mode"})}, i \in {R(0..2)}, f \in {R({"", "err", "busy", "silent"})}, y \in {R(1..4)} :
         LET last == Len(phases) IN
         /\ fails' = Append(fails, IF y <= 2 THEN "" ELSE IF f = "silent" /\ y = 3 THEN "err" ELSE f)
         /\ IF x = 1 /\ phases[last].ops # <<>> /\ last < 3 THEN phases' = Append(phases, New) /\ UNCHANGED dirty
            ELSE IF x <= 3 /\ phases[last].ops = <<>>
                 THEN LET o == IF op2 = "smsc" /\ ~dirty THEN "mode" ELSE op2 IN
                      phases' = [phases EXCEPT ![last].pre = Append(@, [op |-> o, i |-> i])] /\ dirty' = (dirty \/ o = "set smsc")
            ELSE phases' = [phases EXCEPT ![last].ops = Append(@, [op |-> op, i |-> i])] /\ UNCHANGED dirty
  ELSE /\ n < PerBehaviour /\ n' = n + 1 /\ phases' = <<New>> /\ fails' = <<>> /\ dirty' = FALSE /\ k' = 0 /\ csca' \in {"ok", "330", "nothing", "error"}
       /\ Behaviour(ToJson([phases |-> phases, fails |-> fails, csca |-> csca]))
=============================================================================
