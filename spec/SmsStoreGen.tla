---------------------------- MODULE SmsStoreGen ----------------------------
(* Environments for SmsStore: what the storages hold at first, what arrives where and when, and what the users ask for. *)
EXTENDS Integers, Sequences, TLC, Json, Verdict
CONSTANTS PerBehaviour, Steps
VARIABLES n, init, arr, ops
R(S) == RandomElement(S)
Mem == {"ME", "SM", "SR"}
Init == n = 0 /\ init = <<>> /\ arr = <<>> /\ ops = <<<<>>, <<>>>>
Next == IF Len(arr) < Steps
  THEN n' = n /\ \E m \in {R(Mem)}, m2 \in {R(Mem)}, m3 \in {R(Mem \cup {""})}, k \in {R({"deliver", "deliver", "junk", "submit"})}, st \in {R({0, 1})}, d \in {R({0, 0, 2, 30, 400})},
                 o \in {R({"list", "list", "read", "del", "process"})}, w \in {R({4, 0, 1})}, i \in {R(1..3)}, b \in {R(BOOLEAN)}, t \in {R({1, 2})} :
         /\ init' = (IF Len(init) < 4 THEN Append(init, [mem |-> m2, kind |-> k, stat |-> st]) ELSE init)
         /\ arr' = Append(arr, [delay |-> (IF arr = <<>> THEN 0 ELSE arr[Len(arr)].delay) + d, mem |-> m, kind |-> IF k = "submit" THEN "deliver" ELSE k])
         /\ ops' = [ops EXCEPT ![t] = Append(@, CASE o = "list" -> [op |-> "list", status |-> w, mem |-> m3, del |-> b /\ w # 4]
                                                  [] o = "process" -> [op |-> "process", status |-> IF b THEN 0 ELSE 1]
                                                  [] OTHER -> [op |-> o, mem |-> m3, i |-> i])]
  ELSE /\ n < PerBehaviour /\ n' = n + 1 /\ init' = <<>> /\ arr' = <<>> /\ ops' = <<<<>>, <<>>>>
       /\ \E t \in {R(BOOLEAN)} : Behaviour(ToJson([init |-> init, arrivals |-> arr, callers |-> ops, text |-> t]))
=============================================================================
