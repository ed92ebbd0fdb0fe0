------------------------------ MODULE TrieGen ------------------------------
(* Random behaviours of Trie as scripts for the real class. *)
EXTENDS Trie, Json, Verdict
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == \E k \in Keys :
            \/ \E v \in Values : Insert(k, v) /\ hist' = Append(hist, [k |-> "set", key |-> k, val |-> v]) /\ ops' = ops + 1
            \/ ops' = ops + 1 /\ Delete(k) /\ hist' = Append(hist, [k |-> "del", key |-> k, val |-> 0])
Emit == ops < MaxOps \/ Behaviour(ToJson(hist))
=============================================================================
