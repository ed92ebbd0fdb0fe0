----------------------------- MODULE TrieTrace -----------------------------
(* Is each recorded history of the real class a behaviour of Trie, with the observations the map demands? *)
EXTENDS Trie, Json, IOUtils, Verdict
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad
tvars == <<m, t, ops, tid, l, bad>>
TInit == Init /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = FALSE
Range1(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(Range1(s)) = Len(s)
(* what the event's observations must be in map mm *)
Obs(e, mm) ==
  Clause("exception", e.exc = "") \cup
  Clause("len", e.len = Cardinality(DOMAIN mm)) \cup
  Clause("iteration", Range1(e.iter) = DOMAIN mm /\ NoDup(e.iter)) \cup
  Clause("keys", Range1(e.keys) = DOMAIN mm /\ NoDup(e.keys)) \cup
  UNION {LET p == e.probes[i] IN
     Clause("contains", p.contains = (p.key \in DOMAIN mm)) \cup
     Clause("lookup", p.get = IF p.key \in DOMAIN mm THEN <<mm[p.key]>> ELSE <<>>) \cup
     Clause("get-default", p.getd = IF p.key \in DOMAIN mm THEN mm[p.key] ELSE 0 - 1) \cup
     Clause("prefix-keys", Range1(p.pkeys) = WithPrefix(mm, p.key) /\ NoDup(p.pkeys)) \cup
     Clause("common-prefix", p.lcp = CommonPrefix(WithPrefix(mm, p.key))) : i \in 1..Len(e.probes)}
Apply(e) ==
  CASE e.k = "set" -> Insert(e.key, e.val)
    [] e.k = "del" -> IF e.key \in DOMAIN m THEN Delete(e.key) ELSE UNCHANGED <<m, t>>
    [] e.k = "obs" -> UNCHANGED <<m, t>>
Failed(e) ==
  (IF e.k = "del" THEN Clause("missing-key-report", e.missing = (e.key \notin DOMAIN m)) ELSE {})
  \cup Obs(e, m')
Step ==
  /\ ~bad /\ l <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[l] IN
       /\ Apply(e)
       /\ LET f == Failed(e) IN
            IF f = {} THEN bad' = FALSE ELSE bad' = TRUE /\ Reject(Traces[tid].id, <<l, f>>)
  /\ l' = l + 1 /\ UNCHANGED <<tid, ops>>
Fin == ~bad /\ l = Len(Traces[tid].ev) + 1 /\ Accept(Traces[tid].id) /\ l' = l + 1 /\ UNCHANGED <<m, t, ops, tid, bad>>
TNext == Step \/ Fin
=============================================================================
