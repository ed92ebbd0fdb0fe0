-------------------------------- MODULE Trie --------------------------------
(* The prefix tree of the terminal's command table (tools/gsmtermlib/trie.py).

   Two levels: the abstract map `m` from strings (sequences of characters) to values, which is
   what a user of the class sees, and the compressed tree `t` with the insertion, deletion and
   search algorithms as the code has them.  RefinesMap says that the tree is always the map.   *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

None == <<0>>                        \* "no key stored at this node" (characters are positive)

---------------------------------------------------------------------------
(* Abstract level: a map *)
EmptyMap == [k \in {} |-> 0]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Without(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
WithPrefix(m, p) == {k \in DOMAIN m : IsPrefix(p, k)}
(* longest string all of the given strings start with; empty when there are none *)
CommonPrefix(S) ==
    IF S = {} THEN <<>>
    ELSE LET a == CHOOSE x \in S : \A y \in S : Len(x) <= Len(y)
             n == CHOOSE i \in 0..Len(a) :
                    /\ \A k \in S : SubSeq(k, 1, i) = SubSeq(a, 1, i)
                    /\ (i = Len(a) \/ \E k \in S : SubSeq(k, 1, i+1) # SubSeq(a, 1, i+1))
         IN SubSeq(a, 1, n)

---------------------------------------------------------------------------
(* Concrete level: node = [key, val, slots]; `key` is the rest of the only key below a leaf
   (compressed), <<>> for a key ending here, None for none.                                *)
SetSlot(n, c, child) == [n EXCEPT !.slots = [x \in DOMAIN n.slots \cup {c} |-> IF x = c THEN child ELSE n.slots[x]]]
DelSlot(n, c) == [n EXCEPT !.slots = [x \in DOMAIN n.slots \ {c} |-> n.slots[x]]]
HasSlot(n, c) == c \in DOMAIN n.slots
EmptyTree == [key |-> None, val |-> 0, slots |-> [c \in {} |-> 0]]
MkLeaf(k, v) == [key |-> k, val |-> v, slots |-> [c \in {} |-> 0]]

RECURSIVE TIns(_, _, _)
TIns(n, k, v) ==
  IF k = <<>> THEN
     LET n1 == IF n.key # None /\ n.key # <<>> THEN SetSlot(n, Head(n.key), MkLeaf(Tail(n.key), n.val)) ELSE n
     IN [n1 EXCEPT !.key = <<>>, !.val = v]
  ELSE LET c == Head(k) IN
     IF ~HasSlot(n, c) THEN
        IF n.key # None /\ n.key # <<>> THEN          \* was a leaf: branch its key first
           LET n1 == [SetSlot(n, Head(n.key), MkLeaf(Tail(n.key), n.val)) EXCEPT !.key = None, !.val = 0]
           IN IF Head(n.key) # c THEN SetSlot(n1, c, MkLeaf(Tail(k), v))
              ELSE SetSlot(n1, c, TIns(n1.slots[c], Tail(k), v))
        ELSE SetSlot(n, c, MkLeaf(Tail(k), v))
     ELSE SetSlot(n, c, TIns(n.slots[c], Tail(k), v))

RECURSIVE TGet(_, _)            \* <<value>>, or <<>> for a missing key
TGet(n, k) ==
  IF k = <<>> THEN IF n.key = <<>> THEN <<n.val>> ELSE <<>>
  ELSE IF HasSlot(n, Head(k)) THEN TGet(n.slots[Head(k)], Tail(k))
  ELSE IF k = n.key THEN <<n.val>> ELSE <<>>

RECURSIVE TDel(_, _)            \* for keys that are present
TDel(n, k) ==
  IF k = <<>> THEN [n EXCEPT !.key = None, !.val = 0]
  ELSE LET c == Head(k)  child == n.slots[c] IN
     IF Tail(k) = child.key THEN
        IF DOMAIN child.slots # {} THEN SetSlot(n, c, [child EXCEPT !.key = None, !.val = 0])
        ELSE DelSlot(n, c)
     ELSE LET child1 == TDel(child, Tail(k)) IN
        IF child1.key = None /\ DOMAIN child1.slots = {} THEN DelSlot(n, c) ELSE SetSlot(n, c, child1)

RECURSIVE TKeys(_, _)
TKeys(n, pre) == (IF n.key # None THEN {pre \o n.key} ELSE {})
                 \cup UNION {TKeys(n.slots[c], Append(pre, c)) : c \in DOMAIN n.slots}
RECURSIVE TFilter(_, _, _)
TFilter(n, p, pre) ==
  IF p = <<>> THEN TKeys(n, pre)
  ELSE IF HasSlot(n, Head(p)) THEN TFilter(n.slots[Head(p)], Tail(p), Append(pre, Head(p)))
  ELSE IF n.key # None /\ IsPrefix(p, n.key) THEN {pre \o n.key} ELSE {}
RECURSIVE TLcp(_, _, _)
TLcp(n, p, pre) ==
  IF p = <<>> THEN
     IF n.key # None THEN pre \o n.key
     ELSE IF Cardinality(DOMAIN n.slots) = 1
          THEN LET c == CHOOSE x \in DOMAIN n.slots : TRUE IN TLcp(n.slots[c], <<>>, Append(pre, c))
          ELSE pre
  ELSE IF n.key # None /\ n.key # <<>> THEN (IF IsPrefix(p, n.key) THEN pre \o n.key ELSE <<>>)
  ELSE IF HasSlot(n, Head(p)) THEN TLcp(n.slots[Head(p)], Tail(p), Append(pre, Head(p)))
  ELSE <<>>
RECURSIVE TLen(_)
TLen(n) == Cardinality(TKeys(n, <<>>))

---------------------------------------------------------------------------
CONSTANTS Chars, MaxLen, Values, MaxOps
Keys == UNION {[1..i -> Chars] : i \in 0..MaxLen}
VARIABLES m, t, ops
vars == <<m, t, ops>>
Init == m = EmptyMap /\ t = EmptyTree /\ ops = 0
Insert(k, v) == m' = Put(m, k, v) /\ t' = TIns(t, k, v)
Delete(k) == k \in DOMAIN m /\ m' = Without(m, k) /\ t' = TDel(t, k)
Next == ops < MaxOps /\ ops' = ops + 1 /\ \E k \in Keys : (\E v \in Values : Insert(k, v)) \/ Delete(k)
Spec == Init /\ [][Next]_vars
RefinesMap ==
  /\ TKeys(t, <<>>) = DOMAIN m
  /\ \A k \in Keys : TGet(t, k) = IF k \in DOMAIN m THEN <<m[k]>> ELSE <<>>
  /\ \A p \in Keys : TFilter(t, p, <<>>) = WithPrefix(m, p)
  /\ \A p \in Keys : TLcp(t, p, <<>>) = CommonPrefix(WithPrefix(m, p))
View == <<m, t>>
=============================================================================
