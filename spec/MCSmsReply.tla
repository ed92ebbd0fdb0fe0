---------------------------- MODULE MCSmsReply ----------------------------
(* Replying - the announcement of the message and its body are one turn of the transmission lock - composed with SmsStore (text mode):
   replies from C callbacks (thread 0) and N user threads, with other commands of the users in between; however they interleave,
   every event is one SmsStore allows. Broken: "unlocked" (the lock is released between the announcement and the body),
   "lastnumber" (the reply goes to the number of the message received last, not of the message replied to), "early" (the reply is
   returned before the modem has the body). *)
EXTENDS SmsStore
CONSTANTS N, C, Ops, Broken
VARIABLES w, lock, s, bad, nops, last
P == [text |-> TRUE, threads |-> N, sel |-> "ME", nostat |-> FALSE]
W == 1..(N + C)
Th(k) == IF k <= N THEN k ELSE 0
W0 == [pc |-> "idle", op |-> "", id |-> 0]
Init == w = [k \in W |-> W0] /\ lock = 0 /\ s = SInit(P) /\ bad = {} /\ nops = 0 /\ last = 0
Ev(e) == LET r == SStep(P, s, e) IN s' = r.s /\ bad' = bad \cup r.bad
Send1(k, c, z) == Ev([k |-> "Tx", t |-> Th(k), c |-> c, term |-> z])
Answer(l, f) == Ev([k |-> "Rsp", l |-> <<l>>, final |-> f])
Go(k, pc) == w' = [w EXCEPT ![k].pc = pc]
Nr(k) == ToString(k)
Start(k) == w[k].pc = "idle" /\ nops < Ops /\ nops' = nops + 1 /\ UNCHANGED lock /\
  \/ /\ w' = [w EXCEPT ![k] = [pc |-> "ann", op |-> "reply", id |-> nops']] /\ last' = k
     /\ Ev([k |-> "Reply", t |-> Th(k), id |-> nops', num |-> <<k>>, numstr |-> Nr(k), text |-> <<k>>, raw |-> "x" \o Nr(k)])
  \/ /\ k <= N /\ w' = [w EXCEPT ![k] = [pc |-> "list", op |-> "list", id |-> 0]] /\ UNCHANGED last
     /\ Ev([k |-> "Op", t |-> k, op |-> "list", status |-> 4, mem |-> "", i |-> 0, del |-> FALSE, flag |-> 0])
Do(k) == LET r == w[k] mine == lock \in {0, k} IN UNCHANGED <<nops, last>> /\
  CASE r.pc = "ann" -> lock = 0 /\ lock' = k /\ Go(k, "wait") /\ Send1(k, "AT+CMGS=\"" \o Nr(IF Broken = "lastnumber" THEN last ELSE k) \o "\"", "^M")
    [] r.pc = "wait" -> Go(k, "body") /\ lock' = (IF Broken = "unlocked" THEN 0 ELSE lock) /\ Answer("> ", FALSE)
    [] r.pc = "body" -> mine /\ lock' = k /\ Go(k, "sent") /\ Send1(k, "x" \o Nr(k), "^Z")
    [] r.pc = "sent" -> lock' = 0 /\ Go(k, "ret") /\ Answer("OK", TRUE)
    [] r.pc = "list" -> lock = 0 /\ lock' = k /\ Go(k, "listw") /\ Send1(k, "AT+CMGL=\"ALL\"", "^M")
    [] r.pc = "listw" -> lock' = 0 /\ Go(k, "ret") /\ Answer("OK", TRUE)
    [] r.pc = "ret" -> Go(k, "idle") /\ UNCHANGED lock
                       /\ IF r.op = "list" THEN Ev([k |-> "Ret", t |-> k, l |-> <<>>]) ELSE Ev([k |-> "Replied", t |-> Th(k), id |-> r.id, num |-> <<k>>, text |-> <<k>>])
    [] OTHER -> FALSE
Early(k) == Broken = "early" /\ w[k].pc = "body" /\ lock' = 0 /\ Go(k, "idle") /\ UNCHANGED <<nops, last>>
            /\ Ev([k |-> "Replied", t |-> Th(k), id |-> w[k].id, num |-> <<k>>, text |-> <<k>>])
Quiet1 == \A k \in W : w[k].pc = "idle"
Finish == Quiet1 /\ nops = Ops /\ nops' = Ops + 1 /\ UNCHANGED <<w, lock, last>> /\ Ev([k |-> "End", left |-> <<>>])
Next == Finish \/ \E k \in W : Start(k) \/ Do(k) \/ Early(k)
Spec == Init /\ [][Next]_<<w, lock, s, bad, nops, last>>
NoBad == bad = {}
AllSent == (Quiet1 /\ nops >= Ops) => s.rp = {}
=============================================================================
