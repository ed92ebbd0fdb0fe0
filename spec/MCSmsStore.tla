---------------------------- MODULE MCSmsStore ----------------------------
(* The storage algorithm - every operation that depends on the selected storage holds the transmission lock from the selection to its
   last command; an announced message is read and deleted in one turn by a thread of its own, then handed to the callback - composed with
   SmsStore: whatever arrives where and when, whatever the users ask for, however the threads interleave and whatever fails, every event
   is one SmsStore allows. Broken names a variant that must not pass: "norelock" (storage selected in one turn, used in another),
   "delrelock" (message read in one turn, deleted in another), "delalways" (deleted even if it could not be read), "delall" (listing some
   messages with deletion deletes all of them), "onlyone" (only one of two announcements that come together is looked at),
   "nocb" (a message the user's operation has already read is not reported), "listrelock" (listed in one turn, deleted in another). *)
EXTENDS SmsStore, FiniteSets
CONSTANTS N, Ops, Arrivals, Inits, Kinds, OpNames, Errs, Broken
VARIABLES p, nt, lock, line, s, bad, nops
mcv == <<p, nt, lock, line, s, bad, nops>>
T == 1..N
A == 1..Arrivals
Mems == {"ME", "SM"}
P == [text |-> FALSE, threads |-> N, sel |-> "ME", nostat |-> FALSE]
M(kind, k) == [kind |-> kind, num |-> <<k>>, text |-> <<>>, time |-> <<>>, ref |-> 0, st |-> 0, dis |-> <<>>, smsc |-> <<>>]
P0 == [pc |-> "idle", op |-> "", mem |-> "", i |-> 0, status |-> 0, del |-> FALSE, got |-> <<>>, idx |-> {}, x |-> "", todo |-> <<>>]
NT0 == [pc |-> "none", mem |-> "", i |-> 0, got |-> <<>>, err |-> FALSE]
Box(k) == [mem |-> IF k = 2 THEN "SM" ELSE "ME", i |-> IF k = 3 THEN 2 ELSE 1, m |-> M("deliver", 90 + k), stat |-> IF k = 3 THEN 0 ELSE 1, id |-> k, seen |-> FALSE, kept |-> FALSE]
Init == /\ p = [t \in T |-> P0] /\ nt = [j \in A |-> NT0] /\ lock = 0 /\ line = FALSE /\ bad = {} /\ nops = 0
        /\ s = [SInit(P) EXCEPT !.box = {Box(k) : k \in 1..Inits}, !.n = Inits]
Ev(e) == LET r == SStep(P, s, e) IN s' = r.s /\ bad' = bad \cup r.bad
TxE(t, c) == Ev([k |-> "Tx", t |-> t, c |-> c, term |-> "^M"])
RspE(l) == Ev([k |-> "Rsp", l |-> l, final |-> TRUE])
Ok1(x) == <<x, "OK">>
Go(t, r) == p' = [p EXCEPT ![t] = r]
X(c) == [mro |-> IF c = "+CMS ERROR: 500" THEN <<"CmsError", "CommandError">> ELSE <<"CommandError">>, code |-> IF c = "+CMS ERROR: 500" THEN 500 ELSE 0 - 1,
         type |-> IF c = "+CMS ERROR: 500" THEN "CMS" ELSE "", cmd |-> ""]
Gone1 == "+CMS ERROR: 500"
(* ---- the users ---- *)
DoOp(t) == p[t].pc = "idle" /\ nops < Ops /\ nops' = nops + 1 /\ UNCHANGED <<nt, lock, line>> /\
  \E o \in OpNames, m \in Mems : \E i \in (IF o \in {"read", "del"} THEN {1, 2} ELSE {0}), w \in (IF o = "list" THEN {0, 1, 4} ELSE IF o = "process" THEN {0, 1} ELSE {0}),
       d \in (IF o = "list" THEN BOOLEAN ELSE {FALSE}) : LET mem == IF o = "process" THEN "" ELSE m IN
     /\ (o = "process" => m = "ME")
     /\ Ev([k |-> "Op", t |-> t, op |-> o, status |-> w, mem |-> mem, i |-> i, del |-> d, flag |-> 0])
     /\ Go(t, [P0 EXCEPT !.pc = "sel", !.op = o, !.mem = mem, !.i = i, !.status = w, !.del = d \/ o = "process",
                         !.todo = IF o = "process" THEN (IF w = 0 THEN <<0>> ELSE <<0, 1>>) ELSE IF o = "list" THEN <<w>> ELSE <<>>])
Main(r) == IF r.op = "read" THEN "AT+CMGR=" \o ToString(r.i) ELSE IF r.op = "del" THEN "AT+CMGD=" \o ToString(r.i) \o ",0" ELSE ListCmd(P, r.todo[1])
Free1(t) == lock \in {0, t} /\ ~line
DoUser(t) == LET r == p[t] IN UNCHANGED <<nt, nops>> /\
  CASE r.pc = "sel" ->
         /\ lock = 0 /\ ~line /\ lock' = t
         /\ IF r.mem \in {"", s.sel} THEN Go(t, [r EXCEPT !.pc = "main"]) /\ UNCHANGED <<line, s, bad>>
            ELSE Go(t, [r EXCEPT !.pc = "selw"]) /\ line' = TRUE /\ TxE(t, "AT+CPMS=\"" \o r.mem \o "\"")
    [] r.pc = "selw" -> /\ line' = FALSE /\ Go(t, [r EXCEPT !.pc = "main"]) /\ lock' = IF Broken = "norelock" THEN 0 ELSE lock
                        /\ LET q == SStep(P, [s EXCEPT !.sel = r.mem], [k |-> "Rsp", l |-> Ok1("+CPMS: 1,9"), final |-> TRUE]) IN s' = q.s /\ bad' = bad \cup q.bad
    [] r.pc = "main" -> Free1(t) /\ lock' = t /\ line' = TRUE /\ Go(t, [r EXCEPT !.pc = "mainw"]) /\ TxE(t, Main(r))
    [] r.pc = "mainw" ->
         /\ line' = FALSE
         /\ LET m == Entry(s, s.sel, r.i) IN
            \/ /\ (r.op = "read" => m # {}) /\ RspE(Ok1("+X"))
               /\ CASE r.op = "read" -> LET x == CHOOSE y \in m : TRUE IN lock' = 0 /\ Go(t, [r EXCEPT !.pc = "ret", !.got = <<Shown(x.m, x.stat)>>, !.x = IF Decodable(x.m) THEN "" ELSE "undecodable"])
                    [] r.op = "del" -> lock' = 0 /\ Go(t, [r EXCEPT !.pc = "ret"])
                    [] OTHER -> LET L == Listed(P, s, r.todo[1]) g == r.got \o ShownAll(Ordered(L)) td == Tail(r.todo)
                                    ix == IF r.del THEN {x.i : x \in (IF Broken = "delall" THEN InState(s, 4) ELSE L)} ELSE {} IN
                         /\ lock' = IF ix = {} \/ Broken = "listrelock" THEN 0 ELSE lock
                         /\ Go(t, [r EXCEPT !.got = g, !.idx = ix, !.todo = td,
                                            !.pc = IF ix # {} THEN "del" ELSE IF td # <<>> THEN "sel" ELSE IF r.op = "process" THEN "cb" ELSE "ret"])
            \/ \E l \in (IF r.op = "read" /\ m = {} THEN {Gone1} ELSE Errs) : RspE(<<l>>) /\ lock' = 0 /\ Go(t, [r EXCEPT !.pc = "ret", !.x = l])
    [] r.pc = "del" -> \E i \in r.idx : (\A j \in r.idx : i <= j) /\ Free1(t) /\ lock' = t /\ line' = TRUE
                         /\ Go(t, [r EXCEPT !.pc = "delw", !.idx = @ \ {i}]) /\ TxE(t, "AT+CMGD=" \o ToString(i) \o ",0")
    [] r.pc = "delw" ->
         /\ line' = FALSE
         /\ \/ RspE(<<"OK">>) /\ lock' = (IF r.idx # {} /\ Broken # "listrelock" THEN lock ELSE 0)
               /\ Go(t, [r EXCEPT !.pc = IF r.idx # {} THEN "del" ELSE IF r.todo # <<>> THEN "sel" ELSE IF r.op = "process" THEN "cb" ELSE "ret"])
            \/ \E l \in Errs : RspE(<<l>>) /\ lock' = 0 /\ Go(t, [r EXCEPT !.pc = "ret", !.x = l])
    [] r.pc = "cb" -> IF r.got = <<>> THEN Go(t, [r EXCEPT !.pc = "ret"]) /\ UNCHANGED <<lock, line, s, bad>>
                      ELSE Go(t, [r EXCEPT !.got = Tail(@)]) /\ UNCHANGED <<lock, line>> /\ Ev([k |-> "Sms", t |-> t, m |-> r.got[1]])
    [] r.pc = "ret" -> /\ Go(t, P0) /\ UNCHANGED <<lock, line>>
                       /\ IF r.x = "" THEN Ev([k |-> "Ret", t |-> t, l |-> r.got]) ELSE Ev([k |-> "Exc", t |-> t, x |-> X(r.x)])
    [] OTHER -> FALSE
(* ---- arrivals ---- *)
Room(m) == {i \in 1..(Inits + Arrivals) : Entry(s, m, i) = {}}
DoArrive == ~line /\ UNCHANGED <<p, lock, line, nops>> /\ \E j \in A, m \in Mems, k \in Kinds, both \in BOOLEAN :
  /\ nt[j].pc = "none" /\ \A i \in 1..(j - 1) : nt[i].pc # "none"
  /\ LET i == CHOOSE x \in Room(m) : \A y \in Room(m) : x <= y IN
     /\ (both => Broken = "onlyone" /\ j > 1 /\ nt[j - 1].pc = "sel")
     /\ nt' = [nt EXCEPT ![j] = [NT0 EXCEPT !.pc = IF both THEN "end" ELSE "sel", !.mem = m, !.i = i]]
     /\ Ev([k |-> "Put", mem |-> m, i |-> i, stat |-> 0, ann |-> TRUE, m |-> M(k, j)])
L(j) == 100 + j
Pc(j, x) == nt' = [nt EXCEPT ![j].pc = x]
DoNt(j) == LET n == nt[j] IN UNCHANGED <<p, nops>> /\
  CASE n.pc \in {"sel", "dsel"} ->
         /\ lock = 0 /\ ~line /\ lock' = L(j)
         /\ IF s.sel = n.mem THEN Pc(j, IF n.pc = "sel" THEN "read" ELSE "del") /\ UNCHANGED <<line, s, bad>>
            ELSE Pc(j, n.pc \o "w") /\ line' = TRUE /\ TxE(0, "AT+CPMS=\"" \o n.mem \o "\"")
    [] n.pc \in {"selw", "dselw"} ->
         /\ Pc(j, IF n.pc = "selw" THEN "read" ELSE "del") /\ line' = FALSE /\ lock' = (IF Broken = "norelock" THEN 0 ELSE lock)
         /\ LET q == SStep(P, [s EXCEPT !.sel = n.mem], [k |-> "Rsp", l |-> Ok1("+CPMS: 1,9"), final |-> TRUE]) IN s' = q.s /\ bad' = bad \cup q.bad
    [] n.pc \in {"read", "del"} ->
         /\ Free1(L(j)) /\ lock' = L(j) /\ line' = TRUE /\ Pc(j, n.pc \o "w")
         /\ TxE(0, IF n.pc = "read" THEN "AT+CMGR=" \o ToString(n.i) ELSE "AT+CMGD=" \o ToString(n.i) \o ",0")
    [] n.pc = "readw" -> LET m == Entry(s, s.sel, n.i) IN
         /\ line' = FALSE
         /\ \/ LET x == CHOOSE y \in m : TRUE dec == m # {} /\ Decodable(x.m) go == dec \/ Broken = "delalways" IN
               m # {} /\ RspE(Ok1("+X"))
               /\ nt' = [nt EXCEPT ![j].pc = IF ~go THEN "end" ELSE IF Broken = "delrelock" THEN "dsel" ELSE "del",
                                   ![j].got = IF dec /\ ~(Broken = "nocb" /\ x.stat = 1) THEN <<Shown(x.m, x.stat)>> ELSE <<>>]
               /\ lock' = IF go /\ Broken # "delrelock" THEN lock ELSE 0
            \/ \E l \in (IF m = {} THEN {Gone1} ELSE Errs) : RspE(<<l>>) /\ (IF Broken = "delalways" THEN Pc(j, "del") /\ UNCHANGED lock ELSE Pc(j, "end") /\ lock' = 0)
    [] n.pc = "delw" -> line' = FALSE /\ lock' = 0 /\ Pc(j, "cb") /\ \E l \in {"OK"} \cup Errs : RspE(<<l>>)
    [] n.pc = "cb" -> UNCHANGED <<lock, line>> /\ Pc(j, "end") /\ IF n.got = <<>> THEN UNCHANGED <<s, bad>> ELSE Ev([k |-> "Sms", t |-> 0, m |-> n.got[1]])
    [] OTHER -> FALSE
Next == (\E t \in T : DoOp(t) \/ DoUser(t)) \/ DoArrive \/ (\E j \in A : DoNt(j))
Allowed == bad = {}
Quiescent == (\A t \in T : p[t].pc = "idle") /\ (\A j \in A : nt[j].pc \in {"none", "end"})
RECURSIVE Seq1(_)
Seq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<[mem |-> x.mem, i |-> x.i]>> \o Seq1(S \ {x})
Complete == Quiescent => End(P, s, [k |-> "End", left |-> Seq1(s.box)]).bad = {}
=============================================================================
