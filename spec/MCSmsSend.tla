---------------------------- MODULE MCSmsSend ----------------------------
(* The sending algorithm (exchange of a part under the transmission lock, registration of the message under the same lock, reports
   read and deleted by a thread of their own and handed to the waiting sender or the callback) composed with SmsSend: whatever the
   modem answers, whenever reports come and however the threads interleave, every event is one SmsSend allows.
   Broken names a variant of the algorithm that must not pass: "nolock" (another thread may transmit between prompt and body),
   "latereg" (message registered after the line has been released), "anywake" (a report wakes some waiting sender),
   "norelock" (storage selected in one turn, message read in another), "nostop" (further parts after an error). *)
EXTENDS SmsSend, FiniteSets
CONSTANTS N, Sends, Parts, Mems, Broken, Ticks
VARIABLES p, lock, line, now, map, evt, nt, sel, ref, s, bad, ns, home
mcv == <<p, lock, line, now, map, evt, nt, sel, ref, s, bad, ns, home>>
T == 1..N
R == 1..Sends
P == [text |-> TRUE, threads |-> N, sel |-> "ME", late |-> 0, parts |-> Parts]
P0 == [pc |-> "idle", id |-> 0, k |-> 0, ref |-> 0, wait |-> FALSE, line |-> "", x |-> ""]
NT0 == [pc |-> "none", mem |-> "", i |-> 0, ref |-> 0, st |-> 0, id |-> 0]
Init == /\ p = [t \in T |-> P0] /\ lock = 0 /\ line = FALSE /\ now = 0 /\ map = <<>> /\ evt = {} /\ nt = [j \in R |-> NT0]
        /\ sel = "ME" /\ ref = 0 /\ s = SInit(P) /\ bad = {} /\ ns = 0 /\ home = {}
Ev(e) == LET r == SStep(P, s, e) IN s' = r.s /\ bad' = bad \cup r.bad
TxE(t, c, term) == [k |-> "Tx", t |-> t, c |-> c, term |-> term, hex |-> FALSE, o |-> <<>>, at |-> now]
RspE(l) == [k |-> "Rsp", l |-> l, at |-> now, final |-> TRUE]
Go(t, r) == p' = [p EXCEPT ![t] = r]
Errors == {"ERROR", "+CMS ERROR: 500"}
X(c) == [mro |-> IF c = "+CMS ERROR: 500" THEN <<"CmsError", "CommandError">> ELSE IF c = "timeout" THEN <<"TimeoutException">> ELSE <<"CommandError">>,
         code |-> IF c = "+CMS ERROR: 500" THEN 500 ELSE 0 - 1, type |-> IF c = "+CMS ERROR: 500" THEN "CMS" ELSE "", cmd |-> ""]
XC(c, cmd) == [X(c) EXCEPT !.cmd = cmd]
Cmgs == "AT+CMGS=\"D\""
DoSend(t) == \E w \in BOOLEAN : p[t].pc = "idle" /\ ns < Sends /\ ns' = ns + 1 /\ Go(t, [P0 EXCEPT !.pc = "ready", !.id = ns + 1, !.wait = w])
  /\ Ev([k |-> "Send", t |-> t, id |-> ns + 1, dest |-> <<68>>, deststr |-> "D", text |-> <<72>>, raw |-> "H", flash |-> FALSE, wait |-> w, dtmo |-> 1, at |-> now])
  /\ UNCHANGED <<lock, line, now, map, evt, nt, sel, ref, home>>
DoAnn(t) == p[t].pc = "ready" /\ lock = 0 /\ ~line /\ lock' = t /\ line' = TRUE /\ Go(t, [p[t] EXCEPT !.pc = "ann"]) /\ Ev(TxE(t, Cmgs, "^M"))
  /\ UNCHANGED <<now, map, evt, nt, sel, ref, ns, home>>
DoAnnRsp(t) == p[t].pc = "ann" /\ UNCHANGED <<now, map, evt, nt, sel, ref, ns, home>> /\
  \/ Go(t, [p[t] EXCEPT !.pc = "prompted"]) /\ Ev(RspE(<<"> ">>)) /\ IF Broken = "nolock" THEN lock' = 0 /\ line' = FALSE ELSE UNCHANGED <<lock, line>>
  \/ \E l \in Errors : lock' = 0 /\ line' = FALSE /\ Go(t, [p[t] EXCEPT !.pc = IF Broken = "nostop" /\ @ = "ann" /\ p[t].k + 1 < Parts THEN "ready" ELSE "fail", !.k = @ + 1, !.x = l])
                       /\ Ev(RspE(<<l>>))
DoBody(t) == p[t].pc = "prompted" /\ lock \in {0, t} /\ lock' = t /\ line' = TRUE /\ Go(t, [p[t] EXCEPT !.pc = "body"]) /\ Ev(TxE(t, "H", "^Z"))
  /\ UNCHANGED <<now, map, evt, nt, sel, ref, ns, home>>
Reg(t, r) == map' = [x \in DOMAIN map \cup {r} |-> IF x = r THEN [id |-> p[t].id, t |-> t, wait |-> p[t].wait] ELSE map[x]]
DoBodyRsp(t) == p[t].pc = "body" /\ lock' = 0 /\ line' = FALSE /\ UNCHANGED <<now, nt, sel, evt, ns>> /\
  \/ LET done == p[t].k + 1 = Parts IN
     /\ ref' = ref + 1 /\ Ev(RspE(<<"+CMGS: " \o ToString(ref), "OK">>))
     /\ home' = IF done THEN home \cup {[id |-> p[t].id, ref |-> ref]} ELSE home
     /\ Go(t, [p[t] EXCEPT !.pc = IF ~done THEN "ready" ELSE IF Broken = "latereg" THEN "reg" ELSE IF @ = "body" /\ p[t].wait THEN "waiting" ELSE "done", !.k = @ + 1, !.ref = ref])
     /\ IF done /\ Broken # "latereg" THEN Reg(t, ref) ELSE UNCHANGED map
  \/ \E l \in Errors \cup {"noack"} : Go(t, [p[t] EXCEPT !.pc = "fail", !.x = l]) /\ Ev(RspE(<<IF l = "noack" THEN "OK" ELSE l>>)) /\ UNCHANGED <<map, ref, home>>
DoReg(t) == p[t].pc = "reg" /\ Reg(t, p[t].ref) /\ Go(t, [p[t] EXCEPT !.pc = IF p[t].wait THEN "waiting" ELSE "done"])
  /\ UNCHANGED <<lock, line, now, evt, nt, sel, ref, s, bad, ns, home>>
Status(id) == LET q == {j \in R : nt[j].pc = "done" /\ nt[j].id = id} IN IF q = {} THEN 0 ELSE Outcome(nt[CHOOSE j \in q : TRUE].st)
Return(t) == Ev([k |-> "Ret", t |-> t, id |-> p[t].id, ref |-> p[t].ref, dest |-> <<68>>, text |-> <<72>>, status |-> Status(p[t].id), at |-> now])
DoRet(t) == p[t].pc = "done" /\ Go(t, P0) /\ Return(t) /\ UNCHANGED <<lock, line, now, map, evt, nt, sel, ref, ns, home>>
DoWoken(t) == p[t].pc = "waiting" /\ t \in evt /\ evt' = evt \ {t} /\ Go(t, P0) /\ Return(t) /\ UNCHANGED <<lock, line, now, map, nt, sel, ref, ns, home>>
DoTimeout(t) == p[t].pc = "waiting" /\ t \notin evt /\ now >= s.th[t].acc + 1 /\ Go(t, P0)
  /\ map' = [x \in {y \in DOMAIN map : map[y].id # p[t].id} |-> map[x]]
  /\ Ev([k |-> "Exc", t |-> t, x |-> X("timeout"), at |-> now]) /\ UNCHANGED <<lock, line, now, evt, nt, sel, ref, ns, home>>
DoFail(t) == p[t].pc = "fail" /\ Go(t, P0) /\ Ev([k |-> "Exc", t |-> t, x |-> XC(p[t].x, ""), at |-> now])
  /\ UNCHANGED <<lock, line, now, map, evt, nt, sel, ref, ns, home>>
(* ---- reports ---- *)
Free(m) == {i \in 1..Sends : \A x \in s.store : x.mem # m \/ x.i # i}
DoRep == ~line /\ \E h \in home, m \in Mems, st \in {0, 70} : \E j \in R :
  /\ nt[j].pc = "none" /\ \A i \in 1..(j - 1) : nt[i].pc # "none"
  /\ home' = home \ {h}
  /\ LET i == CHOOSE x \in Free(m) : \A y \in Free(m) : x <= y IN
       /\ nt' = [nt EXCEPT ![j] = [pc |-> "sel", mem |-> m, i |-> i, ref |-> h.ref, st |-> st, id |-> h.id]]
       /\ Ev([k |-> "Rep", mem |-> m, i |-> i, ref |-> h.ref, st |-> st, fail |-> FALSE, at |-> now])
  /\ UNCHANGED <<p, lock, line, now, map, evt, sel, ref, ns>>
L(j) == 100 + j
Pc(j, x) == nt' = [nt EXCEPT ![j].pc = x]
DoNt(j) == LET n == nt[j] IN UNCHANGED <<now, ref, ns, home, p>> /\
  CASE n.pc \in {"sel", "dsel"} ->
         /\ lock = 0 /\ ~line /\ lock' = L(j) /\ UNCHANGED <<map, evt>>
         /\ IF sel = n.mem THEN Pc(j, IF n.pc = "sel" THEN "read" ELSE "del") /\ UNCHANGED <<line, sel, s, bad>>
            ELSE Pc(j, IF n.pc = "sel" THEN "selw" ELSE "dselw") /\ line' = TRUE /\ sel' = n.mem /\ Ev(TxE(0, "AT+CPMS=\"" \o n.mem \o "\"", "^M"))
    [] n.pc \in {"selw", "dselw"} ->
         /\ Pc(j, IF n.pc = "selw" THEN "read" ELSE "del") /\ line' = FALSE /\ UNCHANGED <<map, evt, sel>> /\ Ev(RspE(<<"+CPMS: 1,9", "OK">>))
         /\ lock' = IF Broken = "norelock" THEN 0 ELSE lock
    [] n.pc \in {"read", "del"} ->
         /\ lock \in {0, L(j)} /\ ~line /\ lock' = L(j) /\ line' = TRUE /\ Pc(j, n.pc \o "w") /\ UNCHANGED <<map, evt, sel>>
         /\ Ev(TxE(0, IF n.pc = "read" THEN "AT+CMGR=" \o ToString(n.i) ELSE "AT+CMGD=" \o ToString(n.i) \o ",0", "^M"))
    [] n.pc = "readw" -> Pc(j, "dsel") /\ lock' = 0 /\ line' = FALSE /\ Ev(RspE(<<"+CMGR: ", "OK">>)) /\ UNCHANGED <<map, evt, sel>>
    [] n.pc = "delw" -> Pc(j, "pair") /\ lock' = 0 /\ line' = FALSE /\ Ev(RspE(<<"OK">>)) /\ UNCHANGED <<map, evt, sel>>
    [] n.pc = "pair" ->
         /\ Pc(j, "done") /\ UNCHANGED <<lock, line, sel>>
         /\ LET w == IF Broken = "anywake" THEN {t \in T : p[t].pc = "waiting"}
                     ELSE IF n.ref \in DOMAIN map /\ map[n.ref].wait THEN {map[n.ref].t} ELSE {} IN
            IF w # {} THEN /\ evt' = evt \cup {CHOOSE t \in w : TRUE} /\ UNCHANGED <<s, bad>>
                           /\ map' = [x \in DOMAIN map |-> IF x = n.ref THEN [map[x] EXCEPT !.wait = FALSE] ELSE map[x]]
            ELSE Ev([k |-> "Cb", ref |-> n.ref, st |-> n.st, at |-> now]) /\ UNCHANGED <<evt, map>>
    [] OTHER -> FALSE
Busy2 == line \/ (\E t \in T : p[t].pc \notin {"idle", "waiting"}) \/ (\E j \in R : nt[j].pc \notin {"none", "done"}) \/ evt # {}
Tick == now < Ticks /\ ~Busy2 /\ (\E t \in T : p[t].pc = "waiting") /\ now' = now + 1 /\ UNCHANGED <<p, lock, line, map, evt, nt, sel, ref, s, bad, ns, home>>
Next == (\E t \in T : DoSend(t) \/ DoAnn(t) \/ DoAnnRsp(t) \/ DoBody(t) \/ DoBodyRsp(t) \/ DoReg(t) \/ DoRet(t) \/ DoWoken(t) \/ DoTimeout(t) \/ DoFail(t))
        \/ DoRep \/ (\E j \in R : DoNt(j)) \/ Tick
Allowed == bad = {}
Quiescent == (\A t \in T : p[t].pc = "idle") /\ (\A j \in R : nt[j].pc \in {"none", "done"})
Complete == Quiescent => End(P, s, [k |-> "End"]).bad = {}
=============================================================================
