------------------------------ MODULE MCUssd ------------------------------
(* The request algorithm (one request at a time; the expectation of an answer set up when it is its turn to transmit; session state
   changed by the reader thread, or under the transmission lock where the answer is part of the response) composed with Ussd: whenever
   answers and releases come and however the threads interleave, every event is one Ussd allows.
   Broken names a variant that must not pass: "earlyevent" (answer expected before it is our turn), "nolock" (several requests at a
   time), "overwrite" (later notifications replace the answer), "norelease" (a separate release does not end the session), "nocancel"
   (cancelling ends only the object it was asked of), "lateparse" (an answer in the response noticed after the line is free),
   "replyunlocked" (whether the session is open is checked before it is our turn). *)
EXTENDS Ussd, FiniteSets
CONSTANTS N, Ops, Broken, Ticks
VARIABLES p, ul, tx, line, ev, q, act, now, s, bad, n, net, relp, left
mcv == <<p, ul, tx, line, ev, q, act, now, s, bad, n, net, relp, left>>
T == 1..N
Pr == [threads |-> N, slack |-> 0, tol |-> 0]
P0 == [pc |-> "idle", op |-> "", o |-> 0, text |-> "", rat |-> 0, x |-> ""]
NoEv == [own |-> 0, set |-> FALSE, text |-> ""]
Init == /\ p = [t \in T |-> P0] /\ ul = 0 /\ tx = 0 /\ line = FALSE /\ ev = NoEv /\ q = <<>> /\ act = {} /\ now = 0 /\ s = SInit(Pr) /\ bad = {}
        /\ n = 0 /\ net = "" /\ relp = FALSE /\ left = Ops
Ev1(s0, e) == SStep(Pr, s0, e)
Ev(e) == LET r == Ev1(s, e) IN s' = r.s /\ bad' = bad \cup r.bad
Ev2(e, f) == LET r == Ev1(s, e) r2 == Ev1(r.s, f) IN s' = r2.s /\ bad' = bad \cup r.bad \cup r2.bad
NoE == UNCHANGED <<s, bad>>
Go(t, r) == p' = [p EXCEPT ![t] = r]
Pc(t, x) == p' = [p EXCEPT ![t].pc = x]
OpE(t, op, o, text) == [k |-> "Op", t |-> t, op |-> op, o |-> o, text |-> text, tmo |-> 1, at |-> now]
TxE(t, c) == [k |-> "Tx", t |-> t, c |-> c, term |-> "^M", at |-> now]
RspE(l) == [k |-> "Rsp", l |-> l, at |-> now, final |-> TRUE]
ExcE(t, cls) == [k |-> "Exc", t |-> t, x |-> [mro |-> <<cls>>, code |-> 0 - 1, type |-> "", cmd |-> ""], at |-> now]
RetE(t, a, text) == [k |-> "Ret", t |-> t, o |-> Len(s.obj) + 1, active |-> a, msg |-> text, at |-> now]
Start(t) == /\ p[t].pc = "idle" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<ul, tx, line, ev, q, act, now, n, net, relp>>
            /\ \E op \in {"send", "reply", "cancel", "cmd"}, o \in 0..Len(s.obj) :
                 /\ (o = 0) = (op \in {"send", "cmd"})
                 /\ LET text == IF op = "cmd" THEN "AT" ELSE ToString(left) IN
                    Go(t, [P0 EXCEPT !.pc = IF op \in {"send", "reply"} THEN "want" ELSE "wtx", !.op = op, !.o = o, !.text = text]) /\ Ev(OpE(t, op, o, text))
Lock(t) == /\ p[t].pc = "want" /\ (ul = 0 \/ Broken = "nolock") /\ ul' = t /\ UNCHANGED <<tx, line, q, act, now, n, net, relp, left>>
           /\ ev' = IF Broken = "earlyevent" THEN [NoEv EXCEPT !.own = t] ELSE ev
           /\ IF Broken = "replyunlocked" /\ p[t].op = "reply" /\ p[t].o \notin act THEN Pc(t, "invalid") /\ NoE ELSE Pc(t, "wtx") /\ NoE
Invalid(t) == p[t].pc = "invalid" /\ Go(t, P0) /\ ul' = 0 /\ Ev(ExcE(t, "InvalidStateException")) /\ UNCHANGED <<tx, line, ev, q, act, now, n, net, relp, left>>
IsReq(t) == p[t].op \in {"send", "reply"}
DoTx(t) == /\ p[t].pc = "wtx" /\ tx = 0 /\ ~line /\ q = <<>> /\ UNCHANGED <<q, act, now, left, ul>>
  /\ IF p[t].op = "reply" /\ p[t].o \notin act /\ Broken # "replyunlocked" THEN Pc(t, "invalid") /\ NoE /\ UNCHANGED <<tx, line, ev, n, net, relp>>
     ELSE IF p[t].op = "cancel" /\ p[t].o \notin act THEN Go(t, P0) /\ Ev([k |-> "Done", t |-> t, at |-> now]) /\ UNCHANGED <<tx, line, ev, n, net, relp>>
     ELSE /\ tx' = t /\ line' = TRUE /\ Pc(t, "sent") /\ Ev(TxE(t, Cmd([op |-> p[t].op, text |-> p[t].text]))) /\ n' = n + 1
          /\ ev' = IF IsReq(t) /\ Broken # "earlyevent" THEN [NoEv EXCEPT !.own = t] ELSE ev
          /\ IF p[t].op # "cmd" THEN net' = "" /\ relp' = FALSE ELSE UNCHANGED <<net, relp>>
Upd(a, more, tok) == IF more THEN a \cup tok ELSE {}
(* the modem answers the command *)
DoRsp(t) == /\ p[t].pc = "sent" /\ line /\ line' = FALSE /\ tx' = 0 /\ UNCHANGED <<q, now, n, left>>
  /\ \/ /\ p[t].op = "cmd" /\ Pc(t, "done") /\ Ev(RspE(<<"OK">>)) /\ UNCHANGED <<ul, ev, act, net, relp>>
     \/ /\ p[t].op = "cancel" /\ Pc(t, "done") /\ Ev(RspE(<<"OK">>)) /\ act' = (IF Broken = "nocancel" THEN act \ {p[t].o} ELSE {}) /\ UNCHANGED <<ul, ev, net, relp>>
     \/ /\ Pc(t, "fail") /\ Ev(RspE(<<"ERROR">>)) /\ ev' = (IF IsReq(t) THEN NoEv ELSE ev) /\ UNCHANGED <<ul, act, net, relp>>
     \/ /\ IsReq(t) /\ p' = [p EXCEPT ![t].pc = "waiting", ![t].rat = now] /\ Ev(RspE(<<"OK">>)) /\ net' \in {p[t].text, ""} /\ UNCHANGED <<ul, ev, act, relp>>
     \/ \E m \in {0, 1} : /\ IsReq(t) /\ p' = [p EXCEPT ![t].pc = "got", ![t].rat = m]
                          /\ Ev2([k |-> "Ans", m |-> m, rel |-> FALSE, text |-> p[t].text, at |-> now], RspE(<<"OK">>))
                          /\ ev' = NoEv /\ act' = (IF Broken = "lateparse" THEN act ELSE Upd(act, m = 1, {0 - t})) /\ relp' \in (IF m = 1 THEN {TRUE, FALSE} ELSE {FALSE}) /\ UNCHANGED <<ul, net>>
DoDone(t) == p[t].pc = "done" /\ Go(t, P0) /\ Ev([k |-> "Done", t |-> t, at |-> now]) /\ UNCHANGED <<ul, tx, line, ev, q, act, now, n, net, relp, left>>
Fail(t) == p[t].pc = "fail" /\ Go(t, P0) /\ ul' = (IF IsReq(t) THEN 0 ELSE ul) /\ UNCHANGED <<tx, line, ev, q, act, now, n, net, relp, left>>
           /\ Ev([ExcE(t, "CommandError") EXCEPT !.x.cmd = Cmd([op |-> p[t].op, text |-> p[t].text])])
Num1(t, a) == IF 0 - t \in a THEN (a \ {0 - t}) \cup {Len(s.obj) + 1} ELSE a
Got(t) == /\ p[t].pc = "got" /\ Go(t, P0) /\ ul' = 0 /\ UNCHANGED <<tx, line, ev, q, now, n, net, relp, left>>
          /\ LET a == IF Broken = "lateparse" THEN Upd(act, p[t].rat = 1, {0 - t}) ELSE act IN
             act' = Num1(t, a) /\ Ev(RetE(t, 0 - t \in a, p[t].text))
(* the network *)
Emit == /\ ~line /\ net # "" /\ net' = "" /\ UNCHANGED <<p, ul, tx, line, ev, act, now, n, left>>
        /\ \E m \in {0, 1, 2}, rel \in BOOLEAN : /\ (m = 2 => ~rel) /\ q' = Append(q, [more |-> m = 1 /\ ~rel, text |-> net]) /\ relp' \in (IF m = 1 /\ ~rel THEN {TRUE, FALSE} ELSE {FALSE})
                                               /\ Ev([k |-> "Ans", m |-> m, rel |-> rel, text |-> net, at |-> now])
EmitRel == /\ ~line /\ relp /\ relp' = FALSE /\ q' = Append(q, [more |-> FALSE, text |-> ""]) /\ Ev([k |-> "Rel", at |-> now])
           /\ UNCHANGED <<p, ul, tx, line, ev, act, now, n, net, left>>
Reader == /\ q # <<>> /\ q' = Tail(q) /\ NoE /\ UNCHANGED <<p, ul, tx, line, now, n, net, relp, left>>
          /\ LET x == q[1]
                 mine == ev.own # 0 /\ (~ev.set \/ Broken = "overwrite") IN
             /\ ev' = IF mine THEN [ev EXCEPT !.set = TRUE, !.text = x.text] ELSE ev
             /\ act' = IF Broken = "norelease" /\ ~mine THEN act ELSE Upd(act, x.more, IF mine THEN {0 - ev.own} ELSE {})
Wake(t) == /\ p[t].pc = "waiting" /\ ev.own = t /\ ev.set /\ Go(t, P0) /\ ul' = 0 /\ ev' = NoEv /\ UNCHANGED <<tx, line, q, now, n, net, relp, left>>
           /\ act' = Num1(t, act) /\ Ev(RetE(t, 0 - t \in act, ev.text))
TimeOut(t) == /\ p[t].pc = "waiting" /\ now >= p[t].rat + 1 /\ q = <<>> /\ ~(ev.own = t /\ ev.set) /\ Go(t, P0) /\ ul' = 0 /\ ev' = NoEv /\ UNCHANGED <<tx, line, q, act, now, n, net, relp, left>>
              /\ Ev(ExcE(t, "TimeoutException"))
Still == q = <<>> /\ ~line /\ \A t \in T : p[t].pc = "idle" \/ (p[t].pc = "want" /\ ul \notin {0, t}) \/ (p[t].pc = "waiting" /\ ~(ev.own = t /\ ev.set) /\ now < p[t].rat + 1)
Tick == now < Ticks /\ Still /\ (\E t \in T : p[t].pc = "waiting") /\ now' = now + 1 /\ UNCHANGED <<p, ul, tx, line, ev, q, act, s, bad, n, net, relp, left>>
Next == (\E t \in T : Start(t) \/ Lock(t) \/ Invalid(t) \/ DoTx(t) \/ DoRsp(t) \/ DoDone(t) \/ Fail(t) \/ Got(t) \/ Wake(t) \/ TimeOut(t)) \/ Emit \/ EmitRel \/ Reader \/ Tick
Allowed == bad = {}
Quiescent == q = <<>> /\ \A t \in T : p[t].pc = "idle"
LookE == [k |-> "Look", l |-> [o \in 1..Len(s.obj) |-> [o |-> o, active |-> o \in act]]]
Complete == Quiescent => ULook(s, LookE).bad = {} /\ UEnd(s).bad = {}
=============================================================================
