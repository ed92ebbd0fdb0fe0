------------------------------ MODULE Session ------------------------------
(* One library object, several connections one after the other: to the same modem or to others.

   P.eps gives the modem of each connection.  c is the modem and the connection attempt (Connect), begun anew at each
   attempt with what the user has set so far; everything else that belongs to a connection - the calls and messages the
   modem has announced, the call in progress, the USSD session - begins anew with it too.  obj and uss are the call and
   USSD objects the user has been given, each with the connection it belongs to.  Times are in ms. *)
EXTENDS Connect, FiniteSets
NoCall == [on |-> FALSE, dir |-> 0, id |-> 0, num |-> "", ans |-> FALSE, at |-> 0]
NoOp == [op |-> "", o |-> 0, a |-> "", at |-> 0]
Modem(s, P) == P.eps[s.ep]
SInit(P) == [ep |-> 0, ph |-> "off", c |-> CInit(P.eps[1]), user |-> P.user, obj |-> <<>>, uss |-> <<>>, rings |-> <<>>, due |-> {}, store |-> {}, call |-> NoCall, dials |-> 0,
             ans |-> [text |-> "", m |-> 0], op |-> NoOp, tx |-> <<>>, rsp |-> <<>>]
Known == 2000                    \* how long the news of a call take at most

SAttempt(P, s, e) ==
  LET Q == [P.eps[e.ep] EXCEPT !.user = s.user, !.csca = e.csca] IN
  Ok([s EXCEPT !.ep = e.ep, !.ph = "connecting", !.c = [CInit(Q) EXCEPT !.attempt = 1], !.rings = <<>>, !.due = {}, !.store = {}, !.call = NoCall, !.dials = 0, !.tx = <<>>, !.op = NoOp],
     Cl("order", e.ep = s.ep + 1))
Cur(P, s) == [P.eps[s.ep] EXCEPT !.user = s.user]
STx(P, s, e) ==
  IF e.ep # s.ep THEN Ok(s, {"command-to-an-earlier-modem"})
  ELSE IF s.ph = "connecting" /\ e.t = 1 THEN LET r == Sent(Cur(P, s), s.c, e) IN Ok([s EXCEPT !.c = r.s], r.bad)
  ELSE Ok(IF e.t = 1 /\ ~(s.tx # <<>> /\ s.rsp # <<>> /\ Busy(Last(s.rsp))) THEN [s EXCEPT !.tx = Append(@, e.c)] ELSE s,
          Cl("polling-for-no-call", e.c = "AT+CLCC" => Modem(s, P).fam = "poll" /\ s.dials > 0)
          \cup Cl("setting-not-supported", e.c = "AT+CRC=1" => e.c \notin s.c.rejected))
SRsp(P, s, e) ==
  IF s.ph = "connecting" /\ e.c = s.c.cmd THEN LET r == Replied(Cur(P, s), s.c, e) IN Ok([s EXCEPT !.c = r.s], r.bad)
  ELSE Ok([s EXCEPT !.c.m = IF e.l # <<>> /\ Last(e.l) = "OK" THEN Effect(Cur(P, s), @, e.c) ELSE @, !.rsp = IF e.l # <<>> THEN e.l ELSE @], {})
SRet(P, s, e) == LET r == Connected(Cur(P, s), s.c, e) IN Ok([s EXCEPT !.ph = "up"], r.bad)
SExc(P, s, e) == LET r == ConnectFailed(Cur(P, s), s.c, e) IN Ok([s EXCEPT !.ph = "off"], r.bad \cup Cl("connection-refused", "CommandError" \in Rng(e.x.mro)))

(* what the modem does *)
SMade(P, s, e) == Ok([s EXCEPT !.call = [on |-> TRUE, dir |-> 0, id |-> e.id, num |-> e.num, ans |-> FALSE, at |-> 0]], {})
SAnswered(P, s, e) == Ok([s EXCEPT !.call.ans = TRUE, !.call.at = e.at], {})
SEnded(P, s, e) == Ok([s EXCEPT !.call = NoCall], {})
SRing(P, s, e) == Ok([s EXCEPT !.rings = Append(@, e.num), !.call = IF @.on THEN @ ELSE [NoCall EXCEPT !.on = TRUE, !.dir = 1, !.num = e.num]], {})
SPut(P, s, e) == Ok([s EXCEPT !.store = @ \cup {[mem |-> e.mem, i |-> e.i, text |-> e.text]}, !.due = IF e.ann THEN @ \cup {e.text} ELSE @], {})
SGone(P, s, e) == Ok([s EXCEPT !.store = {x \in @ : ~(x.mem = e.mem /\ x.i = e.i)}], {})
SAns(P, s, e) == Ok([s EXCEPT !.ans = [text |-> e.text, m |-> e.m]], {})

(* what the user is told *)
Given(s, o) == o <= Len(s.obj)
Mine(s, o) == Given(s, o) /\ s.obj[o].ep = s.ep
NewObj(s, dir, num) == [ep |-> s.ep, dir |-> dir, num |-> num, rings |-> IF dir = 1 THEN 1 ELSE 0, over |-> FALSE]
SRingCb(P, s, e) ==
  IF s.rings = <<>> THEN Ok(s, {"ring-not-announced"})
  ELSE LET old == Given(s, e.o) IN
       Ok([s EXCEPT !.rings = Tail(@), !.obj = IF old THEN [@ EXCEPT ![e.o].rings = @ + 1] ELSE Append(@, NewObj(s, 1, e.c.num))],
          Cl("call-of-an-earlier-connection", old => Mine(s, e.o))
          \cup Cl("caller", e.c.num = Head(s.rings))
          \cup Cl("rings", e.c.rings = IF old THEN s.obj[e.o].rings + 1 ELSE 1))
SSms(P, s, e) == Ok([s EXCEPT !.due = @ \ {e.text}], Cl("message-not-received", e.text \in s.due))

(* what the user does *)
SOp(P, s, e) == Ok([s EXCEPT !.op = [op |-> e.op, o |-> e.o, a |-> e.a, at |-> e.at], !.tx = <<>>, !.rsp = <<>>, !.dials = IF e.op = "dial" THEN @ + 1 ELSE @], {})
ToneCmd(P, s) == IF Modem(s, P).dtmf = "^DTMF=" THEN "AT^DTMF=" \o ToString(s.call.id) \o "," \o s.op.a ELSE "AT+VTS=" \o s.op.a
Latest(s, o) == o = Len(s.obj)
Alive(s, o) == Mine(s, o) /\ Latest(s, o) /\ s.call.on
SelMem(P, s) == IF s.c.m.cpms = <<>> THEN Modem(s, P).mems[1] ELSE s.c.m.cpms[1]
Texts(P, s) == {x \in s.store : x.mem = SelMem(P, s)}
Ctx(s, from) == s.tx = <<from>>
SDone(P, s, e) ==
  LET o == s.op Q == Modem(s, P) IN
  CASE o.op = "dial" -> Ok([s EXCEPT !.obj = IF e.o > Len(@) THEN Append(@, NewObj(s, 0, o.a)) ELSE @],
                           Cl("call-of-an-earlier-connection", e.o > Len(s.obj)) \cup Cl("dialled", Ctx(s, "ATD" \o o.a \o ";")) \cup Cl("call-number", e.c.num = o.a)
                           \cup Cl("call-id", s.call.on => e.c.id = s.call.id))
    [] o.op = "hangup" -> Ok([s EXCEPT !.obj[o.o].over = TRUE],
                             Cl("hangup-after-the-call", ~Mine(s, o.o) => s.tx = <<>>) \cup Cl("hangup-sent", s.tx \in {<<>>, <<"ATH">>}) \cup Cl("hung-up", ~e.c.active)
                             \cup Cl("hangup-not-sent", Alive(s, o.o) => s.tx # <<>>))
    [] o.op = "answer" -> Ok(s, Cl("answer-after-the-call", ~Mine(s, o.o) => s.tx = <<>>) \cup Cl("answer-sent", s.tx \in {<<>>, <<"ATA">>}))
    [] o.op = "tone" -> Ok(s, Cl("tone-after-the-call", Mine(s, o.o)) \cup Cl("tone-command", Mine(s, o.o) /\ s.call.on /\ Latest(s, o.o) => (IF s.call.dir = 0 \/ Q.dtmf = "+VTS=" THEN Ctx(s, ToneCmd(P, s)) ELSE TRUE)))
    [] o.op \in {"ussd", "ureply"} -> Ok([s EXCEPT !.uss = Append(@, [ep |-> s.ep, m |-> s.ans.m])],
                                         Cl("reply-after-the-session", o.op = "ureply" => s.uss[o.o].ep = s.ep) \cup Cl("ussd-text", e.v = s.ans.text) \cup Cl("ussd-session", e.b = (s.ans.m = 1))
                                         \cup Cl("ussd-command", Ctx(s, "AT+CUSD=1,\"" \o o.a \o "\",15")))
    [] o.op = "cancel" -> Ok([s EXCEPT !.uss = [i \in 1..Len(@) |-> [@[i] EXCEPT !.m = IF s.tx # <<>> THEN 0 ELSE @]]], Cl("cancel-after-the-session", s.uss[o.o].ep # s.ep => s.tx = <<>>) \cup Cl("cancel-command", s.tx \in {<<>>, <<"AT+CUSD=2">>}))
    [] o.op = "csq" -> Ok(s, Cl("signal-strength", e.n = Q.csq))
    [] o.op = "imsi" -> Ok(s, Cl("imsi", e.v = Q.imsi))
    [] o.op = "model" -> Ok(s, Cl("model", e.v = Q.model))
    [] o.op = "getsmsc" -> Ok(s, Cl("smsc-value", e.v = s.c.m.csca))
    [] o.op = "smsc" -> Ok([s EXCEPT !.user.smsc = o.a], Cl("smsc-set", s.c.m.csca = o.a))
    [] o.op = "text" -> Ok([s EXCEPT !.user.text = (o.a = "1")], Cl("mode-set", s.c.m.cmgf = IF o.a = "1" THEN 1 ELSE 0))
    [] o.op = "list" -> Ok(s, Cl("stored-messages", {x.text : x \in Texts(P, s)} = Rng(e.l) /\ Len(e.l) = Cardinality(Texts(P, s))))
    [] o.op = "send" -> Ok(s, Cl("send-mode", s.tx # <<>> /\ (Starts(s.tx[1], "AT+CMGS=\"") = (s.c.m.cmgf = 1))) \cup Cl("reference", \E i \in 1..Len(s.rsp) : s.rsp[i] = "+CMGS: " \o ToString(e.n)))
    [] OTHER -> Ok(s, {"operation"})
Invalid(x) == "InvalidStateException" \in Rng(x.mro)
SOpExc(P, s, e) ==
  LET o == s.op IN
  IF s.ph # "up" THEN Ok(s, {})
  ELSE Ok(s, CASE o.op = "tone" -> Cl("tone-refused", Invalid(e.x) /\ s.tx = <<>> /\ ~(Alive(s, o.o) /\ s.call.ans /\ o.at - s.call.at >= Known))
               [] o.op = "ureply" -> Cl("reply-refused", Invalid(e.x) /\ s.tx = <<>> /\ ~(s.uss[o.o].ep = s.ep /\ o.o = Len(s.uss) /\ s.uss[o.o].m = 1))
               [] o.op = "getsmsc" -> Cl("smsc-refused", Modem(s, P).cscaform = "error")
               [] OTHER -> {"operation-failed " \o o.op})

(* once nothing has happened for a while *)
SLook(P, s, e) ==
  Ok(s, Cl("ring-not-reported", s.rings = <<>>) \cup Cl("message-not-reported", s.due = {})
        \cup Cl("every-object", Len(e.l) = Len(s.obj) /\ Len(e.us) = Len(s.uss))
        \cup Cl("call-of-an-earlier-connection-active", \A i \in 1..Len(s.obj) : s.obj[i].ep < s.ep => ~e.l[i].active /\ ~e.l[i].answered /\ ~e.l[i].ringing)
        \cup Cl("session-of-an-earlier-connection-active", \A i \in 1..Len(s.uss) : s.uss[i].ep < s.ep => ~e.us[i])
        \cup Cl("call-state", \A i \in 1..Len(s.obj) : s.obj[i].ep = s.ep => (e.l[i].active = Alive(s, i)) /\ e.l[i].answered = (Alive(s, i) /\ s.call.ans))
        \cup Cl("ussd-state", s.uss # <<>> /\ Last(s.uss).ep = s.ep => e.us[Len(s.uss)] = (Last(s.uss).m = 1))
        \cup Cl("active-calls", Rng(e.reg) = {i \in 1..Len(s.obj) : Alive(s, i)}))
SStep(P, s, e) ==
  CASE e.k = "Attempt" -> SAttempt(P, s, e) [] e.k = "Tx" -> STx(P, s, e) [] e.k = "Rsp" -> SRsp(P, s, e) [] e.k = "Ret" -> SRet(P, s, e) [] e.k = "Exc" -> SExc(P, s, e)
    [] e.k = "Made" -> SMade(P, s, e) [] e.k = "Answered" -> SAnswered(P, s, e) [] e.k = "Ended" -> SEnded(P, s, e) [] e.k = "Ring" -> SRing(P, s, e)
    [] e.k = "Put" -> SPut(P, s, e) [] e.k = "Gone" -> SGone(P, s, e) [] e.k = "Ans" -> SAns(P, s, e)
    [] e.k = "RingCb" -> SRingCb(P, s, e) [] e.k = "Sms" -> SSms(P, s, e)
    [] e.k = "Op" -> SOp(P, s, e) [] e.k = "Done" -> SDone(P, s, e) [] e.k = "OpExc" -> SOpExc(P, s, e) [] e.k = "Look" -> SLook(P, s, e)
    [] e.k = "Fail" -> Ok([s EXCEPT !.ph = "lost"], {}) [] e.k = "Close" -> Ok([s EXCEPT !.ph = "closing"], {}) [] e.k = "Closed" -> Ok([s EXCEPT !.ph = "off"], {})
    [] e.k = "End" -> Ok(s, {})
    [] OTHER -> Ok(s, {"unexpected-event " \o e.k})
=============================================================================
