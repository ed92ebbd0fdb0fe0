------------------------------- MODULE Tools -------------------------------
(* The command line tools: sendsms, identify-modem and gsmterm, from their arguments to their exit status.

   P.tool: which; P.argv: what it was given; P.usage: the arguments are complete and known; P.con: the modem as Connect sees it;
   P.snd: the sending part as SmsSend sees it.  Until the library is connected what goes over the line is judged by Connect, from the
   moment the user has typed the message by SmsSend.  What is printed is a sequence of lines.  Times in ms. *)
EXTENDS SmsSend
C == INSTANCE Connect
Wait == 5000                \* how long sendsms waits for network coverage
Slack(P) == 2500
ReportWait == 15000
TInit0(P) == [open |-> FALSE, closed |-> FALSE, con |-> C!CInit(P.con), connected |-> FALSE, failed |-> FALSE, reg |-> 0 - 3, ss |-> 0 - 3, c0 |-> 0 - 1, asked |-> FALSE, typed |-> FALSE,
              snd |-> SInit(P.snd), cmd |-> "", q |-> <<>>, w |-> <<>>, keys |-> <<>>, over |-> FALSE]
RECURSIVE MentionsFrom(_, _, _)
MentionsFrom(x, y, i) == IF i + Len(y) - 1 > Len(x) THEN FALSE ELSE IF SubSeq(x, i, i + Len(y) - 1) = y THEN TRUE ELSE MentionsFrom(x, y, i + 1)
Mentions(x, y) == MentionsFrom(x, y, 1)
Says(ls, y) == \E i \in 1..Len(ls) : Mentions(ls[i], y)
NoCov == {0, 3}             \* not searching, denied
Registered(r) == r \in {1, 5, 0 - 1}
Covered(s) == Registered(s.reg) /\ s.ss > 0
Harmful(c) == C!Prefixed(c, {"AT+CMGS", "AT+CMGW", "AT+CMGD", "AT+CMGR", "AT+CMGL", "ATD", "ATH", "ATA", "AT+CUSD", "AT+VTS", "AT^DTMF"})
Lift(s, r, f) == IF f = "con" THEN Ok([s EXCEPT !.con = r.s], r.bad) ELSE Ok([s EXCEPT !.snd = r.s], r.bad)
Open(P, s, e) ==
  Ok([s EXCEPT !.open = TRUE, !.con = C!Attempt(P.con, @, e).s],
     Cl("port-opened-although-usage-wrong", P.usage) \cup Cl("port-as-given", e.port = P.argv.port) \cup Cl("baud-rate-as-given", e.baud = P.argv.baud) \cup Cl("opened-once", ~s.open))
Con(P, s, e) == Ok([s EXCEPT !.connected = TRUE], {})
NoCon(P, s, e) == Ok([s EXCEPT !.failed = TRUE], {})
Tx2(P, s, e) ==
  IF P.tool = "gsmterm" THEN Ok(s, {})
  ELSE IF s.typed THEN Lift(s, Tx1(P.snd, s.snd, e), "snd")
  ELSE IF e.term # "^M" THEN Ok(s, {"body-unasked"})
  ELSE IF Harmful(e.c) THEN Ok(s, {"sent-unasked"})
  ELSE IF ~s.connected THEN LET r == Lift(s, C!CStep(P.con, s.con, e), "con") IN [r EXCEPT !.s.cmd = e.c]
  ELSE Ok([s EXCEPT !.cmd = e.c, !.c0 = IF @ < 0 /\ e.c \in {"AT+CREG?", "AT+CSQ"} THEN e.at ELSE @], {})
Rsp2(P, s, e) ==
  IF P.tool = "gsmterm" THEN Ok(s, {})
  ELSE IF s.typed THEN Lift(s, Rsp1(P.snd, s.snd, e), "snd")
  ELSE IF ~s.connected THEN Lift(s, C!CStep(P.con, s.con, e), "con")
  ELSE IF Busy(Last(<<"">> \o e.l)) THEN Ok(s, {})
  ELSE Ok([s EXCEPT !.q = Append(@, [c |-> s.cmd, l |-> e.l, final |-> e.final, v |-> e.v])], {})
(* the user is asked for the text of the message *)
Ask(P, s, e) == Ok([s EXCEPT !.asked = TRUE],
                   Cl("asked-without-coverage", Covered(s)) \cup Cl("asked-once", ~s.asked) \cup Cl("asked-by-the-right-tool", P.tool = "sendsms") \cup Cl("asked-while-locked", C!Ready(s.con)))
Line(P, s, e) ==
  Lift([s EXCEPT !.typed = TRUE],
       Send(P.snd, s.snd, [t |-> 1, id |-> 1, dest |-> P.argv.dest, deststr |-> P.argv.deststr, text |-> e.text, raw |-> e.raw, flash |-> FALSE, wait |-> P.argv.deliver, dtmo |-> ReportWait]), "snd")
(* ---- how it ends ---- *)
Locked(P, s) == ~C!Ready(s.con)
PinEnd(P, s, e) ==
  Cl("failure-status", e.code # 0)
  \cup (IF s.con.refused # "" /\ CodeOf(s.con.refused) = 16 THEN Cl("wrong-pin-reported", Says(e.err, "PIN") /\ Says(e.err, "ncorrect"))
        ELSE IF s.con.refused = "" /\ P.argv.pin = "" /\ s.con.told = "locked" THEN Cl("missing-pin-reported", Says(e.err, "PIN") /\ Says(e.err, "required")) ELSE {})
NoConnection(P, s) == ~s.connected /\ (s.failed \/ s.con.silent \/ \E c \in s.con.rejected : C!Mandatory(c))
SendEnd(P, s, e) ==
  LET r == s.snd.th[1] en == s.snd.sent[Len(s.snd.sent)] IN
  IF ~s.typed
  THEN Cl("failure-status", e.code # 0)
       \cup (IF s.asked THEN {}
             ELSE Cl("gave-up-without-reason", s.reg \in NoCov \/ (~Covered(s) /\ e.at >= s.c0 + Wait) \/ (s.cmd = "AT+CSQ" /\ s.ss = 0 - 2))
                  \cup Cl("waited-too-long", e.at <= s.c0 + Wait + Slack(P)) \cup Cl("port-left-open", s.closed \/ e.raised))
  ELSE IF r.st = "acked" /\ (~r.wait \/ r.claimed)
  THEN (IF r.wait /\ e.code # 0 THEN Cl("report-came-in-time", r.cat + P.snd.late >= r.acc + ReportWait)
        ELSE Cl("success-status", e.code = 0) \cup Cl("success-reported", Says(e.out, "Message sent")) \cup Cl("port-left-open", s.closed)
             \cup Cl("whole-text-sent", P.snd.text \/ r.got = r.text)
             \cup Cl("delivery-invented", (Says(e.out, "delivered OK") => en.st = 1) /\ (Says(e.out, "delivery failed") => en.st = 2))
             \cup (IF r.wait THEN Cl("delivery-reported", Says(e.out, "delivered OK") \/ Says(e.out, "delivery failed")) ELSE {}))
  ELSE Cl("failure-status", e.code # 0) \cup Cl("success-invented", ~Says(e.out, "Message sent"))
       \cup (IF r.st = "acked" THEN Cl("gave-up-early", e.at >= r.acc + ReportWait) \cup Cl("gave-up-late", e.at <= r.acc + ReportWait + 1500)
             ELSE Cl("failure-without-reason", r.err # ""))
(* identify-modem: labels and the queries behind them *)
Labels == <<<<"Manufacturer:", "AT+CGMI">>, <<"Model:", "AT+CGMM">>, <<"Revision:", "AT+CGMR">>, <<"IMEI:", "AT+CGSN">>, <<"IMSI:", "AT+CIMI">>, <<"Network:", "AT+COPS?">>, <<"Signal strength:", "AT+CSQ">>>>
DebugCmds == {"ATI", "AT+CGMI", "AT+CGMM", "AT+CGMR", "AT+CFUN=?", "AT+WIND=?", "AT+WIND?", "AT+CPMS=?", "AT+CNMI=?", "AT+CVHU=?", "AT+CSMP?", "AT+GCAP", "AT+CPIN?", "AT+CLAC"}
Answers(s, c) == {i \in 1..Len(s.q) : s.q[i].c = c}
Good(x) == x.final /\ Kind(Last(x.l)) = "OK"
Shown(e, label) == {i \in 1..Len(e.out) : Starts(e.out[i], label)}
ShownAs(e, label, vs) == Shown(e, label) # {} /\ \A i \in Shown(e, label) : \E v \in vs : e.out[i] = label \o " " \o v
InfoEnd(P, s, e) ==
  IF e.code # 0 THEN Cl("failure-without-reason", \E i \in 1..Len(s.q) : ~s.q[i].final \/ (~P.argv.debug /\ ~Good(s.q[i]) /\ s.q[i].c # "AT+CGMR"))
  ELSE IF P.argv.debug
  THEN UNION {Cl("debug-command-left-out " \o c, Answers(s, c) # {}) : c \in DebugCmds}
       \cup UNION {UNION {Cl("response-not-shown " \o s.q[i].c, Says(e.out, s.q[i].l[j])) : j \in 1..Len(s.q[i].l)} : i \in {k \in 1..Len(s.q) : s.q[k].c \in DebugCmds}}
  ELSE UNION {LET l == Labels[n] a == Answers(s, l[2]) IN
              IF a = {} THEN {"not-asked " \o l[2]}
              ELSE LET x == s.q[CHOOSE i \in a : \A j \in a : j <= i] IN
                   IF Good(x) THEN Cl("shown-as-reported " \o l[1], IF x.v = <<>> THEN Shown(e, l[1]) # {} ELSE ShownAs(e, l[1], {x.v[1]}))
                   ELSE Cl("refusal-hidden " \o l[1], l[2] = "AT+CGMR") \cup Cl("unknown-revision-shown", l[2] = "AT+CGMR" => ShownAs(e, l[1], {"N/A"})) : n \in 1..Len(Labels)}
(* gsmterm: what is typed arrives: in raw mode as it is, otherwise line by line after editing *)
RECURSIVE Typed(_, _, _)
Typed(raw, ks, line) ==
  IF ks = <<>> THEN <<>>
  ELSE LET k == Head(ks) r == Tail(ks) IN
    IF raw THEN <<IF k = "enter" THEN "^M" ELSE k>> \o Typed(raw, r, <<>>)
    ELSE CASE k = "enter" -> (IF line = <<>> THEN <<>> ELSE Append(line, "^M")) \o Typed(raw, r, <<>>)
           [] k = "bs" -> Typed(raw, r, IF line = <<>> THEN <<>> ELSE SubSeq(line, 1, Len(line) - 1))
           [] OTHER -> Typed(raw, r, Append(line, k))
TermEnd(P, s, e) ==
  Cl("transmitted-what-was-typed", s.w = Typed(P.argv.raw, s.keys, <<>>)) \cup Cl("port-left-open", s.closed) \cup Cl("success-status", e.code = 0)
Exit(P, s, e) ==
  Ok([s EXCEPT !.over = TRUE],
     Cl("terminal-modes-restored", e.restored)
     \cup
     IF ~P.usage THEN Cl("failure-status", e.code # 0) \cup Cl("wrong-usage-reported", \E i \in 1..Len(e.err) : e.err[i] # "")
     ELSE IF P.tool = "gsmterm" THEN (IF P.noport THEN Cl("failure-status", e.code # 0) ELSE TermEnd(P, s, e))
     ELSE IF Locked(P, s) THEN PinEnd(P, s, e)
     ELSE IF NoConnection(P, s) THEN Cl("failure-status", e.code # 0)
     ELSE Cl("connected", s.connected) \cup (IF ~s.connected THEN {} ELSE IF P.tool = "sendsms" THEN SendEnd(P, s, e) ELSE InfoEnd(P, s, e)))
End2(P, s, e) == Ok(s, Cl("tool-ends", s.over))
TStep(P, s, e) ==
  CASE e.k = "Open" -> Open(P, s, e) [] e.k = "Con" -> Con(P, s, e) [] e.k = "NoCon" -> NoCon(P, s, e) [] e.k = "Closed" -> Ok([s EXCEPT !.closed = TRUE], {})
    [] e.k = "Tx" -> Tx2(P, s, e) [] e.k = "Rsp" -> Rsp2(P, s, e)
    [] e.k = "Creg" -> Ok([s EXCEPT !.reg = IF e.stat = 0 - 2 THEN @ ELSE e.stat], {}) [] e.k = "Csq" -> Ok([s EXCEPT !.ss = IF e.ss = 0 - 3 THEN @ ELSE e.ss], {})
    [] e.k = "Ask" -> Ask(P, s, e) [] e.k = "Line" -> Line(P, s, e) [] e.k = "Rep" -> Lift(s, Rep(P.snd, s.snd, e), "snd")
    [] e.k = "W" -> Ok([s EXCEPT !.w = @ \o e.x], {}) [] e.k = "Keys" -> Ok([s EXCEPT !.keys = @ \o e.q], {})
    [] e.k = "Exit" -> Exit(P, s, e) [] e.k = "End" -> End2(P, s, e) [] OTHER -> Ok(s, {"unexpected-event " \o e.k})
=============================================================================
