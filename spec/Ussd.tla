------------------------------- MODULE Ussd -------------------------------
(* USSD: requests, the network's answers, and the session they belong to.

   The network's truth: a session is open after an answer asking for more (m = 1) without a release, until an answer that does not,
   a release, or a cancel request the modem has acknowledged.  Sessions are numbered; an answer object belongs to the session it was
   received in.  One request can be outstanding at a time: from its transmission until it is answered, refused or given up.

   Same-instant tolerance: what the modem emitted less than a millisecond ago may not have been noticed yet. *)
EXTENDS ModemCmd
UIdle == [st |-> "idle", op |-> "", o |-> 0, text |-> "", tmo |-> 0, at |-> 0, tat |-> 0, rat |-> 0, line |-> "", cat |-> 0,
          m |-> 0, rel |-> FALSE, msg |-> "", aat |-> 0, ns |-> 0, live |-> FALSE, sent |-> FALSE]
SInit(P) == [th |-> [t \in 0..P.threads |-> UIdle], cur |-> 0 - 1, out |-> 0, open |-> FALSE, sess |-> 0, closed |-> 0 - 5, obj |-> <<>>, slack |-> P.slack, tol |-> P.tol]
Cmd(r) == IF r.op = "cancel" THEN "AT+CUSD=2" ELSE IF r.op = "cmd" THEN r.text ELSE "AT+CUSD=1,\"" \o r.text \o "\",15"
Req(r) == r.op \in {"send", "reply"}
Live(s, o) == s.open /\ o # 0 /\ s.obj[o] = s.sess
(* could still be taken for open: closed just now *)
Maybe(s, o, at) == o # 0 /\ s.obj[o] = s.sess /\ (s.open \/ at - s.closed < s.tol)
Close(s, at) == IF s.open THEN [s EXCEPT !.open = FALSE, !.closed = at] ELSE s
UBegin(s, e) == LET r == s.th[e.t] IN
  Ok([s EXCEPT !.th[e.t] = [UIdle EXCEPT !.st = "called", !.op = e.op, !.o = e.o, !.text = e.text, !.tmo = e.tmo, !.at = e.at, !.live = Live(s, e.o)]],
     Cl("thread-idle", r.st = "idle"))
UTx(s, e) == LET t == e.t r == s.th[t] IN
  IF t = 0 THEN Ok([s EXCEPT !.cur = 0], Cl("unexpected-transmission", ~Starts(e.c, "AT+CUSD")))
  ELSE Ok([s EXCEPT !.cur = t, !.out = IF Req(r) THEN t ELSE @, !.th[t] = [r EXCEPT !.st = "sent", !.tat = e.at, !.sent = TRUE]],
          Cl("command-identical", e.c = Cmd(r) /\ e.term = "^M") \cup Cl("sent-once", r.st = "called")
          \cup (IF Req(r) THEN Cl("one-request-at-a-time", s.out = 0 \/ s.out = t \/ e.at >= s.th[s.out].tat + s.th[s.out].tmo) ELSE {})
          \cup (IF r.op \in {"reply", "cancel"} THEN Cl("only-in-open-session", Maybe(s, r.o, e.at)) ELSE {}))
URsp(s, e) == LET t == s.cur IN
  IF t < 1 \/ ~e.final THEN Ok([s EXCEPT !.cur = 0 - 1], {})
  ELSE LET r == s.th[t]
           line == Last(e.l)
           good == Kind(line) = "OK"
           next == [r EXCEPT !.rat = e.at, !.line = line, !.st = IF Busy(line) THEN "called" ELSE IF ~good THEN "failed"
                                                                  ELSE IF Req(r) /\ r.st = "sent" THEN "acked" ELSE IF r.st = "early" THEN "answered" ELSE "done"]
           s1 == [s EXCEPT !.cur = 0 - 1, !.th[t] = next, !.out = IF ~good /\ @ = t THEN 0 ELSE @] IN
       Ok(IF good /\ r.op = "cancel" THEN Close(s1, e.at) ELSE s1, {})
(* an answer: m as in +CUSD: m, rel: with a session release beside it *)
UAns(s, e) ==
  LET more == e.m = 1 /\ ~e.rel
      s1 == IF more THEN (IF s.open THEN s ELSE [s EXCEPT !.open = TRUE, !.sess = @ + 1]) ELSE Close(s, e.at)
      t == s.out IN
  IF t = 0 THEN Ok(s1, {})
  ELSE Ok([s1 EXCEPT !.out = 0, !.th[t] = [@ EXCEPT !.st = IF @ = "sent" THEN "early" ELSE "answered", !.m = e.m, !.rel = e.rel, !.msg = e.text, !.aat = e.at,
                                                    !.ns = IF more THEN s1.sess ELSE 0]], {})
URel(s, e) == Ok(Close(s, e.at), {})
UMax(a, b) == IF a > b THEN a ELSE b
URet(s, e) == LET t == e.t r == s.th[t] IN
  Ok([s EXCEPT !.th[t] = UIdle, !.obj = Append(@, r.ns)],
     Cl("answered-first", r.st = "answered") \cup Cl("object-numbers", e.o = Len(s.obj) + 1)
     \cup (IF r.st # "answered" THEN {} ELSE
             Cl("the-answer", e.msg = r.msg)
             \cup Cl("session-state", IF r.ns = 0 THEN ~e.active ELSE (e.active \/ ~s.open \/ s.sess # r.ns))
             \cup Cl("prompt", e.at - UMax(UMax(r.aat, r.rat), r.at) <= s.slack)))
UDone(s, e) == LET t == e.t r == s.th[t] IN
  Ok([s EXCEPT !.th[t] = UIdle],
     IF r.op = "cancel" THEN Cl("cancel-sent", r.st = "done" \/ (r.st = "called" /\ ~Live(s, r.o)))
     ELSE Cl("answered-first", r.op = "cmd" /\ r.st = "done"))
UExc(s, e) == LET t == e.t r == s.th[t] IN
  IF "TimeoutException" \in Rng(e.x.mro)
  THEN Ok([s EXCEPT !.th[t] = UIdle, !.out = IF @ = t THEN 0 ELSE @, !.cur = IF @ = t THEN 0 - 1 ELSE @],
          Cl("timeout-not-expected", Req(r) /\ r.st \in {"sent", "early", "acked", "answered"})
          \cup Cl("timed-out-early", e.at >= r.tat + r.tmo) \cup Cl("timed-out-late", e.at <= UMax(r.tat, r.rat) + r.tmo + s.slack)
          \cup Cl("answer-lost", r.st = "answered" => r.aat >= r.tat + r.tmo))
  ELSE IF "InvalidStateException" \in Rng(e.x.mro)
  THEN Ok([s EXCEPT !.th[t] = UIdle], Cl("session-open", r.op = "reply" /\ r.st = "called" /\ ~Live(s, r.o)))
  ELSE Ok([s EXCEPT !.th[t] = UIdle], Cl("not-refused", r.st = "failed") \cup (IF r.st = "failed" THEN ErrorAs(r.line, Cmd(r), e.x) ELSE {}))
ULook(s, e) == Ok(s, UNION {Cl("session-state-later", e.l[i].active = Live(s, e.l[i].o)) : i \in 1..Len(e.l)})
UEnd(s) == Ok(s, Cl("every-call-returns", \A t \in DOMAIN s.th : s.th[t].st = "idle"))
SStep(P, s, e) == CASE e.k = "Op" -> UBegin(s, e) [] e.k = "Tx" -> UTx(s, e) [] e.k = "Rsp" -> URsp(s, e) [] e.k = "Ans" -> UAns(s, e) [] e.k = "Rel" -> URel(s, e)
                    [] e.k = "Ret" -> URet(s, e) [] e.k = "Done" -> UDone(s, e) [] e.k = "Exc" -> UExc(s, e) [] e.k = "Look" -> ULook(s, e)
                    [] e.k = "End" -> UEnd(s) [] OTHER -> Ok(s, {"unexpected-event " \o e.k})
=============================================================================
