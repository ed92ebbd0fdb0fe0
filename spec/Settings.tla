------------------------------ MODULE Settings ------------------------------
(* Queries and settings: what the modem says and what it has been told.

   Values are sequences of strings, <<>> is the documented 'unknown'.  Val is the meaning of the response that follows (its format is the
   modem's business).  The service centre is known to the library when it was set or can be read. *)
EXTENDS ModemCmd
QIdle == [st |-> "idle", q |-> "", v |-> <<>>, line |-> "", val |-> <<"?">>, silent |-> FALSE, tat |-> 0, diff |-> FALSE]
SInit(P) == [th |-> [t \in 1..P.threads |-> QIdle], cur |-> 0, con |-> FALSE, smsc |-> <<>>, set |-> FALSE, mode |-> <<"0">>, mmode |-> <<"0">>]
Cmd0(q, v) == CASE q = "signalStrength" -> "AT+CSQ" [] q = "manufacturer" -> "AT+CGMI" [] q = "model" -> "AT+CGMM" [] q = "revision" -> "AT+CGMR" [] q = "imei" -> "AT+CGSN"
                [] q = "imsi" -> "AT+CIMI" [] q = "networkName" -> "AT+COPS?" [] q = "supportedCommands" -> "AT+CLAC" [] q = "smsc" -> "AT+CSCA?"
                [] q = "set smsc" -> "AT+CSCA=\"" \o v[1] \o "\"" [] q = "set mode" -> "AT+CMGF=" \o v[1] [] OTHER -> ""
Optional == {"revision", "supportedCommands"}
Stored == {"smsc", "mode", "set smsc", "set mode"}
Known(P, s) == s.set \/ P.readable
QOp(P, s, e) ==
  Ok([s EXCEPT !.th[e.t] = [QIdle EXCEPT !.st = "called", !.q = e.q, !.v = e.v,
                            !.diff = CASE e.q = "set smsc" -> s.smsc # e.v \/ ~Known(P, s) [] e.q = "set mode" -> s.mode # e.v [] OTHER -> FALSE]],
     Cl("thread-idle", s.th[e.t].st = "idle"))
QTx(P, s, e) == LET t == e.t r == s.th[t] IN
  IF t = 0 THEN Ok(s, {"unexpected-transmission"})
  ELSE Ok([s EXCEPT !.cur = t, !.th[t] = [r EXCEPT !.st = "sent", !.tat = e.at]],
          Cl("sent-once", r.st = "called") \cup Cl("command", e.c = Cmd0(r.q, r.v) /\ e.term = "^M") \cup Cl("not-connected", s.con)
          \cup Cl("changed-only-if-different", r.q \in {"set smsc", "set mode"} => r.diff))
QVal(P, s, e) == IF s.cur = 0 THEN Ok(s, {}) ELSE Ok([s EXCEPT !.th[s.cur].val = e.v], {})
QRsp(P, s, e) ==
  LET t == s.cur r == s.th[t] IN
  IF t = 0 THEN Ok(s, {})
  ELSE IF ~e.final THEN Ok([s EXCEPT !.cur = 0, !.th[t].silent = TRUE], {})
  ELSE LET line == Last(e.l)
           r2 == [r EXCEPT !.line = line, !.st = IF Busy(line) THEN "called" ELSE IF Kind(line) = "OK" THEN "ok" ELSE "error"]
           s2 == [s EXCEPT !.cur = 0, !.th[t] = r2] IN
       Ok(IF r2.st # "ok" THEN s2
          ELSE CASE r.q = "set smsc" -> [s2 EXCEPT !.smsc = r.v, !.set = TRUE] [] r.q = "set mode" -> [s2 EXCEPT !.mode = r.v, !.mmode = r.v]
                 [] OTHER -> s2, {})
QRet(P, s, e) ==
  LET t == e.t r == s.th[t] s2 == [s EXCEPT !.th[t] = QIdle] IN
  CASE r.q = "mode" -> Ok(s2, Cl("mode", e.v = s.mode))
    [] r.q = "smsc" -> Ok(s2, IF r.st = "error" THEN Cl("read-although-refused", e.v = <<>> /\ CodeOf(r.line) = 330) ELSE Cl("service-centre", e.v = s.smsc))
    [] r.q = "set smsc" -> Ok(IF s.con THEN s2 ELSE [s2 EXCEPT !.smsc = r.v, !.set = TRUE], Cl("told-the-modem", ~s.con \/ r.st = "ok" \/ ~r.diff))
    [] r.q = "set mode" -> Ok(IF s.con THEN s2 ELSE [s2 EXCEPT !.mode = r.v], Cl("told-the-modem", ~s.con \/ r.st = "ok" \/ ~r.diff))
    [] OTHER -> Ok(s2, IF r.st = "error" /\ r.q \in Optional THEN Cl("unknown-value", e.v = <<>>)
                       ELSE Cl("asked-the-modem", r.st = "ok") \cup Cl("value", e.v = r.val))
QExc(P, s, e) ==
  LET t == e.t r == s.th[t] IN
  Ok([s EXCEPT !.th[t] = QIdle],
     IF "TimeoutException" \in Rng(e.x.mro) THEN Cl("timeout-although-answered", r.silent /\ e.at - r.tat >= 4900)
     ELSE Cl("error-without-reason", r.st = "error") \cup Cl("optional", r.q \notin Optional)
          \cup (IF r.st = "error" THEN ErrorAs(r.line, Cmd0(r.q, r.v), e.x) \cup Cl("unknown-not-an-error", r.q # "smsc" \/ CodeOf(r.line) # 330) ELSE {}))
(* connected: the modem's settings are those made before; otherwise its own *)
QCon(P, s, e) == Ok([s EXCEPT !.con = TRUE, !.smsc = e.csca, !.mmode = e.mode, !.cur = 0],
                    Cl("service-centre-applied", s.set => e.csca = s.smsc) \cup Cl("mode-applied", e.mode = s.mode))
QClose(P, s, e) == Ok([s EXCEPT !.con = FALSE], {})
QLook(P, s, e) == Ok(s, Cl("modem-service-centre", ~s.con \/ e.csca = s.smsc) \cup Cl("modem-mode", ~s.con \/ e.mode = s.mode)
                        \cup Cl("every-call-returns", \A t \in DOMAIN s.th : s.th[t].st = "idle"))
QStep(P, s, e) == CASE e.k = "Op" -> QOp(P, s, e) [] e.k = "Tx" -> QTx(P, s, e) [] e.k = "Val" -> QVal(P, s, e) [] e.k = "Rsp" -> QRsp(P, s, e) [] e.k = "Ret" -> QRet(P, s, e)
                    [] e.k = "Exc" -> QExc(P, s, e) [] e.k = "Connected" -> QCon(P, s, e) [] e.k = "Closed" -> QClose(P, s, e) [] e.k = "Look" -> QLook(P, s, e)
                    [] OTHER -> Ok(s, {"unexpected-event " \o e.k})
SStep(P, s, e) == QStep(P, s, e)
=============================================================================
