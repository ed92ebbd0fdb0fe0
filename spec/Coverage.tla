------------------------------ MODULE Coverage ------------------------------
(* Waiting for network coverage: what the modem reports about its registration and signal decides how and when the wait ends.

   Creg (registration) and Csq (signal strength) are what the modem tells in the response that follows; stat -1: it cannot report
   registration, -2: it is busy; strength -1: unknown, -2: the query is refused with the line of the response, -3: it is busy.  Times in ms. *)
EXTENDS ModemCmd
VIdle == [st |-> "idle", cmd |-> "", at |-> 0, tmo |-> 0, reg |-> "?", regat |-> 0, ss |-> 0, ssat |-> 0, out |-> "", line |-> "", rat |-> 0, tat |-> 0, silent |-> FALSE, asked |-> TRUE]
SInit(P) == [th |-> [t \in 1..P.threads |-> VIdle], cur |-> 0]
Round == 2000
VMax(a, b) == IF a > b THEN a ELSE b
Waiting(r) == r.st = "wait"
(* both reports are positive, and of this round or the one before *)
Covered(P, r, at) == r.reg \in {"yes", "na"} /\ r.ss > 0 /\ (r.reg = "na" \/ r.tat - r.regat <= Round + P.slack) /\ r.tat - r.ssat <= Round + P.slack
Due(r) == r.at + r.tmo
VOp(P, s, e) == Ok([s EXCEPT !.th[e.t] = [VIdle EXCEPT !.st = IF e.op = "wait" THEN "wait" ELSE "cmd", !.cmd = e.cmd, !.at = e.at, !.tmo = e.tmo, !.rat = e.at]],
                   Cl("thread-idle", s.th[e.t].st = "idle"))
VTx(P, s, e) == LET t == e.t r == s.th[t] IN
  IF t = 0 THEN Ok(s, {"unexpected-transmission"})
  ELSE Ok([s EXCEPT !.cur = t, !.th[t].tat = e.at, !.th[t].silent = FALSE, !.th[t].asked = @ \/ e.c = "AT+CSQ"],
          IF ~Waiting(r) THEN Cl("command-identical", r.st = "cmd" /\ e.c = r.cmd /\ e.term = "^M")
          ELSE Cl("queries-only", e.c \in {"AT+CREG?", "AT+CSQ"} /\ e.term = "^M")
               \cup Cl("asks-on-after-the-outcome", r.out \notin {"covered", "refused"})
               \cup Cl("asks-the-strength-once-registered", r.reg \in {"yes", "na"} /\ ~r.asked => e.c = "AT+CSQ")
               \cup Cl("asks-regularly", e.at - r.rat <= Round + P.slack)
               \cup (IF r.tmo >= 0 THEN Cl("asks-after-the-timeout", e.at <= Due(r) + Round + P.slack) ELSE {}))
Judge(P, r, at) == IF r.out = "refused" \/ ~Covered(P, r, at) THEN r ELSE [r EXCEPT !.out = "covered"]
VCreg(P, s, e) == LET t == s.cur r == s.th[t] IN
  IF t = 0 \/ ~Waiting(r) \/ e.stat = 0 - 2 THEN Ok(s, {})
  ELSE Ok([s EXCEPT !.th[t] = Judge(P, [r EXCEPT !.reg = IF e.stat \in {1, 5} THEN "yes" ELSE IF e.stat < 0 THEN "na" ELSE "no", !.regat = e.at, !.asked = FALSE,
                                                 !.out = IF e.stat \in {0, 3} THEN "refused" ELSE ""], e.at)], {})
VCsq(P, s, e) == LET t == s.cur r == s.th[t] IN
  IF t = 0 \/ ~Waiting(r) \/ e.ss = 0 - 3 THEN Ok(s, {})
  ELSE IF e.ss = 0 - 2 THEN Ok([s EXCEPT !.th[t].out = "error", !.th[t].line = e.line, !.th[t].ss = 0], {})
  ELSE Ok([s EXCEPT !.th[t] = Judge(P, [r EXCEPT !.ss = e.ss, !.ssat = e.at, !.out = ""], e.at)], {})
VRsp(P, s, e) == IF s.cur = 0 THEN Ok(s, {}) ELSE Ok([s EXCEPT !.cur = 0, !.th[s.cur].rat = e.at, !.th[s.cur].silent = ~e.final, !.th[s.cur].line = IF e.l = <<>> THEN "" ELSE Last(e.l)], {})
VRet(P, s, e) == LET r == s.th[e.t] IN
  Ok([s EXCEPT !.th[e.t] = VIdle],
     IF ~Waiting(r) THEN {}
     ELSE Cl("covered", r.out = "covered") \cup Cl("strength", e.v = r.ss) \cup Cl("prompt", e.at - r.rat <= P.slack))
VExc(P, s, e) == LET r == s.th[e.t] mro == Rng(e.x.mro) IN
  Ok([s EXCEPT !.th[e.t] = VIdle],
     IF ~Waiting(r) THEN {}
     ELSE IF "TimeoutException" \in mro
     THEN IF r.silent /\ e.at - r.tat >= 4900 THEN {}     \* the modem did not answer a query
          ELSE Cl("no-timeout-given", r.tmo >= 0)
               \cup (IF r.tmo < 0 THEN {} ELSE Cl("timed-out-early", e.at >= Due(r)) \cup Cl("timed-out-late", e.at <= VMax(Due(r), r.rat) + Round + P.slack))
               \cup Cl("timed-out-although-decided", r.out \notin {"covered", "refused"} \/ (r.tmo >= 0 /\ r.rat >= Due(r)))
     ELSE IF "InvalidStateException" \in mro THEN Cl("not-refused", r.out = "refused") \cup Cl("prompt", e.at - r.rat <= P.slack)
     ELSE Cl("error-without-reason", r.out = "error") \cup (IF r.out = "error" THEN ErrorAs(r.line, "AT+CSQ", e.x) ELSE {}))
VLook(P, s, e) == Ok(s, Cl("nothing-left-behind", e.n = 0) \cup Cl("every-wait-ends", \A t \in DOMAIN s.th : s.th[t].st = "idle"))
VStep(P, s, e) == CASE e.k = "Op" -> VOp(P, s, e) [] e.k = "Tx" -> VTx(P, s, e) [] e.k = "Rsp" -> VRsp(P, s, e) [] e.k = "Creg" -> VCreg(P, s, e) [] e.k = "Csq" -> VCsq(P, s, e)
                    [] e.k = "Ret" -> VRet(P, s, e) [] e.k = "Exc" -> VExc(P, s, e) [] e.k = "Look" -> VLook(P, s, e) [] OTHER -> Ok(s, {"unexpected-event " \o e.k})
SStep(P, s, e) == VStep(P, s, e)
=============================================================================
