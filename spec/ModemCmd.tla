----------------------------- MODULE ModemCmd -----------------------------
(* Commands given to the modem: how their replies become results, errors and retries.

   The state has one record per user thread.  A step takes the state and an observed event to the next state; clauses the
   event violates are collected by name.  Times are in ms. *)
EXTENDS Integers, Sequences, TLC
Rng(q) == {q[i] : i \in 1..Len(q)}
Cl(name, P) == IF P THEN {} ELSE {name}
Starts(s, x) == Len(x) <= Len(s) /\ SubSeq(s, 1, Len(x)) = x
Last(q) == q[Len(q)]
Dig(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6
            [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9 [] OTHER -> 0 - 1
RECURSIVE NumF(_, _)
NumF(s, acc) == IF s = "" THEN acc
                ELSE LET d == Dig(SubSeq(s, 1, 1)) IN IF d < 0 \/ acc > 100000 THEN 0 - 1 ELSE NumF(SubSeq(s, 2, Len(s)), acc * 10 + d)
Num(s) == IF s = "" THEN 0 - 1 ELSE NumF(s, 0)
ErrText == {"+CME ERROR: ", "+CMS ERROR: "}
CodeOf(line) == IF \E p \in ErrText : Starts(line, p) THEN Num(SubSeq(line, 13, Len(line))) ELSE 0 - 1
TypeOf(line) == SubSeq(line, 2, 4)
(* what a final result line means *)
Kind(line) == IF CodeOf(line) >= 0 THEN TypeOf(line)
              ELSE IF line \in {"ERROR", "COMMAND NOT SUPPORT"} THEN "PLAIN" ELSE "OK"
Busy(line) == CodeOf(line) \in {515, 14}
Special == {"PinRequiredError", "IncorrectPinError", "PukRequiredError", "SmscNumberUnknownError"}
(* the exception a final result line has to be reported as, for a given command *)
ErrorAs(line, cmd, x) ==
  LET code == CodeOf(line)
      must == CASE TypeOf(line) = "CME" /\ code = 11 -> "PinRequiredError" [] TypeOf(line) = "CME" /\ code = 12 -> "PukRequiredError"
                [] TypeOf(line) = "CME" /\ code = 16 -> "IncorrectPinError" [] TypeOf(line) = "CMS" /\ code = 330 -> "SmscNumberUnknownError"
                [] TypeOf(line) = "CME" -> "CmeError" [] OTHER -> "CmsError"
  IN CASE Kind(line) = "PLAIN" -> Cl("error-class", "CommandError" \in Rng(x.mro) /\ Rng(x.mro) \cap {"CmeError", "CmsError"} = {})
                                  \cup Cl("error-code", x.code = 0 - 1)
                                  \cup Cl("error-command", Starts(x.cmd, cmd))
       [] Kind(line) = "OK" -> {"error-from-success"}
       [] OTHER -> Cl("error-class", must \in Rng(x.mro) /\ (must \notin Special => Rng(x.mro) \cap Special = {})
                                     /\ (IF TypeOf(line) = "CME" THEN "CmeError" ELSE "CmsError") \in Rng(x.mro))
                   \cup Cl("error-code", x.code = code /\ x.type = TypeOf(line))
                   \cup Cl("error-command", x.cmd = cmd)

Idle == [st |-> "idle", cmd |-> "", parse |-> TRUE, wait |-> TRUE, tmo |-> 0, at |-> 0, pause |-> 0, line |-> "", lines |-> <<>>, calm |-> TRUE, rat |-> 0, tat |-> 0]
Init0(threads) == [th |-> [t \in 1..threads |-> Idle], cur |-> 0, n |-> threads]
InBusy(s) == \E t \in DOMAIN s.th : s.th[t].st = "busy" \/ (s.th[t].st # "idle" /\ s.th[t].pause > 0)
Ok(s, b) == [s |-> s, bad |-> b]

Call(s, e) == LET t == e.t IN
  Ok([s EXCEPT !.th[t] = [Idle EXCEPT !.st = "called", !.cmd = e.cmd, !.parse = e.parse, !.wait = e.wait, !.tmo = e.tmo, !.at = e.at,
                          !.calm = ~InBusy(s)]],
     Cl("thread-idle", s.th[t].st = "idle"))
Tx(s, e) == LET t == e.t IN
  IF t = 0 THEN Ok(s, {"unexpected-transmission"})
  ELSE LET r == s.th[t]
           paused == e.at - r.rat IN
    Ok([s EXCEPT !.cur = IF r.wait THEN t ELSE s.cur,
                 !.th[t] = [r EXCEPT !.st = IF r.wait THEN "sent" ELSE "gone", !.tat = e.at, !.pause = IF r.st = "busy" THEN paused ELSE @]],
       Cl("command-identical", e.c = r.cmd /\ e.term = "^M")
       \cup Cl("sent-once", r.st \in {"called", "busy"})
       \cup (IF r.st = "busy" THEN Cl("retry-pause", paused > 0) \cup Cl("retry-pause-grows", s.n = 1 => paused > r.pause) ELSE {})
       \cup (IF r.st = "called" /\ s.n = 1 /\ r.calm THEN Cl("prompt-transmission", e.at - r.at <= 100) ELSE {}))
Rsp(s, e) == LET t == s.cur IN
  IF t = 0 \/ ~e.final THEN Ok(s, {})
  ELSE LET r == s.th[t]
           line == Last(e.l)
           isbusy == r.parse /\ Busy(line) IN
    Ok([s EXCEPT !.cur = 0,
                 !.th = [u \in DOMAIN s.th |->
                    IF u = t THEN [r EXCEPT !.st = IF isbusy THEN "busy" ELSE "answered", !.line = line, !.lines = e.l, !.rat = e.at,
                                            !.calm = @ /\ ~isbusy]
                    ELSE IF isbusy THEN [s.th[u] EXCEPT !.calm = FALSE] ELSE s.th[u]]], {})
Done(s, t) == [s EXCEPT !.th[t] = Idle]
Quick(r, at) == IF r.calm THEN Cl("recovery-delay", at - r.rat <= 100) ELSE {}
Ret(s, e) == LET t == e.t r == s.th[t] IN
  Ok(Done(s, t),
     IF ~r.wait THEN Cl("no-result", e.none) \cup Cl("not-sent", r.st = "gone")
     ELSE Cl("answered-first", r.st = "answered")
          \cup (IF r.st = "answered" THEN Cl("reply-as-is", e.l = r.lines) \cup Cl("error-not-raised", r.parse => Kind(r.line) = "OK") \cup Quick(r, e.at)
                ELSE {}))
Exc(s, e) == LET t == e.t r == s.th[t] IN
  IF "TimeoutException" \in Rng(e.x.mro)
  THEN Ok([Done(s, t) EXCEPT !.cur = IF s.cur = t THEN 0 ELSE s.cur],
          Cl("timed-out-early", r.st = "sent" /\ e.at >= r.tat + r.tmo) \cup Cl("timed-out-late", r.calm => e.at <= r.tat + r.tmo + 100))
  ELSE Ok(Done(s, t),
          Cl("answered-first", r.st = "answered") \cup Cl("errors-not-parsed", r.parse)
          \cup (IF r.st = "answered" THEN ErrorAs(r.line, r.cmd, e.x) \cup Quick(r, e.at) ELSE {}))
Step(s, e) == CASE e.k = "Call" -> Call(s, e) [] e.k = "Tx" -> Tx(s, e) [] e.k = "Rsp" -> Rsp(s, e) [] e.k = "Ret" -> Ret(s, e)
                [] e.k = "Exc" -> Exc(s, e) [] OTHER -> Ok(s, {"unexpected-event " \o e.k})
Final(s) == Cl("every-call-returns", \A t \in DOMAIN s.th : s.th[t].st = "idle")
=============================================================================
