------------------------------- MODULE Calls -------------------------------
(* Voice calls: dialling, incoming calls, answering, hanging up and DTMF tones, on modems that announce call states and on
   modems that are polled (AT+CLCC).

   The truth about a call is what the modem reports: Setup (an outgoing call is being set up), Conn (answered), EndC (ended or
   rejected), Ring, or - polled - the list of calls in a response to AT+CLCC.  A report belongs to the active call with the identifier
   it names, or (identifier 0) to the one outgoing call that is not answered yet.  An outgoing call belongs to the dial() in progress.

   What the library knows lags behind: what was reported in the same instant (2 ms) may not have been noticed yet, and when several
   calls are polled one after the other, each may use its own reports only (Fresh). *)
EXTENDS ModemCmd, FiniteSets
CIdle == [st |-> "idle", op |-> "", o |-> 0, num |-> "", tones |-> <<>>, tmo |-> 0, at |-> 0, tat |-> 0, rat |-> 0, line |-> "", c |-> 0, sat |-> 0, cb |-> FALSE]
SInit(P) == [th |-> [t \in 0..P.threads |-> CIdle], cur |-> 0 - 1, dial |-> 0, calls |-> <<>>, obj |-> <<>>, np |-> 0,
             live |-> 0 - 100000, pollat |-> 0, rspat |-> 0, prsp |-> 0, gaveup |-> 0 - 100000, npg |-> 0 - 100, crc |-> FALSE, mute |-> FALSE]
CMax(a, b) == IF a > b THEN a ELSE b
I(s) == 1..Len(s.calls)
Polled(P, c) == P.fam = "poll" /\ c.k = "out"
(* other calls whose reports the library may look at in turn with those of call i *)
Pollers(s, i, at) == Cardinality({j \in I(s) : j # i /\ s.calls[j].k = "out" /\ (s.calls[j].act \/ s.np - s.calls[j].np <= 3)})
                    + (IF at - s.gaveup <= 1500 \/ s.np - s.npg <= 4 THEN 1 ELSE 0) + (IF s.dial # 0 /\ s.th[s.dial].c # i THEN 1 ELSE 0)
Others(s, i, at) == CMax(Pollers(s, i, at), s.calls[i].oth)
Fresh(P, s, i, at) == LET c == s.calls[i] IN at - c.at <= 2 \/ c.own # 0 \/ (Polled(P, c) /\ s.np - c.np <= 2 * Others(s, i, at))
Ringing(c) == c.k = "in" /\ c.act /\ ~c.ans
MayActive(P, s, i, at) == LET c == s.calls[i] IN c.fz \/ c.act \/ Fresh(P, s, i, at)
MayInactive(P, s, i, at) == LET c == s.calls[i] IN c.fz \/ ~c.act
MayAnswered(P, s, i, at) == LET c == s.calls[i] IN c.fz \/ c.ans \/ (Fresh(P, s, i, at) /\ c.pans)
MayUnanswered(P, s, i, at) == LET c == s.calls[i] IN c.fz \/ ~c.ans \/ Fresh(P, s, i, at)
NewCall == [k |-> "out", id |-> 0 - 1, num |-> "", type |-> 0 - 1, tname |-> "", ton |-> "", act |-> TRUE, ans |-> FALSE, pans |-> FALSE, at |-> 0, np |-> 0,
            rings |-> 0, told |-> 0, obj |-> 0, cb |-> FALSE, cbmin |-> 0, cbmax |-> 0, cbn |-> 0, fz |-> FALSE, oth |-> 0, own |-> 0, np0 |-> 0, npe |-> 0]
AnyLive(s) == s.dial # 0 \/ \E i \in I(s) : s.calls[i].k = "out" /\ s.calls[i].act
Mark(s, at) == IF AnyLive(s) THEN [s EXCEPT !.live = at] ELSE s
(* changes of state *)
Answer(P, s, i, at, remote) == LET c == s.calls[i] IN
  IF ~c.act \/ c.ans THEN s
  ELSE [s EXCEPT !.calls[i] = [c EXCEPT !.ans = TRUE, !.pans = FALSE, !.at = at, !.np = s.np, !.oth = CMax(@, Pollers(s, i, at)),
                                        !.cbmin = IF remote /\ c.cb THEN @ + 1 ELSE @, !.cbmax = IF c.cb THEN @ + 1 ELSE @]]
EndCall(P, s, i, at, remote) == LET c == s.calls[i]
                                    missed == Polled(P, c) /\ c.ans /\ s.np - c.np <= 2 * Others(s, i, at) /\ s.np > c.np IN
  IF ~c.act THEN (IF remote \/ ~Fresh(P, s, i, at) \/ c.cbmin = 0 THEN s ELSE [s EXCEPT !.calls[i].cbmin = @ - 1])
  ELSE [Mark(s, at) EXCEPT !.calls[i] = [c EXCEPT !.act = FALSE, !.ans = FALSE, !.pans = c.ans, !.at = at, !.np = s.np, !.oth = CMax(@, Pollers(s, i, at)), !.npe = s.np,
                                        !.cbmin = IF c.cb /\ remote /\ ~missed THEN @ + 1 ELSE @, !.cbmax = IF c.cb THEN @ + 1 ELSE @]]
RECURSIVE Fuzzy(_, _)
Fuzzy(s, S) == IF S = {} THEN s ELSE LET i == CHOOSE j \in S : TRUE IN Fuzzy([s EXCEPT !.calls[i].fz = TRUE], S \ {i})
(* the call a report with this identifier is about *)
Target(s, id) == {i \in I(s) : s.calls[i].act /\ IF id = 0 THEN s.calls[i].k = "out" /\ ~s.calls[i].ans ELSE s.calls[i].id = id}
Unknown(s, id) == {i \in I(s) : id # 0 /\ s.calls[i].act /\ s.calls[i].id = 0 - 1}
Report(P, s, id, at, F(_, _, _, _, _)) ==
  LET T == Target(s, id) U == Unknown(s, id)
      O == {i \in I(s) : s.calls[i].own # 0 /\ ~s.calls[i].act /\ (s.calls[i].id = id \/ (id = 0 /\ s.calls[i].k = "out"))} IN
  IF T = {} /\ O # {} THEN LET i == CHOOSE j \in O : TRUE IN Fuzzy([s EXCEPT !.calls[i].cbmax = @ + 1, !.calls[i].pans = TRUE], U)
  ELSE IF Cardinality(T) = 1 THEN LET i == CHOOSE j \in T : TRUE r == F(P, s, i, at, TRUE) IN IF s.calls[i].fz THEN Fuzzy(r, U) ELSE r
  ELSE IF T # {} THEN Fuzzy(s, T) ELSE Fuzzy(s, U)
(* an outgoing call has come into being: it belongs to the dial() in progress; the identifier is not that of any other active call *)
Create(P, s, id, type, at) ==
  LET t == s.dial r == s.th[t]
      old == {i \in I(s) : s.calls[i].act /\ s.calls[i].id = id}
      s1 == IF id < 0 \/ old = {} THEN s
            ELSE LET i == CHOOSE j \in old : TRUE IN IF s.calls[i].k = "in" THEN [s EXCEPT !.calls[i].id = 0 - 1] ELSE EndCall(P, s, i, at, TRUE) IN
  [s1 EXCEPT !.calls = Append(@, [NewCall EXCEPT !.id = id, !.num = r.num, !.type = type, !.at = at, !.np = s.np, !.np0 = s.np, !.oth = Pollers(s, 0, at), !.cb = r.cb]),
             !.th[t] = [r EXCEPT !.st = "setup", !.c = Len(s.calls) + 1, !.sat = at]]
CallOf(s, o) == IF o >= 1 /\ o <= Len(s.obj) THEN s.obj[o] ELSE 0

COp(P, s, e) == LET r == s.th[e.t] IN
  Ok([s EXCEPT !.th[e.t] = [CIdle EXCEPT !.st = "called", !.op = e.op, !.o = e.o, !.num = e.num, !.tones = e.tones, !.tmo = e.tmo, !.cb = e.cb, !.at = e.at]],
     Cl("thread-idle", r.st = "idle") \cup Cl("known-call", e.o = 0 \/ CallOf(s, e.o) # 0))
RECURSIVE Tones(_, _)
Tones(base, q) == IF q = <<>> THEN "" ELSE base \o q[1] \o (IF Len(q) = 1 THEN "" ELSE ";" \o Tones(base, Tail(q)))
DtmfCmd(P, c, tones) == "AT" \o Tones(IF P.dtmf = "^DTMF=" THEN "^DTMF=" \o ToString(c.id) \o "," ELSE P.dtmf, tones)
CTx(P, s, e) == LET t == e.t r == s.th[t] i == IF r.o = 0 THEN 0 ELSE CallOf(s, r.o) IN
  IF t = 0
  THEN IF e.c = "AT+CLCC"
       THEN Ok([s EXCEPT !.cur = 0, !.pollat = e.at, !.mute = FALSE],
               Cl("polled-only-if-necessary", P.fam = "poll")
               \cup Cl("polling-ends-with-the-call", AnyLive(s) \/ s.mute \/ e.at - CMax(s.live, s.rspat) <= 1200))
       ELSE Ok([s EXCEPT !.cur = 0], Cl("unexpected-transmission", e.c = "AT+CRC=1" /\ s.crc))
  ELSE LET s1 == [s EXCEPT !.cur = t, !.mute = FALSE, !.th[t] = [r EXCEPT !.st = "sent", !.tat = e.at]]
           once == Cl("sent-once", r.st = "called") IN
    CASE r.op = "dial" ->
           LET d == IF s.dial = 0 THEN CIdle ELSE s.th[s.dial]
               s2 == [Mark(s1, e.at) EXCEPT !.dial = t] IN
           Ok(IF P.fam = "zte" THEN Create(P, s2, 0 - 1, 0, e.at) ELSE s2,
              once \cup Cl("number-identical", e.c = "ATD" \o r.num \o ";" /\ e.term = "^M")
              \cup Cl("one-dial-at-a-time", s.dial \in {0, t} \/ d.st \in {"setup", "failed"} \/ e.at >= d.tat + d.tmo))
      [] r.op = "hangup" -> Ok(s1, once \cup Cl("command-identical", e.c = "ATH" /\ e.term = "^M") \cup Cl("hangs-up-only-active-calls", r.tat > 0 \/ MayActive(P, s, i, e.at)))
      [] r.op = "answer" -> Ok(s1, once \cup Cl("command-identical", e.c = "ATA" /\ e.term = "^M")
                                   \cup Cl("answers-only-ringing-calls", LET c == s.calls[i] IN r.tat > 0 \/ c.fz \/ Ringing(c) \/ Fresh(P, s, i, e.at)))
      [] r.op = "dtmf" -> Ok(s1, once \cup Cl("tones-identical", (e.c = DtmfCmd(P, s.calls[i], r.tones) \/ s.calls[i].id < 0) /\ e.term = "^M")
                                 \cup Cl("tones-only-in-answered-calls", r.tat > 0 \/ MayAnswered(P, s, i, e.at)))
      [] OTHER -> Ok(s1, once \cup Cl("command-identical", e.c = r.num /\ e.term = "^M"))
CRsp(P, s, e) == LET t == s.cur IN
  IF e.l = <<>> /\ e.final THEN Ok(s, {})   \* the modem does not answer this command
  ELSE IF t < 1 \/ ~e.final THEN Ok([s EXCEPT !.cur = 0 - 1, !.prsp = e.at, !.mute = ~e.final,
                                            !.rspat = IF t < 1 /\ e.final /\ ~AnyLive(s) /\ s.pollat > s.live THEN @ ELSE e.at], {})
  ELSE LET r == s.th[t]
           line == Last(e.l)
           good == Kind(line) = "OK"
           i == IF r.o = 0 THEN 0 ELSE CallOf(s, r.o)
           s1 == [s EXCEPT !.cur = 0 - 1, !.rspat = e.at, !.th[t] = [r EXCEPT !.rat = e.at, !.line = line, !.st = IF Busy(line) THEN "called" ELSE IF good THEN "done" ELSE "failed"]] IN
       Ok(IF good /\ r.op \in {"hangup", "answer"}
          THEN [(IF r.op = "hangup" THEN EndCall(P, s1, i, e.at, FALSE) ELSE Answer(P, s1, i, e.at, FALSE)) EXCEPT !.calls[i].own = t]
          ELSE s1, {})
Dialling(s) == s.dial # 0 /\ s.th[s.dial].st \in {"sent", "done"}
CSetup(P, s, e) == Ok(IF Dialling(s) THEN Create(P, s, e.id, e.type, e.at) ELSE s, {})
CConn(P, s, e) == Ok(Report(P, s, e.id, e.at, Answer), {})
CEnd(P, s, e) == Ok(Report(P, s, e.id, e.at, EndCall), {})
(* a list of calls: the first outgoing one that is not known yet is the one being dialled; what is no longer there has ended *)
RECURSIVE ClccAll(_, _, _, _)
ClccAll(P, s, e, S) ==
  IF S = {} THEN s
  ELSE LET i == CHOOSE j \in S : TRUE
           here == {x \in Rng(e.l) : x.dir = 0 /\ x.id = s.calls[i].id}
           s1 == IF here = {} THEN EndCall(P, s, i, e.at, TRUE) ELSE IF \E x \in here : x.stat = 0 THEN Answer(P, s, i, e.at, TRUE) ELSE s IN
       ClccAll(P, s1, e, S \ {i})
CClcc(P, s, e) ==
  LET s0 == [s EXCEPT !.np = @ + 1]
      mine == {i \in I(s) : s.calls[i].k = "out" /\ s.calls[i].act}
      new == {k \in 1..Len(e.l) : e.l[k].dir = 0 /\ e.l[k].stat \in {0, 2, 3}
                                   /\ \A i \in mine : s.calls[i].id # e.l[k].id \/ (s.calls[i].ans /\ e.l[k].stat # 0)}
      k == CHOOSE x \in new : \A y \in new : e.l[x].id <= e.l[y].id
      s1 == IF Dialling(s) /\ new # {} THEN Create(P, s0, e.l[k].id, e.l[k].type, e.at) ELSE s0
      all == {i \in I(s1) : s1.calls[i].k = "out" /\ s1.calls[i].act} IN
  Ok(ClccAll(P, s1, e, all), {})
CRing(P, s, e) ==
  LET same == {i \in I(s) : s.calls[i].k = "in" /\ s.calls[i].act /\ s.calls[i].num = e.num}
      s0 == [s EXCEPT !.crc = @ \/ e.type = ""] IN
  Ok(IF same # {} THEN LET i == CHOOSE j \in same : TRUE IN [s0 EXCEPT !.calls[i].rings = @ + 1]
     ELSE [s0 EXCEPT !.calls = Append(@, [NewCall EXCEPT !.k = "in", !.num = e.num, !.ton = e.ton, !.type = IF e.type = "VOICE" THEN 0 ELSE 0 - 1,
                                                         !.tname = IF e.type = "VOICE" THEN "" ELSE e.type, !.at = e.at, !.rings = 1])], {})
(* what the user sees of a call *)
StateOk(P, s, i, c, at) ==
  LET x == s.calls[i] IN
  Cl("call-state", /\ (c.active \/ MayInactive(P, s, i, at)) /\ (~c.active \/ MayActive(P, s, i, at))
                   /\ (c.active => (c.answered \/ MayUnanswered(P, s, i, at)) /\ (~c.answered \/ MayAnswered(P, s, i, at))))
Identity(s, i, c) ==
  LET x == s.calls[i] IN
  Cl("call-number", c.num = x.num) \cup Cl("call-type", c.tname = x.tname /\ (x.tname = "" => c.type = x.type)) \cup Cl("call-direction", c.inc = (x.k = "in"))
  \cup Cl("call-id", x.id < 0 \/ c.id = x.id) \cup (IF x.k = "in" THEN Cl("number-type", c.ton = x.ton) ELSE {})
(* (a call set up just now, or in a polled list the library may not have looked at for it: the incoming call will step back) *)
Hidden(s, j, at) == s.calls[j].k = "out" /\ ((s.calls[j].obj = 0 /\ s.calls[j].oth > 0) \/ at - s.calls[j].at <= 2)
Clash(s, i, id) == {j \in I(s) : j # i /\ s.calls[j].act /\ ~s.calls[j].fz /\ s.calls[j].id = id}
Unique(s, i, id, at) == \A j \in Clash(s, i, id) : Hidden(s, j, at)
(* the object is shown to the user: first time or again *)
Bind(s, i, o, id, at) == LET s1 == [s EXCEPT !.calls[i].obj = o, !.calls[i].id = IF s.calls[i].k = "in" /\ (s.calls[i].fz \/ Clash(s, i, id) # {} \/ \E j \in I(s) : j # i /\ s.calls[j].id = id /\ at - s.calls[j].at <= 2) THEN 0 - 1 ELSE id] IN
   IF o = Len(s.obj) + 1 THEN [s1 EXCEPT !.obj = Append(@, i)] ELSE s1
Shown(P, s, i, e) == Cl("same-object", IF s.calls[i].obj = 0 THEN e.o = Len(s.obj) + 1 ELSE e.o = s.calls[i].obj)
                     \cup Identity(s, i, e.c) \cup StateOk(P, s, i, e.c, e.at)
                     \cup (IF s.calls[i].act /\ e.c.active /\ s.calls[i].id < 0 THEN Cl("unique-id", Unique(s, i, e.c.id, e.at)) ELSE {})
CCb(P, s, e) ==
  LET old == CallOf(s, e.o)
      cand == {i \in I(s) : s.calls[i].k = "out" /\ s.calls[i].obj = 0 /\ s.calls[i].num = e.c.num /\ s.calls[i].id \in {e.c.id, 0 - 1}}
      i == IF old # 0 THEN old ELSE IF cand = {} THEN 0 ELSE CHOOSE j \in cand : \A k \in cand : j >= k IN
  IF i = 0 THEN Ok(s, {"callback-of-unknown-call"})
  ELSE LET c == s.calls[i] IN
       Ok([Bind(s, i, e.o, e.c.id, e.at) EXCEPT !.calls[i].cbn = @ + 1],
          Cl("callback-asked-for", c.cb) \cup Cl("callback-once-per-change", c.fz \/ c.cbn < c.cbmax) \cup Shown(P, s, i, e))
CRingCb(P, s, e) ==
  LET old == CallOf(s, e.o)
      cand == {i \in I(s) : s.calls[i].k = "in" /\ s.calls[i].obj = 0 /\ s.calls[i].num = e.c.num}
      fz == {i \in I(s) : s.calls[i].k = "in" /\ s.calls[i].fz /\ s.calls[i].num = e.c.num /\ s.calls[i].told < s.calls[i].rings}
      best == {i \in cand : s.calls[i].act = e.c.active}
      i == IF old # 0 THEN old ELSE IF cand = {} THEN 0 ELSE CHOOSE j \in (IF best = {} THEN cand ELSE best) : TRUE IN
  IF i = 0 /\ fz # {}
  THEN LET j == CHOOSE x \in fz : TRUE IN
       Ok([s EXCEPT !.calls = Append([s.calls EXCEPT ![j].act = FALSE, ![j].rings = @ - 1],
                                     [NewCall EXCEPT !.k = "in", !.num = e.c.num, !.ton = e.c.ton, !.type = e.c.type, !.tname = e.c.tname, !.at = e.at, !.rings = 1, !.told = 1, !.obj = e.o, !.fz = TRUE]),
                    !.obj = Append(@, Len(s.calls) + 1)], Cl("same-object", e.o = Len(s.obj) + 1))
  ELSE IF i = 0 THEN Ok(s, {"callback-of-unknown-call"})
  ELSE LET others == IF s.calls[i].fz /\ s.calls[i].told >= s.calls[i].rings THEN fz \ {i} ELSE {}
           \* a ring counted for another call that nobody could tell from this one
           s1 == IF others = {} THEN s ELSE LET j == CHOOSE x \in others : TRUE IN [s EXCEPT !.calls[j].rings = @ - 1, !.calls[i].rings = @ + 1]
           c == s1.calls[i] IN
       Ok([Bind(s1, i, e.o, e.c.id, e.at) EXCEPT !.calls[i].told = @ + 1],
          Cl("callback-once-per-ring", c.told < c.rings) \cup Cl("ring-count", e.c.rings > c.told /\ e.c.rings <= c.rings)
          \cup Cl("ringing", c.fz \/ (Fresh(P, s, i, e.at) \/ e.c.ringing = Ringing(c))) \cup Shown(P, s, i, e))
Finish(s, t) == [s EXCEPT !.th[t] = CIdle, !.dial = IF @ = t THEN 0 ELSE @]
CRet(P, s, e) == LET t == e.t r == s.th[t] i == r.c IN
  IF r.op # "dial" \/ r.st # "setup" THEN Ok(Finish(s, t), {"returned-before-the-call-was-set-up"})
  ELSE Ok(Finish(Bind(s, i, e.o, e.c.id, e.at), t),
          Shown(P, s, i, e) \cup (IF P.fam = "poll" THEN {} ELSE Cl("prompt", e.at - CMax(r.sat, CMax(r.tat, r.rat)) <= P.slack)))
CDone(P, s, e) == LET t == e.t r == s.th[t] i == IF r.o = 0 THEN 0 ELSE CallOf(s, r.o) IN
  Ok(IF i = 0 THEN Finish(s, t) ELSE [Finish(s, t) EXCEPT !.calls[i].own = 0, !.calls[i].at = IF s.calls[i].own = t THEN e.at ELSE @],
     (IF r.st = "done" /\ s.calls # <<>> THEN Cl("prompt", e.at - r.rat <= P.slack) ELSE {})
     \cup CASE r.op = "hangup" -> Cl("hang-up-sent", r.st = "done" \/ (r.st = "called" /\ MayInactive(P, s, i, e.at)))
       [] r.op = "answer" -> Cl("answer-sent", r.st = "done" \/ (r.st = "called" /\ (s.calls[i].fz \/ ~Ringing(s.calls[i]))))
       [] OTHER -> Cl("answered-first", r.st = "done"))
SentCmd(P, s, r, i) == CASE r.op = "dial" -> "ATD" \o r.num \o ";" [] r.op = "hangup" -> "ATH" [] r.op = "answer" -> "ATA"
                         [] r.op = "dtmf" -> DtmfCmd(P, s.calls[i], r.tones) [] OTHER -> r.num
CExc(P, s, e) ==
  LET t == e.t r == s.th[t] i == IF r.o = 0 THEN 0 ELSE CallOf(s, r.o) mro == Rng(e.x.mro) IN
  IF "TimeoutException" \in mro
  THEN IF r.op = "dial"
       THEN LET c == s.calls[r.c]
                polls == (IF c.act THEN s.np ELSE c.npe) - c.np0
                s1 == IF r.c = 0 THEN s ELSE [s EXCEPT !.calls[r.c] = [c EXCEPT !.act = FALSE, !.ans = FALSE, !.cbmin = 0, !.fz = TRUE]] IN
            Ok([Finish(Mark(s1, e.at), t) EXCEPT !.gaveup = e.at, !.npg = s.np, !.rspat = e.at],
               Cl("timed-out-early", r.st \in {"sent", "done", "setup"} /\ e.at >= r.tat + r.tmo)
               \cup Cl("timed-out-late", e.at <= CMax(r.tat, r.rat) + r.tmo + P.slack)
               \cup Cl("call-lost", r.c = 0 \/ (P.fam # "zte" /\ (r.sat >= r.tat + r.tmo \/ e.at - r.sat <= 2 \/ (P.fam = "poll" /\ polls <= 2 * Others(s, r.c, e.at))))))
       ELSE Ok([Finish(s, t) EXCEPT !.rspat = e.at], Cl("timeout-not-expected", r.op = "dtmf" /\ r.st = "sent")
                             \cup (IF r.op = "dtmf" THEN Cl("time-for-each-tone", e.at >= r.tat + (4 + Len(r.tones)) * 1000)
                                                        \cup Cl("timed-out-late", e.at <= r.tat + (8 + 2 * Len(r.tones)) * 1000) ELSE {}))
  ELSE IF "InvalidStateException" \in mro /\ "InterruptedException" \notin mro
  THEN Ok(Finish(s, t), Cl("call-not-answered", r.op = "dtmf" /\ r.st = "called" /\ MayUnanswered(P, s, i, e.at)))
  ELSE Ok(Finish(s, t),
          Cl("not-refused", r.st = "failed")
          \cup (IF r.st # "failed" THEN {}
                ELSE IF r.op = "dtmf" /\ TypeOf(r.line) = "CME" /\ CodeOf(r.line) \in {3, 30}
                THEN Cl("interrupted-with-cause", "InterruptedException" \in mro /\ e.x.cause = "CmeError" /\ e.x.causecode = CodeOf(r.line))
                ELSE Cl("interrupted-without-reason", "InterruptedException" \notin mro)
                     \cup ErrorAs(r.line, IF r.op = "dtmf" /\ s.calls[i].id < 0 THEN e.x.cmd ELSE SentCmd(P, s, r, i), e.x)))
CLook(P, s, e) ==
  LET pairs == {<<e.reg[k][1], e.reg[k][2]>> : k \in 1..Len(e.reg)}
      known == {i \in I(s) : s.calls[i].obj # 0}
      sure == {i \in known : ~s.calls[i].fz} IN
  Ok(s, Cl("registered-calls-known", \A q \in pairs : q[2] <= Len(s.obj))
        \cup Cl("active-calls-registered", \A i \in sure : s.calls[i].act = (\E q \in pairs : q[2] = s.calls[i].obj))
        \cup Cl("registered-under-own-id", \A q \in pairs : q[2] <= Len(e.l) /\ e.l[q[2]].id = q[1])
        \cup Cl("unique-id", \A q, x \in pairs : q[2] # x[2] => q[1] # x[1])
        \cup Cl("every-call-shown", \A i \in I(s) : s.calls[i].act /\ ~s.calls[i].fz => s.calls[i].obj # 0)
        \cup UNION {Identity([s EXCEPT !.calls[i].id = IF s.calls[i].act THEN @ ELSE 0 - 1], i, e.l[s.calls[i].obj]) : i \in known}
        \cup Cl("state-later", \A i \in sure : LET c == e.l[s.calls[i].obj] x == s.calls[i] IN c.active = x.act /\ (x.act => c.answered = x.ans) /\ (x.k = "in" => c.ringing = Ringing(x)))
        \cup Cl("ring-count-later", \A i \in known : s.calls[i].k = "in" => e.l[s.calls[i].obj].rings = s.calls[i].rings)
        \cup Cl("every-ring-told", \A i \in I(s) : s.calls[i].told = s.calls[i].rings)
        \cup Cl("every-change-told", \A i \in sure : s.calls[i].cbn >= s.calls[i].cbmin)
        \cup Cl("polling-goes-on", (P.fam = "poll" /\ \E i \in I(s) : s.calls[i].k = "out" /\ s.calls[i].act /\ ~s.calls[i].fz) => e.at - CMax(s.pollat, CMax(s.prsp, s.rspat)) <= 2500))
CFinal(s) == Ok(s, Cl("every-call-returns", \A t \in DOMAIN s.th : s.th[t].st = "idle"))
CStep(P, s, e) == CASE e.k = "Op" -> COp(P, s, e) [] e.k = "Tx" -> CTx(P, s, e) [] e.k = "Rsp" -> CRsp(P, s, e) [] e.k = "Setup" -> CSetup(P, s, e)
                    [] e.k = "Conn" -> CConn(P, s, e) [] e.k = "EndC" -> CEnd(P, s, e) [] e.k = "Clcc" -> CClcc(P, s, e) [] e.k = "Ring" -> CRing(P, s, e)
                    [] e.k = "RingCb" -> CRingCb(P, s, e) [] e.k = "Cb" -> CCb(P, s, e) [] e.k = "Ret" -> CRet(P, s, e) [] e.k = "Done" -> CDone(P, s, e)
                    [] e.k = "Exc" -> CExc(P, s, e) [] e.k = "Look" -> CLook(P, s, e) [] e.k = "End" -> CFinal(s) [] OTHER -> Ok(s, {"unexpected-event " \o e.k})
SStep(P, s, e) == CStep(P, s, e)
=============================================================================
