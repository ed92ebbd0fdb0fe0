------------------------------ MODULE SmsSend ------------------------------
(* Sending messages and their delivery reports.  P: text mode or not, number of user threads, memory selected at the start.
   The state is what every sender has got done, the exchange in progress on the line, the reports stored in the modem, the
   messages sent so far with their status, and the callbacks that are due. *)
EXTENDS ModemCmd
G == INSTANCE Sms
Range1(q) == {q[i] : i \in 1..Len(q)}
Idle1 == [st |-> "idle", id |-> 0, dest |-> <<>>, deststr |-> "", text |-> <<>>, raw |-> "", flash |-> FALSE, wait |-> FALSE, dtmo |-> 0, n |-> 0, k |-> 0,
          refs |-> <<>>, err |-> "", cand |-> {}, tpmr |-> 0 - 1, got |-> <<>>, part |-> <<>>, acc |-> 0, claimed |-> FALSE, cat |-> 0, rst |-> 0, accn |-> 0]
Quiet == [ph |-> "none", t |-> 0, len |-> 0, c |-> ""]
SInit(P) == [th |-> [t \in 1..P.threads |-> Idle1], ex |-> Quiet, mr |-> {[v |-> 0, id |-> 0, ret |-> 1]}, n |-> 1, sel |-> P.sel, store |-> {}, sent |-> <<>>, due |-> <<>>]
Succ(ref) == (ref + 1) % 256
(* The number for the next message is one after the reference of the last message accepted.  Where two sends overlap either may be
   the last: a candidate goes when a message accepted after the candidate's sender had returned has itself been returned. *)
Numbers(s) == {x.v : x \in s.mr}
RECURSIVE Trim(_)
Trim(x) == IF x # "" /\ SubSeq(x, 1, 1) = " " THEN Trim(SubSeq(x, 2, Len(x))) ELSE x
RECURSIVE Lead(_)
Lead(x) == IF x # "" /\ Dig(SubSeq(x, 1, 1)) >= 0 THEN SubSeq(x, 1, 1) \o Lead(SubSeq(x, 2, Len(x))) ELSE ""
AckLines(l) == {i \in 1..Len(l) : Starts(l[i], "+CMGS:")}
RefOf(line) == Num(Lead(Trim(SubSeq(line, 7, Len(line)))))
Upd(s, t, r) == [s EXCEPT !.th[t] = r]
Sending(s, t) == t # 0 /\ s.th[t].st = "sending"

Send(P, s, e) ==
  Ok(Upd(s, e.t, [Idle1 EXCEPT !.st = "sending", !.id = e.id, !.dest = e.dest, !.deststr = e.deststr, !.text = e.text, !.raw = e.raw, !.flash = e.flash,
                               !.wait = e.wait, !.dtmo = e.dtmo, !.n = IF P.text THEN P.parts ELSE G!PartsNeeded(e.text), !.cand = Numbers(s)]),
     Cl("thread-idle", s.th[e.t].st = "idle"))
(* ---- what goes over the line ---- *)
Announce(P, s, e) ==
  LET r == s.th[e.t] IN
  Ok([s EXCEPT !.ex = [ph |-> "ann", t |-> e.t, len |-> Num(SubSeq(e.c, 9, Len(e.c))), c |-> e.c]],
     Cl("announced-after-error", r.err = "") \cup Cl("too-many-parts", r.k < r.n)
     \cup (IF P.text THEN Cl("announced-destination", e.c = "AT+CMGS=\"" \o r.deststr \o "\"") ELSE {}))
Sms1(r, o, len) ==
  LET p == G!Parse(o) d == G!Dcs(p.dcs) IN
  IF p.st # "ok" \/ p.mti # 1 THEN {"well-formed-message"}
  ELSE Cl("announced-length", p.tpdu = len) \cup Cl("destination", r.dest \in p.addr) \cup Cl("message-number", p.ref \in r.cand)
       \cup Cl("same-number-in-all-parts", r.tpmr < 0 \/ p.ref = r.tpmr)
       \cup Cl("status-report-request", (p.first \div 32) % 2 = 1)
       \cup Cl("class", d.class = IF r.flash THEN 0 ELSE 9)
       \cup (IF r.n = 1 THEN Cl("single-part", p.ud.ies = <<>>)
             ELSE Cl("part-in-order", Len(p.ud.ies) = 1 /\ p.ud.ies[1].id \in {0, 8}
                                      /\ LET c == G!Concat(p.ud.ies[1]) IN c.parts = r.n /\ c.number = r.k + 1))
BodyTx(P, s, e) ==
  LET t == e.t IN
  IF ~(s.ex.ph = "prompt" /\ s.ex.t = t /\ Sending(s, t)) THEN Ok(s, {"body-without-prompt"})
  ELSE LET r == s.th[t] p == IF P.text THEN [st |-> "text"] ELSE IF e.hex THEN G!Parse(e.o) ELSE [st |-> "nohex"] IN
    Ok([s EXCEPT !.ex.ph = "body",
                 !.th[t].part = IF p.st = "ok" /\ p.ud.texts # {} THEN CHOOSE x \in p.ud.texts : TRUE ELSE <<>>,
                 !.th[t].tpmr = IF p.st = "ok" THEN p.ref ELSE @],
       IF P.text THEN Cl("text-as-given", e.c = r.raw) \cup Cl("ends-with-ctrl-z", e.term = "^Z")
       ELSE Cl("ends-with-ctrl-z", e.term = "^Z") \cup Cl("hexadecimal", e.hex) \cup (IF e.hex THEN Sms1(r, e.o, s.ex.len) ELSE {}))
(* ---- reports ---- *)
At1(s, i) == {x \in s.store : x.mem = s.sel /\ x.i = i}
Reading(c) == IF Starts(c, "AT+CMGR=") THEN Num(SubSeq(c, 9, Len(c))) ELSE 0 - 1
Deleting(c) == IF ~Starts(c, "AT+CMGD=") THEN 0 - 1 ELSE Num(Lead(SubSeq(c, 9, Len(c))))
Command(P, s, e) ==
  LET i == Reading(e.c) j == Deleting(e.c) IN
  Ok([s EXCEPT !.ex = [ph |-> "cmd", t |-> e.t, len |-> 0, c |-> e.c]],
     (IF i >= 0 THEN Cl("read-announced-place", At1(s, i) # {}) \cup Cl("read-once", \A x \in At1(s, i) : ~x.read) ELSE {})
     \cup (IF j >= 0 THEN Cl("delete-after-reading", At1(s, j) # {} /\ \A x \in At1(s, j) : x.read)
                          \cup Cl("delete-one", e.c = "AT+CMGD=" \o ToString(j) \/ e.c = "AT+CMGD=" \o ToString(j) \o ",0") ELSE {}))
Tx1(P, s, e) ==
  IF e.term # "^M" THEN BodyTx(P, s, e)
  ELSE IF s.ex.ph # "none" /\ ~(Sending(s, s.ex.t) /\ s.th[s.ex.t].err = "silent") THEN Ok(s, {"interleaved"})
  ELSE IF Starts(e.c, "AT+CMGS=") THEN (IF Sending(s, e.t) THEN Announce(P, s, e) ELSE Ok(s, {"sent-unasked"}))
  ELSE Command(P, s, e)
(* the latest message with that reference, if anybody still has it *)
Newest(s, ref) == LET q == {i \in 1..Len(s.sent) : s.sent[i].ref = ref} IN
                  IF q = {} THEN 0 ELSE LET i == CHOOSE k \in q : \A j \in q : j <= k IN IF s.sent[i].held THEN i ELSE 0
Outcome(st) == IF st = 0 THEN 1 ELSE 2
ReportRead(s, x, at) ==
  LET i == Newest(s, x.ref)
      w == IF i = 0 THEN {} ELSE {t \in DOMAIN s.th : s.th[t].st = "acked" /\ s.th[t].wait /\ s.th[t].id = s.sent[i].id /\ ~s.th[t].claimed}
      s1 == [s EXCEPT !.store = (@ \ {x}) \cup {[x EXCEPT !.read = TRUE]},
                      !.sent = IF i = 0 THEN @ ELSE [@ EXCEPT ![i].st = Outcome(x.st)]] IN
  IF w # {} THEN LET t == CHOOSE u \in w : TRUE IN [s1 EXCEPT !.th[t].claimed = TRUE, !.th[t].cat = at, !.th[t].rst = x.st]
  ELSE [s1 EXCEPT !.due = Append(@, [ref |-> x.ref, st |-> x.st, must |-> TRUE])]
Acked(s, t, ref, at) ==
  LET r == s.th[t] done == r.k + 1 = r.n
      r1 == [r EXCEPT !.k = @ + 1, !.refs = Append(@, ref), !.got = @ \o r.part, !.st = IF done THEN "acked" ELSE @, !.acc = at, !.accn = s.n + 1]
      s1 == [s EXCEPT !.ex = Quiet, !.th[t] = r1,
                      !.sent = IF done THEN Append(@, [id |-> r.id, ref |-> ref, st |-> 0, held |-> TRUE]) ELSE @] IN
  IF done THEN [s1 EXCEPT !.n = @ + 1, !.mr = @ \cup {[v |-> Succ(ref), id |-> r.id, ret |-> 0]}, !.th = [u \in DOMAIN s1.th |-> [s1.th[u] EXCEPT !.cand = @ \cup {Succ(ref)}]]] ELSE s1
Rsp1(P, s, e) ==
  LET x == s.ex t == x.t line == IF e.l = <<>> THEN "" ELSE Last(e.l) quiet == [s EXCEPT !.ex = Quiet] IN
  CASE x.ph = "ann" ->
         IF line = "> " THEN Ok([s EXCEPT !.ex.ph = "prompt"], {})
         ELSE IF ~e.final THEN Ok([s EXCEPT !.th[t].err = "silent"], {})
         ELSE IF Busy(line) THEN Ok(quiet, {})
         ELSE Ok([quiet EXCEPT !.th[t].err = IF Kind(line) = "OK" THEN "unprompted" ELSE line], {})
    [] x.ph = "body" ->
         IF ~e.final THEN Ok([s EXCEPT !.th[t].err = "silent"], {})
         ELSE IF Busy(line) THEN Ok(quiet, {})
         ELSE IF Kind(line) # "OK" THEN Ok([quiet EXCEPT !.th[t].err = line], {})
         ELSE IF AckLines(e.l) = {} THEN Ok([quiet EXCEPT !.th[t].err = "unacknowledged"], {})
         ELSE Ok(Acked(s, t, RefOf(e.l[CHOOSE i \in AckLines(e.l) : TRUE]), e.at), {})
    [] x.ph = "cmd" ->
         IF ~e.final THEN Ok(s, {})
         ELSE IF Kind(line) # "OK" THEN Ok(quiet, {})
         ELSE IF Starts(x.c, "AT+CPMS=\"") THEN Ok([quiet EXCEPT !.sel = SubSeq(x.c, 10, 11)], {})
         ELSE IF Reading(x.c) >= 0 /\ At1(s, Reading(x.c)) # {} THEN Ok(ReportRead(quiet, CHOOSE y \in At1(s, Reading(x.c)) : TRUE, e.at), {})
         ELSE IF Deleting(x.c) >= 0 THEN Ok([quiet EXCEPT !.store = @ \ At1(s, Deleting(x.c))], {})
         ELSE Ok(quiet, {})
    [] OTHER -> Ok(s, {})
Rep(P, s, e) == Ok([s EXCEPT !.store = {y \in @ : ~(y.mem = e.mem /\ y.i = e.i)} \cup {[mem |-> e.mem, i |-> e.i, ref |-> e.ref, st |-> e.st, read |-> FALSE, fail |-> e.fail]}], {})
Cb(P, s, e) ==
  LET q == {i \in 1..Len(s.due) : s.due[i].ref = e.ref /\ s.due[i].st = e.st} IN
  IF q = {} THEN Ok(s, {"report-nobody-should-get"})
  ELSE LET i == CHOOSE j \in q : \A m \in q : j <= m IN Ok([s EXCEPT !.due = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))], {})
(* ---- what the sender gets ---- *)
EntryOf(s, id) == CHOOSE i \in 1..Len(s.sent) : s.sent[i].id = id
Settled(s, t) == LET r == s.th[t] IN
  [s EXCEPT !.n = @ + 1, !.mr = {IF x.id = r.id THEN [x EXCEPT !.ret = s.n + 1] ELSE x : x \in {y \in s.mr : y.ret = 0 \/ y.ret >= r.accn}}]
Done1(s, t) == [s EXCEPT !.th[t] = Idle1, !.ex = IF @.t = t THEN Quiet ELSE @]
Ret1(P, s, e) ==
  LET t == e.t r == s.th[t] IN
  IF r.st # "acked" THEN Ok(Done1(s, t), {"returned-without-acknowledgement"})
  ELSE LET en == s.sent[EntryOf(s, r.id)] IN
    Ok(Done1(Settled(s, t), t),
       Cl("reference", e.ref = Last(r.refs)) \cup Cl("same-destination", e.dest = r.dest) \cup Cl("same-text", e.text = r.text)
       \cup Cl("whole-text-sent", P.text \/ r.got = r.text)
       \cup Cl("line-left-in-order", s.ex.t # t)
       \cup (IF r.wait THEN Cl("waited-for-report", r.claimed) \cup Cl("status", r.claimed => e.status \in {Outcome(r.rst), en.st}) \cup Cl("returned-late", r.claimed => e.at <= r.cat + P.late)
             ELSE Cl("status", e.status \in {0, en.st})))
Exc1(P, s, e) ==
  LET t == e.t r == s.th[t] mro == Rng(e.x.mro)
      s1 == [Done1(s, t) EXCEPT !.n = @ + 1, !.mr = @ \cup {[v |-> Succ(r.refs[i]), id |-> r.id, ret |-> s.n + 1] : i \in 1..Len(r.refs)}] IN
  CASE r.st = "sending" ->
         Ok(s1, CASE r.err = "" -> {"error-from-success"}
                  [] r.err = "silent" -> Cl("timeout-error", "TimeoutException" \in mro)
                  [] r.err \in {"unprompted", "unacknowledged"} -> Cl("command-error", "CommandError" \in mro /\ mro \cap {"CmeError", "CmsError"} = {})
                  [] OTHER -> ErrorAs(r.err, IF Kind(r.err) = "PLAIN" THEN "" ELSE e.x.cmd, e.x))
    [] r.st = "acked" ->
         Ok([[Done1(Settled(s, t), t) EXCEPT !.sent[EntryOf(s, r.id)].held = FALSE] EXCEPT
               !.due = IF r.claimed THEN Append(@, [ref |-> Last(r.refs), st |-> r.rst, must |-> FALSE]) ELSE @],
            Cl("error-after-acceptance", "TimeoutException" \in mro /\ r.wait)
            \cup Cl("timed-out-early", e.at >= r.acc + r.dtmo)
            \cup Cl("timed-out-late", e.at <= r.acc + r.dtmo + 1500)
            \cup Cl("report-came-in-time", r.claimed => r.cat + P.late >= r.acc + r.dtmo))
    [] OTHER -> Ok(s1, {"unexpected-event"})
Drop(P, s, e) == Ok([s EXCEPT !.sent[EntryOf(s, e.id)].held = FALSE], {})
Obs(P, s, e) == Ok(s, Cl("status-follows-report", e.status = s.sent[EntryOf(s, e.id)].st))
End(P, s, e) ==
  Ok(s, Cl("every-send-ends", \A t \in DOMAIN s.th : s.th[t].st = "idle")
        \cup Cl("report-callback-missing", \A i \in 1..Len(s.due) : ~s.due[i].must)
        \cup Cl("every-report-read", \A x \in s.store : x.fail)
        \cup Cl("line-left-in-order", s.ex.ph = "none"))
SStep(P, s, e) ==
  CASE e.k = "Send" -> Send(P, s, e) [] e.k = "Tx" -> Tx1(P, s, e) [] e.k = "Rsp" -> Rsp1(P, s, e) [] e.k = "Ret" -> Ret1(P, s, e) [] e.k = "Exc" -> Exc1(P, s, e)
    [] e.k = "Rep" -> Rep(P, s, e) [] e.k = "Cb" -> Cb(P, s, e) [] e.k = "Drop" -> Drop(P, s, e) [] e.k = "Obs" -> Obs(P, s, e)
    [] e.k = "CmdEnd" -> Ok([s EXCEPT !.ex = IF @.t = e.t /\ @.ph = "cmd" THEN Quiet ELSE @], {})
    [] e.k = "End" -> End(P, s, e) [] OTHER -> Ok(s, {"unexpected-event " \o e.k})
=============================================================================
