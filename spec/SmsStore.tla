------------------------------ MODULE SmsStore ------------------------------
(* The message storages of the modem, what the library does with announced messages, and the user's storage operations.
   P: text mode or not, number of user threads, nostat (the modem does not tell the status of a message it reads out).
   The state is the content of the storages, the selected one, the announcements not dealt with yet, the messages for which the
   callback is due, the replies to received messages not sent yet, and per user thread the operation in progress. *)
EXTENDS ModemCmd
G == INSTANCE Sms
Op0 == [op |-> "", status |-> 0, mem |-> "", i |-> 0, del |-> FALSE, flag |-> 0, want |-> {}, listed |-> FALSE, got |-> <<>>, idx |-> {}, err |-> "", bad |-> FALSE, cb |-> <<>>, done |-> FALSE]
Quiet == [ph |-> "none", t |-> 0, c |-> ""]
SInit(P) == [th |-> [t \in 1..P.threads |-> Op0], ex |-> Quiet, sel |-> P.sel, box |-> {}, n |-> 0, pend |-> {}, due |-> <<>>, rp |-> {}]
RECURSIVE Lead(_)
Lead(x) == IF x # "" /\ Dig(SubSeq(x, 1, 1)) >= 0 THEN SubSeq(x, 1, 1) \o Lead(SubSeq(x, 2, Len(x))) ELSE ""
Rest(x, k) == SubSeq(x, k, Len(x))
IsRead(c) == Starts(c, "AT+CMGR=")
IsDel(c) == Starts(c, "AT+CMGD=")
IsList(c) == Starts(c, "AT+CMGL=")
IsSel(c) == Starts(c, "AT+CPMS=\"")
Place(c) == Num(Lead(Rest(c, 9)))
OneDel(c) == LET j == ToString(Place(c)) IN c = "AT+CMGD=" \o j \/ c = "AT+CMGD=" \o j \o ",0"
Entry(s, mem, i) == {x \in s.box : x.mem = mem /\ x.i = i}
StatName == <<"\"REC UNREAD\"", "\"REC READ\"", "\"STO UNSENT\"", "\"STO SENT\"", "\"ALL\"">>
ListCmd(P, status) == "AT+CMGL=" \o (IF P.text THEN StatName[status + 1] ELSE ToString(status))
(* what of an entry can be presented, and how *)
Decodable(m) == m.kind \in {"deliver", "report"}
Shown(m, status) == [kind |-> m.kind, status |-> status, num |-> m.num, text |-> m.text, time |-> m.time, ref |-> m.ref, st |-> m.st, dis |-> m.dis, smsc |-> m.smsc]
(* the status presented with a message read on its own: a text-mode message header always has one *)
Stat(P, x) == IF P.nostat /\ (~P.text \/ x.m.kind = "report") THEN 0 ELSE x.stat
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y.i <= z.i IN <<x>> \o Ordered(S \ {x})
RECURSIVE ShownAll(_)
ShownAll(q) == IF q = <<>> THEN <<>> ELSE <<Shown(q[1].m, q[1].stat)>> \o ShownAll(Tail(q))
InState(s, status) == {x \in s.box : x.mem = s.sel /\ (status = 4 \/ x.stat = status)}
(* a report has no text-mode listing the library knows *)
Listed(P, s, status) == {x \in InState(s, status) : Decodable(x.m) /\ (P.text => x.m.kind = "deliver")}
Touched(x) == [x EXCEPT !.stat = IF @ = 0 THEN 1 ELSE @]
Gone(flag) == CASE flag = 1 -> {1} [] flag = 2 -> {1, 3} [] flag = 3 -> {1, 2, 3} [] OTHER -> {0, 1, 2, 3}

Put(P, s, e) == LET x == [mem |-> e.mem, i |-> e.i, m |-> e.m, stat |-> e.stat, id |-> s.n + 1, seen |-> FALSE, kept |-> FALSE] IN
  Ok([s EXCEPT !.n = @ + 1, !.box = (@ \ Entry(s, e.mem, e.i)) \cup {x},
               !.pend = IF e.ann THEN @ \cup {[mem |-> e.mem, i |-> e.i, id |-> s.n + 1, tried |-> FALSE, done |-> FALSE]} ELSE @], {})
(* ---- user operations ---- *)
Op(P, s, e) ==
  Ok([s EXCEPT !.th[e.t] = [Op0 EXCEPT !.op = e.op, !.status = e.status, !.mem = e.mem, !.i = e.i, !.del = e.del, !.flag = e.flag,
                                       !.want = CASE e.op = "list" -> {e.status} [] e.op = "process" -> IF e.status = 0 THEN {0} ELSE {0, 1} [] OTHER -> {}]],
     Cl("thread-idle", s.th[e.t].op = ""))
InStorage(s, r) == Cl("in-the-storage-asked-for", r.mem = "" \/ s.sel = r.mem)
UserTx(P, s, t, c) == LET r == s.th[t] IN
  Cl("nothing-after-error", r.err = "")
  \cup (CASE r.op = "" -> {"unasked-command"}
          [] IsSel(c) -> Cl("selects-storage-asked-for", r.mem # "" /\ c = "AT+CPMS=\"" \o r.mem \o "\"")
          [] IsRead(c) -> Cl("reads-place-asked-for", r.op = "read" /\ c = "AT+CMGR=" \o ToString(r.i)) \cup InStorage(s, r)
          [] IsList(c) -> Cl("lists-state-asked-for", \E w \in r.want : c = ListCmd(P, w)) \cup InStorage(s, r)
          [] IsDel(c) ->
               IF r.op = "del" THEN Cl("deletes-place-asked-for", OneDel(c) /\ Place(c) = r.i) \cup InStorage(s, r)
               ELSE IF r.op = "delmulti" THEN Cl("deletes-kind-asked-for", r.flag \in 1..4 /\ c = "AT+CMGD=1," \o ToString(r.flag)) \cup InStorage(s, r)
               ELSE IF r.op = "list" /\ r.del /\ r.status = 4 /\ ~OneDel(c) THEN Cl("deletes-after-listing", r.listed /\ c = "AT+CMGD=1,4") \cup InStorage(s, r)
               ELSE Cl("deletes-only-what-was-returned", (r.del \/ r.op = "process") /\ OneDel(c) /\ \E x \in r.idx : x.i = Place(c) /\ x.mem = s.sel
                                                          /\ \A y \in Entry(s, s.sel, Place(c)) : y.id = x.id)
          [] OTHER -> {"unexpected-command"})
(* ---- the library's own commands ---- *)
OwnTx(P, s, c) ==
  CASE IsSel(c) -> {}
    [] IsRead(c) -> Cl("reads-announced-place", \E x \in s.pend : x.mem = s.sel /\ x.i = Place(c) /\ ~x.done)
    [] IsDel(c) -> Cl("deletes-one", OneDel(c)) \cup Cl("deletes-only-after-reading", \A x \in Entry(s, s.sel, Place(c)) : x.seen)
                   \cup Cl("deletes-announced-place", \E x \in s.pend : x.mem = s.sel /\ x.i = Place(c) /\ x.done)
    [] OTHER -> {"unexpected-command"}
(* ---- replies to received messages (thread 0: from the callbacks, of which several can be busy at once) ---- *)
Reply1(P, s, e) == Ok([s EXCEPT !.rp = @ \cup {[t |-> e.t, id |-> e.id, num |-> e.num, numstr |-> e.numstr, text |-> e.text, raw |-> e.raw, got |-> <<>>, done |-> FALSE]}], {})
Announces(r) == "AT+CMGS=\"" \o r.numstr \o "\""
Sending == {"ann", "prompt", "body"}
RpAnnounce(P, s, e) ==
  Ok([s EXCEPT !.ex = [ph |-> "ann", t |-> e.t, c |-> e.c]],
     Cl("sends-replies-only", \E r \in s.rp : r.t = e.t /\ ~r.done /\ (P.text => e.c = Announces(r))) \cup Cl("interleaved", s.ex.ph \notin Sending))
RpBody(P, s, e) ==
  IF ~(s.ex.ph = "prompt" /\ s.ex.t = e.t) THEN Ok(s, {"body-without-prompt"})
  ELSE LET p == IF P.text THEN [st |-> "text"] ELSE IF e.hex THEN G!Parse(e.o) ELSE [st |-> "nohex"]
           more(r, x) == Starts(r.text, r.got \o x)
           fits(r) == r.t = e.t /\ ~r.done
                      /\ (IF P.text THEN e.c = r.raw /\ s.ex.c = Announces(r)
                          ELSE p.st = "ok" /\ p.mti = 1 /\ r.num \in p.addr /\ \E x \in p.ud.texts : more(r, x))
           q == {r \in s.rp : fits(r)} IN
    IF q = {} THEN Ok(s, {"reply-to-the-sender"})
    ELSE LET r == CHOOSE y \in q : TRUE
             x == IF P.text THEN r.text ELSE CHOOSE y \in p.ud.texts : more(r, y) IN
         Ok([s EXCEPT !.ex.ph = "body", !.rp = (@ \ {r}) \cup {[r EXCEPT !.got = @ \o x, !.done = (r.got \o x) = r.text]}],
            Cl("ends-with-ctrl-z", e.term = "^Z") \cup Cl("announced-length", P.text \/ s.ex.c = "AT+CMGS=" \o ToString(p.tpdu)))
Replied(P, s, e) == LET q == {r \in s.rp : r.id = e.id} IN
  Ok([s EXCEPT !.rp = @ \ q], Cl("reply-sent", \A r \in q : r.done) \cup Cl("reply-result", \A r \in q : e.num = r.num /\ e.text = r.text))
\* the library tries to delete a message it has read: if the modem refuses, or does not answer, the message stays
Trying(s, t, c, yes) == IF t = 0 /\ IsDel(c) THEN LET m == Entry(s, s.sel, Place(c)) IN (s.box \ m) \cup {[x EXCEPT !.kept = yes] : x \in m} ELSE s.box
Tx1(P, s, e) ==
  IF e.term # "^M" THEN RpBody(P, s, e)
  ELSE IF Starts(e.c, "AT+CMGS=") THEN RpAnnounce(P, s, e)
  ELSE IF s.ex.ph \in Sending THEN Ok(s, {"interleaved"})
  ELSE Ok([s EXCEPT !.ex = [ph |-> "cmd", t |-> e.t, c |-> e.c], !.box = Trying(s, e.t, e.c, TRUE)],
     Cl("command-line", e.term = "^M") \cup (IF e.t = 0 THEN OwnTx(P, s, e.c) ELSE UserTx(P, s, e.t, e.c)))
OwnRsp(P, s, c, ok) ==
  CASE IsRead(c) ->
         LET q == {x \in s.pend : x.mem = s.sel /\ x.i = Place(c) /\ ~x.done}
             m == Entry(s, s.sel, Place(c))
             \* the announcement of the message that is there now, or of one that is not any more
             live == {x \in q : \E y \in m : y.id = x.id}
             best == IF live # {} THEN live ELSE q
             \* of those that could be meant, one not tried before
             p == CHOOSE x \in (IF ok THEN best ELSE q) : x.tried = (\A z \in (IF ok THEN best ELSE q) : z.tried) IN
         IF ~ok THEN [s EXCEPT !.pend = (@ \ {p}) \cup {[p EXCEPT !.tried = TRUE]}]
         ELSE LET x == CHOOSE y \in m : TRUE s1 == [s EXCEPT !.pend = (@ \ {p}) \cup {[p EXCEPT !.tried = TRUE, !.done = TRUE]}] IN
              IF m = {} THEN s1
              ELSE [s1 EXCEPT !.box = (@ \ m) \cup {[Touched(x) EXCEPT !.seen = Decodable(x.m)]},
                              !.due = IF x.m.kind = "deliver" THEN Append(@, Shown(x.m, Stat(P, x))) ELSE @]
    \* a storage that cannot be selected: its messages cannot be read
    [] IsSel(c) -> IF ok THEN s ELSE [s EXCEPT !.pend = {IF c = "AT+CPMS=\"" \o x.mem \o "\"" THEN [x EXCEPT !.tried = TRUE] ELSE x : x \in @}]
    [] IsDel(c) -> LET m == Entry(s, s.sel, Place(c)) IN
         IF ok THEN [s EXCEPT !.box = @ \ m] ELSE [s EXCEPT !.box = (@ \ m) \cup {[x EXCEPT !.kept = TRUE] : x \in m}]
    [] OTHER -> s
UserRsp(P, s, t, c) == LET r == s.th[t] IN
  CASE IsRead(c) -> LET m == Entry(s, s.sel, Place(c)) x == CHOOSE y \in m : TRUE IN
         IF m = {} THEN [s EXCEPT !.th[t].bad = TRUE, !.th[t].done = TRUE]
         ELSE [s EXCEPT !.box = (@ \ m) \cup {Touched(x)}, !.th[t].done = TRUE, !.th[t].bad = ~Decodable(x.m),
                        !.th[t].got = <<Shown(x.m, Stat(P, x))>>]
    [] IsList(c) -> LET w == CHOOSE v \in r.want : c = ListCmd(P, v) L == Listed(P, s, w) q == Ordered(L) IN
         [s EXCEPT !.box = {IF x \in InState(s, w) THEN Touched(x) ELSE x : x \in @},
                   !.th[t].want = @ \ {w}, !.th[t].listed = TRUE, !.th[t].got = @ \o ShownAll(q), !.th[t].idx = @ \cup L,
                   !.th[t].cb = IF r.op = "process" THEN @ \o ShownAll(q) ELSE @]
    [] IsDel(c) -> IF OneDel(c) THEN [s EXCEPT !.box = @ \ Entry(s, s.sel, Place(c)), !.th[t].idx = {x \in @ : ~(x.mem = s.sel /\ x.i = Place(c))}, !.th[t].done = TRUE]
                   ELSE [s EXCEPT !.box = {x \in @ : ~(x.mem = s.sel /\ x.stat \in Gone(Num(Rest(c, 11))))}, !.th[t].idx = {}, !.th[t].done = TRUE]
    [] OTHER -> s
Rsp1(P, s, e) ==
  LET x == s.ex line == IF e.l = <<>> THEN "" ELSE Last(e.l) quiet == [s EXCEPT !.ex = Quiet] IN
  IF x.ph = "none" THEN Ok(s, {})
  ELSE IF x.ph \in Sending THEN (IF x.ph = "ann" /\ line = "> " THEN Ok([s EXCEPT !.ex.ph = "prompt"], {}) ELSE Ok(quiet, {}))
  ELSE IF e.final /\ Busy(line) THEN Ok([quiet EXCEPT !.box = Trying(s, x.t, x.c, FALSE)], {})
  ELSE LET good == e.final /\ Kind(line) = "OK" IN
    IF x.t = 0 THEN Ok(OwnRsp(P, quiet, x.c, good), {})
    ELSE IF good THEN Ok(UserRsp(P, quiet, x.t, x.c), {})
    ELSE Ok([quiet EXCEPT !.th[x.t].err = IF e.final THEN line ELSE "silent"], {})
(* ---- results ---- *)
Idle1(s, t) == [s EXCEPT !.th[t] = Op0]
Ret1(P, s, e) == LET r == s.th[e.t] IN
  Ok(Idle1(s, e.t),
     Cl("error-reported", r.err = "" /\ ~r.bad)
     \cup (CASE r.op = "list" -> Cl("listing", e.l = r.got) \cup Cl("listed", r.listed) \cup Cl("all-returned-deleted", r.del => r.idx = {})
             [] r.op = "read" -> Cl("reading", e.l = r.got) \cup Cl("done", r.done)
             [] r.op = "process" -> Cl("processed-all", r.want = {} /\ r.cb = <<>>) \cup Cl("processed-deleted", r.idx = {})
             [] OTHER -> Cl("done", r.done)))
Exc1(P, s, e) == LET r == s.th[e.t] mro == Rng(e.x.mro) IN
  Ok(Idle1(s, e.t),
     CASE r.op = "delmulti" /\ r.flag \notin 1..4 -> Cl("value-error", "ValueError" \in mro)
       [] r.err = "silent" -> Cl("timeout-error", "TimeoutException" \in mro)
       [] r.err # "" -> ErrorAs(r.err, IF Kind(r.err) = "PLAIN" THEN "" ELSE e.x.cmd, e.x)
       [] r.bad -> Cl("error-type", mro \cap {"CommandError", "EncodingError"} # {})
       [] OTHER -> {"error-from-success"})
RemoveAt1(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Sms1(P, s, e) ==
  LET due == IF e.t = 0 THEN s.due ELSE s.th[e.t].cb
      q == {i \in 1..Len(due) : due[i] = e.m} IN
  IF q = {} THEN Ok(s, {"callback-for-no-message"})
  ELSE LET i == CHOOSE j \in q : \A k \in q : j <= k IN
       IF e.t = 0 THEN Ok([s EXCEPT !.due = RemoveAt1(@, i)], {}) ELSE Ok([s EXCEPT !.th[e.t].cb = RemoveAt1(@, i)], {})
Contents(q) == {[mem |-> x.mem, i |-> x.i] : x \in q}
End(P, s, e) ==
  Ok(s, Cl("every-operation-ends", \A t \in DOMAIN s.th : s.th[t].op = "")
        \cup Cl("every-announcement-handled", \A x \in s.pend : x.tried)
        \cup Cl("callback-missing", s.due = <<>>)
        \cup Cl("every-reply-sent", s.rp = {})
        \cup Cl("read-but-not-deleted", \A x \in s.box : x.seen => x.kept)
        \cup Cl("storage-as-expected", Contents(s.box) = {[mem |-> e.left[i].mem, i |-> e.left[i].i] : i \in 1..Len(e.left)}))
SStep(P, s, e) ==
  CASE e.k = "Put" -> Put(P, s, e) [] e.k = "Sel" -> Ok([s EXCEPT !.sel = e.mem], {}) [] e.k = "Op" -> Op(P, s, e) [] e.k = "Tx" -> Tx1(P, s, e)
    [] e.k = "Rsp" -> Rsp1(P, s, e) [] e.k = "Ret" -> Ret1(P, s, e) [] e.k = "Exc" -> Exc1(P, s, e) [] e.k = "Sms" -> Sms1(P, s, e)
    [] e.k = "Reply" -> Reply1(P, s, e) [] e.k = "Replied" -> Replied(P, s, e) [] e.k = "ReplyExc" -> Ok(s, {"reply-failed"})
    [] e.k = "End" -> End(P, s, e) [] OTHER -> Ok(s, {"unexpected-event " \o e.k})
=============================================================================
