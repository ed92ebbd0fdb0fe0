------------------------------ MODULE MCCalls ------------------------------
(* The call algorithm (one dial at a time, calls registered by the reader thread or by the thread polling for them, state checked when
   it is the command's turn, identifiers of incoming calls chosen among those not in use) composed with Calls: whatever the modem reports
   and however the threads interleave, every event is one Calls allows, and in the end all is told.
   Broken names a variant that must not pass: "lateregister" (a call is registered when dial() returns), "nolock" (several dials at a
   time), "stalecheck" (the state is checked before it
   is our turn), "nodedup" (every ring is a call), "firstcall" (reports are taken for the first outgoing call), "keepended" (ended calls
   stay registered), "idclash" (identifiers chosen by counting), "pollforever" (polling does not end with the call), "pollall" (any
   outgoing call in the list is taken for the new one). *)
EXTENDS Calls
CONSTANTS Fam, N, Ops, Rings, Ticks, Broken, Kinds
VARIABLES p, dl, tx, line, dev, lib, q, mod, pend, pol, cbs, now, s, bad, left, rl
mcv == <<p, dl, tx, line, dev, lib, q, mod, pend, pol, cbs, now, s, bad, left, rl>>
T == 1..N
Step0 == 500
Tmo == 1000
Pr == [fam |-> Fam, threads |-> N, slack |-> 0, dtmf |-> "+VTS="]
P0 == [pc |-> "idle", op |-> "", o |-> 0, num |-> "", rat |-> 0, ok |-> TRUE]
NoDev == [own |-> 0, set |-> FALSE, call |-> 0]
Init == /\ p = [t \in T |-> P0] /\ dl = 0 /\ tx = 0 /\ line = FALSE /\ dev = NoDev /\ lib = <<>> /\ q = <<>> /\ mod = {} /\ pend = "" /\ pol = {} /\ cbs = <<>>
        /\ now = 0 /\ s = SInit(Pr) /\ bad = {} /\ left = Ops /\ rl = Rings
Ev(e) == LET r == CStep(Pr, s, e) IN s' = r.s /\ bad' = bad \cup r.bad
Ev2(e, f) == LET r == CStep(Pr, s, e) r2 == CStep(Pr, r.s, f) IN s' = r2.s /\ bad' = bad \cup r.bad \cup r2.bad
NoE == UNCHANGED <<s, bad>>
Go(t, r) == p' = [p EXCEPT ![t] = r]
Pc(t, x) == p' = [p EXCEPT ![t].pc = x]
OpE(t, op, o, num) == [k |-> "Op", t |-> t, op |-> op, o |-> o, num |-> num, tones |-> <<"1">>, tmo |-> Tmo, cb |-> TRUE, at |-> now]
TxE(t, c) == [k |-> "Tx", t |-> t, c |-> c, term |-> "^M", at |-> now]
RspE(x) == [k |-> "Rsp", l |-> <<x>>, at |-> now, final |-> TRUE]
ExcE(t, cls, cmd) == [k |-> "Exc", t |-> t, x |-> [mro |-> <<cls>>, code |-> 0 - 1, type |-> "", cmd |-> cmd, cause |-> "", causecode |-> 0 - 1], at |-> now]
Snap(c) == [id |-> c.id, num |-> c.num, active |-> c.act, answered |-> c.ans, type |-> 0, tname |-> "", inc |-> c.k = "in", ringing |-> c.ringing, rings |-> c.rings, ton |-> ""]
Cmd(t) == CASE p[t].op = "dial" -> "ATD" \o p[t].num \o ";" [] p[t].op = "hangup" -> "ATH" [] p[t].op = "answer" -> "ATA" [] OTHER -> "AT+VTS=1"
ONum(i) == IF lib[i].o = 0 THEN Len(s.obj) + 1 ELSE lib[i].o
See(l, i) == IF l[i].o = 0 THEN [l EXCEPT ![i].o = Len(s.obj) + 1] ELSE l
Reg(l) == {i \in 1..Len(l) : l[i].reg}
Ids(l) == {l[i].id : i \in Reg(l)}
FreeId(S) == CHOOSE x \in 1..20 : x \notin S /\ \A y \in 1..20 : y \notin S => x <= y
NewId(l) == IF Broken = "idclash" THEN Cardinality(Reg(l)) + 1 ELSE FreeId(Ids(l))
(* the library's own view: a call with this identifier; a state change with its callback *)
Find(l, id) == IF Broken = "firstcall" THEN {i \in Reg(l) : l[i].k = "out" /\ \A j \in Reg(l) : l[j].k = "out" => i <= j} ELSE {i \in Reg(l) : l[i].id = id}
Set(l, i, ans, act) == [l EXCEPT ![i].ans = ans, ![i].act = act, ![i].ringing = @ /\ act /\ ~ans, ![i].reg = @ /\ (act \/ Broken = "keepended")]
Tell(l, i, ans, act) == IF l[i].k = "out" /\ (l[i].ans # ans \/ l[i].act # act) THEN <<[k |-> "Cb", i |-> i]>> ELSE <<>>
Obj(k, id, num) == [k |-> k, id |-> id, num |-> num, act |-> TRUE, ans |-> FALSE, ringing |-> k = "in", rings |-> IF k = "in" THEN 1 ELSE 0, reg |-> TRUE, o |-> 0]
(* a call with the identifier the modem gives it; an incoming call that has it (a guess) steps back *)
Register(l, id, num) ==
  LET in == {i \in Reg(l) : l[i].id = id /\ l[i].k = "in"} IN
  Append(IF in = {} THEN l ELSE LET i == CHOOSE x \in in : TRUE IN [l EXCEPT ![i].id = FreeId(Ids(l))], [Obj("out", id, num) EXCEPT !.reg = Broken # "lateregister"])

Start(t) == /\ p[t].pc = "idle" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<dl, tx, line, dev, lib, q, mod, pend, pol, cbs, now, rl>>
            /\ \E op \in Kinds, o \in 0..Len(s.obj) :
                 /\ (o = 0) = (op = "dial") /\ (op = "answer" => s.calls[s.obj[o]].k = "in")
                 /\ LET i == IF o = 0 THEN 0 ELSE CHOOSE x \in 1..Len(lib) : lib[x].o = o IN
                    Go(t, [P0 EXCEPT !.pc = IF op = "dial" THEN "want" ELSE "wtx", !.op = op, !.o = i, !.num = IF op = "dial" THEN ToString(left) ELSE "",
                                     !.ok = CASE op = "dial" -> TRUE [] op = "hangup" -> lib[i].act [] op = "answer" -> lib[i].ringing [] OTHER -> lib[i].ans])
                    /\ Ev(OpE(t, op, o, IF op = "dial" THEN ToString(left) ELSE ""))
Lock(t) == /\ p[t].pc = "want" /\ (dl = 0 \/ Broken = "nolock") /\ dl' = t /\ Pc(t, "wtx") /\ NoE
           /\ UNCHANGED <<dev, tx, line, lib, q, mod, pend, pol, cbs, now, left, rl>>
OkNow(t) == LET c == lib[p[t].o] IN CASE Broken = "stalecheck" -> p[t].ok [] p[t].op = "hangup" -> c.act [] p[t].op = "answer" -> c.ringing [] OTHER -> c.ans
DoTx(t) == /\ p[t].pc = "wtx" /\ tx = 0 /\ ~line /\ UNCHANGED <<dl, lib, q, mod, pol, cbs, now, left, rl>>
  /\ IF p[t].op = "dial"
     THEN /\ tx' = t /\ line' = TRUE /\ Pc(t, "sent") /\ Ev(TxE(t, Cmd(t))) /\ dev' = [NoDev EXCEPT !.own = t] /\ pend' = ""
     ELSE /\ UNCHANGED <<dev, pend>>
          /\ IF OkNow(t) THEN tx' = t /\ line' = TRUE /\ Pc(t, "sent") /\ Ev(TxE(t, Cmd(t)))
             ELSE Go(t, P0) /\ UNCHANGED <<tx, line>> /\ Ev(IF p[t].op = "dtmf" THEN ExcE(t, "InvalidStateException", "") ELSE [k |-> "Done", t |-> t, at |-> now])
(* the modem answers the command; the answer reaches the thread at once *)
DoRsp(t) == /\ p[t].pc = "sent" /\ line /\ q = <<>> /\ line' = FALSE /\ tx' = 0 /\ UNCHANGED <<dl, q, now, left, rl>>
  /\ \/ /\ p' = [p EXCEPT ![t].pc = "fail"] /\ Ev(RspE("ERROR")) /\ dev' = (IF p[t].op = "dial" THEN NoDev ELSE dev) /\ UNCHANGED <<lib, mod, pend, pol, cbs>>
     \/ /\ p[t].op = "dial" /\ p' = [p EXCEPT ![t].pc = "waiting", ![t].rat = now] /\ Ev(RspE("OK")) /\ pend' \in {p[t].num, ""} /\ UNCHANGED <<dev, lib, mod, cbs>>
        /\ pol' = (IF Fam = "poll" THEN pol \cup {[t |-> t, n |-> left, st |-> 0, i |-> 0, due |-> now + Step0, pc |-> "sleep"]} ELSE pol)
     \/ /\ p[t].op \in {"hangup", "answer", "dtmf"} /\ Ev(RspE("OK")) /\ Pc(t, "done") /\ UNCHANGED <<dev, pend, pol>>
        /\ CASE p[t].op = "hangup" -> lib' = Set(lib, p[t].o, FALSE, FALSE) /\ cbs' = cbs \o Tell(lib, p[t].o, FALSE, FALSE)
                                      /\ mod' = {[m EXCEPT !.ans = TRUE] : m \in {x \in mod : Fam # "poll" /\ x.seen}}   \* a polled modem drops its calls at once, others may still announce the end
             [] p[t].op = "answer" -> lib' = (IF lib[p[t].o].act THEN Set(lib, p[t].o, TRUE, TRUE) ELSE lib) /\ UNCHANGED <<mod, cbs>>
             [] OTHER -> UNCHANGED <<lib, mod, cbs>>
DoDone(t) == /\ p[t].pc = "done" /\ Go(t, P0) /\ Ev([k |-> "Done", t |-> t, at |-> now]) /\ UNCHANGED <<dl, tx, line, dev, lib, q, mod, pend, pol, cbs, now, left, rl>>
Fail(t) == /\ p[t].pc = "fail" /\ Go(t, P0) /\ dl' = (IF dl = t THEN 0 ELSE dl) /\ Ev(ExcE(t, "CommandError", Cmd(t))) /\ UNCHANGED <<tx, line, dev, lib, q, mod, pend, pol, cbs, now, left, rl>>
Wake(t) == /\ p[t].pc = "waiting" /\ dev.set /\ (dev.own = t \/ Broken = "nolock") /\ Go(t, P0) /\ dl' = (IF dl = t THEN 0 ELSE dl) /\ dev' = NoDev
           /\ lib' = See([lib EXCEPT ![dev.call].reg = (Broken = "lateregister" \/ @)], dev.call)
           /\ Ev([k |-> "Ret", t |-> t, o |-> ONum(dev.call), c |-> Snap(lib[dev.call]), at |-> now]) /\ UNCHANGED <<tx, line, q, mod, pend, pol, cbs, now, left, rl>>
TimeOut(t) == /\ p[t].pc = "waiting" /\ now >= p[t].rat + Tmo /\ ~dev.set /\ q = <<>> /\ ~line /\ Go(t, P0) /\ dl' = (IF dl = t THEN 0 ELSE dl) /\ dev' = NoDev
              /\ pend' = "" /\ mod' = {m \in mod : m.dir = 1 \/ m.seen}
              /\ Ev(ExcE(t, "TimeoutException", "")) /\ UNCHANGED <<tx, line, lib, q, pol, cbs, now, left, rl>>
(* callbacks run in threads of their own, in any order *)
DoCb == \E k \in 1..Len(cbs) : LET x == cbs[k] IN
  /\ cbs' = SubSeq(cbs, 1, k - 1) \o SubSeq(cbs, k + 1, Len(cbs)) /\ lib' = See(lib, x.i)
  /\ Ev([k |-> x.k, o |-> ONum(x.i), c |-> Snap(lib[x.i]), at |-> now]) /\ UNCHANGED <<p, dl, tx, line, dev, q, mod, pend, pol, now, left, rl>>
(* the modem's side: announcements only between commands *)
MIds == {m.id : m \in mod}
TakenIds == MIds \cup (IF Fam = "poll" THEN {lib[i].id : i \in {j \in Reg(lib) : lib[j].k = "out"}} ELSE {})
Emit(x, e) == q' = Append(q, x) /\ Ev(e) /\ UNCHANGED <<p, dl, tx, line, dev, lib, pol, cbs, now, left>>
MSetup == /\ pend # "" /\ pend' = "" /\ ~line /\ rl' = rl /\ UNCHANGED cbs
          /\ LET id == FreeId(TakenIds) IN
             /\ mod' = mod \cup {[id |-> id, dir |-> 0, ans |-> FALSE, seen |-> Fam # "poll"]}
             /\ IF Fam = "poll" THEN NoE /\ UNCHANGED <<q, p, dl, tx, line, dev, lib, pol, now, left>>
                ELSE Emit([k |-> "Setup", id |-> id], [k |-> "Setup", id |-> id, type |-> 0, at |-> now])
MAns == \E m \in mod : /\ m.dir = 0 /\ ~m.ans /\ ~line /\ mod' = (mod \ {m}) \cup {[m EXCEPT !.ans = TRUE]} /\ UNCHANGED <<pend, rl>>
                       /\ IF Fam = "poll" THEN NoE /\ UNCHANGED <<q, p, dl, tx, line, dev, lib, pol, cbs, now, left>>
                          ELSE Emit([k |-> "Conn", id |-> m.id], [k |-> "Conn", id |-> m.id, at |-> now])
MEnd == \E m \in mod : /\ ~line /\ mod' = mod \ {m} /\ UNCHANGED <<pend, rl>>
                       /\ IF Fam = "poll" THEN NoE /\ UNCHANGED <<q, p, dl, tx, line, dev, lib, pol, cbs, now, left>>
                          ELSE Emit([k |-> "EndC", id |-> m.id], [k |-> "EndC", id |-> m.id, at |-> now])
MRing == /\ rl > 0 /\ ~line /\ rl' = rl - 1 /\ UNCHANGED pend
         /\ \E num \in {"A", ""} : Emit([k |-> "Ring", num |-> num], [k |-> "Ring", num |-> num, ton |-> "", type |-> "VOICE", at |-> now])
         /\ mod' \in (IF Fam = "poll" THEN {mod} ELSE {mod} \cup {mod \cup {[id |-> FreeId(TakenIds), dir |-> 1, ans |-> FALSE, seen |-> TRUE]}})
Reader == /\ q # <<>> /\ q' = Tail(q) /\ NoE /\ UNCHANGED <<p, dl, tx, line, mod, pend, pol, now, left, rl>>
  /\ LET x == q[1] f == IF x.k = "Ring" THEN {} ELSE Find(lib, x.id) IN
     CASE x.k = "Setup" -> /\ UNCHANGED cbs
                           /\ IF dev.own = 0 \/ dev.set THEN UNCHANGED <<lib, dev>>
                              ELSE lib' = Register(lib, x.id, p[dev.own].num) /\ dev' = [dev EXCEPT !.set = TRUE, !.call = Len(lib) + 1]
       [] x.k = "Ring" -> LET same == {i \in Reg(lib) : lib[i].k = "in" /\ lib[i].num = x.num} IN
                          /\ UNCHANGED dev
                          /\ IF same # {} /\ Broken # "nodedup" THEN LET i == CHOOSE y \in same : TRUE IN lib' = [lib EXCEPT ![i].rings = @ + 1] /\ cbs' = Append(cbs, [k |-> "RingCb", i |-> i])
                             ELSE lib' = Append(lib, Obj("in", NewId(lib), x.num)) /\ cbs' = Append(cbs, [k |-> "RingCb", i |-> Len(lib) + 1])
       [] OTHER -> /\ UNCHANGED dev
                   /\ IF f = {} THEN UNCHANGED <<lib, cbs>>
                      ELSE LET i == CHOOSE y \in f : TRUE ans == x.k = "Conn" act == x.k = "Conn" IN lib' = Set(lib, i, ans, act) /\ cbs' = cbs \o Tell(lib, i, ans, act)
(* polling threads: one per outgoing call being dialled or active *)
PTx == \E w \in pol : /\ w.pc = "sleep" /\ now >= w.due /\ tx = 0 /\ ~line /\ UNCHANGED <<p, dl, dev, lib, q, mod, pend, cbs, now, left, rl>>
  /\ IF w.st > 0 /\ ~lib[w.i].act /\ Broken # "pollforever" THEN pol' = pol \ {w} /\ UNCHANGED <<tx, line>> /\ NoE
     ELSE /\ pol' = (pol \ {w}) \cup {[w EXCEPT !.pc = "sent"]} /\ tx' = 0 - 1 /\ line' = TRUE /\ Ev(TxE(0, "AT+CLCC"))
List == LET S == {m \in mod : m.dir = 0} IN
        LET RECURSIVE L(_)
            L(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE y \in X : \A z \in X : y.id <= z.id IN <<[id |-> m.id, dir |-> 0, stat |-> IF m.ans THEN 0 ELSE 2, type |-> 0]>> \o L(X \ {m})
        IN L(S)
PRsp == \E w \in pol : /\ w.pc = "sent" /\ line /\ q = <<>> /\ line' = FALSE /\ tx' = 0 /\ UNCHANGED <<p, dl, q, pend, now, left, rl>>
  /\ Ev2([k |-> "Clcc", l |-> List, at |-> now], RspE("OK")) /\ mod' = {[m EXCEPT !.seen = TRUE] : m \in mod}
  /\ LET nw == {m \in mod : m.dir = 0 /\ (Broken = "pollall" \/ \A i \in Reg(lib) : lib[i].k = "in" \/ lib[i].id # m.id)}
         mine == dev.own = w.t /\ ~dev.set
         w2 == [w EXCEPT !.due = now + Step0, !.pc = "sleep"]
         m0 == CHOOSE m \in nw : \A y \in nw : m.id <= y.id
         found == w.st = 0 /\ mine /\ nw # {}
         l1 == IF found THEN Register(lib, m0.id, p[w.t].num) ELSE lib
         i == IF found THEN Len(l1) ELSE w.i
         gone == i # 0 /\ \A m \in mod : m.dir # 0 \/ m.id # l1[i].id
         ansd == i # 0 /\ l1[i].act /\ \E m \in mod : m.dir = 0 /\ m.id = l1[i].id /\ m.ans /\ ~l1[i].ans IN
     IF w.st = 0 /\ ~mine THEN pol' = pol \ {w} /\ UNCHANGED <<lib, dev, cbs>>
     ELSE /\ dev' = (IF found THEN [dev EXCEPT !.set = TRUE, !.call = i] ELSE dev)
          /\ lib' = (IF gone /\ l1[i].act THEN Set(l1, i, FALSE, FALSE) ELSE IF ansd THEN Set(l1, i, TRUE, TRUE) ELSE l1)
          /\ cbs' = cbs \o (IF gone /\ l1[i].act THEN Tell(l1, i, FALSE, FALSE) ELSE IF ansd THEN Tell(l1, i, TRUE, TRUE) ELSE <<>>)
          /\ pol' = (pol \ {w}) \cup (IF gone /\ Broken # "pollforever" THEN {} ELSE {[w2 EXCEPT !.i = i, !.st = IF found THEN 1 ELSE w.st]})
Still == q = <<>> /\ cbs = <<>> /\ ~line /\ (\A t \in T : p[t].pc = "idle" \/ (p[t].pc = "want" /\ dl \notin {0, t}) \/ (p[t].pc = "waiting" /\ ~dev.set /\ now < p[t].rat + Tmo))
         /\ \A w \in pol : w.pc = "sleep" /\ now < w.due
(* a command may take its time to be answered *)
Waiting == line /\ q = <<>> /\ cbs = <<>> /\ \A t \in T : p[t].pc \notin {"done", "fail"} /\ (p[t].pc = "waiting" => ~dev.set /\ now < p[t].rat + Tmo)
Tick == now < Ticks * Step0 /\ (Still \/ Waiting) /\ now' = now + Step0 /\ UNCHANGED <<p, dl, tx, line, dev, lib, q, mod, pend, pol, cbs, s, bad, left, rl>>
Next == (\E t \in T : Start(t) \/ Lock(t) \/ DoTx(t) \/ DoRsp(t) \/ DoDone(t) \/ Fail(t) \/ Wake(t) \/ TimeOut(t)) \/ DoCb \/ MSetup \/ MAns \/ MEnd \/ MRing \/ Reader \/ PTx \/ PRsp \/ Tick
Allowed == bad = {}
Quiescent == Still /\ \A t \in T : p[t].pc = "idle"
Noticed == Fam # "poll" \/ \A i \in Reg(lib) : lib[i].k = "in" \/ \E m \in mod : m.id = lib[i].id /\ m.seen /\ m.ans = lib[i].ans
RECURSIVE RegSeq(_)
RegSeq(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE x \in S : TRUE IN <<<<lib[i].id, lib[i].o>>>> \o RegSeq(S \ {i})
LookE == [k |-> "Look", reg |-> RegSeq(Reg(lib)), l |-> [o \in 1..Len(s.obj) |-> Snap(lib[CHOOSE i \in 1..Len(lib) : lib[i].o = o])], at |-> now]
Complete == (Quiescent /\ Noticed) => CLook(Pr, s, LookE).bad = {} /\ CFinal(s).bad = {}
=============================================================================
