----------------------------- MODULE MCSession -----------------------------
(* The library over several connections, to modems of three kinds in any order, composed with Session: what it keeps from one
   connection to the next and what it begins anew.  Each step is one thing the user, the modem or the network does, with all
   the events it causes.  Connecting itself is MCConnect's subject: here it runs through without refusals, and only what it
   takes from the library's memory varies.
   Broken: "table" (the call handling of the modem before is kept), "reads" (storages once found unusable stay so), "mem" (the
   default storage is kept), "note" (a line cut short is delivered later), "calls" / "sessions" (calls / USSD sessions stay active),
   "smsc" (a centre read from one modem is written into the next), "forget" (what the user set is not applied again). *)
EXTENDS Session
CONSTANTS N, Ops, Broken
VARIABLES P, lib, left, s, bad
mcv == <<P, lib, left, s, bad>>
Base == [sim |-> "ready", pin |-> "1234", reveal |-> "later", clac |-> "none", commands |-> <<>>, cscaform |-> "ok", wind |-> 0 - 1, cfun |-> 1, aim |-> "conf", cpin |-> "ok",
         user |-> [pins |-> <<"">>, text |-> FALSE, smsc |-> ""], csmpdrops |-> FALSE, zmode |-> 1, model |-> "M", imsi |-> "0", csq |-> 7]
Kinds == << [fam |-> "huawei", dtmf |-> "^DTMF=", mems |-> <<"ME">>, cpms |-> << <<"ME">>, <<"ME">> >>, csca |-> "+1", unsup |-> <<"AT+WIND">>] @@ Base,
            [fam |-> "poll", dtmf |-> "+VTS=", mems |-> <<"SM">>, cpms |-> << <<"SM">>, <<"SM">> >>, csca |-> "+2", unsup |-> <<"AT+WIND">>] @@ Base,
            [fam |-> "poll", dtmf |-> "+VTS=", mems |-> <<"SR">>, cpms |-> <<>>, csca |-> "", unsup |-> <<"AT+WIND", "AT+CPMS", "AT+CNMI">>] @@ Base >>
L0 == [fam |-> "", reads |-> TRUE, mem |-> "", note |-> FALSE, calls |-> <<>>, uss |-> <<>>, smsc |-> "", set |-> "", text |-> FALSE]
Init == /\ \E k \in [1..N -> 1..Len(Kinds)] : P = [eps |-> [i \in 1..N |-> Kinds[k[i]]], user |-> Base.user]
        /\ lib = L0 /\ left = Ops /\ s = SInit(P) /\ bad = {}
RECURSIVE Run(_, _, _)
Run(x, b, q) == IF q = <<>> THEN s' = x /\ bad' = bad \cup b ELSE LET r == SStep(P, x, q[1]) IN Run(r.s, b \cup r.bad, Tail(q))
Ev(q) == Run(s, {}, q)
Tick == left > 0 /\ left' = left - 1 /\ UNCHANGED P
TxE(ep, c) == [k |-> "Tx", ep |-> ep, t |-> 1, c |-> c, at |-> 0]
RspE(ep, c, l) == [k |-> "Rsp", ep |-> ep, c |-> c, l |-> l, final |-> TRUE, at |-> 0]
Say(ep, c) == <<TxE(ep, c), RspE(ep, c, <<"OK">>)>>
SayL(ep, c, l) == <<TxE(ep, c), RspE(ep, c, l)>>
OpE(op, o, a) == [k |-> "Op", op |-> op, o |-> o, a |-> a, at |-> 0]
Snap(c) == [id |-> 1, num |-> c.num, active |-> c.act, answered |-> c.act /\ c.ans, inc |-> c.dir = 1, ringing |-> c.act /\ c.dir = 1 /\ ~c.ans, rings |-> c.rings]
NoSnap == [id |-> 0, num |-> "", active |-> FALSE, answered |-> FALSE, inc |-> FALSE, ringing |-> FALSE, rings |-> 0]
DoneE(o, c, v, n, b, l) == [k |-> "Done", o |-> o, c |-> c, v |-> v, n |-> n, b |-> b, l |-> l, at |-> 0]
Refused == [k |-> "OpExc", at |-> 0, x |-> [mro |-> <<"InvalidStateException", "GsmModemException">>]]
Failed == [k |-> "OpExc", at |-> 0, x |-> [mro |-> <<"CmeError", "CommandError">>]]
RECURSIVE Cat(_)
Cat(qq) == IF qq = <<>> THEN <<>> ELSE qq[1] \o Cat(Tail(qq))

Connect_ == LET ep == s.ep + 1 M == P.eps[ep]
                want == IF Broken = "forget" THEN "" ELSE IF Broken = "smsc" /\ lib.smsc # "" THEN lib.smsc ELSE lib.set
                reads == (Broken = "reads" => lib.reads) /\ Offers(M) IN
  /\ s.ph \in {"off", "lost"} /\ ep <= N /\ UNCHANGED <<P, left>>
  /\ lib' = [lib EXCEPT !.fam = IF Broken = "table" /\ @ # "" THEN @ ELSE M.fam, !.reads = reads, !.mem = IF Offers(M) THEN M.mems[1] ELSE IF Broken = "mem" THEN @ ELSE "",
                        !.smsc = IF want # "" THEN want ELSE M.csca,
                        !.calls = [i \in 1..Len(@) |-> [@[i] EXCEPT !.act = @ /\ Broken = "calls"]], !.uss = [i \in 1..Len(@) |-> @[i] /\ Broken = "sessions"]]
  /\ Ev(<<[k |-> "Attempt", ep |-> ep, csca |-> M.csca, at |-> 0], [k |-> "Put", mem |-> M.mems[1], i |-> 1, text |-> <<ep>>, ann |-> FALSE]>>
        \o Say(ep, "ATZ") \o Say(ep, "ATE0") \o Say(ep, "AT+CMEE=1") \o SayL(ep, "AT+CPIN?", <<"+CPIN: READY", "OK">>) \o Say(ep, "AT+COPS=3,0")
        \o Say(ep, IF lib.text /\ Broken # "forget" THEN "AT+CMGF=1" ELSE "AT+CMGF=0") \o (IF want # "" THEN Say(ep, "AT+CSCA=\"" \o want \o "\"") ELSE <<>>) \o Say(ep, "AT+CSMP=49,167,0,0")
        \o (IF Offers(M) THEN Say(ep, "AT+CPMS=" \o M.mems[1] \o "," \o M.mems[1]) ELSE <<>>) \o (IF reads THEN Say(ep, "AT+CNMI=2,1,0,2") ELSE <<>>)
        \o Say(ep, "AT+CLIP=1") \o Say(ep, "AT+CRC=1") \o Say(ep, "AT+CVHU=0") \o <<[k |-> "Ret", alive |-> TRUE, at |-> 0]>>)
Up == s.ph = "up"
(* the library's own search for the call that rings *)
Ringing(num) == {i \in 1..Len(lib.calls) : lib.calls[i].dir = 1 /\ lib.calls[i].act /\ lib.calls[i].num = num}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Rung(num) == IF Ringing(num) # {} THEN [lib.calls EXCEPT ![Max(Ringing(num))].rings = @ + 1] ELSE Append(lib.calls, [dir |-> 1, num |-> num, act |-> TRUE, ans |-> FALSE, rings |-> 1])
RungO(num) == IF Ringing(num) # {} THEN Max(Ringing(num)) ELSE Len(lib.calls) + 1
RingCbE(o, c) == [k |-> "RingCb", o |-> o, c |-> Snap(c), at |-> 0]
MRing == /\ Up /\ Tick /\ (s.call.on => s.call.dir = 1 /\ ~s.call.ans)
         /\ LET n == Rung("5") o == RungO("5") IN
            /\ lib' = [lib EXCEPT !.calls = n, !.note = FALSE]
            /\ Ev((IF lib.note THEN <<RingCbE(o, [n[o] EXCEPT !.num = ""])>> ELSE <<>>) \o <<[k |-> "Ring", num |-> "5", at |-> 0], RingCbE(o, n[o])>>)
MEnd == /\ Up /\ Tick /\ s.call.on /\ Len(lib.calls) > 0
        /\ Ev(<<[k |-> "Ended", id |-> 1, dir |-> 0]>>) /\ lib' = [lib EXCEPT !.calls[Len(lib.calls)].act = FALSE]
Dial == /\ Up /\ Tick /\ ~s.call.on
        /\ \E a \in BOOLEAN : LET c == [dir |-> 0, num |-> "6", act |-> TRUE, ans |-> a, rings |-> 0] IN
           /\ lib' = [lib EXCEPT !.calls = Append(@, c)]
           /\ Ev(<<OpE("dial", 0, "6"), TxE(s.ep, "ATD6;"), [k |-> "Made", id |-> 1, num |-> "6"], RspE(s.ep, "ATD6;", <<"OK">>)>>
                 \o (IF a THEN <<[k |-> "Answered", id |-> 1, dir |-> 0, at |-> 0]>> ELSE <<>>)
                 \o (IF lib.fam = "poll" THEN <<[TxE(s.ep, "AT+CLCC") EXCEPT !.t = 0]>> ELSE <<>>) \o <<DoneE(Len(lib.calls) + 1, Snap(c), "", 0, FALSE, <<>>)>>)
Hangup == /\ Up /\ Tick /\ \E o \in 1..Len(lib.calls) :
            /\ lib' = [lib EXCEPT !.calls[o].act = FALSE]
            /\ Ev(<<OpE("hangup", o, "")>> \o (IF lib.calls[o].act THEN Say(s.ep, "ATH") \o (IF s.call.on THEN <<[k |-> "Ended", id |-> 1, dir |-> 0]>> ELSE <<>>) ELSE <<>>)
                  \o <<DoneE(0, Snap([lib.calls[o] EXCEPT !.act = FALSE]), "", 0, FALSE, <<>>)>>)
Tone == /\ Up /\ Tick /\ UNCHANGED lib /\ \E o \in 1..Len(lib.calls) : LET c == IF lib.fam = "huawei" THEN "AT^DTMF=1,#" ELSE "AT+VTS=#" IN
          Ev(<<OpE("tone", o, "#")>> \o (IF lib.calls[o].act /\ lib.calls[o].ans THEN Say(s.ep, c) \o <<DoneE(0, Snap(lib.calls[o]), "", 0, FALSE, <<>>)>> ELSE <<Refused>>))
Answer_ == /\ Up /\ Tick /\ \E o \in {i \in 1..Len(lib.calls) : lib.calls[i].dir = 1} :
               LET go == lib.calls[o].act /\ ~lib.calls[o].ans IN
             /\ lib' = [lib EXCEPT !.calls[o].ans = @ \/ go]
             /\ Ev(<<OpE("answer", o, "")>> \o (IF go THEN <<TxE(s.ep, "ATA")>> \o (IF s.call.on THEN <<[k |-> "Answered", id |-> 1, dir |-> 1, at |-> 0]>> ELSE <<>>) \o <<RspE(s.ep, "ATA", <<"OK">>)>> ELSE <<>>)
                   \o <<DoneE(0, Snap(lib'.calls[o]), "", 0, FALSE, <<>>)>>)
UssdOp == /\ Up /\ Tick /\ \E m \in {0, 1} : LET c == "AT+CUSD=1,\"*1#\",15" IN
            /\ lib' = [lib EXCEPT !.uss = Append([i \in 1..Len(@) |-> @[i] /\ m = 1], m = 1)]
            /\ Ev(<<OpE("ussd", 0, "*1#"), TxE(s.ep, c), [k |-> "Ans", text |-> "t", m |-> m], RspE(s.ep, c, <<"OK">>), DoneE(Len(lib.uss) + 1, NoSnap, "t", 0, m = 1, <<>>)>>)
Cancel == /\ Up /\ Tick /\ \E o \in 1..Len(lib.uss) :
            /\ lib' = [lib EXCEPT !.uss = [i \in 1..Len(@) |-> @[i] /\ ~lib.uss[o]]]
            /\ Ev(<<OpE("cancel", o, "")>> \o (IF lib.uss[o] THEN Say(s.ep, "AT+CUSD=2") ELSE <<>>) \o <<DoneE(0, NoSnap, "", 0, FALSE, <<>>)>>)
Smsc == /\ Up /\ Tick /\ lib' = [lib EXCEPT !.smsc = "+9", !.set = "+9"]
        /\ Ev(<<OpE("smsc", 0, "+9")>> \o (IF lib.smsc # "+9" THEN Say(s.ep, "AT+CSCA=\"+9\"") ELSE <<>>) \o <<DoneE(0, NoSnap, "", 0, FALSE, <<>>)>>)
GetSmsc == /\ Up /\ Tick /\ UNCHANGED lib /\ Ev(<<OpE("getsmsc", 0, ""), DoneE(0, NoSnap, lib.smsc, 0, FALSE, <<>>)>>)
Mode == /\ Up /\ Tick /\ lib' = [lib EXCEPT !.text = ~@] /\ LET a == IF lib.text THEN "0" ELSE "1" IN
           Ev(<<OpE("text", 0, a)>> \o Say(s.ep, "AT+CMGF=" \o a) \o <<DoneE(0, NoSnap, "", 0, FALSE, <<>>)>>)
List == /\ Up /\ Tick /\ UNCHANGED lib
        /\ Ev(<<OpE("list", 0, "")>> \o (IF lib.mem \notin {"", P.eps[s.ep].mems[1]} THEN <<Failed>> ELSE <<DoneE(0, NoSnap, "", 0, FALSE, <<<<s.ep>>>>)>>))
Look == /\ Up /\ UNCHANGED <<P, lib, left>>
        /\ Ev(<<[k |-> "Look", at |-> 0, l |-> [i \in 1..Len(lib.calls) |-> Snap(lib.calls[i])], us |-> lib.uss, reg |-> SelectSeq([i \in 1..Len(lib.calls) |-> i], LAMBDA i : lib.calls[i].act)]>>)
Close == /\ Up /\ UNCHANGED <<P, left>> /\ \E n \in BOOLEAN : lib' = [lib EXCEPT !.note = n /\ Broken = "note"]
         /\ Ev(<<[k |-> "Close", at |-> 0], [k |-> "Closed", at |-> 0]>>)
Fail == /\ Up /\ UNCHANGED <<P, left>> /\ \E n \in BOOLEAN : lib' = [lib EXCEPT !.note = n /\ Broken = "note"]
        /\ Ev(<<[k |-> "Fail", at |-> 0]>>)
Next == Connect_ \/ MRing \/ MEnd \/ Dial \/ Hangup \/ Tone \/ Answer_ \/ UssdOp \/ Cancel \/ Smsc \/ GetSmsc \/ Mode \/ List \/ Look \/ Close \/ Fail
Allowed == bad = {}
=============================================================================
