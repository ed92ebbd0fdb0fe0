------------------------------ MODULE MCSerial ------------------------------
(* SerialLink with an arbitrary small device and arbitrary callers; what C01-C04 promise, as invariants over its history. *)
EXTENDS SerialLink
CONSTANTS Threads, Chunks, Prompts, MaxCalls, MaxArr, MaxTime, Faults
VARIABLES segs,    \* every line acted upon, in order, with the exchange it went to (0: a notification)
          told,    \* notifications received by the handler
          ncall, narr, order, \* order of transmissions and ends of exchanges
          fatals, closedBack
mvars == <<vars, segs, told, ncall, narr, order, fatals, closedBack>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
MInit == SInit(Threads) /\ segs = <<>> /\ told = <<>> /\ ncall = 0 /\ narr = 0 /\ order = <<>> /\ fatals = 0 /\ closedBack = FALSE
H == <<segs, told, ncall, narr, order, fatals, closedBack>>
LineOf == LET b == buf \o SubSeq(raw, 1, 1) IN IF EndsWith(b, EOL) THEN SubSeq(b, 1, Len(b) - Len(EOL)) ELSE b
DoCall == \E t \in Threads, p \in Prompts \cup {""}, w \in BOOLEAN :
   ncall < MaxCalls /\ (w \/ p = "") /\ Call(t, "C", w, 1, p) /\ ncall' = ncall + 1 /\ UNCHANGED <<segs, told, narr, order, fatals, closedBack>>
DoTx == \E t \in Threads : \E ok \in (IF Faults \/ port = "closed" THEN BOOLEAN ELSE {TRUE}) :
   Tx(t, "C", ok) /\ order' = Append(order, <<"tx", t>>) /\ UNCHANGED <<segs, told, ncall, narr, fatals, closedBack>>
DoFin == \E t \in Threads : Finish(t) /\ order' = Append(order, <<"end", t>>) /\ UNCHANGED <<segs, told, ncall, narr, fatals, closedBack>>
DoAcc == \E t \in Threads : Accept1(t) /\ UNCHANGED H
DoRet == \E t \in Threads : (Return(t, calls[t].res) \/ TimeoutError(t, calls[t].res) \/ TxError(t)) /\ UNCHANGED H
DoArr == \E c \in Chunks : narr < MaxArr /\ Len(avail) < 6 /\ Arrive(c) /\ narr' = narr + 1 /\ UNCHANGED <<segs, told, ncall, order, fatals, closedBack>>
DoRead == avail # "" /\ ~closedBack /\ Read(SubSeq(avail, 1, 1)) /\ UNCHANGED H
DoExam == /\ Examine
          /\ segs' = IF buf' = "" /\ LineOf # "" THEN Append(segs, <<LineOf, IF Armed THEN ex.t ELSE 0, Armed /\ ex.done' >>) ELSE segs
          /\ UNCHANGED <<told, ncall, narr, order, fatals, closedBack>>
DoFlush == Flush /\ UNCHANGED H
DoNtf == hand # <<>> /\ ~closedBack /\ Notify(Head(hand)) /\ told' = Append(told, Head(hand)) /\ UNCHANGED <<segs, ncall, narr, order, fatals, closedBack>>
DoFail == Faults /\ raw = "" /\ ReadFail /\ UNCHANGED H
DoPClose == PortClose(FALSE) /\ UNCHANGED H
DoFatal == Fatal(TRUE, FALSE, FALSE) /\ fatals' = fatals + 1 /\ UNCHANGED <<segs, told, ncall, narr, order, closedBack>>
DoClose == Faults /\ ~closing /\ Close /\ UNCHANGED H
DoCloseRet == ~closedBack /\ CloseReturn(FALSE, FALSE) /\ closedBack' = TRUE /\ UNCHANGED <<segs, told, ncall, narr, order, fatals>>
(* time passes without a command outstanding only for a while, so that there is time left for every command *)
DoPass == now < MaxTime /\ (ex.t # 0 \/ now < MaxTime - MaxCalls) /\ Pass(now + 1, FALSE, FALSE) /\ UNCHANGED H
MNext == DoCall \/ DoTx \/ DoFin \/ DoAcc \/ DoRet \/ DoArr \/ DoRead \/ DoExam \/ DoFlush \/ DoNtf \/ DoFail \/ DoPClose \/ DoFatal
         \/ DoClose \/ DoCloseRet \/ DoPass
MSpec == MInit /\ [][MNext]_mvars
Fair == /\ WF_mvars(DoAcc) /\ WF_mvars(DoTx) /\ WF_mvars(DoFin) /\ WF_mvars(DoRet) /\ WF_mvars(DoPass) /\ WF_mvars(DoRead)
        /\ WF_mvars(DoExam) /\ WF_mvars(DoFlush) /\ WF_mvars(DoNtf)
LiveSpec == MSpec /\ Fair

Unsolicited == SelectSeq(segs, LAMBDA x : x[2] = 0)
(* C02: every line acted upon while nothing was waiting reaches the handler once, in order; nothing else does *)
NotifiedOnce == LET n == Flat(told) \o Flat(hand) \o pend
                    u == [i \in 1..Len(Unsolicited) |-> Unsolicited[i][1]]
                IN IF closedBack THEN Len(Flat(told)) <= Len(u) /\ \A i \in 1..Len(Flat(told)) : Flat(told)[i] = u[i]
                   ELSE n = u
(* C01: transmissions do not overlap *)
OneAtATime == \A i \in 1..Len(order) : order[i][1] = (IF i % 2 = 1 THEN "tx" ELSE "end") /\ (i % 2 = 0 => order[i][2] = order[i-1][2])
(* C01: what an exchange got so far: nothing after a line that ends it; it is over exactly when its last line ends it *)
ResponseShape == ex.t # 0 /\ calls[ex.t].wait =>
   /\ \A i \in 1..Len(ex.resp) : i < Len(ex.resp) => ~Final(ex.resp[i])
   /\ ex.done => ex.resp # <<>> /\ (Final(ex.resp[Len(ex.resp)]) \/ (ex.prompt # "" /\ EndsWith(ex.resp[Len(ex.resp)], ex.prompt)))
Answered == \A t \in Threads : calls[t].st = "answered" /\ calls[t].wait => calls[t].res # <<>>
(* C03: a time-out happens at its time, never on a complete response *)
TimeoutShape == \A t \in Threads : calls[t].st = "timedout" => \A i \in 1..Len(calls[t].res) : ~Final(calls[t].res[i])
(* C04 *)
FatalOnce == fatals <= 1 /\ (fatals = 1 => link = "dead") /\ (fatals > 0 => port = "closed")
AfterClose == closedBack => port = "closed" /\ pend = <<>> /\ hand = <<>>
(* every command gets an answer, a time-out or its error *)
Served == \A t \in Threads : calls[t].st = "called" ~> calls[t].st = "idle"
=============================================================================
