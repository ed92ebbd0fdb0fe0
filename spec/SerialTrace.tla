---------------------------- MODULE SerialTrace ----------------------------
(* Is each recorded run of the real class a behaviour of SerialLink? *)
EXTENDS SerialLink, Json, IOUtils, Verdict
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
Ev(i) == Traces[i].ev
Seen(i, n) == TLCSet(i, IF TLCGet(i) < n THEN n ELSE TLCGet(i))
TInit == \E i \in 1..Len(Traces) : tid = i /\ l = 1 /\ SInit(1..Traces[i].threads) /\ TLCSet(i, 1)
Event(e) ==
  CASE e.k = "Call" -> Call(e.t, e.cmd, e.wait, e.tmo, e.prompt)
    [] e.k = "Tx" -> Tx(e.t, e.data, e.ok)
    [] e.k = "Ret" -> Return(e.t, e.lines)
    [] e.k = "Tmo" -> TimeoutError(e.t, e.lines)
    [] e.k = "TxErr" -> TxError(e.t)
    [] e.k = "Arr" -> Arrive(e.s)
    [] e.k = "Rd" -> Read(e.s)
    [] e.k = "RdFail" -> ReadFail
    [] e.k = "Ntf" -> Notify(e.lines)
    [] e.k = "Fatal" -> Fatal(e.same, e.alive, e.open)
    [] e.k = "Close" -> Close
    [] e.k = "PClose" -> PortClose(e.reading)
    [] e.k = "CloseRet" -> CloseReturn(e.alive, e.open)
    [] e.k = "Idle" -> Pass(e.at, e.writing, e.handling)
    [] e.k = "End" -> Settled(FALSE, FALSE) /\ ex.t = 0 /\ (closing => e.threads = 0) /\ (link = "dead" => e.threads = 0) /\ UNCHANGED vars
    [] OTHER -> FALSE
Step == l <= Len(Ev(tid)) /\ Event(Ev(tid)[l]) /\ l' = l + 1 /\ tid' = tid /\ Seen(tid, l + 1)
Hidden == l <= Len(Ev(tid)) /\ Silent /\ UNCHANGED <<tid, l>>
TNext == Step \/ Hidden
Report == \A i \in 1..Len(Traces) :
   IF TLCGet(i) > Len(Ev(i)) THEN Accept(Traces[i].id)
   ELSE Stuck(Traces[i].id, ToString(TLCGet(i)) \o " " \o ToString(Ev(i)[TLCGet(i)]))
=============================================================================
