---------------------------- MODULE MCModemCmd ----------------------------
(* The retry algorithm of the library (a waiting time shared by all commands, raised by every busy reply and put back when
   the busy phase is over) composed with ModemCmd: whatever the modem answers and however the threads interleave, every
   event is one ModemCmd allows.  Times are in ms. *)
EXTENDS ModemCmd, FiniteSets
CONSTANTS N, MaxCalls, MaxBusy, Reset   \* Reset = FALSE: the algorithm forgets to put the waiting time back after errors
VARIABLES p, lock, ww, now, s, bad, ncalls
mcv == <<p, lock, ww, now, s, bad, ncalls>>
T == 1..N
P0 == [pc |-> "idle", stack |-> <<>>, wake |-> 0, line |-> "", cmd |-> "", parse |-> TRUE]
Init == p = [t \in T |-> P0] /\ lock = 0 /\ ww = 0 /\ now = 0 /\ s = Init0(N) /\ bad = {} /\ ncalls = 0
Ev(e) == LET r == Step(s, e) IN s' = r.s /\ bad' = r.bad
Replies == {"OK", "ERROR", "+CME ERROR: 515", "+CMS ERROR: 14", "+CME ERROR: 11"}
X(line) == [mro |-> CASE line = "ERROR" -> <<"CommandError">> [] line = "+CME ERROR: 11" -> <<"PinRequiredError", "SecurityException", "CmeError", "CommandError">>
                      [] OTHER -> <<"CmeError", "CommandError">>,
            code |-> CodeOf(line), type |-> IF CodeOf(line) >= 0 THEN TypeOf(line) ELSE "", cmd |-> "C"]
Go(t, r) == p' = [p EXCEPT ![t] = r]
DoCall(t) == \E parse \in BOOLEAN : p[t].pc = "idle" /\ ncalls < MaxCalls /\ ncalls' = ncalls + 1
  /\ Go(t, [P0 EXCEPT !.pc = "send", !.parse = parse, !.cmd = "C"])
  /\ Ev([k |-> "Call", t |-> t, cmd |-> "C", parse |-> parse, wait |-> TRUE, tmo |-> 5000, at |-> now]) /\ UNCHANGED <<lock, ww, now>>
DoTx(t) == p[t].pc = "send" /\ lock = 0 /\ lock' = t /\ Go(t, [p[t] EXCEPT !.pc = "sent"])
  /\ Ev([k |-> "Tx", t |-> t, c |-> "C", term |-> "^M", at |-> now]) /\ UNCHANGED <<ww, now, ncalls>>
Count(t) == Len(p[t].stack)
DoRsp(t) == \E l \in {x \in Replies : Count(t) < MaxBusy \/ ~Busy(x)} : p[t].pc = "sent" /\ lock = t /\ lock' = 0
  /\ Go(t, [p[t] EXCEPT !.pc = "post", !.line = l, !.wake = now + ww])
  /\ Ev([k |-> "Rsp", c |-> "C", l |-> <<l>>, final |-> TRUE, at |-> now]) /\ UNCHANGED <<ww, now, ncalls>>
Unwound(t, ww0, err) == IF p[t].stack = <<>> \/ (err /\ ~Reset) THEN ww0 ELSE IF p[t].stack[1] = 515 THEN 100 ELSE 0
DoEval(t) == p[t].pc = "post" /\ now >= p[t].wake /\ LET l == p[t].line IN
  IF p[t].parse /\ Busy(l)
  THEN /\ ww' = ww + 200 /\ Go(t, [p[t] EXCEPT !.pc = "nap", !.stack = Append(@, CodeOf(l)), !.wake = now + ww'])
       /\ UNCHANGED <<lock, now, s, bad, ncalls>>
  ELSE /\ Go(t, P0) /\ UNCHANGED <<lock, now, ncalls>>
       /\ IF p[t].parse /\ Kind(l) # "OK"
          THEN ww' = Unwound(t, ww, TRUE) /\ Ev([k |-> "Exc", t |-> t, x |-> X(l), at |-> now])
          ELSE ww' = Unwound(t, ww, FALSE) /\ Ev([k |-> "Ret", t |-> t, l |-> <<l>>, none |-> FALSE, at |-> now])
DoWake(t) == p[t].pc = "nap" /\ now >= p[t].wake /\ Go(t, [p[t] EXCEPT !.pc = "send"]) /\ UNCHANGED <<lock, ww, now, s, bad, ncalls>>
CanAct(t) == p[t].pc \in {"sent"} \/ (p[t].pc = "send" /\ lock = 0) \/ (p[t].pc \in {"post", "nap"} /\ now >= p[t].wake)
Pass == /\ \A t \in T : ~CanAct(t)
        /\ \E t \in T : p[t].pc \in {"post", "nap"} /\ now < p[t].wake
        /\ now' = LET W == {p[t].wake : t \in {u \in T : p[u].pc \in {"post", "nap"}}} IN CHOOSE w \in W : \A v \in W : w <= v
        /\ UNCHANGED <<p, lock, ww, s, bad, ncalls>>
Next == (\E t \in T : DoCall(t) \/ DoTx(t) \/ DoRsp(t) \/ DoEval(t) \/ DoWake(t)) \/ Pass
Spec == Init /\ [][Next]_mcv /\ WF_mcv(Pass) /\ \A t \in T : WF_mcv(DoTx(t) \/ DoRsp(t) \/ DoEval(t) \/ DoWake(t))
Allowed == bad = {}
Bounded == ww >= 0 /\ ((\A t \in T : p[t].pc = "idle") => ww <= 100)
Served == \A t \in T : p[t].pc = "send" ~> p[t].pc = "idle"
=============================================================================
