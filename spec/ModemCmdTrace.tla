--------------------------- MODULE ModemCmdTrace ---------------------------
EXTENDS ModemCmd, Json, IOUtils, Verdict
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ s = Init0(Traces[tid].threads)
TNext ==
  /\ l > 0 /\ UNCHANGED tid
  /\ IF l <= Len(Traces[tid].ev)
     THEN LET r == Step(s, Traces[tid].ev[l]) IN
          IF r.bad = {} THEN s' = r.s /\ l' = l + 1
          ELSE Reject(Traces[tid].id, <<l, r.bad>>) /\ l' = 0 /\ s' = s
     ELSE Verdict(Traces[tid].id, Final(s)) /\ l' = 0 /\ s' = s
=============================================================================
