--------------------------- MODULE CallsTrace ---------------------------
EXTENDS Calls, Json, IOUtils, Verdict
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ s = SInit(Traces[tid].prof)
TNext ==
  /\ l > 0 /\ UNCHANGED tid
  /\ IF l <= Len(Traces[tid].ev)
     THEN LET r == SStep(Traces[tid].prof, s, Traces[tid].ev[l]) IN
          IF r.bad = {} THEN s' = r.s /\ l' = l + 1
          ELSE Reject(Traces[tid].id, <<l, r.bad>>) /\ l' = 0 /\ s' = s
     ELSE Accept(Traces[tid].id) /\ l' = 0 /\ s' = s
=============================================================================
