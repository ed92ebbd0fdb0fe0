------------------------------ MODULE Progress ------------------------------
(* Every run comes to an end, and to one the driver knows how to describe: a run of the real code that did not is no
   behaviour of any specification here. *)
EXTENDS Naturals, Sequences, Json, IOUtils, Verdict
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid
Init == tid = 0
Next == /\ tid < Len(Traces) /\ tid' = tid + 1
        /\ LET r == Traces[tid'] IN
           Verdict(r.id, Clause("run-comes-to-an-end", r.halt # "hang") \cup Clause("run-ends-as-described " \o r.what, r.halt # "abort"))
=============================================================================
