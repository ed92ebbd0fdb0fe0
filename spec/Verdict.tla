------------------------------ MODULE Verdict ------------------------------
(* How a trace module reports its verdicts to the harness: one line per trace. *)
EXTENDS TLC, Naturals, Sequences
Accept(t)      == PrintT("@ACCEPT " \o ToString(t))
Reject(t, why) == PrintT("@REJECT " \o ToString(t) \o " " \o ToString(why))
Stuck(t, why)  == PrintT("@STUCK " \o ToString(t) \o " " \o ToString(why))
Behaviour(j)   == PrintT("@BEHAVIOUR " \o j)
Verdict(t, fails) == IF fails = {} THEN Accept(t) ELSE Reject(t, fails)
(* Clause("name", P): empty if P holds, else the name of the clause that failed *)
Clause(name, P) == IF P THEN {} ELSE {name}
=============================================================================
