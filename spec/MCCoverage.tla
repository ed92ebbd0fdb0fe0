----------------------------- MODULE MCCoverage -----------------------------
(* The waiting algorithm (one query each second: registration until registered, then strength; registration again if there is no signal)
   composed with Coverage and a modem whose registration and signal change at any time: every event is one Coverage allows.
   Broken: "noreg" (registration ignored), "once" (registration not asked again), "zero" (no signal is signal), "patient" (refusal ignored),
   "early" (times out a second early), "late" (the timeout is looked at only after a refused query), "leak" (the timer stays),
   "giveup" (gives up without timeout), "roaming" (roaming is not registered), "blind" (a modem that cannot report is not judged by signal). *)
EXTENDS Coverage
CONSTANTS Ticks, Tmos, Broken
VARIABLES pc, next, timer, cannot, reg, ss, chk, sup, now, s, bad, changes
mvars == <<pc, next, timer, cannot, reg, ss, chk, sup, now, s, bad, changes>>
Step0 == 500
Pr == [threads |-> 1, slack |-> 0]
Never == 0 - 1
Init == /\ pc = "start" /\ next = 0 /\ timer = Never /\ cannot \in BOOLEAN /\ reg \in {0, 1, 2, 3, 5} /\ ss \in {99, 0, 20} /\ chk = TRUE /\ sup = TRUE
        /\ now = 0 /\ s = SInit(Pr) /\ bad = {} /\ changes = 3
RECURSIVE Run(_, _, _)
Run(x, b, q) == IF q = <<>> THEN s' = x /\ bad' = bad \cup b ELSE LET r == VStep(Pr, x, q[1]) IN Run(r.s, b \cup r.bad, Tail(q))
Ev(q) == Run(s, {}, q)
TxE(c) == [k |-> "Tx", t |-> 1, c |-> c, term |-> "^M", at |-> now]
RspE(l) == [k |-> "Rsp", l |-> <<l>>, final |-> TRUE, at |-> now]
ExcE(c) == [k |-> "Exc", t |-> 1, x |-> [mro |-> <<c>>, code |-> 0 - 1, type |-> "", cmd |-> "", cause |-> "", causecode |-> 0 - 1], at |-> now]
LookE == [k |-> "Look", n |-> IF timer # Never THEN 1 ELSE 0, at |-> now]
Start == /\ pc = "start" /\ pc' = "poll" /\ \E x \in Tmos : LET tmo == IF x = 99999 THEN Never ELSE x IN /\ timer' = (IF tmo < 0 THEN Never ELSE now + tmo)
                                                              /\ Ev(<<[k |-> "Op", t |-> 1, op |-> "wait", cmd |-> "", tmo |-> tmo, at |-> now]>>)
         /\ UNCHANGED <<next, cannot, reg, ss, chk, sup, now, changes>>
Over == LET d == s.th[1].tmo IN
        IF Broken = "giveup" /\ d < 0 THEN now >= 3000
        ELSE d >= 0 /\ CASE Broken = "early" -> now >= s.th[1].at + d - 1000 [] Broken = "late" -> now >= s.th[1].at + d + 2500 [] OTHER -> timer = Never
Expire == /\ timer # Never /\ now >= timer /\ timer' = Never /\ UNCHANGED <<pc, next, cannot, reg, ss, chk, sup, now, s, bad, changes>>
End(q) == Ev(q) /\ pc' = "done" /\ timer' = (IF Broken = "leak" THEN timer ELSE Never)
Poll == /\ pc = "poll" /\ now >= next /\ (timer = Never \/ now < timer) /\ UNCHANGED <<cannot, reg, ss, now, changes>>
  /\ IF Over THEN End(<<ExcE("TimeoutException")>>) /\ UNCHANGED <<next, chk, sup>>
     ELSE IF chk /\ Broken # "noreg"
     THEN LET stat == IF cannot THEN 0 - 1 ELSE reg
              q == <<TxE("AT+CREG?"), [k |-> "Creg", stat |-> stat, at |-> now], RspE(IF cannot THEN "ERROR" ELSE "OK")>> IN
          IF stat \in {0, 3} /\ Broken # "patient" THEN End(q \o <<ExcE("InvalidStateException")>>) /\ UNCHANGED <<next, chk, sup>>
          ELSE Ev(q) /\ next' = now + 1000 /\ UNCHANGED <<pc, timer>> /\ sup' = (stat >= 0 \/ Broken = "blind")
               /\ chk' = ~(stat = 1 \/ (stat = 5 /\ Broken # "roaming") \/ (stat < 0 /\ Broken # "blind"))
     ELSE LET q == <<TxE("AT+CSQ"), [k |-> "Csq", ss |-> IF ss = 99 THEN 0 - 1 ELSE ss, line |-> "", at |-> now], RspE("OK")>> IN
          IF ss # 99 /\ (ss > 0 \/ Broken = "zero") THEN End(q \o <<[k |-> "Ret", t |-> 1, v |-> ss, at |-> now]>>) /\ UNCHANGED <<next, chk, sup>>
          ELSE Ev(q) /\ next' = now + 1000 /\ UNCHANGED <<pc, timer, sup>> /\ chk' = (sup /\ Broken # "once")
Change == /\ changes > 0 /\ changes' = changes - 1 /\ reg' \in {0, 1, 2, 3, 5} /\ ss' \in {99, 0, 20} /\ <<reg', ss'>> # <<reg, ss>> /\ pc = "poll"
          /\ UNCHANGED <<pc, next, timer, cannot, chk, sup, now, s, bad>>
Tick == /\ now < Ticks * Step0 /\ pc # "start" /\ (pc = "done" \/ now < next) /\ (timer = Never \/ now < timer) /\ now' = now + Step0
        /\ UNCHANGED <<pc, next, timer, cannot, reg, ss, chk, sup, s, bad, changes>>
Next == Start \/ Expire \/ Poll \/ Change \/ Tick
Allowed == bad = {}
Complete == pc = "done" => VLook(Pr, s, LookE).bad = {}
(* who waits with a timeout is not left waiting; who waits without it keeps asking *)
Bounded == (pc = "poll" /\ s.th[1].tmo >= 0) => now <= s.th[1].at + s.th[1].tmo + Round
=============================================================================
