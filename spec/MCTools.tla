------------------------------ MODULE MCTools ------------------------------
(* The algorithm of sendsms (arguments, PIN, coverage, the question, one message, the report, the exit status) composed with Tools and a modem and
   user that do anything allowed: every event is one Tools allows, and the program comes to its end.
   Broken: "usage" (opens the port although the arguments are wrong), "eager" (the PIN is sent unasked), "blind" (asks without coverage), "patient" (waits for
   coverage too long), "hasty" (gives up on coverage at once), "twice" (the message is sent again after a refusal), "zero" (exit status 0 after a failure),
   "nowait" (does not wait for the report), "early" (gives up on the report early), "invent" (a failed delivery is a delivery), "open" (leaves the port open),
   "mute" (a wrong PIN is not reported), "deaf" (sends although the user gave up), "dest" (another destination), "trim" (another text). *)
EXTENDS Tools
CONSTANTS Broken
VARIABLES pc, now, reg, ss, P, s, bad, c0, a0, rep, changes, tries
vars == <<pc, now, reg, ss, P, s, bad, c0, a0, rep, changes, tries>>
Pin0 == "1234"
Con0(sim, pin) == [sim |-> sim, pin |-> Pin0, reveal |-> "later", unsup |-> <<>>, clac |-> "none", commands |-> <<>>, cpms |-> <<<<"ME">>, <<"ME">>, <<"ME">>>>, csca |-> "", cscaform |-> "ok",
                   csmpdrops |-> FALSE, zmode |-> 0, wind |-> 0, cfun |-> 1, aim |-> "pin", user |-> [pins |-> <<pin>>, text |-> FALSE, smsc |-> ""], cpin |-> "ok"]
Prof(u, sim, pin, d) == [tool |-> "sendsms", usage |-> u, noport |-> FALSE, con |-> Con0(sim, pin), snd |-> [text |-> TRUE, threads |-> 1, sel |-> "ME", parts |-> 1, late |-> 3000],
                         argv |-> [port |-> "p", baud |-> "9600", pin |-> pin, deliver |-> d, debug |-> FALSE, raw |-> FALSE, dest |-> <<49>>, deststr |-> "1"]]
Init == /\ P \in {Prof(u, sim, pin, d) : u \in BOOLEAN, sim \in {"ready", "pin"}, pin \in {"", Pin0, "9"}, d \in BOOLEAN}
        /\ pc = "start" /\ now = 0 /\ reg \in {0, 1, 2} /\ ss \in {0, 20} /\ s = TInit0(P) /\ bad = {} /\ c0 = 0 /\ a0 = 0 /\ rep = "no" /\ changes = 2 /\ tries = 0
RECURSIVE Run(_, _, _)
Run(x, b, q) == IF q = <<>> THEN s' = x /\ bad' = bad \cup b ELSE LET r == TStep(P, x, q[1]) IN Run(r.s, b \cup r.bad, Tail(q))
Ev(q) == Run(s, {}, q)
TxE(c) == [k |-> "Tx", t |-> 1, c |-> c, term |-> "^M", at |-> now]
RspE(l) == [k |-> "Rsp", c |-> "", l |-> l, final |-> TRUE, v |-> <<>>, at |-> now]
Prompt == [k |-> "Rsp", c |-> "", l |-> <<"> ">>, final |-> TRUE, v |-> <<>>, at |-> now]
BodyE(x) == [k |-> "Tx", t |-> 1, c |-> x, term |-> "^Z", hex |-> FALSE, o |-> <<>>, at |-> now]
ExitE(code, out, err) == [k |-> "Exit", code |-> IF Broken = "zero" THEN 0 ELSE code, out |-> <<out>>, err |-> <<err>>, raised |-> FALSE, restored |-> TRUE, at |-> now]
CloseE == IF Broken = "open" THEN <<>> ELSE <<[k |-> "Closed", at |-> now]>>
Stop(q) == Ev(q) /\ pc' = "done"
Static == UNCHANGED <<P, now, reg, ss, changes>>
Start == /\ pc = "start" /\ Static /\ UNCHANGED <<c0, a0, rep, tries>>
         /\ IF ~P.usage /\ Broken # "usage" THEN Stop(<<ExitE(2, "", "wrong")>>)
            ELSE Ev(<<[k |-> "Open", port |-> "p", baud |-> "9600", at |-> now], TxE("ATZ"), RspE(<<"OK">>)>>) /\ pc' = "pin"
Enter(q) == LET x == q \o <<TxE("AT+CPIN=\"" \o P.argv.pin \o "\"")>> IN
            IF P.argv.pin = Pin0 \/ P.con.sim = "ready" THEN Ev(x \o <<RspE(<<"OK">>), [k |-> "Con", at |-> now]>>) /\ pc' = "cover"
            ELSE Stop(x \o <<RspE(<<"+CME ERROR: 16">>), [k |-> "NoCon", at |-> now], ExitE(1, "", IF Broken = "mute" THEN "oops" ELSE "Incorrect PIN")>>)
PinStep == /\ pc = "pin" /\ Static /\ c0' = now /\ UNCHANGED <<a0, rep, tries>>
           /\ IF Broken = "eager" /\ P.argv.pin # "" THEN Enter(<<>>)
              ELSE LET q == <<TxE("AT+CPIN?"), RspE(<<IF P.con.sim = "ready" THEN "+CPIN: READY" ELSE "+CPIN: SIM PIN", "OK">>)>> IN
                   IF P.con.sim = "ready" THEN Ev(q \o <<[k |-> "Con", at |-> now]>>) /\ pc' = "cover"
                   ELSE IF P.argv.pin # "" THEN Enter(q)
                   ELSE Stop(q \o <<[k |-> "NoCon", at |-> now], ExitE(1, "", "PIN required")>>)
Give == Stop(CloseE \o <<ExitE(1, "no signal", "")>>)
Cover == /\ pc = "cover" /\ UNCHANGED <<P, reg, ss, changes, a0, rep, tries, c0>>
  /\ LET q == <<TxE("AT+CREG?"), [k |-> "Creg", stat |-> reg, at |-> now], RspE(<<"OK">>)>>
         q2 == q \o <<TxE("AT+CSQ"), [k |-> "Csq", ss |-> ss, line |-> "", at |-> now], RspE(<<"OK">>)>>
         lim == IF Broken = "hasty" THEN 0 ELSE IF Broken = "patient" THEN Wait + 6000 ELSE Wait IN
     IF now >= c0 + lim /\ (Broken # "hasty" \/ now > c0) THEN Give /\ now' = now
     ELSE IF reg = 0 /\ Broken # "blind" THEN Stop(q \o CloseE \o <<ExitE(1, "", "not searching")>>) /\ now' = now
     ELSE IF Broken = "blind" \/ (reg = 1 /\ ss > 0) THEN Ev((IF Broken = "blind" THEN q ELSE q2) \o <<[k |-> "Ask", at |-> now]>>) /\ pc' = "ask" /\ now' = now
     ELSE Ev(IF reg = 1 THEN q2 ELSE q) /\ pc' = "cover" /\ now' = now + 1000
Change == /\ pc = "cover" /\ changes > 0 /\ changes' = changes - 1 /\ reg' \in {0, 1, 2} /\ ss' \in {0, 20} /\ <<reg', ss'>> # <<reg, ss>> /\ UNCHANGED <<pc, now, P, s, bad, c0, a0, rep, tries>>
LineE == [k |-> "Line", text |-> <<72>>, raw |-> "H", at |-> now]
AskStep == /\ pc = "ask" /\ Static /\ UNCHANGED <<c0, a0, rep, tries>>
           /\ \/ Ev(<<LineE>>) /\ pc' = "send"
              \/ IF Broken = "deaf" THEN UNCHANGED <<s, bad>> /\ pc' = "send" ELSE Stop(<<ExitE(1, "", "end of input")>>)
Ann == TxE("AT+CMGS=\"" \o (IF Broken = "dest" THEN "2" ELSE "1") \o "\"")
SendStep == /\ pc = "send" /\ Static /\ UNCHANGED <<c0>>
  /\ LET body == <<Ann, Prompt, BodyE(IF Broken = "trim" THEN "h" ELSE "H")>> IN
     \/ /\ Ev(body \o <<RspE(<<"+CMGS: 3", "OK">>)>>) /\ a0' = now /\ rep' = (IF P.argv.deliver THEN "due" ELSE "no") /\ tries' = tries
        /\ pc' = IF P.argv.deliver /\ Broken # "nowait" THEN "wait" ELSE "sent"
     \/ /\ UNCHANGED <<a0, rep>>
        /\ IF Broken = "twice" /\ tries = 0 THEN Ev(body \o <<RspE(<<"+CMS ERROR: 500">>)>>) /\ tries' = 1 /\ pc' = "send"
           ELSE \E l \in {"ERROR", "+CMS ERROR: 500"} : \E b \in BOOLEAN : tries' = tries /\ Stop((IF b THEN body ELSE <<Ann>>) \o <<RspE(<<l>>), ExitE(1, "", "failed")>>)
Report == /\ pc \in {"wait", "sent"} /\ rep = "due" /\ \E st \in {0, 70} :
             /\ rep' = (IF st = 0 THEN "good" ELSE "bad")
             /\ Ev(<<[k |-> "Rep", mem |-> "ME", i |-> 1, ref |-> 3, st |-> st, fail |-> FALSE, at |-> now], [TxE("AT+CMGR=1") EXCEPT !.t = 0], RspE(<<"+CMGR: 0", "OK">>), [TxE("AT+CMGD=1") EXCEPT !.t = 0], RspE(<<"OK">>)>>)
          /\ UNCHANGED <<pc, P, now, reg, ss, changes, c0, a0, tries>>
WaitStep == /\ pc = "wait" /\ UNCHANGED <<P, reg, ss, changes, c0, a0, rep, tries>>
  /\ IF rep \in {"good", "bad"} THEN pc' = "sent" /\ UNCHANGED <<s, bad, now>>
     ELSE IF now >= a0 + (IF Broken = "early" THEN 5000 ELSE ReportWait) THEN Stop(CloseE \o <<ExitE(1, "Failed to send message", "")>>) /\ now' = now
     ELSE now' = now + 5000 /\ UNCHANGED <<pc, s, bad>>
SentStep == /\ pc = "sent" /\ Static /\ UNCHANGED <<c0, a0, rep, tries>>
            /\ Stop(CloseE \o <<ExitE(0, IF rep = "good" \/ (Broken = "invent" /\ rep = "bad") THEN "Message sent and delivered OK." ELSE IF rep = "bad" THEN "Message sent, but delivery failed." ELSE "Message sent.", "")>>)
Next == Start \/ PinStep \/ Cover \/ Change \/ AskStep \/ SendStep \/ Report \/ WaitStep \/ SentStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ PinStep \/ Cover \/ AskStep \/ SendStep \/ WaitStep \/ SentStep)
Allowed == bad = {}
Ended == pc = "done" => s.over
Ends == <>(pc = "done")
=============================================================================
