---------------------------- MODULE MCConnect ----------------------------
(* The library's connection procedure, command by command, against every modem profile in the scope: whatever the modem
   supports, however it reveals its lock and when it is busy, every event is one Connect allows.  Broken names a defect
   put into the procedure (for checking that the specification notices). *)
EXTENDS Connect, FiniteSets
CONSTANTS Small, Units, MaxBusy, Attempts, Broken
VARIABLES P, h, s, bad
mcv == <<P, h, s, bad>>
(* h: the host.  pc: what it does next; cur: the command it waits for; f: flags *)
H0 == [pc |-> "start", cmd |-> "", early |-> FALSE, hint |-> 0, wind |-> FALSE, pin |-> "", n |-> 0, busy |-> 0, line |-> <<>>, fin |-> TRUE, orig |-> "", cache |-> "", reads |-> TRUE, lists |-> FALSE]
Ev(e) == LET r == CStep(P, s, e) IN s' = r.s /\ bad' = r.bad
Cmds == {"+WIND", "^CVOICE", "^USSDMODE", "+ZPAS"}
Profiles ==
  {[sim |-> sim, pin |-> "1234", reveal |-> rv, unsup |-> us, clac |-> cl, commands |-> cs, cpms |-> cp, csca |-> sc, cscaform |-> cf,
    csmpdrops |-> cd, zmode |-> 1, wind |-> 0, cfun |-> fu, aim |-> "conf", cpin |-> ci, user |-> [pins |-> pins, text |-> FALSE, smsc |-> us2]] :
     sim \in {"ready", "pin", "puk", "absent"}, rv \in {"later", "reset"}, us \in {<<>>} \cup {<<u>> : u \in Units}, cl \in {"none", "single"},
     cs \in {<<"+CMGF">>, <<"+WIND", "^CVOICE", "^USSDMODE">>}, cp \in {<<>>} \cup IF Small THEN {} ELSE {<< <<"SM", "ME">>, <<"BM">> >>, << <<>>, <<>> >>}, sc \in IF Small THEN {"+1"} ELSE {"", "+1"}, cf \in IF Small THEN {"ok"} ELSE {"ok", "330"},
     cd \in BOOLEAN, fu \in IF Small THEN {0} ELSE {0, 1}, ci \in {"ok", "nook"}, pins \in [1..Attempts -> IF Small THEN {"", "1234"} ELSE {"", "1234", "9999"}], us2 \in {"", "+2"}}
Init == P \in Profiles /\ h = H0 /\ s = CInit(P) /\ bad = {}
Say(c, pc) == h' = [h EXCEPT !.cmd = c, !.pc = "wait", !.line = <<>>, !.n = @] /\ TRUE
(* the command sent at each point, and where to go when it was accepted / rejected *)
CmdAt(pc) ==
  CASE pc = "ATZ" -> "ATZ" [] pc = "eCMEE" -> "AT+CMEE=1" [] pc = "CPIN?" -> "AT+CPIN?" [] pc = "CPIN=" -> "AT+CPIN=\"" \o h.pin \o "\""
    [] pc = "ATZ2" -> "ATZ" [] pc = "ATE0" -> "ATE0" [] pc = "CFUN?" -> "AT+CFUN?" [] pc = "CFUN=" -> "AT+CFUN=1" [] pc = "CMEE" -> "AT+CMEE=1"
    [] pc = "CLAC" -> "AT+CLAC" [] pc = "CVOICE" -> "AT^CVOICE=0" [] pc = "USSD" -> "AT^USSDMODE=0" [] pc = "WIND?" -> "AT+WIND?" [] pc = "WIND=" -> "AT+WIND=50"
    [] pc = "CGMI" -> "AT+CGMI" [] pc = "ZPAS" -> "AT+ZPAS?" [] pc = "COPS" -> "AT+COPS=3,0" [] pc = "CMGF" -> "AT+CMGF=0"
    [] pc = "CSCAset" -> "AT+CSCA=\"" \o P.user.smsc \o "\"" [] pc = "CSCA?" -> "AT+CSCA?" [] pc = "CSMP" -> "AT+CSMP=49,167,0,0" [] pc = "CSCA2?" -> "AT+CSCA?"
    [] pc = "CSCArestore" -> "AT+CSCA=\"" \o h.orig \o "\"" [] pc = "CPMS?" -> "AT+CPMS=?" [] pc = "CPMS=" -> IF Len(P.cpms) = 2 THEN "AT+CPMS=\"ME\",\"BM\"" ELSE "AT+CPMS="
    [] pc = "CNMI" -> "AT+CNMI=2,1,0,2" [] pc = "CLIP" -> "AT+CLIP=1" [] pc = "CRC" -> "AT+CRC=1" [] pc = "CVHU" -> "AT+CVHU=0"
Go(pc) == h' = [h EXCEPT !.pc = pc]
Send == /\ h.pc \notin {"start", "wait", "got", "done", "fail", "branch"}
        /\ h' = [h EXCEPT !.cmd = h.pc, !.pc = "wait"]
        /\ Ev([k |-> "Tx", c |-> CmdAt(h.pc), at |-> 0]) /\ UNCHANGED P
(* the modem answers *)
Lines(c) == CASE c = "AT+CPIN?" -> <<IF s.m.sim = "ready" THEN "+CPIN: READY" ELSE "+CPIN: SIM PIN">> [] OTHER -> <<>>
Err(c) == IF PinCmd(c) THEN (IF s.m.sim = "puk" THEN "+CME ERROR: 12" ELSE IF s.m.sim = "absent" THEN "+CME ERROR: 10" ELSE "+CME ERROR: 16") ELSE IF c = "AT+CSCA?" /\ Has(P, "AT+CSCA?") THEN "+CMS ERROR: 330" ELSE IF s.m.sim # "ready" THEN "+CME ERROR: 11" ELSE "ERROR"
Answer == LET c == s.cmd acc == Accepts(P, s.m, c) /\ (c = "AT+CPMS=?" => P.cpms # <<>>) IN
  /\ h.pc = "wait" /\ UNCHANGED P
  /\ \/ /\ h.busy < MaxBusy /\ Ev([k |-> "Rsp", l |-> <<"+CME ERROR: 14">>, final |-> TRUE, at |-> 0])
        /\ h' = [h EXCEPT !.busy = @ + 1, !.pc = IF Broken = "busy-optional" /\ h.cmd \in {"CVOICE", "USSD", "COPS", "CSMP", "CVHU"} THEN "got" ELSE h.cmd, !.line = <<"+CME ERROR: 14">>]
     \/ /\ acc /\ LET fin == ~(c = "AT+CPIN?" /\ P.cpin = "nook") l == Lines(c) \o (IF fin THEN <<"OK">> ELSE <<>>) IN
                    Ev([k |-> "Rsp", l |-> l, final |-> fin, at |-> 0]) /\ h' = [h EXCEPT !.pc = "got", !.line = l]
     \/ /\ ~acc /\ Ev([k |-> "Rsp", l |-> <<Err(c)>>, final |-> TRUE, at |-> 0]) /\ h' = [h EXCEPT !.pc = "got", !.line = <<Err(c)>>]
Good == Kind(Last(h.line)) = "OK" \/ h.line = <<"+CPIN: SIM PIN">>
AfterUnlock == IF h.early THEN "ATZ2" ELSE "CLAC"
Listed(f) == h.lists /\ f \in Rng(P.commands)
AfterWind(hint) == IF hint = 0 THEN "CGMI" ELSE "COPS"
AfterVoice == IF Listed("^USSDMODE") THEN "USSD" ELSE IF ~h.lists \/ Listed("+WIND") THEN "WIND?" ELSE "CGMI"
NextPc ==
  CASE h.cmd = "ATZ" -> IF Good THEN "ATE0" ELSE "eCMEE"
    [] h.cmd = "eCMEE" -> "CPIN?"
    [] h.cmd = "CPIN?" -> IF ReadyLine(h.line) /\ Broken # "always-pin" THEN AfterUnlock ELSE IF Good THEN (IF h.pin = "" THEN "nopin" ELSE "CPIN=") ELSE "fail"
    [] h.cmd = "CPIN=" -> IF Good THEN AfterUnlock ELSE IF Broken = "pin-twice" /\ h.n < 2 THEN "CPIN=" ELSE "fail"
    [] h.cmd \in {"ATZ2"} -> IF Good THEN "ATE0" ELSE "fail"
    [] h.cmd = "ATE0" -> IF Good THEN (IF Broken = "sim-early" THEN "COPS" ELSE "CFUN?") ELSE "fail"
    [] h.cmd = "CFUN?" -> IF Good /\ P.cfun # 1 THEN "CFUN=" ELSE "CMEE"
    [] h.cmd = "CFUN=" -> "CMEE"
    [] h.cmd = "CMEE" -> IF ~Good THEN "fail" ELSE IF h.early THEN "CLAC" ELSE "CPIN?"
    [] h.cmd = "CLAC" -> IF Good /\ "^CVOICE" \in Rng(P.commands) THEN "CVOICE" ELSE IF Good /\ "^USSDMODE" \in Rng(P.commands) THEN "USSD"
                         ELSE IF ~Good \/ "+WIND" \in Rng(P.commands) THEN "WIND?" ELSE "CGMI"
    [] h.cmd = "CVOICE" -> AfterVoice
    [] h.cmd = "USSD" -> IF Listed("+WIND") THEN "WIND?" ELSE "CGMI"
    [] h.cmd = "WIND?" -> IF Good THEN "WIND=" ELSE "CGMI"
    [] h.cmd = "WIND=" -> IF Good THEN "COPS" ELSE IF Broken = "wind-mandatory" THEN "fail" ELSE "CGMI"
    [] h.cmd = "CGMI" -> "ZPAS" [] h.cmd = "ZPAS" -> "COPS" [] h.cmd = "COPS" -> "CMGF"
    [] h.cmd = "CMGF" -> IF ~Good THEN "fail" ELSE IF P.user.smsc # "" THEN "CSCAset" ELSE "CSCA?"
    [] h.cmd = "CSCAset" -> IF Good THEN "CSMP" ELSE "fail"
    [] h.cmd = "CSCA?" -> "CSMP"
    [] h.cmd = "CSMP" -> IF h.orig = "" \/ Broken = "no-restore" THEN "CPMS?" ELSE "CSCA2?"
    [] h.cmd = "CSCA2?" -> IF Good /\ s.m.csca = h.orig THEN "CPMS?" ELSE "CSCArestore"
    [] h.cmd = "CSCArestore" -> IF Good THEN "CPMS?" ELSE "fail"
    [] h.cmd = "CPMS?" -> IF Good /\ Offers(P) THEN "CPMS=" ELSE "CLIP"
    [] h.cmd = "CPMS=" -> "CNMI" [] h.cmd = "CNMI" -> "CLIP"
    [] h.cmd = "CLIP" -> IF Good THEN "CRC" ELSE "CVHU" [] h.cmd = "CRC" -> "CVHU" [] h.cmd = "CVHU" -> "done"
Eval == /\ h.pc = "got" /\ UNCHANGED <<P, s, bad>>
        /\ h' = [h EXCEPT !.pc = NextPc, !.early = @ \/ h.cmd = "eCMEE", !.n = IF h.cmd = "CPIN=" THEN @ + 1 ELSE @,
                          !.lists = IF h.cmd = "CLAC" THEN Good ELSE @,
                          !.orig = IF h.cmd = "CSCAset" THEN P.user.smsc ELSE IF h.cmd = "CSCA?" THEN (IF Good THEN s.m.csca ELSE "") ELSE @]
Start == /\ h.pc = "start" /\ s.attempt < Attempts /\ UNCHANGED P
         /\ h' = [H0 EXCEPT !.pc = "ATZ", !.pin = P.user.pins[s.attempt + 1], !.busy = h.busy] /\ Ev([k |-> "Attempt", at |-> 0])
NewErr == LET l == IF h.line = <<>> THEN "ERROR" ELSE Last(h.line) c == CodeOf(l) IN
  [cls |-> "", mro |-> IF h.pc = "nopin" THEN <<"PinRequiredError", "SecurityException", "CmeError", "CommandError">>
                       ELSE IF c < 0 THEN <<"CommandError">>
                       ELSE <<CASE c = 11 -> "PinRequiredError" [] c = 16 -> "IncorrectPinError" [] c = 12 -> "PukRequiredError" [] OTHER -> "x", "SecurityException", IF TypeOf(l) = "CME" THEN "CmeError" ELSE "CmsError", "CommandError">>,
   code |-> c, type |-> IF c < 0 THEN "" ELSE TypeOf(l), cmd |-> IF PinCmd(s.cmd) THEN s.cmd ELSE "", cause |-> "", causecode |-> 0 - 1, data |-> <<>>]
Finish == \/ h.pc = "done" /\ Ev([k |-> "Ret", alive |-> TRUE, at |-> 0]) /\ h' = [h EXCEPT !.pc = "start"] /\ UNCHANGED P
          \/ h.pc \in {"fail", "nopin"} /\ Ev([k |-> "Exc", x |-> NewErr, at |-> 0]) /\ h' = [h EXCEPT !.pc = "start"] /\ UNCHANGED P
Send2 == h.pc # "nopin" /\ Send
Next == Start \/ Send2 \/ Answer \/ Eval \/ Finish
Allowed == bad = {}
=============================================================================
