------------------------------ MODULE Connect ------------------------------
(* Bringing up a modem.  The state is the modem's configuration and SIM as the commands it accepted have made them, plus
   what this connection attempt did so far; P is the modem (what it supports, its SIM, its habits) and the user's wishes. *)
EXTENDS ModemCmd
P0 == [x |-> 0]
Has(P, f) == \A i \in 1..Len(P.unsup) : ~Starts(f, P.unsup[i])     \* the modem supports the command
(* as it starts: P.zmode is the message mode of its stored profile *)
Off(P) == [echo |-> TRUE, cmee |-> 0, cops |-> 2, cmgf |-> P.zmode, cnmi |-> "", clip |-> 0, crc |-> 0, cvhu |-> 1, csmp |-> ""]
CInit(P) == [m |-> Off(P) @@ [sim |-> P.sim, tries |-> 3, cfun |-> P.cfun, csca |-> P.csca, cpms |-> <<>>, wind |-> P.wind, cvoice |-> 1, ussd |-> 1, dropped |-> FALSE],
             cmd |-> "", told |-> "unknown", pins |-> 0, refused |-> "", silent |-> FALSE, attempt |-> 0, rejected |-> {}, smsc |-> P.user.smsc, orig |-> P.csca]
Ready(s) == s.m.sim = "ready"
Prefixed(c, S) == \E p \in S : Starts(c, p)
NeedsSim(c) == Prefixed(c, {"AT+CSCA", "AT+CSMP", "AT+CPMS", "AT+CNMI", "AT+CMGS", "AT+CMGR", "AT+CMGL", "AT+CMGD", "AT+CMGW", "AT+CUSD", "AT+CIMI", "AT+CLIP",
                            "AT+COPS", "ATD", "AT+CPB", "AT+CNUM", "AT+CREG"})
NoPin(c) == c \in {"ATZ", "AT"} \/ Prefixed(c, {"ATE", "AT+CFUN", "AT+CMEE", "AT+CPIN"})
PinCmd(c) == Starts(c, "AT+CPIN=")
Mandatory(c) == c = "ATZ" \/ Prefixed(c, {"ATE0", "AT+CMEE=", "AT+CMGF=", "AT+CPIN"})
Between(s, a, b) == SubSeq(s, a + 1, Len(s) - b)
(* the memories a +CPMS command names *)
RECURSIVE Split(_, _)
Split(s, cur) == IF s = "" THEN <<cur>>
                 ELSE LET h == SubSeq(s, 1, 1) t == SubSeq(s, 2, Len(s)) IN IF h = "," THEN <<cur>> \o Split(t, "") ELSE Split(t, cur \o h)
Unq(x) == IF Len(x) >= 2 /\ Starts(x, "\"") THEN Between(x, 1, 1) ELSE x
Mems(c) == LET q == Split(SubSeq(c, 9, Len(c)), "") IN [i \in 1..Len(q) |-> Unq(q[i])]
(* what an accepted command does to the modem *)
Effect(P, m, c) ==
  CASE c = "ATZ" -> Off(P) @@ m
    [] c = "ATE0" -> [m EXCEPT !.echo = FALSE]
    [] Starts(c, "AT+CMEE=") -> [m EXCEPT !.cmee = Num(SubSeq(c, 9, Len(c)))]
    [] Starts(c, "AT+CFUN=") -> [m EXCEPT !.cfun = Num(SubSeq(c, 9, Len(c)))]
    [] PinCmd(c) -> [m EXCEPT !.sim = "ready"]
    [] Starts(c, "AT+WIND=") -> [m EXCEPT !.wind = Num(SubSeq(c, 9, Len(c)))]
    [] Starts(c, "AT^CVOICE=") -> [m EXCEPT !.cvoice = Num(SubSeq(c, 11, Len(c)))]
    [] Starts(c, "AT^USSDMODE=") -> [m EXCEPT !.ussd = Num(SubSeq(c, 13, Len(c)))]
    [] Starts(c, "AT+COPS=3,") -> [m EXCEPT !.cops = Num(SubSeq(c, 11, Len(c)))]
    [] Starts(c, "AT+CMGF=") -> [m EXCEPT !.cmgf = Num(SubSeq(c, 9, Len(c)))]
    [] Starts(c, "AT+CSCA=") -> [m EXCEPT !.csca = Unq(Split(SubSeq(c, 9, Len(c)), "")[1]), !.dropped = FALSE]
    [] Starts(c, "AT+CSMP=") -> [m EXCEPT !.csmp = SubSeq(c, 9, Len(c)), !.csca = IF P.csmpdrops THEN "" ELSE @, !.dropped = P.csmpdrops]
    [] Starts(c, "AT+CPMS=") /\ c # "AT+CPMS=?" -> [m EXCEPT !.cpms = Mems(c)]
    [] Starts(c, "AT+CNMI=") -> [m EXCEPT !.cnmi = SubSeq(c, 9, Len(c))]
    [] Starts(c, "AT+CLIP=") -> [m EXCEPT !.clip = Num(SubSeq(c, 9, Len(c)))]
    [] Starts(c, "AT+CRC=") -> [m EXCEPT !.crc = Num(SubSeq(c, 8, Len(c)))]
    [] Starts(c, "AT+CVHU=") -> [m EXCEPT !.cvhu = Num(SubSeq(c, 9, Len(c)))]
    [] OTHER -> m
(* what a wrong PIN does: after the third one the SIM asks for its PUK *)
Burn(P, m, c) == IF m.sim = "pin" /\ Unq(SubSeq(c, 9, Len(c))) # P.pin
                 THEN [m EXCEPT !.tries = @ - 1, !.sim = IF m.tries = 1 THEN "puk" ELSE @] ELSE m
(* does the modem accept the command? *)
CpmsOk(P, c) == LET q == Mems(c) IN q # <<>> /\ Len(q) <= Len(P.cpms) /\ \A i \in 1..Len(q) : q[i] \in Rng(P.cpms[i])
Accepts(P, m, c) ==
  /\ \/ m.sim = "ready"
     \/ NoPin(c) /\ (c = "ATZ" => P.reveal # "reset")
  /\ Has(P, c)
  /\ PinCmd(c) => m.sim \notin {"puk", "absent"} /\ Unq(SubSeq(c, 9, Len(c))) = P.pin
  /\ Starts(c, "AT+CPMS=") /\ c # "AT+CPMS=?" => CpmsOk(P, c)
  /\ c = "AT+CSCA?" => P.cscaform # "error" /\ (m.csca # "" \/ P.cscaform # "330")
  /\ c = "AT+CLAC" => P.clac # "none"

(* ---- C06: what the host may send, and when ------------------------------------------------------------- *)
Attempt(P, s, e) == Ok([s EXCEPT !.told = "unknown", !.pins = 0, !.refused = "", !.cmd = "", !.attempt = @ + 1, !.silent = FALSE, !.rejected = {}], {})
Sent(P, s, e) ==
  Ok([s EXCEPT !.cmd = e.c, !.pins = @ + (IF PinCmd(e.c) THEN 1 ELSE 0)],
     Cl("sim-needed-before-ready", NeedsSim(e.c) => Ready(s))
     \cup (IF PinCmd(e.c)
           THEN Cl("pin-without-user-pin", P.user.pins[s.attempt] # "")
                \cup Cl("pin-as-supplied", Unq(SubSeq(e.c, 9, Len(e.c))) = P.user.pins[s.attempt])
                \cup Cl("pin-not-required", s.told = "locked")
                \cup Cl("pin-once", s.pins = 0)
                \cup Cl("pin-after-refusal", s.refused = "")
           ELSE {}))
ReadyLine(l) == \E i \in 1..Len(l) : l[i] \in {"+CPIN: READY", "+CPIN:READY"}
LockLine(l) == \E i \in 1..Len(l) : Starts(l[i], "+CPIN") /\ l[i] \notin {"+CPIN: READY", "+CPIN:READY"}
Replied(P, s, e) ==
  LET c == s.cmd
      told == IF c = "AT+CPIN?" THEN (IF ReadyLine(e.l) THEN "ready" ELSE IF LockLine(e.l) THEN "locked" ELSE s.told) ELSE s.told
  IN IF ~e.final THEN Ok([s EXCEPT !.told = told, !.silent = @ \/ \A i \in 1..Len(e.l) : ~Starts(e.l[i], "+CPIN")], {})
     ELSE LET line == Last(e.l) IN
       IF Busy(line) THEN Ok([s EXCEPT !.pins = IF PinCmd(c) THEN @ - 1 ELSE @], {})
       ELSE IF Kind(line) = "OK"
       THEN Ok([s EXCEPT !.told = told, !.m = Effect(P, @, c)], Cl("model-accepts", Accepts(P, s.m, c)))
       ELSE Ok([s EXCEPT !.m = IF PinCmd(c) THEN Burn(P, @, c) ELSE @, !.refused = IF PinCmd(c) THEN line ELSE @, !.rejected = @ \cup {c}, !.told = told], Cl("model-rejects", ~Accepts(P, s.m, c) \/ (c = "AT+CPMS=?" /\ P.cpms = <<>>)))

(* ---- C07: what it has to look like afterwards ---------------------------------------------------------- *)
Pref == <<"ME", "SM", "SR">>
Wanted(mem) == IF \E i \in 1..3 : Pref[i] \in Rng(mem) THEN {Pref[CHOOSE i \in 1..3 : Pref[i] \in Rng(mem) /\ \A j \in 1..(i-1) : Pref[j] \notin Rng(mem)]} ELSE Rng(mem)
Offers(P) == P.cpms # <<>> /\ (\A i \in 1..Len(P.cpms) : P.cpms[i] # <<>>) /\ Has(P, "AT+CPMS=?")
Lists(P, f) == P.clac # "none" /\ Has(P, "AT+CLAC") /\ f \in Rng(P.commands)
WindKnown(P) == IF P.clac = "none" \/ ~Has(P, "AT+CLAC") THEN TRUE ELSE Lists(P, "+WIND")
Configured(P, s) ==
  LET m == s.m IN
  Cl("echo-off", ~m.echo) \cup Cl("detailed-errors", m.cmee >= 1)
  \cup Cl("full-functionality", Has(P, "AT+CFUN=1") /\ Has(P, "AT+CFUN?") => m.cfun = 1)
  \cup Cl("sms-mode", m.cmgf = IF P.user.text THEN 1 ELSE 0)
  \cup Cl("long-operator-names", Has(P, "AT+COPS=3,0") => m.cops = 0)
  \cup Cl("delivery-reports", Has(P, "AT+CSMP=49,167,0,0") => m.csmp = "49,167,0,0")
  \cup Cl("message-storage", Offers(P) /\ Has(P, "AT+CPMS=\"") => m.cpms # <<>> /\ \A i \in 1..Len(m.cpms) : m.cpms[i] \in Wanted(P.cpms[i]))
  \cup Cl("message-notifications", Offers(P) /\ Has(P, "AT+CNMI=2,1,0,2") => m.cnmi = "2,1,0,2")
  \cup Cl("caller-id", Has(P, "AT+CLIP=1") => m.clip = 1)
  \cup Cl("extended-ring", Has(P, "AT+CLIP=1") /\ Has(P, "AT+CRC=1") => m.crc = 1)
  \cup Cl("call-notifications", WindKnown(P) /\ Has(P, "AT+WIND?") /\ Has(P, "AT+WIND=50") /\ P.wind >= 0 => m.wind = 50)
  \cup Cl("voice-calls", Lists(P, "^CVOICE") /\ Has(P, "AT^CVOICE=0") => m.cvoice = 0)
  \cup Cl("ussd-text-mode", Lists(P, "^USSDMODE") /\ Has(P, "AT^USSDMODE=0") => m.ussd = 0)
  \cup Cl("hangup-command", Has(P, "AT+CVHU=0") => m.cvhu = 0)
  \cup Cl("smsc", IF s.smsc # "" THEN m.csca = s.smsc ELSE (P.cscaform = "error" \/ m.csca = s.orig))
Connected(P, s, e) ==
  Ok(s, Cl("connected-while-locked", Ready(s)) \cup Cl("connected-after-refusal", s.refused = "")
        \cup (IF P.aim = "pin" THEN {} ELSE Configured(P, s)) \cup Cl("still-alive", e.alive))
ConnectFailed(P, s, e) ==
  LET x == e.x mro == Rng(x.mro) IN
  Ok(s, IF "TimeoutException" \in mro THEN Cl("timeout-without-silence", s.silent)
        ELSE IF s.refused # "" THEN ErrorAs(s.refused, x.cmd, x)
        ELSE IF ~Ready(s) /\ s.told = "locked" /\ P.user.pins[s.attempt] = "" THEN Cl("pin-required-error", "PinRequiredError" \in mro)
        ELSE IF "CommandError" \in mro
             THEN Cl("optional-command-rejected", (\E c \in s.rejected : Mandatory(c) /\ ~(c = "ATZ" /\ Ready(s))) \/ (s.smsc # "" /\ \E c \in s.rejected : Starts(c, "AT+CSCA=")))
        ELSE {"other-exception"})
CStep(P, s, e) ==
  CASE e.k = "Attempt" -> Attempt(P, s, e) [] e.k = "Tx" -> Sent(P, s, e) [] e.k = "Rsp" -> Replied(P, s, e)
    [] e.k = "Ret" -> Connected(P, s, e) [] e.k = "Exc" -> ConnectFailed(P, s, e) [] OTHER -> Ok(s, {"unexpected-event " \o e.k})
=============================================================================
