----------------------------- MODULE MCSettings -----------------------------
(* The settings of a connection (service centre, message mode) kept by the library, composed with Settings, a modem that may refuse or
   postpone any command, drops its service centre when the text parameters are set, and forgets its mode when switched off.
   Broken: "cachefirst" (the new value is kept although refused), "always" (told although unchanged), "never" (a connected modem is not told),
   "nopreset" (settings made before connecting are not applied), "nomode" (mode not applied), "drop" (a dropped service centre is not restored),
   "invent" (a refused service centre is reported as empty text), "busyfail" (a postponed command fails), "impatient" (a busy reply is success),
   "stale" (connecting trusts the old mode), "swallow" (a refused change is not reported). *)
EXTENDS Settings
CONSTANTS Ops, Broken
VARIABLES lib, dev, con, left, last, s, bad
mvars == <<lib, dev, con, left, last, s, bad>>
Centre == {<<"A">>, <<"B">>}
Init == /\ lib = [smsc |-> <<>>, mode |-> <<"0">>]
        /\ \E c \in {<<>>, <<"A">>}, r \in BOOLEAN, d \in BOOLEAN : dev = [smsc |-> c, mode |-> <<"0">>, readable |-> r, drops |-> d /\ r]
        /\ con = FALSE /\ left = Ops /\ last = "" /\ s = SInit([threads |-> 1, readable |-> dev.readable]) /\ bad = {}
Pr == [threads |-> 1, readable |-> dev.readable]
RECURSIVE Run(_, _, _)
Run(x, b, q) == IF q = <<>> THEN s' = x /\ bad' = bad \cup b ELSE LET r == SStep(Pr, x, q[1]) IN Run(r.s, b \cup r.bad, Tail(q))
Ev(q) == Run(s, {}, q)
OpE(q, v) == [k |-> "Op", t |-> 1, q |-> q, v |-> v, at |-> 0]
TxE(c) == [k |-> "Tx", t |-> 1, c |-> c, term |-> "^M", at |-> 0]
RspE(l) == [k |-> "Rsp", l |-> <<l>>, final |-> TRUE, at |-> 0]
ValE(v) == [k |-> "Val", v |-> v]
RetE(v) == [k |-> "Ret", t |-> 1, v |-> v, at |-> 0]
ErrE(type, code, cmd) == [k |-> "Exc", t |-> 1, at |-> 0, x |-> [mro |-> <<IF type = "CMS" THEN "CmsError" ELSE "CmeError", "CommandError">> \o (IF type = "CMS" /\ code = 330 THEN <<"SmscNumberUnknownError">> ELSE <<>>),
                                                                 code |-> code, type |-> type, cmd |-> cmd, cause |-> "", causecode |-> 0 - 1]]
Busy1(c, b) == IF b THEN <<TxE(c), RspE("+CME ERROR: 515")>> ELSE <<>>
Refusal == "+CMS ERROR: 302"
(* what the modem answers to a change: "ok", "busy" (then ok), "refuse" *)
Change(q, key, v) ==
  LET c == Cmd0(q, v) differs == lib[key] # v IN
  IF ~con THEN Ev(<<OpE(q, v), RetE(<<>>)>>) /\ lib' = [lib EXCEPT ![key] = v] /\ UNCHANGED dev
  ELSE IF (~differs /\ Broken # "always") \/ Broken = "never" THEN Ev(<<OpE(q, v), RetE(<<>>)>>) /\ lib' = [lib EXCEPT ![key] = v] /\ UNCHANGED dev
  ELSE \E a \in {"ok", "busy", "refuse"} :
    IF a = "refuse" \/ (a = "busy" /\ Broken = "busyfail")
    THEN /\ Ev(<<OpE(q, v), TxE(c), RspE(IF a = "busy" THEN "+CME ERROR: 515" ELSE Refusal),
                 IF Broken = "swallow" THEN RetE(<<>>) ELSE IF a = "busy" THEN ErrE("CME", 515, c) ELSE ErrE("CMS", 302, c)>>)
         /\ UNCHANGED dev /\ lib' = IF Broken = "cachefirst" THEN [lib EXCEPT ![key] = v] ELSE lib
    ELSE IF a = "busy" /\ Broken = "impatient"
    THEN Ev(<<OpE(q, v), TxE(c), RspE("+CME ERROR: 515"), RetE(<<>>)>>) /\ lib' = [lib EXCEPT ![key] = v] /\ UNCHANGED dev
    ELSE /\ Ev(<<OpE(q, v)>> \o Busy1(c, a = "busy") \o <<TxE(c), RspE("OK"), RetE(<<>>)>>)
         /\ lib' = [lib EXCEPT ![key] = v] /\ dev' = [dev EXCEPT ![key] = v]
Read == LET c == "AT+CSCA?" IN
  IF lib.smsc # <<>> THEN Ev(<<OpE("smsc", <<>>), RetE(lib.smsc)>>) /\ UNCHANGED <<lib, dev>>
  ELSE IF ~dev.readable THEN Ev(<<OpE("smsc", <<>>), TxE(c), RspE(Refusal), IF Broken = "invent" THEN RetE(<<"">>) ELSE ErrE("CMS", 302, c)>>) /\ UNCHANGED <<lib, dev>>
  ELSE \E a \in {"ok", "busy", "refuse", "unset"} :
    CASE a = "refuse" -> Ev(<<OpE("smsc", <<>>), TxE(c), RspE(Refusal), IF Broken = "invent" THEN RetE(<<"">>) ELSE ErrE("CMS", 302, c)>>) /\ UNCHANGED <<lib, dev>>
      [] a = "unset" -> dev.smsc = <<>> /\ Ev(<<OpE("smsc", <<>>), TxE(c), RspE("+CMS ERROR: 330"), RetE(<<>>)>>) /\ UNCHANGED <<lib, dev>>
      [] OTHER -> Ev(<<OpE("smsc", <<>>)>> \o Busy1(c, a = "busy") \o <<TxE(c), ValE(dev.smsc), RspE("OK"), RetE(dev.smsc)>>) /\ lib' = [lib EXCEPT !.smsc = dev.smsc] /\ UNCHANGED dev
Mode == Ev(<<OpE("mode", <<>>), RetE(lib.mode)>>) /\ UNCHANGED <<lib, dev>>
Ask == \E q \in {"model", "revision"}, a \in {"ok", "refuse"} : LET c == Cmd0(q, <<>>) IN
  /\ con /\ UNCHANGED <<lib, dev>>
  /\ IF a = "ok" THEN Ev(<<OpE(q, <<>>), TxE(c), ValE(<<"x">>), RspE("OK"), RetE(<<"x">>)>>)
     ELSE Ev(<<OpE(q, <<>>), TxE(c), RspE("+CME ERROR: 3"), IF q = "revision" THEN RetE(<<>>) ELSE ErrE("CME", 3, c)>>)
Op == /\ left > 0 /\ left' = left - 1 /\ last' = "op" /\ UNCHANGED con
      /\ \/ \E v \in Centre : Change("set smsc", "smsc", v)
         \/ \E v \in {<<"0">>, <<"1">>} : Change("set mode", "mode", v)
         \/ (con \/ lib.smsc # <<>>) /\ Read
         \/ Mode \/ Ask
(* connecting: the modem ends up with the settings the library knows, those it does not know are read *)
Connect ==
  /\ ~con /\ left > 0 /\ left' = left - 1 /\ con' = TRUE /\ last' = "connect"
  /\ LET mode == IF Broken = "nomode" \/ (Broken = "stale" /\ lib.mode = <<"0">>) THEN dev.mode ELSE lib.mode
         told == IF lib.smsc # <<>> /\ Broken # "nopreset" THEN lib.smsc ELSE dev.smsc
         known == IF lib.smsc # <<>> THEN lib.smsc ELSE IF dev.readable THEN dev.smsc ELSE <<>>
         after == IF dev.drops THEN IF Broken = "drop" THEN <<>> ELSE known ELSE told IN
     /\ dev' = [dev EXCEPT !.mode = mode, !.smsc = after]
     /\ lib' = [lib EXCEPT !.smsc = IF known # <<>> THEN known ELSE @]
     /\ Ev(<<[k |-> "Connected", csca |-> after, mode |-> mode]>>)
Close == /\ con /\ left > 0 /\ left' = left - 1 /\ con' = FALSE /\ last' = "close"
         /\ \E off \in BOOLEAN : dev' = [dev EXCEPT !.mode = IF off THEN <<"0">> ELSE @]
         /\ Ev(<<[k |-> "Look", csca |-> dev.smsc, mode |-> dev.mode], [k |-> "Closed"]>>) /\ UNCHANGED lib
Next == Op \/ Connect \/ Close
Allowed == bad = {}
(* what the library believes of a connected modem is true *)
Agrees == con => /\ s.mode = dev.mode /\ lib.mode = dev.mode
                 /\ (lib.smsc # <<>> => lib.smsc = dev.smsc)
=============================================================================
