---------------------------- MODULE ConnectGen ----------------------------
(* Modem profiles for Connect. *)
EXTENDS Naturals, Sequences, TLC, Json, Verdict
CONSTANTS PerBehaviour
VARIABLES n, env
R(S) == RandomElement(S)
Cmds == <<"AT+CFUN?", "AT+WIND", "AT+WIND=50", "AT^CVOICE", "AT^USSDMODE", "AT+COPS=3,0", "AT+CSMP", "AT+CPMS=?", "AT+CPMS=\"", "AT+CNMI", "AT+CLIP", "AT+CRC", "AT+CVHU", "AT+ZPAS", "AT+CGMI", "AT+CLAC">>
Mem == {"ME", "SM", "SR", "MT", "BM", "TA"}
RECURSIVE Pick(_, _)
Pick(i, k) == IF i > Len(Cmds) THEN <<>> ELSE LET x == R(1..k) IN (IF x = 1 THEN <<Cmds[i]>> ELSE <<>>) \o Pick(i + 1, k)
RECURSIVE Mems(_)
Mems(k) == IF k = 0 THEN <<>> ELSE LET a == R(Mem) b == R(Mem) j == R(0..5) IN <<IF j = 0 THEN <<>> ELSE IF a = b THEN <<a>> ELSE <<a, b>>>> \o Mems(k - 1)
Init == n = 0 /\ env = <<>>
Next == /\ n < PerBehaviour /\ n' = n + 1
        /\ LET k == R({2, 3, 5, 9, 30}) m == R(0..3) sim == R({"ready", "pin", "puk", "absent"}) rv == R({"later", "reset"}) cp == R({"ok", "nook", "nospace", "extra", "noise"})
               cl == R({"none", "single", "singlesp", "singlenp", "multi", "multicr"}) cs == R({"ok", "330", "nothing", "error"}) d == R(BOOLEAN) t == R(BOOLEAN) u == Pick(1, k) ms == Mems(m) IN
           Behaviour(ToJson([sim |-> sim, reveal |-> rv, cpin |-> cp, clac |-> cl, csca |-> cs, csmpdrops |-> d, text |-> t, unsup |-> u, cpms |-> ms]))
        /\ UNCHANGED env
=============================================================================
