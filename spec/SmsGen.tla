------------------------------- MODULE SmsGen -------------------------------
(* Well-formed messages written by the specification (Sms, operators Build...), for the real decoder; every one of them
   is first parsed by the specification itself, which must give back what was written (RoundTrip). *)
EXTENDS Sms, Json, Verdict, TLC
CONSTANT PerBehaviour
VARIABLES n, octets, want

R(S) == RandomElement(S)
Pick(seq) == seq[R(1..Len(seq))]
(* built element by element: a function constructor would draw again at every use *)
RandSeq(S, len) == FoldLeft(LAMBDA a, i : Append(a, R(S)), <<>>, [i \in 1..len |-> i])
(* septets without escape, or with well-formed extension pairs *)
SeptSeq(len) ==
  LET base == RandSeq((0..127) \ {ESC}, len)
      k == IF len > 1 THEN R(0..(len - 1)) ELSE 0
  IN IF k = 0 \/ R({TRUE, FALSE}) THEN base ELSE [base EXCEPT ![k] = ESC, ![k + 1] = R(DOMAIN Ext)]
Utf(len) == LET u == RandSeq((0..65535) \ (55296..57343), len)
                k == IF len > 1 THEN R(0..(len - 1)) ELSE 0
            IN IF k = 0 \/ R({TRUE, FALSE}) THEN u ELSE [u EXCEPT ![k] = R(55296..56319), ![k + 1] = R(56320..57343)]
OctsOfUnits(us) == FoldLeft(LAMBDA a, u : a \o <<u \div 256, u % 256>>, <<>>, us)
RandStamp(x) ==
  LET y == R(0..99)   mo == R(1..12)
  IN <<y, mo, IF R(1..4) = 1 THEN MonthLen(y, mo) ELSE R(1..MonthLen(y, mo)), R(0..23), R(0..59), R(0..59), R((0 - 79)..79)>>
RandAddr(x) ==
  LET kind == Pick(<<"int", "nat", "unk", "alnum">>)   ds == RandSeq(0..9, R(1..20))   sp == SeptSeq(R(1..11))
      sp2 == IF sp[Len(sp)] = 0 THEN [sp EXCEPT ![Len(sp)] = 65] ELSE sp
  IN [octs |-> BuildAddr(kind, ds, sp2),
      val |-> IF kind = "alnum" THEN DecGsm(sp2, "drop") ELSE NumberOf(IF kind = "int" THEN 1 ELSE 0, ds)]
RandSmsc(x) == LET kind == Pick(<<"none", "int", "nat">>)   ds == RandSeq(0..9, R(1..18))
            IN [octs |-> BuildSmsc(kind, ds),
                val |-> IF kind = "none" THEN NoText ELSE NumberOf(IF kind = "int" THEN 1 ELSE 0, ds)]
RandIe(x) == LET id == Pick(<<0, 8, 4, 5, 36, 112>>)
                 len == CASE id = 0 -> 3 [] id = 8 -> 4 [] id = 4 -> 2 [] id = 5 -> 4 [] OTHER -> R(0..8)
             IN [id |-> id, data |-> RandSeq(0..255, len)]
RandHdr(x) ==
  LET has == R({TRUE, FALSE, FALSE})
  IN IF has THEN [udhi |-> TRUE, ies |-> FoldLeft(LAMBDA a, i : Append(a, RandIe(i)), <<>>, [i \in 1..R(1..3) |-> i])]
     ELSE [udhi |-> FALSE, ies |-> <<>>]
RandUd(hdr) ==
  LET dcs == Pick(<<0, 0, 0, 4, 8, 16, 17, 18, 19, 20, 24, 25, 192, 200, 208, 216, 224, 232, 240, 241, 244, 245, 64, 72>>)
      alph == Dcs(dcs).alphabet
      hasUdh == hdr.udhi   ies == hdr.ies
      hOct == IF hasUdh THEN Len(Flatten(ies)) + 1 ELSE 0
      room == CASE alph = 0 -> (1120 - 8 * hOct - FillBits(hOct)) \div 7
                [] alph = 1 -> 140 - hOct
                [] alph = 2 -> (140 - hOct) \div 2
      len == LET c == Pick(<<"full", "short", "any", "zero", "seven">>)
             IN CASE c = "full" -> room [] c = "short" -> R(0..10) [] c = "any" -> R(0..room) [] c = "zero" -> 0
                  [] c = "seven" -> 7 * R(0..(room \div 7))
      body == CASE alph = 0 -> SeptSeq(len)
                [] alph = 1 -> RandSeq(0..255, len)
                [] alph = 2 -> OctsOfUnits(Utf(len))
  IN [dcs |-> dcs, udhi |-> hasUdh, ies |-> ies, octs |-> BuildUd(alph, hasUdh, ies, body),
      text |-> CASE alph = 0 -> DecGsm(body, "drop") [] alph = 1 -> body [] alph = 2 -> DecUcs2(body)]

Message(mti, vpf, sc, ad, ud, t1, t2, ref, pid, vp, flags) ==
  sc.octs \o
  CASE mti = 0 -> <<4 * (flags % 2) + 32 * ((flags \div 2) % 2) + (IF ud.udhi THEN 64 ELSE 0)>> \o ad.octs \o <<pid, ud.dcs>> \o EncStamp(t1) \o ud.octs
    [] mti = 1 -> <<1 + 8 * vpf + 4 * (flags % 2) + 32 * ((flags \div 2) % 2) + (IF ud.udhi THEN 64 ELSE 0), ref>> \o ad.octs
                    \o <<pid, ud.dcs>> \o (CASE vpf = 0 -> <<>> [] vpf = 1 -> <<1, vp, 0, 0, 0, 0, 0>> [] vpf = 2 -> <<vp>> [] vpf = 3 -> EncStamp(t1)) \o ud.octs
    [] mti = 2 -> <<2 + 4 * (flags % 2) + 32 * ((flags \div 2) % 2), ref>> \o ad.octs \o EncStamp(t1) \o EncStamp(t2) \o <<pid>>
Fields(mti, vpf, sc, ad, ud, t1, t2, ref, pid, vp) ==
  [mti |-> mti, vpf |-> vpf, smsc |-> sc.val, addr |-> ad.val, ud |-> ud, t1 |-> t1, t2 |-> t2, ref |-> ref, pid |-> pid, vp |-> vp]

Init == n = 0 /\ octets = <<>> /\ want = <<>>
Next ==
  /\ n < PerBehaviour
  /\ \E mti \in {R(0..2)} : \E vpf \in {R(0..3)} : \E sc \in {RandSmsc(0)} : \E ad \in {RandAddr(0)} : \E hdr \in {RandHdr(0)} : \E ud \in {RandUd(hdr)} :
     \E t1 \in {RandStamp(0)} : \E t2 \in {RandStamp(0)} : \E ref \in {R(0..255)} : \E pid \in {R(0..255)} : \E vp \in {R(0..255)} : \E fl \in {R(0..3)} :
       /\ octets' = Message(mti, vpf, sc, ad, ud, t1, t2, ref, pid, vp, fl)
       /\ want' = Fields(mti, vpf, sc, ad, ud, t1, t2, ref, pid, vp)
  /\ n' = n + 1
  /\ Behaviour(ToJson(octets'))

(* the parser gives back what the builder wrote *)
RoundTrip ==
  n > 0 =>
    LET p == Parse(octets) w == want IN
      /\ p.st = "ok" /\ p.mti = w.mti /\ w.smsc \in p.smsc /\ w.addr \in p.addr
      /\ (w.mti # 2 => p.pid = w.pid /\ p.dcs = w.ud.dcs /\ w.ud.text \in p.ud.texts /\ p.ud.ies = w.ud.ies
                       /\ p.ud.octets <= 140 /\ (p.ud.hdr = "yes") = w.ud.udhi)
      /\ (w.mti # 1 => p.time = w.t1) /\ (w.mti = 2 => p.discharge = w.t2 /\ p.status = w.pid)
      /\ (w.mti # 0 => p.ref = w.ref)
      /\ (w.mti = 1 => CASE w.vpf = 2 -> p.vminutes = RelMinutes(w.vp) [] w.vpf = 3 -> p.vstamp = w.t1 [] OTHER -> TRUE)
=============================================================================
