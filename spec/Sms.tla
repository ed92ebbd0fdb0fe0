-------------------------------- MODULE Sms --------------------------------
(* The SMS transfer protocol data units of 3GPP TS 23.040 (9.2) as seen by a terminal in PDU mode
   (TS 27.005: service centre address, then the TPDU): what an octet string means, and how a meaning
   is written.  Independent of the implementation. *)
EXTENDS GsmAlphabet

NoText == <<0 - 1>>     \* "there is none" where a text is expected

---------------------------------------------------------------------------
(* data coding scheme, TS 23.038 section 4: alphabet 0 = default, 1 = 8 bit, 2 = UCS2; class 9 = none *)
Dcs(o) ==
  LET hi == o \div 16   lo == o % 16   alph == (o \div 4) % 4
  IN CASE hi \in 0..7 ->
            [ok |-> alph # 3 /\ (o \div 32) % 2 = 0, alphabet |-> IF alph = 3 THEN 0 ELSE alph,
             class |-> IF (o \div 16) % 2 = 1 THEN o % 4 ELSE 9, plain |-> o \div 64 = 0 /\ ((o \div 16) % 2 = 1 \/ o % 4 = 0)]
       [] hi \in 8..11 -> [ok |-> FALSE, alphabet |-> 0, class |-> 9, plain |-> FALSE]
       [] hi \in {12, 13} -> [ok |-> TRUE, alphabet |-> 0, class |-> 9, plain |-> FALSE]
       [] hi = 14 -> [ok |-> TRUE, alphabet |-> 2, class |-> 9, plain |-> FALSE]
       [] hi = 15 -> [ok |-> lo < 8, alphabet |-> (o \div 4) % 2, class |-> o % 4, plain |-> lo < 8]

---------------------------------------------------------------------------
(* time stamps, 9.2.3.11: seven octets of swapped decimal digits; bit 3 of the last is the sign *)
MonthLen(y, mo) == CASE mo = 2 -> IF y % 4 = 0 THEN 29 ELSE 28
                     [] mo \in {4, 6, 9, 11} -> 30
                     [] OTHER -> 31
Swap(o) == (o % 16) * 10 + o \div 16
Dec2(o) == o % 16 < 10 /\ o \div 16 < 10
ValidStamp(t) ==     \* <<yy, mo, d, h, mi, s, quarters>>
  /\ t[2] \in 1..12 /\ t[3] \in 1..MonthLen(t[1], t[2]) /\ t[4] \in 0..23 /\ t[5] \in 0..59 /\ t[6] \in 0..59
StampOk(o) == Len(o) = 7 /\ (\A i \in 1..6 : Dec2(o[i])) /\ o[7] \div 16 < 10 /\ (o[7] % 8 < 8)
              /\ ValidStamp([i \in 1..6 |-> Swap(o[i])])
StampZone(o7) == LET q == (o7 % 8) * 10 + o7 \div 16 IN IF (o7 \div 8) % 2 = 1 THEN 0 - q ELSE q
Stamp(o) == [i \in 1..7 |-> IF i < 7 THEN Swap(o[i]) ELSE StampZone(o[7])]
EncStamp(t) == [i \in 1..7 |-> IF i < 7 THEN (t[i] \div 10) + 16 * (t[i] % 10)
                               ELSE LET q == IF t[7] < 0 THEN 0 - t[7] ELSE t[7]
                                    IN (q \div 10) + 16 * (q % 10) + (IF t[7] < 0 THEN 8 ELSE 0)]

(* relative validity, 9.2.3.12.1, in minutes *)
RelMinutes(o) == CASE o <= 143 -> (o + 1) * 5
                   [] o \in 144..167 -> 720 + (o - 143) * 30
                   [] o \in 168..196 -> (o - 166) * 1440
                   [] o \in 197..255 -> (o - 192) * 10080
(* the longest encodable period not exceeding the request *)
RelMax == RelMinutes(255)
LongestRel(seconds) ==
  IF seconds < 300 THEN 0
  ELSE CHOOSE o \in 0..255 : RelMinutes(o) * 60 <= seconds /\ (o = 255 \/ RelMinutes(o + 1) * 60 > seconds)

---------------------------------------------------------------------------
(* addresses *)
Tonof(toa) == (toa \div 16) % 8
NumberOf(ton, ds) == (IF ton = 1 THEN <<43>> ELSE <<>>) \o DigitChars(ds)
(* number of septets in an alphanumeric address of n useful semi-octets *)
AlnumLen(n) == (4 * n) \div 7

(* A cursor-less parser: each field returns its value and the position after it; pos = 0 means "ran out". *)
At(o, p) == o[p]
Have(o, p, n) == p > 0 /\ p + n - 1 <= Len(o)
Slice(o, p, n) == SubSeq(o, p, p + n - 1)

(* service centre: length in octets including the type *)
ParseSmsc(o) ==
  IF Len(o) = 0 THEN [ok |-> FALSE, odd |-> FALSE, pos |-> 0, vals |-> {NoText}]
  ELSE LET n == o[1] IN
    IF n = 0 THEN [ok |-> TRUE, odd |-> FALSE, pos |-> 2, vals |-> {NoText}]
    ELSE IF ~Have(o, 2, n)
    THEN LET ns == Nibbles(SubSeq(o, 3, Len(o)))
         IN [ok |-> FALSE, odd |-> n = 1 \/ \E i \in 1..Len(ns) : ns[i] = 15, pos |-> 0, vals |-> {NoText}]
    ELSE LET ns == Nibbles(Slice(o, 3, n - 1))
             m == IF Len(ns) > 0 /\ ns[Len(ns)] = 15 THEN Len(ns) - 1 ELSE Len(ns)
             ds == SubSeq(ns, 1, m)
         IN [ok |-> TRUE, pos |-> n + 2,
             odd |-> n = 1 \/ Tonof(o[2]) = 5 \/ \E i \in 1..m : ds[i] > 9,
             vals |-> IF \E i \in 1..m : ds[i] > 9 THEN {} ELSE {NumberOf(Tonof(o[2]), ds)}]
(* originating / destination / recipient address: length in useful semi-octets *)
ParseAddr(o, p) ==
  IF ~Have(o, p, 2) THEN [ok |-> FALSE, odd |-> FALSE, pos |-> 0, ton |-> 0, toa |-> 0, vals |-> {}]
  ELSE LET n == o[p]   toa == o[p + 1]   w == (n + 1) \div 2   ton == Tonof(toa) IN
    IF ~Have(o, p, 2 + w)
    THEN LET ns == Nibbles(SubSeq(o, p + 2, Len(o)))
         IN [ok |-> FALSE, odd |-> \E i \in 1..Len(ns) : ns[i] = 15, pos |-> 0, ton |-> ton, toa |-> toa, vals |-> {}]
    ELSE IF ton = 5
    THEN LET body == Slice(o, p + 2, w)
             k == AlnumLen(n)
             sv == Unpack(body, 0, k)
             \* a multiple of eight septets may be followed by a padding septet
             alts == {sv} \cup (IF k > 0 /\ sv[k] = 0 THEN {SubSeq(sv, 1, k - 1)} ELSE {})
         IN [ok |-> TRUE, odd |-> n > 20 \/ n = 0, pos |-> p + 2 + w, ton |-> ton, toa |-> toa,
             vals |-> IF n = 0 THEN {<<>>, NoText} ELSE UNION {Decodings(x) : x \in alts}]
    ELSE LET ns == Nibbles(Slice(o, p + 2, w))
             ds == SubSeq(ns, 1, n)
             filler == (n % 2) = 1 /\ ns[n + 1] # 15
             bad == \E i \in 1..n : ds[i] > 9
         IN [ok |-> TRUE, odd |-> bad \/ filler \/ n > 20, pos |-> p + 2 + w, ton |-> ton, toa |-> toa,
             vals |-> IF bad THEN {} ELSE IF n = 0 THEN {NumberOf(ton, <<>>), NoText, <<>>} ELSE {NumberOf(ton, ds)}]

---------------------------------------------------------------------------
(* user data header: the elements, or not well formed *)
RECURSIVE Elements(_, _)
Elements(h, p) ==
  IF p > Len(h) THEN [ok |-> TRUE, ies |-> <<>>]
  ELSE IF p + 1 > Len(h) \/ p + 1 + h[p + 1] > Len(h) THEN [ok |-> FALSE, ies |-> <<>>]
  ELSE LET rest == Elements(h, p + 2 + h[p + 1])
       IN [ok |-> rest.ok, ies |-> <<[id |-> h[p], data |-> Slice(h, p + 2, h[p + 1])]>> \o rest.ies]
IeOk(ie) == CASE ie.id = 0 -> Len(ie.data) = 3 [] ie.id = 8 -> Len(ie.data) = 4
              [] ie.id = 4 -> Len(ie.data) = 2 [] ie.id = 5 -> Len(ie.data) = 4 [] OTHER -> TRUE
Concat(ie) == CASE ie.id = 0 -> [ref |-> ie.data[1], parts |-> ie.data[2], number |-> ie.data[3]]
                [] ie.id = 8 -> [ref |-> ie.data[1] * 256 + ie.data[2], parts |-> ie.data[3], number |-> ie.data[4]]
Ports(ie) == CASE ie.id = 4 -> [dst |-> ie.data[1], src |-> ie.data[2]]
               [] ie.id = 5 -> [dst |-> ie.data[1] * 256 + ie.data[2], src |-> ie.data[3] * 256 + ie.data[4]]
FillBits(hOctets) == (7 - ((8 * hOctets) % 7)) % 7
(* length of user data in octets for a length field *)
UdOctets(udl, alphabet) == IF alphabet = 0 THEN (7 * udl + 7) \div 8 ELSE udl

(* o from position p: length octet and user data.  st: "ok", "short" (announces more than there is), "odd" *)
ParseUd(o, p, alphabet, dcsOk, udhi) ==
  IF ~Have(o, p, 1) THEN [st |-> "trunc", udl |-> 0, hlen |-> 0, ies |-> <<>>, codes |-> <<>>, texts |-> {}, octets |-> 0, hdr |-> "none"]
  ELSE LET udl == o[p]
           want == UdOctets(udl, alphabet)
           there == SubSeq(o, p + 1, Len(o))
           ud == SubSeq(there, 1, IF want < Len(there) THEN want ELSE Len(there))
           hOct == IF udhi /\ Len(there) > 0 THEN there[1] + 1 ELSE 0
           hdrShort == udhi /\ Len(there) < hOct + (IF Len(there) = 0 THEN 1 ELSE 0)
           el == IF udhi /\ ~hdrShort THEN Elements(Slice(there, 2, hOct - 1), 1) ELSE [ok |-> TRUE, ies |-> <<>>]
           body == SubSeq(ud, hOct + 1, Len(ud))
           fill == IF udhi THEN FillBits(hOct) ELSE 0
           hsept == IF udhi THEN (8 * hOct + fill) \div 7 ELSE 0
           n0 == IF alphabet = 0 THEN udl - hsept ELSE udl - hOct
           n == IF n0 < 0 THEN 0 ELSE n0
           av == Available(Len(body), fill)
           codes == IF alphabet = 0 THEN Unpack(body, fill, IF n < av THEN n ELSE av) ELSE <<>>
           texts == CASE alphabet = 0 -> Decodings(codes)
                      [] alphabet = 1 -> {body}
                      [] alphabet = 2 -> {DecUcs2(body)}
           odd == ~dcsOk \/ ~el.ok \/ (\E i \in 1..Len(el.ies) : ~IeOk(el.ies[i])) \/ n0 < 0 \/ hdrShort
                  \/ Len(there) > want \/ (alphabet = 2 /\ Len(body) % 2 = 1) \/ want > 140 \/ (udhi /\ udl = 0)
       IN [st |-> IF odd THEN "odd" ELSE IF Len(there) < want THEN "short" ELSE "ok",
           udl |-> udl, hlen |-> hOct, ies |-> el.ies, codes |-> codes, texts |-> texts, octets |-> Len(ud),
           hdr |-> IF hdrShort \/ ~el.ok THEN "bad" ELSE IF udhi THEN "yes" ELSE "none"]

---------------------------------------------------------------------------
Empty == [st |-> "trunc", mti |-> 9, first |-> 0, smsc |-> {}, tpdu |-> 0, addr |-> {}, ton |-> 0, toa |-> 0, pid |-> 0, dcs |-> 0,
          ref |-> 0, status |-> 0, time |-> <<>>, discharge |-> <<>>, vk |-> "none", vminutes |-> 0, vstamp |-> <<>>,
          ud |-> [st |-> "none", udl |-> 0, hlen |-> 0, ies |-> <<>>, codes |-> <<>>, texts |-> {}, octets |-> 0, hdr |-> "none"]]
(* st: "ok" well formed; "short" user data shorter than announced; "odd" something no sender should produce;
       "trunc" mandatory fields missing; "badtype"; "badtime" *)
Worst(a, b) == LET rank(x) == CASE x = "ok" -> 0 [] x = "short" -> 1 [] x = "odd" -> 2 [] x = "badtime" -> 3 [] x = "trunc" -> 4
               IN IF rank(a) >= rank(b) THEN a ELSE b
Parse(o) ==
  LET sc == ParseSmsc(o) IN
  IF ~sc.ok \/ ~Have(o, sc.pos, 1) THEN [Empty EXCEPT !.st = IF sc.odd THEN "odd" ELSE "trunc"]
  ELSE LET first == o[sc.pos]   mti == first % 4   p == sc.pos + 1
           udhi == (first \div 64) % 2 = 1
           base == [Empty EXCEPT !.first = first, !.mti = mti, !.smsc = sc.vals, !.tpdu = Len(o) - sc.pos + 1] IN
    IF mti = 3 THEN [base EXCEPT !.st = IF sc.odd THEN "odd" ELSE "badtype"]
    ELSE IF mti = 0 THEN          \* SMS-DELIVER
      LET a == ParseAddr(o, p) IN
      IF ~a.ok \/ ~Have(o, a.pos, 10) THEN [base EXCEPT !.st = IF sc.odd \/ a.odd THEN "odd" ELSE "trunc"]
      ELSE LET dcs == o[a.pos + 1]   ts == Slice(o, a.pos + 2, 7)
               ud == ParseUd(o, a.pos + 9, Dcs(dcs).alphabet, Dcs(dcs).ok, udhi)
               odd == IF sc.odd \/ a.odd THEN "odd" ELSE "ok"
           IN [base EXCEPT !.st = IF odd = "odd" THEN odd ELSE IF ~StampOk(ts) THEN "badtime" ELSE Worst(odd, ud.st),
                 !.addr = a.vals, !.ton = a.ton, !.toa = a.toa, !.pid = o[a.pos], !.dcs = dcs, !.ud = ud,
                 !.time = IF StampOk(ts) THEN Stamp(ts) ELSE <<>>]
    ELSE IF mti = 1 THEN          \* SMS-SUBMIT
      IF ~Have(o, p, 1) THEN [base EXCEPT !.st = IF sc.odd THEN "odd" ELSE "trunc"]
      ELSE LET a == ParseAddr(o, p + 1)   vpf == (first \div 8) % 4
               vlen == CASE vpf = 0 -> 0 [] vpf = 2 -> 1 [] OTHER -> 7 IN
      IF ~a.ok \/ ~Have(o, a.pos, 2 + vlen + 1) THEN [base EXCEPT !.st = IF sc.odd \/ a.odd THEN "odd" ELSE "trunc"]
      ELSE LET dcs == o[a.pos + 1]   vp == Slice(o, a.pos + 2, vlen)
               ud == ParseUd(o, a.pos + 2 + vlen, Dcs(dcs).alphabet, Dcs(dcs).ok, udhi)
               odd == IF sc.odd \/ a.odd THEN "odd" ELSE "ok"
           IN [base EXCEPT !.st = IF odd = "odd" THEN odd ELSE IF vpf = 3 /\ ~StampOk(vp) THEN "badtime" ELSE Worst(odd, ud.st),
                 !.ref = o[p], !.addr = a.vals, !.ton = a.ton, !.toa = a.toa, !.pid = o[a.pos], !.dcs = dcs, !.ud = ud,
                 !.vk = CASE vpf = 0 -> "none" [] vpf = 1 -> "enh" [] vpf = 2 -> "rel" [] vpf = 3 -> "abs",
                 !.vminutes = IF vpf = 2 THEN RelMinutes(vp[1]) ELSE 0,
                 !.vstamp = IF vpf = 3 /\ StampOk(vp) THEN Stamp(vp) ELSE <<>>]
    ELSE                          \* SMS-STATUS-REPORT
      IF ~Have(o, p, 1) THEN [base EXCEPT !.st = IF sc.odd THEN "odd" ELSE "trunc"]
      ELSE LET a == ParseAddr(o, p + 1) IN
      IF ~a.ok \/ ~Have(o, a.pos, 15) THEN [base EXCEPT !.st = IF sc.odd \/ a.odd THEN "odd" ELSE "trunc"]
      ELSE LET t1 == Slice(o, a.pos, 7)   t2 == Slice(o, a.pos + 7, 7)
           IN [base EXCEPT !.st = IF sc.odd \/ a.odd THEN "odd" ELSE IF ~StampOk(t1) \/ ~StampOk(t2) THEN "badtime" ELSE "ok",
                 !.ref = o[p], !.addr = a.vals, !.ton = a.ton, !.toa = a.toa, !.status = o[a.pos + 14],
                 !.time = IF StampOk(t1) THEN Stamp(t1) ELSE <<>>, !.discharge = IF StampOk(t2) THEN Stamp(t2) ELSE <<>>]

---------------------------------------------------------------------------
(* Writing: used by the design checks and to generate messages for the real decoder *)
BuildAddr(kind, ds, septs) ==
  IF kind = "alnum" THEN <<(7 * Len(septs) + 3) \div 4, 208>> \o Pack(septs, 0)
  ELSE <<Len(ds), CASE kind = "int" -> 145 [] kind = "nat" -> 161 [] kind = "unk" -> 129>> \o EncSemi(ds)
BuildSmsc(kind, ds) == IF kind = "none" THEN <<0>> ELSE <<(Len(ds) + 1) \div 2 + 1, IF kind = "int" THEN 145 ELSE 161>> \o EncSemi(ds)
RECURSIVE Flatten(_)
Flatten(ies) == IF ies = <<>> THEN <<>> ELSE <<ies[1].id, Len(ies[1].data)>> \o ies[1].data \o Flatten(Tail(ies))
(* payload: septets for alphabet 0, octets otherwise *)
BuildUd(alphabet, hasUdh, ies, payload) ==
  LET h == Flatten(ies)   hOct == IF hasUdh THEN Len(h) + 1 ELSE 0
      fill == IF hasUdh THEN FillBits(hOct) ELSE 0
      head == IF hasUdh THEN <<Len(h)>> \o h ELSE <<>>
  IN IF alphabet = 0 THEN <<(8 * hOct + fill) \div 7 + Len(payload)>> \o head \o Pack(payload, fill)
     ELSE <<hOct + Len(payload)>> \o head \o payload

---------------------------------------------------------------------------
(* segmentation: sizes of the characters, filled greedily up to the capacity of a part *)
GreedyParts(sizes, cap) ==
  LET r == FoldLeft(LAMBDA a, s : IF a.used + s > cap THEN [n |-> a.n + 1, used |-> s] ELSE [n |-> a.n, used |-> a.used + s],
                    [n |-> 1, used |-> 0], sizes)
  IN r.n
GsmSizes(text) == [i \in 1..Len(text) |-> Len(EncChar(text[i]))]
UcsSizes(text) == [i \in 1..Len(text) |-> IF text[i] > 65535 THEN 2 ELSE 1]
PartsNeeded(text) ==
  IF Encodable(text) THEN IF SeptetLen(text) <= 160 THEN 1 ELSE GreedyParts(GsmSizes(text), 153)
  ELSE IF UnitLen(text) <= 70 THEN 1 ELSE GreedyParts(UcsSizes(text), 67)
=============================================================================
