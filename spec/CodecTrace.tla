----------------------------- MODULE CodecTrace -----------------------------
(* Judges recorded uses of the real character, septet, semi-octet, header element and time stamp codecs. *)
EXTENDS Sms, Json, IOUtils, Verdict, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done
Refused == <<0 - 1>>
Scalar(c) == c \notin 55296..57343
---------------------------------------------------------------------------
(* C22 *)
CharsClauses(r) ==    \* one call per character of a range of code points
  UNION {LET c == r.from + i - 1 IN
     Clause("gsm-encode-char", r.gsm[i] = IF InAlphabet(c) THEN EncChar(c) ELSE Refused)
     \cup Clause("ucs2-encode-char", r.ucs[i] = EncUcs2(<<c>>))
     \cup Clause("ucs2-decode-char", Scalar(c) => r.back[i] = <<c>>)
     \cup Clause("gsm-decode-char", InAlphabet(c) => r.gback[i] = <<c>>)
     : i \in 1..Len(r.gsm)}
TextClauses(r) ==
  Clause("gsm-encode", IF Encodable(r.text) THEN r.exc = "" /\ r.gsm = EncGsm(r.text) ELSE r.exc = "ValueError")
  \cup Clause("gsm-discard", r.disc = EncGsm(SelectSeq(r.text, InAlphabet)))
  \cup Clause("gsm-round-trip", Encodable(r.text) => r.gback = r.text)
  \cup Clause("ucs2-encode", r.ucs = EncUcs2(r.text))
  \cup Clause("ucs2-round-trip", r.uback = r.text)
DecClauses(r) == Clause("gsm-decode", r.exc = "" /\ r.out \in Decodings(r.codes))
Ucs2Clauses(r) ==     \* at most n octets of what is there
  LET m == IF r.n < Len(r.octs) THEN r.n ELSE Len(r.octs)
  IN Clause("ucs2-decode", r.exc = "" /\ r.out = DecUcs2(SubSeq(r.octs, 1, m)) /\ r.used = 2 * (m \div 2))
PackClauses(r) ==
  Clause("pack", r.exc = "" /\ r.out = Pack(r.septs, r.fill))
  \cup (IF r.fill = 0
        THEN Clause("pack-round-trip", r.back = r.septs
               \* eight septets fill seven octets: a last zero cannot be told from padding
               \/ (Len(r.septs) > 0 /\ Len(r.septs) % 8 = 0 /\ r.septs[Len(r.septs)] = 0 /\ r.back = SubSeq(r.septs, 1, Len(r.septs) - 1)))
        ELSE {})
UnpackClauses(r) ==
  LET m == IF r.limit >= 0 /\ r.limit < Len(r.octs) THEN r.limit ELSE Len(r.octs)
      all == Unpack(r.octs, 0, Available(m, 0))
      cut == IF m % 7 = 0 /\ all # <<>> /\ all[Len(all)] = 0 THEN SubSeq(all, 1, Len(all) - 1) ELSE all
  IN Clause("unpack", r.exc = "" /\ r.out = cut)
SemiClauses(r) ==
  Clause("semi-encode", r.exc = "" /\ r.out = EncSemi([i \in 1..Len(r.digits) |-> r.digits[i] - 48]))
  \cup Clause("semi-round-trip", r.back = r.digits /\ r.backhex = r.digits /\ r.backlim = r.digits)
IeClauses(r) ==
  Clause("element-encode", r.exc = "" /\ r.enc = <<r.wantid, Len(r.wantdata)>> \o r.wantdata)
  \cup Clause("element-round-trip", r.bid = r.wantid /\ r.bdata = r.wantdata /\ r.blen = Len(r.wantdata) + 2
               /\ (r.wantid \in {0, 8} => LET c == Concat([id |-> r.wantid, data |-> r.wantdata]) IN r.battrs = <<c.ref, c.parts, c.number>>)
               /\ (r.wantid \in {4, 5} => LET c == Ports([id |-> r.wantid, data |-> r.wantdata]) IN r.battrs = <<c.dst, c.src>>))
  \cup Clause("element-left-over", r.rest = r.follow)
  (* an element that was decoded, or used before, encodes what it says now *)
  \cup Clause("element-encoded-again", r.aattrs = r.battrs /\ \A i \in 1..Len(r.tattrs) : r.tattrs[i].got = r.tattrs[i].want)
---------------------------------------------------------------------------
(* C23 *)
Dig(c) == c \in 48..57
Num2(t, i) == (t[i] - 48) * 10 + t[i + 1] - 48
(* yy/MM/dd,hh:mm:ss and a sign with two digits of quarter hours *)
TextForm(t) == /\ Len(t) = 20
               /\ \A i \in {1, 2, 4, 5, 7, 8, 10, 11, 13, 14, 16, 17, 19, 20} : Dig(t[i])
               /\ t[3] = 47 /\ t[6] = 47 /\ t[9] = 44 /\ t[12] = 58 /\ t[15] = 58 /\ t[18] \in {43, 45}
TextStamp(t) == <<Num2(t, 1), Num2(t, 4), Num2(t, 7), Num2(t, 10), Num2(t, 13), Num2(t, 16),
                  IF t[18] = 45 THEN 0 - Num2(t, 19) ELSE Num2(t, 19)>>
TextTimeClauses(r) ==
  IF TextForm(r.text) /\ Num2(r.text, 19) <= 79
  THEN IF ValidStamp(TextStamp(r.text)) THEN Clause("text-time", r.exc = "" /\ r.t = TextStamp(r.text))
       ELSE Clause("text-time-refused", r.exc # "")
  ELSE {}
BinTimeClauses(r) ==
  IF StampOk(r.octs) THEN Clause("binary-time", r.exc = "" /\ r.t = Stamp(r.octs)) \cup Clause("binary-time-pickled", r.tp = Stamp(r.octs))
                          \cup Clause("binary-time-instant", r.utc = r.t2utc)
  ELSE Clause("binary-time-refused", r.exc # "")
EncTimeClauses(r) ==
  Clause("time-encode", r.exc = "" /\ r.octs = EncStamp(r.want)) \cup Clause("time-round-trip", r.t = r.want)
RelClauses(r) == UNION {Clause("relative-validity", r.minutes[i] = RelMinutes(i - 1)) : i \in 1..256}
---------------------------------------------------------------------------
Clauses(r) ==
  CASE r.k = "chars" -> CharsClauses(r) [] r.k = "text" -> TextClauses(r) [] r.k = "dec7" -> DecClauses(r)
    [] r.k = "ucs" -> Ucs2Clauses(r) [] r.k = "pack" -> PackClauses(r) [] r.k = "unpack" -> UnpackClauses(r)
    [] r.k = "semi" -> SemiClauses(r) [] r.k = "ie" -> IeClauses(r)
    [] r.k = "ttime" -> TextTimeClauses(r) [] r.k = "btime" -> BinTimeClauses(r) [] r.k = "etime" -> EncTimeClauses(r)
    [] r.k = "rel" -> RelClauses(r) [] OTHER -> {"unknown record " \o r.k}
Init == tid \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED tid /\ Verdict(Traces[tid].id, Clauses(Traces[tid]))
=============================================================================
