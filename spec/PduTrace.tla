------------------------------ MODULE PduTrace ------------------------------
(* Judges recorded uses of the real encoder and decoder: k = "enc" a request and the messages produced;
   k = "dec" octets or text offered to the decoder and what came back. *)
EXTENDS Sms, Json, IOUtils, Verdict, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done
Range1(s) == {s[i] : i \in 1..Len(s)}
FirstOf(s) == CHOOSE x \in s : TRUE

---------------------------------------------------------------------------
(* encoding *)
AddrKind(n) == CASE IsDigits(n) -> "local" [] Len(n) > 1 /\ n[1] = 43 /\ IsDigits(Tail(n)) -> "int" [] OTHER -> "alnum"
ValidityRefused(r) == (r.vk = "rel" /\ r.vs >= 442 * 86400) \/ r.vk \in {"naive", "other"}
ValidityEither(r) == r.vk = "rel" /\ r.vs > 441 * 86400 /\ r.vs < 442 * 86400
Max0(x) == IF x < 0 THEN 0 ELSE x
PartClauses(r, o, i, n) ==
  LET p == Parse(o.octs)   d == Dcs(p.dcs)   udhi == (p.first \div 64) % 2 = 1
      ucs == ~Encodable(r.text)
      kind == AddrKind(r.num)
  IN Clause("well-formed", p.st = "ok" /\ p.mti = 1)
     \cup Clause("stated-length", o.tplen = p.tpdu)
     \cup Clause("hex-form", o.hexok)
     \cup Clause("service-centre", p.smsc = IF r.smsc = NoText THEN {NoText} ELSE {r.smsc})
     \cup (IF p.st # "ok" \/ p.mti # 1 THEN {} ELSE
        Clause("reference", p.ref = r.ref)
        \cup Clause("destination", r.num \in p.addr)
        \cup Clause("destination-type", CASE kind = "local" -> p.ton \in {0, 2} /\ p.toa % 16 = 1
                                          [] kind = "int" -> p.toa = 145
                                          [] kind = "alnum" -> p.ton = 5)
        \cup Clause("extension-bit", p.toa >= 128)
        \cup Clause("protocol", p.pid = 0)
        \cup Clause("alphabet", d.ok /\ d.plain /\ d.alphabet = IF ucs THEN 2 ELSE 0)
        \cup Clause("class", d.class = IF r.flash THEN 0 ELSE 9)
        \cup Clause("status-report-flag", ((p.first \div 32) % 2 = 1) = r.srr)
        \cup Clause("reject-duplicates-flag", ((p.first \div 4) % 2 = 1) = r.rd)
        \cup Clause("reply-path-flag", p.first \div 128 = 0)
        \cup Clause("validity",
               CASE r.vk = "none" -> p.vk = "none"
                 [] r.vk = "rel" -> p.vk = "rel" /\ p.vminutes = RelMinutes(LongestRel(Max0(IF r.vs > 441 * 86400 THEN 441 * 86400 ELSE r.vs)))
                 [] r.vk = "abs" -> p.vk = "abs" /\ p.vstamp = r.vabs)
        \cup Clause("header-presence", udhi = (n > 1))
        \cup Clause("user-data-size", p.ud.octets <= 140)
        \cup (IF n > 1
              THEN Clause("concatenation-header",
                      /\ p.ud.hdr = "yes" /\ Len(p.ud.ies) = 1 /\ p.ud.ies[1].id \in {0, 8}
                      /\ LET c == Concat(p.ud.ies[1]) IN c.ref = r.ref /\ c.parts = n /\ c.number = i)
              ELSE {}))
EncClauses(r) ==
  IF r.exc # ""
  THEN Clause("refused", ValidityRefused(r) \/ ValidityEither(r)) \cup Clause("unexpected-exception", r.exc \in {"ValueError", "TypeError"})
  ELSE
    LET n == Len(r.out)
        need == PartsNeeded(r.text)
        texts == [i \in 1..n |-> LET p == Parse(r.out[i].octs) IN IF p.ud.texts = {} THEN <<>> ELSE FirstOf(p.ud.texts)]
    IN Clause("should-have-been-refused", ~ValidityRefused(r))
       \cup Clause("number-of-parts", n = need)
       \cup (IF ValidityRefused(r) THEN {} ELSE UNION {PartClauses(r, r.out[i], i, n) : i \in 1..n})
       \cup Clause("text", FoldLeft(LAMBDA a, t : a \o t, <<>>, texts) = r.text)

---------------------------------------------------------------------------
(* decoding *)
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> 0 - 1
IsHex(t) == Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : HexVal(t[i]) >= 0
OctetsOf(t) == [i \in 1..(Len(t) \div 2) |-> 16 * HexVal(t[2 * i - 1]) + HexVal(t[2 * i])]
TypeName == <<"SMS-DELIVER", "SMS-SUBMIT", "SMS-STATUS-REPORT">>
Complete(res) ==
  /\ {"type", "smsc", "tpdu_length", "number"} \subseteq Range1(res.keys)
  /\ CASE res.type = "SMS-DELIVER" -> {"protocol_id", "time", "text"} \subseteq Range1(res.keys)
       [] res.type = "SMS-SUBMIT" -> {"reference", "protocol_id", "text"} \subseteq Range1(res.keys)
       [] res.type = "SMS-STATUS-REPORT" -> {"reference", "time", "discharge", "status"} \subseteq Range1(res.keys)
       [] OTHER -> FALSE
IeClauses(ies, got) ==
  Clause("udh-count", Len(ies) = Len(got))
  \cup (IF Len(ies) # Len(got) THEN {} ELSE
        UNION {Clause("udh-element", got[i].id = ies[i].id /\ got[i].len = Len(ies[i].data) /\ got[i].data = ies[i].data)
               \cup (CASE ies[i].id \in {0, 8} -> LET c == Concat(ies[i]) IN Clause("concatenation", got[i].attrs = <<c.ref, c.parts, c.number>>)
                       [] ies[i].id \in {4, 5} -> LET c == Ports(ies[i]) IN Clause("ports", got[i].attrs = <<c.dst, c.src>>)
                       [] OTHER -> {}) : i \in 1..Len(ies)})
DecOk(p, r) ==
  Clause("complete", Complete(r)) \cup Clause("type", r.type = TypeName[p.mti + 1])
  \cup Clause("service-centre", r.smsc \in p.smsc)
  \cup Clause("length", r.tplen = p.tpdu)
  \cup Clause("number", r.number \in p.addr)
  \cup (IF p.mti # 2 THEN Clause("protocol", r.pid = p.pid) ELSE {})
  \cup (IF p.mti \in {0, 2} THEN Clause("time", r.time = p.time) ELSE {})
  \cup (IF p.mti \in {1, 2} THEN Clause("reference", r.ref = p.ref) ELSE {})
  \cup (IF p.mti = 2 THEN Clause("discharge", r.discharge = p.discharge) \cup Clause("status", r.status = p.status) ELSE {})
  \cup (IF p.mti = 1
        THEN Clause("validity", CASE p.vk = "rel" -> r.vk = "rel" /\ r.vminutes = p.vminutes
                                  [] p.vk = "abs" -> r.vk = "abs" /\ r.vstamp = p.vstamp
                                  [] p.vk = "none" -> r.vk = "none"
                                  [] p.vk = "enh" -> TRUE)
        ELSE {})
  \cup (IF p.mti # 2
        THEN Clause("text", r.text \in p.ud.texts)
             \cup (IF p.ud.hdr = "yes" THEN IeClauses(p.ud.ies, r.udh) ELSE Clause("no-header", r.udh = <<>>))
        ELSE {})
(* user data cut short: a beginning of what the octets that are there mean *)
DecShort(p, r) ==
  Clause("complete", Complete(r))
  \cup Clause("only-octets-present", \E t \in p.ud.texts : Len(r.text) <= Len(t) /\ r.text = SubSeq(t, 1, Len(r.text)))
DecClauses(r) ==
  LET hex == r.form # "text" \/ IsHex(r.input)
      octs == IF r.form = "text" THEN OctetsOf(r.input) ELSE r.input
      p == Parse(octs)
  IN IF ~hex THEN Clause("not-hex-must-be-rejected", r.exc = "EncodingError")
     ELSE IF r.exc # ""
     THEN Clause("other-exception", r.exc = "EncodingError") \cup Clause("well-formed-message-rejected", p.st # "ok")
     ELSE CASE p.st \in {"trunc", "badtype", "badtime"} -> {"must-be-rejected-" \o p.st}
            [] p.st = "ok" -> DecOk(p, r.res)
            [] p.st = "short" -> DecShort(p, r.res)
            [] p.st = "odd" -> Clause("complete", Complete(r.res))
---------------------------------------------------------------------------
Clauses(r) == IF r.k = "enc" THEN EncClauses(r) ELSE DecClauses(r)
Init == tid \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED tid /\ Verdict(Traces[tid].id, Clauses(Traces[tid]))
=============================================================================
