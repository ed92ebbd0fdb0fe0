------------------------------ MODULE MCCodec ------------------------------
(* Exhaustive checks of the codec specification itself, one state per case. *)
EXTENDS Sms, TLC
CONSTANTS MaxSept, Vals, SegCap, SegMax
VARIABLES kind, s, f
Init ==
  \/ kind = "pack" /\ f \in 0..6 /\ s \in UNION {[1..k -> Vals] : k \in 0..MaxSept}
  \/ kind = "rel" /\ f \in 0..255 /\ s = <<>>
  \/ kind = "stamp" /\ f \in (0 - 79)..79 /\ s \in {<<y, m, d>> : y \in {0, 1, 4, 99}, m \in 1..12, d \in 1..31}
  \/ kind = "seg" /\ f = 0 /\ s \in UNION {[1..k -> {1, 2}] : k \in 0..SegMax}
  \/ kind = "char" /\ f \in 0..127 /\ s = <<>>
  \/ kind = "dcs" /\ f \in 0..255 /\ s = <<>>
  \/ kind = "semi" /\ f = 0 /\ s \in UNION {[1..k -> {0, 5, 9}] : k \in 0..6}
  \/ kind = "utf" /\ f \in {0, 65, 55295, 57344, 65535, 65536, 66000, 1114111} /\ s = <<>>
Next == FALSE /\ UNCHANGED <<kind, s, f>>
(* fewest pieces of contiguous characters with sum <= cap, by brute force *)
RECURSIVE Fewest(_)
Sum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
Fewest(q) == IF Sum(q) <= SegCap THEN 1
             ELSE LET cuts == {k \in 1..(Len(q) - 1) : Sum(SubSeq(q, 1, k)) <= SegCap}
                      vals == {1 + Fewest(SubSeq(q, k + 1, Len(q))) : k \in cuts}
                  IN CHOOSE v \in vals : \A w \in vals : v <= w
Ok ==
  CASE kind = "pack" -> /\ Unpack(Pack(s, f), f, Len(s)) = s
                        /\ Len(Pack(s, f)) = (7 * Len(s) + f + 7) \div 8
                        /\ Available(Len(Pack(s, f)), f) >= Len(s) /\ Available(Len(Pack(s, f)), f) <= Len(s) + 1
    [] kind = "rel" -> /\ f < 255 => RelMinutes(f) < RelMinutes(f + 1)
                       /\ LongestRel(RelMinutes(f) * 60) = f /\ LongestRel(RelMinutes(f) * 60 + 1) = f
                       /\ (f > 0 => LongestRel(RelMinutes(f) * 60 - 1) = f - 1)
    [] kind = "stamp" -> LET t == s \o <<23, 59, 0, f>> IN ValidStamp(t) => StampOk(EncStamp(t)) /\ Stamp(EncStamp(t)) = t
    [] kind = "seg" -> GreedyParts(s, SegCap) = Fewest(s)
    [] kind = "char" -> /\ f # ESC => EncChar(Basic[f + 1]) = <<f>> /\ DecGsm(<<f>>, "drop") = <<Basic[f + 1]>>
                        /\ f \in DOMAIN Ext => EncChar(Ext[f]) = <<ESC, f>> /\ DecGsm(<<ESC, f>>, "space") = <<Ext[f]>>
    [] kind = "dcs" -> Dcs(f).alphabet \in {0, 1, 2} /\ (Dcs(f).ok /\ f < 64 => Dcs(f).alphabet = (f \div 4) % 4)
    [] kind = "semi" -> SubSeq(Nibbles(EncSemi(s)), 1, Len(s)) = s
    [] kind = "utf" -> DecUcs2(EncUcs2(<<f, f>>)) = <<f, f>>
Tables == Len(Basic) = 128 /\ Cardinality({Basic[i] : i \in 1..128}) = 128 /\ Cardinality(DOMAIN Ext) = 10
=============================================================================
