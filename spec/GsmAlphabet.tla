---------------------------- MODULE GsmAlphabet ----------------------------
(* The GSM 7-bit default alphabet and its extension table (3GPP TS 23.038, 6.2.1), septet packing
   (6.1.2), UCS2 (UTF-16) and semi-octets (TS 23.040, 9.1.2.3), written from the standard.
   Characters are Unicode code points, octets and septets naturals. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Functions

Basic == <<
  \* 00
  64, 163, 36, 165, 232, 233, 249, 236, 242, 199, 10, 216, 248, 13, 197, 229,
  \* 10
  916, 95, 934, 915, 923, 937, 928, 936, 931, 920, 926, 0 - 1, 198, 230, 223, 201,
  \* 20
  32, 33, 34, 35, 164, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47,
  \* 30
  48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63,
  \* 40
  161, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
  \* 50
  80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 196, 214, 209, 220, 167,
  \* 60
  191, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
  \* 70
  112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 228, 246, 241, 252, 224 >>
ESC == 27
Ext == [c \in {10, 20, 40, 41, 47, 60, 61, 62, 64, 101} |->
          CASE c = 10 -> 12 [] c = 20 -> 94 [] c = 40 -> 123 [] c = 41 -> 125 [] c = 47 -> 92
            [] c = 60 -> 91 [] c = 61 -> 126 [] c = 62 -> 93 [] c = 64 -> 124 [] c = 101 -> 8364]
BasicCode == [ch \in {Basic[i] : i \in 1..128} \ {0 - 1} |-> CHOOSE i \in 0..127 : Basic[i + 1] = ch]
ExtCode == [ch \in {Ext[c] : c \in DOMAIN Ext} |-> CHOOSE c \in DOMAIN Ext : Ext[c] = ch]
EncChar(ch) == IF ch \in DOMAIN BasicCode THEN <<BasicCode[ch]>>
               ELSE IF ch \in DOMAIN ExtCode THEN <<ESC, ExtCode[ch]>> ELSE <<>>
InAlphabet(ch) == ch \in DOMAIN BasicCode \/ ch \in DOMAIN ExtCode
Encodable(text) == \A i \in 1..Len(text) : InAlphabet(text[i])
EncGsm(text) == FoldLeft(LAMBDA a, ch : a \o EncChar(ch), <<>>, text)
SeptetLen(text) == FoldLeft(LAMBDA a, ch : a + Len(EncChar(ch)), 0, text)

(* policy for escape codes without a meaning: drop it, show a space, show the character of the basic table *)
DecGsm(codes, policy) ==
  LET r == FoldLeft(LAMBDA a, c :
              IF a.esc
              THEN [esc |-> FALSE, out |-> IF c \in DOMAIN Ext THEN Append(a.out, Ext[c])
                                           ELSE CASE policy = "drop" -> a.out
                                                  [] policy = "space" -> Append(a.out, 32)
                                                  [] policy = "basic" -> IF c = ESC THEN Append(a.out, 32) ELSE Append(a.out, Basic[c + 1])]
              ELSE IF c = ESC THEN [a EXCEPT !.esc = TRUE]
              ELSE [esc |-> FALSE, out |-> Append(a.out, Basic[c + 1])],
            [esc |-> FALSE, out |-> <<>>], codes)
  IN IF r.esc /\ policy # "drop" THEN Append(r.out, 32) ELSE r.out
Decodings(codes) == {DecGsm(codes, p) : p \in {"drop", "space", "basic"}}

---------------------------------------------------------------------------
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
(* bit j (from 0) of a sequence of w-bit units, least significant first; 0 beyond the end *)
Bit(units, w, j) == LET i == j \div w + 1 IN IF j < 0 \/ i > Len(units) THEN 0 ELSE (units[i] \div Pow2[(j % w) + 1]) % 2
Octet(f(_)) == f(0) + 2 * f(1) + 4 * f(2) + 8 * f(3) + 16 * f(4) + 32 * f(5) + 64 * f(6) + 128 * f(7)
Septet(f(_)) == f(0) + 2 * f(1) + 4 * f(2) + 8 * f(3) + 16 * f(4) + 32 * f(5) + 64 * f(6)
(* "fill" zero bits, then the septets, in octets *)
Pack(septs, fill) ==
  [i \in 1..((7 * Len(septs) + fill + 7) \div 8) |->
      Octet(LAMBDA k : Bit(septs, 7, 8 * (i - 1) + k - fill))]
(* n septets after "fill" bits *)
Unpack(octs, fill, n) == [i \in 1..n |-> Septet(LAMBDA k : Bit(octs, 8, 7 * (i - 1) + k + fill))]
Available(nOcts, fill) == IF 8 * nOcts < fill THEN 0 ELSE (8 * nOcts - fill) \div 7

---------------------------------------------------------------------------
Units(ch) == IF ch > 65535 THEN <<55296 + (ch - 65536) \div 1024, 56320 + ((ch - 65536) % 1024)>> ELSE <<ch>>
EncUtf16(text) == FoldLeft(LAMBDA a, ch : a \o Units(ch), <<>>, text)
UnitLen(text) == FoldLeft(LAMBDA a, ch : a + (IF ch > 65535 THEN 2 ELSE 1), 0, text)
Hi(u) == u \in 55296..56319
Lo(u) == u \in 56320..57343
EncUcs2(text) == FoldLeft(LAMBDA a, u : a \o <<u \div 256, u % 256>>, <<>>, EncUtf16(text))
DecUtf16(us) ==
  FoldLeft(LAMBDA out, u :
     IF Lo(u) /\ out # <<>> /\ Hi(out[Len(out)])
     THEN Append(SubSeq(out, 1, Len(out) - 1), 65536 + (out[Len(out)] - 55296) * 1024 + (u - 56320))
     ELSE Append(out, u), <<>>, us)
DecUcs2(octs) == DecUtf16([i \in 1..(Len(octs) \div 2) |-> octs[2 * i - 1] * 256 + octs[2 * i]])

---------------------------------------------------------------------------
(* semi-octets: digits (0..9) <-> octets, low nibble first, F fills an odd number *)
EncSemi(ds) == [i \in 1..((Len(ds) + 1) \div 2) |->
                  ds[2 * i - 1] + 16 * (IF 2 * i <= Len(ds) THEN ds[2 * i] ELSE 15)]
Nibbles(octs) == [i \in 1..(2 * Len(octs)) |-> IF i % 2 = 1 THEN octs[(i + 1) \div 2] % 16 ELSE octs[i \div 2] \div 16]
DigitChars(ds) == [i \in 1..Len(ds) |-> 48 + ds[i]]
IsDigits(text) == text # <<>> /\ \A i \in 1..Len(text) : text[i] \in 48..57
=============================================================================
