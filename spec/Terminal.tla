------------------------------ MODULE Terminal ------------------------------
(* The interactive terminal: keys, the line being edited, its history, completion, message entry, and what goes to the modem.

   A key is its character or a name ("enter", "tab", "left", "^Z" ...).  Keys read in one go are taken one after the other.
   outs is the set of texts that may have been transmitted when the terminal asks for more keys ("?X", "ls X" with an unknown X and the like
   may be commands of the terminal or of the modem), sent what has been.  Control characters are written ^M, ^Z, ^[. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Cl(name, P) == IF P THEN {} ELSE {name}
Ok(s, b) == [s |-> s, bad |-> b]
Rng(q) == {q[i] : i \in 1..Len(q)}
Starts(s, x) == Len(x) <= Len(s) /\ SubSeq(s, 1, Len(x)) = x
Ends(s, x) == Len(x) <= Len(s) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Up1(c) == CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C" [] c = "d" -> "D" [] c = "e" -> "E" [] c = "f" -> "F" [] c = "g" -> "G" [] c = "h" -> "H"
            [] c = "i" -> "I" [] c = "j" -> "J" [] c = "k" -> "K" [] c = "l" -> "L" [] c = "m" -> "M" [] c = "n" -> "N" [] c = "o" -> "O" [] c = "p" -> "P"
            [] c = "q" -> "Q" [] c = "r" -> "R" [] c = "s" -> "S" [] c = "t" -> "T" [] c = "u" -> "U" [] c = "v" -> "V" [] c = "w" -> "W" [] c = "x" -> "X"
            [] c = "y" -> "Y" [] c = "z" -> "Z" [] OTHER -> c
RECURSIVE UpF(_, _), RStrip(_), LStrip(_)
UpF(s, acc) == IF s = "" THEN acc ELSE UpF(SubSeq(s, 2, Len(s)), acc \o Up1(SubSeq(s, 1, 1)))
Up(s) == UpF(s, "")
RStrip(s) == IF s # "" /\ SubSeq(s, Len(s), Len(s)) = " " THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
LStrip(s) == IF s # "" /\ SubSeq(s, 1, 1) = " " THEN LStrip(SubSeq(s, 2, Len(s))) ELSE s
Strip(s) == LStrip(RStrip(s))
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
To(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, i)
Max == 100
PromptWait == 3000
TInit0 == [l |-> "", cur |-> 0, hist |-> <<>>, pos |-> 0, typing |-> FALSE, todo |-> <<>>, script |-> <<>>, outs |-> {""}, sent |-> "", wait |-> FALSE, wat |-> 0 - 1,
           over |-> FALSE, closed |-> FALSE, fresh |-> TRUE, left |-> FALSE, ask |-> <<>>, lines |-> <<>>, smsp |-> "> "]
Out(s, x) == {o \o x : o \in s.outs}
(* completion *)
Matches(P, p) == {c \in Rng(P.cmds) : Starts(c, p)}
RECURSIVE Lcp(_, _)
Lcp(M, n) == LET c == CHOOSE x \in M : TRUE IN IF \A x \in M : Len(x) > n /\ Len(c) > n /\ SubSeq(x, 1, n + 1) = SubSeq(c, 1, n + 1) THEN Lcp(M, n + 1) ELSE To(c, n)
Complete1(P, s) ==
  LET p == Up(Strip(s.l)) M == Matches(P, p) n == Cardinality(M) IN
  IF n = 0 \/ M = {p} THEN s
  ELSE LET l2 == Lcp(M, Len(p)) IN [s EXCEPT !.l = l2, !.cur = Len(l2), !.ask = IF n > 1 THEN Append(@, <<"options", p>>) ELSE @]
(* a command line: help and listings are the terminal's own *)
Own(P, in) ==
  LET u == Up(in) IN
  CASE Len(in) > 2 /\ Starts(in, "?") -> <<"help", From(in, 2)>>
    [] Len(in) > 2 /\ Ends(in, "??") -> <<"help", To(in, Len(in) - (IF Len(in) > 2 /\ SubSeq(in, Len(in) - 2, Len(in) - 2) = "=" THEN 3 ELSE 2))>>
    [] u = "HELP" \/ Starts(u, "HELP ") -> <<"help", From(in, 6)>>
    [] u = "LS" -> <<"ls", "">>
    [] u = "LSCAT" -> <<"lscat", "">>
    [] Starts(u, "LS ") /\ \E c \in Rng(P.cats) : Up(c) = From(u, 4) -> <<"ls", From(u, 4)>>
    [] u = "LOAD" \/ Starts(u, "LOAD ") -> <<"load", Strip(From(in, 6))>>
    [] Starts(u, "?") \/ Ends(u, "??") \/ Starts(u, "LS") \/ Starts(u, "HELP") -> <<"unclear", "">>
    [] OTHER -> <<"modem", "">>
Sends(in) == Starts(Up(in), "AT+CMGS=")
Content(P, name) == IF \E f \in Rng(P.files) : f.n = name THEN (CHOOSE f \in Rng(P.files) : f.n = name).l ELSE <<>>
RECURSIVE Useful(_)
Useful(q) == IF q = <<>> THEN <<>> ELSE LET x == Strip(q[1]) IN (IF x = "" \/ Starts(x, "#") THEN <<>> ELSE <<x>>) \o Useful(Tail(q))
Confirm(P, s0, line) ==
  LET in == Strip(line) IN
  IF in = "" THEN s0
  ELSE LET h == Append(s0.hist, in)
           h2 == IF Len(h) > Max THEN SubSeq(h, Len(h) - Max + 1, Len(h)) ELSE h
           s == [s0 EXCEPT !.hist = h2, !.pos = Len(h2)]
           o == Own(P, in) IN
    CASE o[1] \in {"help", "ls", "lscat"} -> [s EXCEPT !.ask = Append(@, o)]
      [] o[1] = "load" -> [s EXCEPT !.script = Useful(Content(P, o[2])) \o @]
      [] o[1] = "unclear" -> [s EXCEPT !.outs = @ \cup Out(s, in \o "^M")]
      [] OTHER -> [s EXCEPT !.outs = Out(s, in \o "^M"), !.wait = Sends(in)]
Replace(s, l) == [s EXCEPT !.l = l, !.cur = Len(l)]
Single(k) == Len(k) = 1
Key(P, s0, k) ==
  LET s == s0 l == s.l c == s.cur IN
  IF P.raw THEN IF k = "exit" THEN [s EXCEPT !.over = TRUE] ELSE [s EXCEPT !.outs = Out(s, IF k = "enter" THEN "^M" ELSE P.chars[k])]
  ELSE CASE k \in {"exit", "exit2"} -> [s EXCEPT !.over = TRUE]
    [] Single(k) -> [s EXCEPT !.l = To(l, c) \o k \o From(l, c + 1), !.cur = c + 1]
    [] k = "left" -> [s EXCEPT !.cur = IF c > 0 THEN c - 1 ELSE 0]
    [] k = "right" -> [s EXCEPT !.cur = IF c < Len(l) THEN c + 1 ELSE c]
    [] k = "home" -> [s EXCEPT !.cur = 0]
    [] k = "end" -> [s EXCEPT !.cur = Len(l)]
    [] k = "bs" -> IF c = 0 THEN s ELSE [s EXCEPT !.l = To(l, c - 1) \o From(l, c + 1), !.cur = c - 1]
    [] k = "del" -> [s EXCEPT !.l = To(l, c) \o From(l, c + 2)]
    [] k = "up" -> IF s.pos > 0 THEN Replace([s EXCEPT !.pos = @ - 1], s.hist[s.pos]) ELSE s
    [] k = "down" -> IF s.pos < Len(s.hist) - 1 THEN Replace([s EXCEPT !.pos = @ + 1], s.hist[s.pos + 2]) ELSE s
    [] k = "tab" -> Complete1(P, s)
    [] k = "^Z" -> IF s.typing THEN [s EXCEPT !.outs = Out(s, l \o "^Z"), !.typing = FALSE, !.l = "", !.cur = 0, !.fresh = TRUE] ELSE s
    [] k = "esc" -> IF s.typing THEN [s EXCEPT !.outs = Out(s, "^["), !.typing = FALSE, !.l = "", !.cur = 0, !.fresh = TRUE] ELSE s
    [] k = "enter" -> IF s.typing THEN [s EXCEPT !.outs = Out(s, To(l, c)), !.l = From(l, c + 1), !.cur = 0]
                      ELSE Confirm(P, [s EXCEPT !.l = "", !.cur = 0, !.fresh = TRUE], l)
    [] OTHER -> s
RECURSIVE Feed(_, _)
Feed(P, s) ==
  IF s.wait \/ s.over THEN s
  ELSE IF s.script # <<>> THEN Feed(P, Confirm(P, [s EXCEPT !.script = Tail(@)], s.script[1]))
  ELSE IF s.todo # <<>> THEN LET r == Key(P, [s EXCEPT !.todo = Tail(@)], s.todo[1]) IN Feed(P, IF r.l # s.l \/ r.cur # s.cur THEN [r EXCEPT !.fresh = (r.l = "" /\ s.todo[1] \in {"enter", "^Z", "esc"})] ELSE r)
  ELSE s
(* the modem had its time to give a prompt *)
Late(P, s, at) == IF s.wait /\ s.wat >= 0 /\ at - s.wat >= PromptWait - 5 THEN Feed(P, [s EXCEPT !.wait = FALSE, !.wat = 0 - 1, !.fresh = TRUE]) ELSE s
Keys(P, s, e) == Ok(Feed(P, [s EXCEPT !.todo = e.q]), Cl("asked-for-keys", s.todo = <<>> /\ ~s.over))
Written(P, s0, e) ==
  LET s1 == Late(P, s0, e.at) x == s1.sent \o e.x
      s2 == [s1 EXCEPT !.sent = x, !.outs = {o \in @ : Starts(o, x)}, !.wat = IF s1.wait /\ @ < 0 /\ \E o \in s1.outs : o = x THEN e.at ELSE @] IN
  Ok(IF s2.outs = {} THEN s1 ELSE s2, Cl("transmitted-unasked", s2.outs # {}))
(* (a prompt nobody waited for any more becomes part of the line after it) *)
At(s, e) == IF s.left /\ e.l # <<>> THEN [i \in 1..(Len(e.l) - 1) |-> <<e.l[i + 1], e.at>>] ELSE [i \in 1..Len(e.l) |-> <<e.l[i], e.at>>]
Rx(P, s0, e) ==
  LET s == Late(P, s0, e.at) IN
  IF s.closed THEN Ok(s, {})
  ELSE IF s.wait /\ s.wat >= 0 /\ (e.prompt \/ e.final)
  THEN Ok(Feed(P, [s EXCEPT !.wait = FALSE, !.wat = 0 - 1, !.typing = e.prompt, !.fresh = TRUE, !.lines = IF e.prompt THEN @ ELSE @ \o At(s, e)]), {})
  ELSE Ok(IF s.wait THEN s ELSE [s EXCEPT !.lines = @ \o At(s, e), !.fresh = TRUE, !.left = e.prompt \/ (s.left /\ e.l = <<>>)], {})
(* what has been asked for is on the screen: e.words first words of lines, e.rows the lines themselves *)
Shown(P, s, e) ==
  IF ~P.show THEN {} ELSE
  UNION {CASE a[1] = "ls" -> Cl("listing", \A c \in Rng(P.info) : a[2] \in {"", Up(c.c)} => c.n \in Rng(e.words))
           [] a[1] = "lscat" -> Cl("categories", \A c \in Rng(P.cats) : c \in Rng(e.rows))
           [] a[1] = "options" -> Cl("suggestions", LET M == Matches(P, a[2]) IN Cardinality(M) > 20 \/ M \subseteq Rng(e.words))
           [] Strip(a[2]) = "" -> {}
           [] OTHER -> LET I == {c \in Rng(P.info) : c.n = Up(Strip(a[2]))} IN
                       Cl("help", IF I = {} THEN \E x \in Rng(e.rows) : Ends(x, Strip(a[2]))
                                  ELSE \E c \in I : (c.t \o " (" \o Strip(a[2]) \o ")") \in Rng(e.rows) /\ ("Category: " \o c.c) \in Rng(e.rows)) : a \in Rng(s.ask)}
Row(P, s, e) ==
  LET p == IF s.typing THEN s.smsp ELSE P.prompt IN
  IF ~P.screen \/ P.raw \/ (s.fresh /\ e.row = "" /\ s.l = "") THEN {}
  ELSE Cl("line-on-screen", e.row = RStrip(p \o s.l)) \cup Cl("cursor-on-screen", e.col = Len(p) + s.cur)
Ready(P, s0, e) ==
  LET s == Late(P, s0, e.at) IN
  Ok([s EXCEPT !.outs = {""}, !.sent = "", !.ask = <<>>],
     Cl("everything-transmitted", s.sent \in s.outs) \cup Cl("all-keys-taken", s.todo = <<>> /\ ~s.wait) \cup Cl("reads-on-after-exit", ~s.over)
     \cup Shown(P, s, e) \cup Row(P, s, e))
Closed(P, s0, e) == LET s == Late(P, s0, e.at) IN Ok([s EXCEPT !.closed = TRUE, !.lines = SelectSeq(@, LAMBDA x : x[2] < e.at - 1200)], Cl("ended-without-exit-key", s.over /\ ~s.closed) \cup Cl("everything-transmitted", s.sent \in s.outs))
RECURSIVE SubSeqOf(_, _)
SubSeqOf(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE ELSE SubSeqOf(IF a[1][1] = b[1] THEN Tail(a) ELSE a, Tail(b))
Look(P, s, e) == Ok(s, Cl("exit-key-ends", s.over = s.closed) \cup Cl("modem-lines-shown", ~P.screen \/ P.raw \/ SubSeqOf(s.lines, e.rows)))
TStep(P, s, e) == CASE e.k = "Keys" -> Keys(P, s, e) [] e.k = "W" -> Written(P, s, e) [] e.k = "Rx" -> Rx(P, s, e) [] e.k = "Ready" -> Ready(P, s, e)
                    [] e.k = "Closed" -> Closed(P, s, e) [] e.k = "Look" -> Look(P, s, e) [] OTHER -> Ok(s, {"unexpected-event " \o e.k})
=============================================================================
