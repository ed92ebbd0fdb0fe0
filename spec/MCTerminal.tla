----------------------------- MODULE MCTerminal -----------------------------
(* A line editor (text before and after the cursor, a history with a position, a message flag) composed with Terminal and a modem that prompts,
   refuses or says nothing: whatever is typed, every event is one Terminal allows.  "A=" stands for the send command, commands are those of Pr.
   Broken: "append" (typed at the end), "eat" (backspace takes the wrong side), "offend" (up runs off the oldest entry), "twice" (down skips),
   "short" (one entry less is kept), "keep" (history position not reset), "strip" (blanks are sent), "case" (completion looks at letter case),
   "wipe" (no common beginning erases the line), "refused" (message entry although refused), "hang" (message entry although silent),
   "resend" (Ctrl-Z outside message entry), "escsends" (escape transmits the text), "whole" (enter transmits the text after the cursor too),
   "own" (help goes to the modem). *)
EXTENDS Terminal
CONSTANTS Depth, Broken, KeySet
VARIABLES ed, n, now, pend, s, bad
mvars == <<ed, n, now, pend, s, bad>>
MaxMC == 2
SendsMC(in) == Starts(Up(in), "A=")
Pr == [raw |-> FALSE, screen |-> FALSE, show |-> FALSE, cmds |-> <<"A", "AB", "ABCA", "ABCB", "?">>, cats |-> <<"G">>, files |-> <<>>, info |-> <<>>, chars |-> [a |-> "a"], prompt |-> ""]
Init == ed = [b |-> "", a |-> "", h |-> <<>>, p |-> 0, ty |-> FALSE, dead |-> FALSE] /\ n = 0 /\ now = 0 /\ pend = "" /\ s = TInit0 /\ bad = {}
RECURSIVE Run(_, _, _)
Run(x, b, q) == IF q = <<>> THEN s' = x /\ bad' = bad \cup b ELSE LET r == TStep(Pr, x, q[1]) IN Run(r.s, b \cup r.bad, Tail(q))
Ev(q) == Run(s, {}, q)
ReadyE == [k |-> "Ready", at |-> now, row |-> "", col |-> 0, rows |-> <<>>, words |-> <<>>]
KeyE(k) == [k |-> "Keys", q |-> <<k>>]
WE(x) == IF x = "" THEN <<>> ELSE <<[k |-> "W", x |-> x, at |-> now]>>
Full == ed.b \o ed.a
Shift(x) == [ed EXCEPT !.b = x, !.a = ""]
Recall(i) == [Shift(ed.h[i]) EXCEPT !.p = i - 1]
Common(M) == LET L == {k \in 0..4 : \A x, y \in M : Len(x) >= k /\ Len(y) >= k /\ To(x, k) = To(y, k)} m == CHOOSE k \in L : \A j \in L : j <= k IN To(CHOOSE x \in M : TRUE, m)
Tab1 == LET p == IF Broken = "case" THEN Strip(Full) ELSE Up(Strip(Full)) M == {c \in Rng(Pr.cmds) : Starts(c, p)} IN
        IF M = {} \/ M = {p} THEN ed
        ELSE IF Broken = "wipe" /\ Cardinality(M) > 1 /\ p # Full THEN Shift("") ELSE Shift(Common(M))
(* what a key does: the editor afterwards, what is transmitted, whether a prompt is awaited *)
Do(k) ==
  LET in == Strip(Full) h1 == Append(ed.h, in) h2 == IF Len(h1) > MaxMC - (IF Broken = "short" THEN 1 ELSE 0) THEN Tail(h1) ELSE h1
      clear == [ed EXCEPT !.b = "", !.a = ""] IN
  CASE Single(k) -> <<IF Broken = "append" THEN [ed EXCEPT !.a = @ \o k] ELSE [ed EXCEPT !.b = @ \o k], "", FALSE>>
    [] k = "left" -> <<IF ed.b = "" THEN ed ELSE [ed EXCEPT !.b = To(@, Len(@) - 1), !.a = SubSeq(ed.b, Len(ed.b), Len(ed.b)) \o @], "", FALSE>>
    [] k = "home" -> <<[ed EXCEPT !.b = "", !.a = Full], "", FALSE>>
    [] k = "end" -> <<Shift(Full), "", FALSE>>
    [] k = "right" -> <<IF ed.a = "" THEN ed ELSE [ed EXCEPT !.a = From(@, 2), !.b = @ \o To(ed.a, 1)], "", FALSE>>
    [] k = "bs" -> <<IF Broken = "eat" THEN [ed EXCEPT !.a = From(@, 2)] ELSE IF ed.b = "" THEN ed ELSE [ed EXCEPT !.b = To(@, Len(@) - 1)], "", FALSE>>
    [] k = "del" -> <<[ed EXCEPT !.a = From(@, 2)], "", FALSE>>
    [] k = "up" -> <<IF ed.p > 0 THEN Recall(ed.p) ELSE IF Broken = "offend" /\ ed.h # <<>> THEN Recall(Len(ed.h)) ELSE ed, "", FALSE>>
    [] k = "down" -> <<IF ed.p + (IF Broken = "twice" THEN 2 ELSE 1) < Len(ed.h) THEN Recall(ed.p + (IF Broken = "twice" THEN 3 ELSE 2)) ELSE ed, "", FALSE>>
    [] k = "tab" -> <<Tab1, "", FALSE>>
    [] k = "^Z" -> IF ed.ty \/ Broken = "resend" THEN <<[clear EXCEPT !.ty = FALSE], Full \o "^Z", FALSE>> ELSE <<ed, "", FALSE>>
    [] k = "esc" -> IF ed.ty THEN <<[clear EXCEPT !.ty = FALSE], (IF Broken = "escsends" THEN Full ELSE "") \o "^[", FALSE>> ELSE <<ed, "", FALSE>>
    [] k = "enter" ->
         IF ed.ty THEN IF Broken = "whole" THEN <<clear, Full, FALSE>> ELSE <<[ed EXCEPT !.b = ""], ed.b, FALSE>>
         ELSE IF in = "" THEN <<clear, "", FALSE>>
         ELSE LET e2 == [clear EXCEPT !.h = h2, !.p = IF Broken = "keep" THEN ed.p ELSE Len(h2)] IN
              IF Own(Pr, in)[1] \notin {"modem"} /\ Len(in) > 2 /\ Broken # "own" THEN <<e2, "", FALSE>>
              ELSE <<e2, (IF Broken = "strip" THEN Full ELSE in) \o "^M", SendsMC(in)>>
    [] OTHER -> <<ed, "", FALSE>>
Type == /\ pend = "" /\ ~ed.dead /\ n < Depth /\ \E k \in KeySet :
          LET r == Do(k) IN
          /\ (Single(k) => Len(Full) < 5) /\ n' = n + 1
          /\ ed' = r[1] /\ pend' = (IF r[3] THEN "prompt" ELSE "") /\ now' = now
          /\ Ev(<<ReadyE, KeyE(k)>> \o WE(r[2]))
Answer == /\ pend # "" /\ UNCHANGED n /\ pend' = "" /\ \E a \in {"prompt", "refuse", "silent"} :
            LET d == IF a = "silent" THEN 3000 ELSE 500 IN
            /\ now' = now + d
            /\ ed' = [ed EXCEPT !.ty = (a = "prompt" \/ (a = "refuse" /\ Broken = "refused") \/ (a = "silent" /\ Broken = "hang"))]
            /\ Ev(IF a = "silent" THEN <<[ReadyE EXCEPT !.at = now + d]>>
                  ELSE <<[k |-> "Rx", at |-> now + d, l |-> IF a = "prompt" THEN <<>> ELSE <<"ERROR">>, prompt |-> a = "prompt", final |-> a = "refuse"], [ReadyE EXCEPT !.at = now + d]>>)
Quit == pend = "" /\ ~ed.dead /\ ed' = [ed EXCEPT !.dead = TRUE] /\ Ev(<<ReadyE, KeyE("exit"), [k |-> "Closed", at |-> now], [k |-> "Look", at |-> now, rows |-> <<>>]>>) /\ UNCHANGED <<n, now, pend>>
Next == Type \/ Answer \/ Quit
Allowed == bad = {}
(* the two views of the line agree; a line never grows by itself; the history is bounded and its position within it *)
Agrees == bad = {} /\ pend = "" /\ ~ed.dead => s.l = Full /\ s.cur = Len(ed.b) /\ s.typing = ed.ty
Bounded == Len(s.hist) <= MaxMC /\ s.pos \in 0..Len(s.hist) /\ s.cur \in 0..Len(s.l)
(* outside message entry nothing but entered lines is transmitted: at rest, what was sent is a line and CR *)
OnlyLines == (pend = "" /\ ~s.typing /\ bad = {}) => s.sent = "" \/ Ends(s.sent, "^M") \/ Ends(s.sent, "^Z") \/ Ends(s.sent, "^[")
=============================================================================
