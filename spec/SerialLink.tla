----------------------------- MODULE SerialLink -----------------------------
(* The serial link: threads exchange commands and replies with a device over one port while unsolicited lines come in.

   The actions are those visible at the two boundaries of the component (its callers and the port) plus the silent steps
   in between.  Reading a byte and acting upon it are separate steps, and so are the acceptance of a command, its
   transmission, the end of the exchange and the return to the caller: whatever the interleaving of the reading thread
   with its callers, the outcome has to be one of those this specification allows. *)
EXTENDS Naturals, Sequences, TLC

EOL == "\r\n"
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
EndsWith(s, x) == Len(x) <= Len(s) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
StartsWith(s, x) == Len(x) <= Len(s) /\ SubSeq(s, 1, Len(x)) = x
AllDigits(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in Digits
CodeLine(s, p) == StartsWith(s, p) /\ Len(s) > Len(p) /\ AllDigits(SubSeq(s, Len(p) + 1, Len(s)))
(* the lines that end a response *)
Final(s) == \/ s \in {"OK", "ERROR", "COMMAND NOT SUPPORT"}
            \/ CodeLine(s, "+CME ERROR: ") \/ CodeLine(s, "+CMS ERROR: ")

VARIABLES
  calls,   \* per thread: what it asked for and where that stands
  ex,      \* the exchange in progress (t = 0: none)
  avail,   \* bytes waiting in the port
  raw,     \* bytes read but not yet acted upon
  buf,     \* the incomplete line read so far
  pend,    \* unsolicited lines not handed over yet
  hand,    \* notifications on their way to the handler
  link,    \* "up", "failed" (reading failed), "dead" (and reported)
  port,    \* "open" or "closed"
  closing, \* close() has been called
  now      \* time
vars == <<calls, ex, avail, raw, buf, pend, hand, link, port, closing, now>>

Idle0 == [st |-> "idle", cmd |-> "", wait |-> TRUE, tmo |-> 0, prompt |-> "", res |-> <<>>]
NoEx == [t |-> 0, sent |-> FALSE, resp |-> <<>>, done |-> FALSE, deadline |-> 0, prompt |-> ""]
SInit(T) ==
  /\ calls = [t \in T |-> Idle0] /\ ex = NoEx
  /\ avail = "" /\ raw = "" /\ buf = "" /\ pend = <<>> /\ hand = <<>>
  /\ link = "up" /\ port = "open" /\ closing = FALSE /\ now = 0

Armed == ex.t # 0 /\ ~ex.done /\ calls[ex.t].wait

(* ---- callers ------------------------------------------------------------ *)
Call(t, cmd, wait, tmo, prompt) ==
  /\ calls[t].st = "idle"
  /\ calls' = [calls EXCEPT ![t] = [Idle0 EXCEPT !.st = "called", !.cmd = cmd, !.wait = wait, !.tmo = tmo, !.prompt = prompt]]
  /\ UNCHANGED <<ex, avail, raw, buf, pend, hand, link, port, closing, now>>

(* silent: the command gets the line to itself; from here on what comes in belongs to it *)
Accept1(t) ==
  /\ calls[t].st = "called" /\ ex.t = 0
  /\ ex' = [NoEx EXCEPT !.t = t, !.prompt = calls[t].prompt]
  /\ UNCHANGED <<calls, avail, raw, buf, pend, hand, link, port, closing, now>>

Tx(t, data, ok) ==
  /\ ex.t = t /\ ~ex.sent /\ data = calls[t].cmd
  /\ ok => port = "open"
  /\ IF ~ok THEN /\ calls' = [calls EXCEPT ![t].st = "txfail"]
                 /\ ex' = [ex EXCEPT !.sent = TRUE]
     ELSE IF calls[t].wait THEN /\ calls' = [calls EXCEPT ![t].st = "sent"]
                                /\ ex' = [ex EXCEPT !.sent = TRUE, !.deadline = now + calls[t].tmo]
     ELSE /\ calls' = [calls EXCEPT ![t].st = "sent"]
          /\ ex' = [ex EXCEPT !.sent = TRUE, !.done = TRUE]
  /\ UNCHANGED <<avail, raw, buf, pend, hand, link, port, closing, now>>

(* silent: the exchange is over and the line free for the next command *)
Finish(t) ==
  /\ ex.t = t /\ ex.sent
  /\ \/ /\ ex.done /\ calls[t].st = "sent"
        /\ calls' = [calls EXCEPT ![t].st = "answered", ![t].res = ex.resp]
     \/ /\ ~ex.done /\ calls[t].st = "sent" /\ now >= ex.deadline
        /\ calls' = [calls EXCEPT ![t].st = "timedout", ![t].res = ex.resp]
     \/ /\ calls[t].st = "txfail"
        /\ calls' = [calls EXCEPT ![t].st = "broken"]
  /\ ex' = NoEx
  /\ UNCHANGED <<avail, raw, buf, pend, hand, link, port, closing, now>>

Return(t, lines) ==
  /\ calls[t].st = "answered" /\ lines = calls[t].res
  /\ calls' = [calls EXCEPT ![t] = Idle0]
  /\ UNCHANGED <<ex, avail, raw, buf, pend, hand, link, port, closing, now>>
TimeoutError(t, lines) ==
  /\ calls[t].st = "timedout" /\ lines = calls[t].res
  /\ calls' = [calls EXCEPT ![t] = Idle0]
  /\ UNCHANGED <<ex, avail, raw, buf, pend, hand, link, port, closing, now>>
TxError(t) ==
  /\ calls[t].st = "broken"
  /\ calls' = [calls EXCEPT ![t] = Idle0]
  /\ UNCHANGED <<ex, avail, raw, buf, pend, hand, link, port, closing, now>>

(* ---- port --------------------------------------------------------------- *)
Arrive(s) ==
  /\ avail' = avail \o s
  /\ UNCHANGED <<calls, ex, raw, buf, pend, hand, link, port, closing, now>>
Read(s) ==
  /\ port = "open" /\ link = "up" /\ raw = "" /\ StartsWith(avail, s) /\ Len(s) > 0
  /\ raw' = s /\ avail' = SubSeq(avail, Len(s) + 1, Len(avail))
  /\ UNCHANGED <<calls, ex, buf, pend, hand, link, port, closing, now>>
ReadFail ==
  /\ link = "up" /\ port = "open" /\ link' = "failed"
  /\ UNCHANGED <<calls, ex, avail, raw, buf, pend, hand, port, closing, now>>

(* silent: act upon the next byte *)
Examine ==
  /\ raw # ""
  /\ LET b == buf \o SubSeq(raw, 1, 1)
         line == SubSeq(b, 1, Len(b) - Len(EOL))
     IN
     /\ raw' = SubSeq(raw, 2, Len(raw))
     /\ IF EndsWith(b, EOL)
        THEN /\ buf' = ""
             /\ IF line = "" THEN UNCHANGED <<ex, pend, hand>>
                ELSE IF Armed
                THEN /\ ex' = [ex EXCEPT !.resp = Append(@, line), !.done = Final(line)]
                     /\ pend' = <<>>
                     /\ hand' = IF pend = <<>> THEN hand ELSE Append(hand, pend)
                ELSE /\ pend' = Append(pend, line) /\ UNCHANGED <<ex, hand>>
        ELSE IF Armed /\ ex.prompt # "" /\ EndsWith(b, ex.prompt)
        THEN /\ buf' = ""
             /\ ex' = [ex EXCEPT !.resp = Append(@, b), !.done = TRUE]
             /\ pend' = <<>>
             /\ hand' = IF pend = <<>> THEN hand ELSE Append(hand, pend)
        ELSE /\ buf' = b /\ UNCHANGED <<ex, pend, hand>>
  /\ UNCHANGED <<calls, avail, link, port, closing, now>>

(* silent: nothing more is waiting, so the lines so far are a notification *)
Flush ==
  /\ pend # <<>> /\ raw = "" /\ buf = "" /\ avail = ""
  /\ hand' = Append(hand, pend) /\ pend' = <<>>
  /\ UNCHANGED <<calls, ex, avail, raw, buf, link, port, closing, now>>

(* ---- handlers ------------------------------------------------------------ *)
Notify(lines) ==
  /\ hand # <<>> /\ Head(hand) = lines
  /\ hand' = Tail(hand)
  /\ UNCHANGED <<calls, ex, avail, raw, buf, pend, link, port, closing, now>>
Fatal(same, alive, open) ==
  /\ link = "failed" /\ same /\ ~alive /\ ~open /\ port = "closed"
  /\ link' = "dead"
  /\ UNCHANGED <<calls, ex, avail, raw, buf, pend, hand, port, closing, now>>

(* ---- closing -------------------------------------------------------------- *)
Close ==
  /\ closing' = TRUE
  /\ UNCHANGED <<calls, ex, avail, raw, buf, pend, hand, link, port, now>>
PortClose(reading) ==
  /\ ~reading
  /\ closing \/ link = "failed"
  /\ port' = "closed"
  /\ UNCHANGED <<calls, ex, avail, raw, buf, pend, hand, link, closing, now>>
CloseReturn(alive, open) ==
  /\ closing /\ port = "closed" /\ ~alive /\ ~open
  \* what has not been handed over by now never is
  /\ pend' = <<>> /\ hand' = <<>> /\ raw' = ""
  /\ UNCHANGED <<calls, ex, avail, buf, link, port, closing, now>>

(* ---- time ------------------------------------------------------------------ *)
(* time passes only when nothing is left to do at once; a handler that takes its time keeps the reading thread from going
   on (handling), a slow device keeps a transmission from ending (writing) *)
Settled(writing, handling) ==
  /\ \/ closing \/ link # "up" \/ handling
     \/ avail = "" /\ raw = "" /\ hand = <<>> /\ (pend = <<>> \/ buf # "")
  /\ link # "failed"
  /\ ex.t = 0 => \A t \in DOMAIN calls : calls[t].st = "idle"
  /\ ex.t # 0 => (ex.sent \/ writing) /\ (~ex.done \/ writing) /\ \A t \in DOMAIN calls : calls[t].st \in (IF t = ex.t THEN {"sent", "called"} ELSE {"idle", "called"})
Pass(to, writing, handling) ==
  /\ Settled(writing, handling) /\ to >= now
  /\ ex.t # 0 /\ ex.sent => to <= ex.deadline
  /\ now' = to
  /\ UNCHANGED <<calls, ex, avail, raw, buf, pend, hand, link, port, closing>>
Silent == \/ \E t \in DOMAIN calls : Accept1(t) \/ Finish(t)
          \/ Examine \/ Flush
=============================================================================
