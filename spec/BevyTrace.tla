----------------------------- MODULE BevyTrace ------------------------------
(* Every recorded run of a real Bevy app with the rx_bevy plugins must be   *)
(* a behaviour of Bevy.                                                     *)
EXTENDS Bevy, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, l, st, bad
vars == <<t, l, st, bad>>

\* what must agree in order: what one destination, entity or resource writer sees, and the works of one schedule
Channel(e) == IF e[1] \in {1, 2, 3, 4} THEN <<1, e[2]>>
              ELSE IF e[1] \in {21, 22, 23} THEN <<2, e[2]>>
              ELSE IF e[1] \in {31, 32, 33} THEN <<3, e[2]>>
              ELSE IF e[1] \in {5, 7} THEN <<e[1], e[2]>> ELSE <<e[1], 0>>
Channels(es) == {Channel(es[i]) : i \in 1..Len(es)}
\* everything happens in the schedule it belongs to: frames are split at the schedule markers
RECURSIVE Split(_, _)
Split(es, cur) == IF es = <<>> THEN <<cur>>
                  ELSE IF Head(es)[1] = 12 THEN <<cur>> \o Split(Tail(es), <<>>)
                  ELSE Split(Tail(es), Append(cur, Head(es)))
SamePart(x, y) ==
  /\ Len(x) = Len(y)
  /\ \A c \in Channels(x) \cup Channels(y) :
       SelectSeq(x, LAMBDA e : Channel(e) = c) = SelectSeq(y, LAMBDA e : Channel(e) = c)
SameLog(x, y) == LET p == Split(x, <<>>)
                     q == Split(y, <<>>)
                 IN Len(p) = Len(q) /\ \A i \in 1..Len(p) : SamePart(p[i], q[i])

Diffs(s, o) ==
    (IF SameLog(s.log, o.ev) THEN {} ELSE {"events"})
    \cup (IF "al" \in DOMAIN o /\ o.al # AliveOf(s) THEN {"alive"} ELSE {})
    \cup (IF "sa" \in DOMAIN o /\ o.sa # SubsOf(s) THEN {"subscriptions"} ELSE {})
    \cup (IF "cl" \in DOMAIN o /\ o.cl # ClosedOf(s) THEN {"closed"} ELSE {})
    \cup (IF "rel" \in DOMAIN o /\ o.rel # RelOf(s) THEN {"listed"} ELSE {})
    \cup (IF "ne" \in DOMAIN o /\ o.ne # Entities(s) THEN {"entities"} ELSE {})

Init == /\ t \in 1..Len(Traces) /\ l = 0 /\ bad = FALSE
        /\ st = Init0(Traces[t].cfg)

Next ==
  /\ ~bad /\ l < Len(Traces[t].acts)
  /\ l' = l + 1
  /\ t' = t
  /\ LET tr == Traces[t]
         o == IF l + 1 <= Len(tr.steps) THEN tr.steps[l + 1] ELSE [ev |-> << <<9>> >>]
         s1 == Step(st, tr.acts[l + 1])
         d == Diffs(s1, o)
     IN /\ st' = s1
        /\ bad' = (d # {})
        /\ IF d # {}
           THEN PrintT(<<"REJECT", tr.id, l + 1, ToJson([why |-> d, act |-> tr.acts[l + 1], expected |-> Observed(s1), got |-> o])>>)
           ELSE IF l + 1 = Len(tr.acts) THEN PrintT(<<"ACCEPT", tr.id>>) ELSE TRUE

Spec == Init /\ [][Next]_vars
View == <<t, l, bad>>
=============================================================================
