------------------------------- MODULE Trace --------------------------------
(* Trace validation: every recorded run of the real library must be a       *)
(* behaviour of Rx.  Traces (acts with what was observed after each) are    *)
(* read from a file; each is followed act by act.                           *)
EXTENDS Rx, Json, IOUtils

TraceFile == IOEnv.TRACE_FILE
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, l, st, bad

vars == <<t, l, st, bad>>

\* what must agree in order: everything one destination sees, every callback or
\* teardown of one id; works are ordered among each other
Channel(e) == IF e[1] \in {1, 2, 3, 4, 101, 102, 103} THEN <<1, e[2]>>
              ELSE IF e[1] \in {5, 6, 7} THEN <<e[1], e[2]>> ELSE <<e[1], 0>>
Channels(es) == {Channel(es[i]) : i \in 1..Len(es)}
SameLog(strict, x, y) ==
  IF strict THEN x = y
  ELSE /\ Len(x) = Len(y)
       /\ \A c \in Channels(x) \cup Channels(y) :
            SelectSeq(x, LAMBDA e : Channel(e) = c) = SelectSeq(y, LAMBDA e : Channel(e) = c)

Has2(s, x) == \E i \in 1..Len(s) : s[i] = x

\* the reasons why the observation o does not match state s
Diffs(cfg, s, o) ==
    (IF SameLog(cfg.strict, s.log, o.ev) THEN {} ELSE {"events"})
    \cup (IF Has2(cfg.cmp, "cl") /\ "cl" \in DOMAIN o /\ o.cl # ClosedFlags(s) THEN {"closed"} ELSE {})
    \cup (IF Has2(cfg.cmp, "su") /\ "su" \in DOMAIN o /\ o.su # SubjectFlags(s) THEN {"subjects"} ELSE {})
    \cup (IF Has2(cfg.cmp, "se") /\ "se" \in DOMAIN o /\ o.se # B(ScEmpty(s)) THEN {"scheduler"} ELSE {})
    \cup (IF Has2(cfg.cmp, "cn") /\ "cn" \in DOMAIN o /\ o.cn # Connected(s) THEN {"connected"} ELSE {})
    \cup (IF Has2(cfg.cmp, "st") /\ "st" \in DOMAIN o /\ o.st # Stored(s) THEN {"stored"} ELSE {})

Init == /\ t \in 1..Len(Traces) /\ l = 0 /\ bad = FALSE
        /\ st = Init0(Traces[t].cfg)

Next ==
  /\ ~bad /\ l < Len(Traces[t].acts)
  /\ l' = l + 1
  /\ t' = t
  /\ LET tr == Traces[t]
         o == IF l + 1 <= Len(tr.steps) THEN tr.steps[l + 1] ELSE [ev |-> << <<9>> >>]
         s1 == Step(st, tr.acts[l + 1])
         d == Diffs(tr.cfg, s1, o)
     IN /\ st' = s1
        /\ bad' = (d # {})
        /\ IF d # {}
           THEN PrintT(<<"REJECT", tr.id, l + 1, ToJson([why |-> d, act |-> tr.acts[l + 1],
                   expected |-> [ev |-> s1.log, cl |-> ClosedFlags(s1), su |-> SubjectFlags(s1), se |-> B(ScEmpty(s1)), cn |-> Connected(s1), st |-> Stored(s1)], got |-> o])>>)
           ELSE IF l + 1 = Len(tr.acts) THEN PrintT(<<"ACCEPT", tr.id>>) ELSE TRUE

Spec == Init /\ [][Next]_vars
View == <<t, l, bad>>
=============================================================================
