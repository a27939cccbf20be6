------------------------------ MODULE Monitor -------------------------------
(* The contract every pipeline obeys whatever it is made of (C01, C02, C03): *)
(* an automaton over what is observable - notifications, closings, teardowns, *)
(* subscriptions of sources - that does not know what the operators compute.  *)
(* Sources are instrumented: subscribing source i is an event <<6, i>>, its   *)
(* teardown an event <<5, i>>; source ids i belong to destination i \div 100. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Cnt(f, i) == IF i \in DOMAIN f THEN f[i] ELSE 0
Inc(f, i) == (i :> (Cnt(f, i) + 1)) @@ f

M0 == [done |-> {},        \* destinations that have had their terminal or were closed
       closed |-> {},      \* destinations whose own teardown ran
       known |-> {},       \* destinations subscribed so far
       reported |-> {},    \* subscriptions that reported being closed
       cl |-> <<>>,        \* the closed flags last reported
       att |-> <<>>,       \* teardown -> the destination it is attached to
       on |-> <<>>,        \* source -> how often it was subscribed
       off |-> <<>>,       \* source or teardown -> how often its teardown ran
       bad |-> {}]

Flag(m, what) == [m EXCEPT !.bad = @ \cup {what}]

OnEvent(m, e) ==
  LET c == e[1] IN
  CASE c \in {1, 2, 3} ->
         LET m1 == IF e[2] \in m.done THEN Flag(m, "notification after the end") ELSE m
         IN IF c = 1 THEN m1 ELSE [m1 EXCEPT !.done = @ \cup {e[2]}]
    [] c \in {101, 102, 103} -> Flag(m, "notification after the destination closed")
    [] c = 4 ->
         LET m1 == IF e[2] \in m.closed THEN Flag(m, "closed twice") ELSE m
         IN [m1 EXCEPT !.closed = @ \cup {e[2]}, !.done = @ \cup {e[2]}]
    [] c = 5 ->
         LET m1 == [m EXCEPT !.off = Inc(@, e[2])]
         IN IF e[2] \in DOMAIN m.att
            THEN (IF m1.off[e[2]] > 1 THEN Flag(m1, "teardown ran twice") ELSE m1)
            ELSE (IF m1.off[e[2]] > Cnt(m1.on, e[2]) THEN Flag(m1, "teardown of a source ran twice") ELSE m1)
    [] c = 6 -> [m EXCEPT !.on = Inc(@, e[2])]
    [] c \in {8, 9, 11} -> Flag(m, IF c = 8 THEN "panic" ELSE IF c = 9 THEN "deadlock" ELSE "crash")
    [] OTHER -> m

RECURSIVE OnEvents(_, _, _)
OnEvents(m, es, k) == IF k > Len(es) THEN m ELSE OnEvents(OnEvent(m, es[k]), es, k + 1)

\* the closed flags are reported as a flat sequence: id, flag, id, flag ...
FlagOf(cl, d) == LET k == {i \in 1..(Len(cl) \div 2) : cl[2 * i - 1] = d}
                 IN IF k = {} THEN -1 ELSE cl[2 * (CHOOSE i \in k : TRUE)]

\* the calls of the program that matter to the contract, before they take effect
Before(m, a) ==
  CASE a[1] = "sub" -> [m EXCEPT !.known = @ \cup {a[2]}]
    [] a[1] = "td" /\ FlagOf(m.cl, a[2]) \in {0, 1} -> [m EXCEPT !.att = (a[3] :> a[2]) @@ @]
    [] OTHER -> m

\* what must hold when the program is not inside any call; which of it: cfg.contract
After(cfg, m, a, o) ==
  LET probes == "cl" \in DOMAIN o
      drains(d) == \E i \in 1..Len(cfg.drain) : cfg.drain[i] = d
      quiet == a[1] = "tick" /\ m.known \subseteq m.closed
      \* reported closed by now, or given up
      now == IF probes THEN {d \in m.known : FlagOf(o.cl, d) # 0} ELSE m.known
      b1 == {"attached teardown did not run" : i \in {i \in DOMAIN m.att : m.att[i] \in m.closed /\ Cnt(m.off, i) = 0}}
      b2 == {"teardown ran while open" : i \in {i \in DOMAIN m.att : m.att[i] \notin m.closed \cup m.reported \cup now /\ Cnt(m.off, i) # 0}}
      b3 == {"source still subscribed behind a closed consumer" :
               i \in {i \in DOMAIN m.on : (i \div 100) \in m.closed /\ (~drains(i \div 100) \/ (quiet /\ probes /\ "se" \in DOMAIN o /\ o.se = 1)) /\ m.on[i] # Cnt(m.off, i)}}
      b4 == IF a[1] \in {"unsub", "drop"} /\ a[2] \in m.known /\ a[2] \notin m.closed /\ ~drains(a[2])
            THEN {"unsubscribing did not close"} ELSE {}
      b5 == IF ~probes THEN {} ELSE
            {"closed subscription reports open" : d \in {d \in m.closed : FlagOf(o.cl, d) = 0}}
            \cup {"reopened" : d \in {d \in m.reported : FlagOf(o.cl, d) = 0}}
      b6 == IF probes /\ quiet /\ (Len(cfg.drain) = 0 \/ a[2] = 3) /\ "se" \in DOMAIN o /\ o.se = 0 THEN {"work left in the scheduler"} ELSE {}
      rep == IF probes THEN {d \in m.known : FlagOf(o.cl, d) = 1} ELSE {}
  IN [m EXCEPT !.bad = @ \cup b1 \cup b2 \cup b3 \cup b4 \cup b5 \cup b6, !.reported = @ \cup rep,
                !.cl = IF probes THEN o.cl ELSE @]

Observe(cfg, m, a, o) == After(cfg, OnEvents(Before(m, a), o.ev, 1), a, o)
=============================================================================
