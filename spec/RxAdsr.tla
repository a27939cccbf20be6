------------------------------- MODULE RxAdsr -------------------------------
(* The envelope generator behind the adsr operator: a pure function from    *)
(* (settings, state, trigger, elapsed time) to a signal.  Values are in      *)
(* thousandths, times in milliseconds.                                      *)
EXTENDS Integers, Sequences

AdsrInit == [ph |-> 0, el |-> 0, dt |-> -1, dv |-> -1, lin |-> FALSE, lval |-> 0, lph |-> 0]
AdsrReset(s) == [s EXCEPT !.el = 0, !.dt = -1, !.ph = 0, !.dv = -1]

\* phases: 0 none, 1 attack, 2 decay, 3 sustain, 4 release
\* transitions: 1 start, 2 fire, 4 sustain, 8 release, 16 stop, 32 restart
EnterBit(p) == CASE p = 0 -> 16 [] p = 1 -> 1 [] p = 2 -> 2 [] p = 3 -> 4 [] OTHER -> 8

RECURSIVE TransWalk(_, _, _, _, _)
TransWalk(from, to, p, met, acc) ==
  IF p > 4 THEN acc
  ELSE IF p = 3 /\ to # 3 THEN TransWalk(from, to, p + 1, met \/ from = 3, acc)
  ELSE LET a1 == IF met THEN acc \cup {EnterBit(p)} ELSE acc
           a2 == IF ~met /\ p = to /\ to # 0 THEN a1 \cup {16, 32} ELSE a1
       IN IF p = to THEN a2 ELSE TransWalk(from, to, p + 1, met \/ p = from, a2)
Transition(from, to) == IF from = to THEN {} ELSE TransWalk(from, to, 0, FALSE, IF to = 0 THEN {16} ELSE {})

Sum(S) == (IF 1 \in S THEN 1 ELSE 0) + (IF 2 \in S THEN 2 ELSE 0) + (IF 4 \in S THEN 4 ELSE 0)
          + (IF 8 \in S THEN 8 ELSE 0) + (IF 16 \in S THEN 16 ELSE 0) + (IF 32 \in S THEN 32 ELSE 0)

\* env: [att, dec, rel, sus (thousandths)]
AdsrStep(env, s, on, delta) ==
  LET s1 == IF ~s.lin /\ on THEN AdsrReset(s)
            ELSE IF s.lin /\ ~on THEN [s EXCEPT !.dv = s.lval, !.dt = s.el] ELSE s
      s2 == IF s1.ph # 0 THEN [s1 EXCEPT !.el = @ + delta] ELSE s1
      t == s2.el
      phase == IF s2.dt < 0
               THEN (IF ~on THEN 0 ELSE IF t < env.att THEN 1 ELSE IF t < env.att + env.dec THEN 2 ELSE 3)
               ELSE (IF t < s2.dt + env.rel THEN 4 ELSE 0)
      val == CASE phase = 1 -> (1000 * t) \div env.att
               [] phase = 2 -> (1000 * env.dec - (1000 - env.sus) * (t - env.att)) \div env.dec
               [] phase = 3 -> env.sus
               [] phase = 4 -> (s2.dv * (env.rel - (t - s2.dt))) \div env.rel
               [] OTHER -> 0
      tr == Transition(s2.lph, phase)
      s3 == [s2 EXCEPT !.ph = phase]
      s4 == IF 16 \in tr THEN AdsrReset(s3) ELSE s3
  IN [s |-> [s4 EXCEPT !.lin = on, !.lval = val, !.lph = phase],
      v |-> <<10001, phase, Sum(tr), s4.el, val>>, none |-> phase = 0]
=============================================================================
