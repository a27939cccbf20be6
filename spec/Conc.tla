-------------------------------- MODULE Conc --------------------------------
(* Several threads use one subject (or one shared subscriber) at once.       *)
(*                                                                           *)
(* Whoever gets the lock of the subscribers delivers; everybody else leaves  *)
(* the notification in a queue for the lock holder. One step of a thread is  *)
(* one critical section of the implementation, so all that can happen between *)
(* two of them is explored. The programs of the threads are read from a      *)
(* file; every outcome that can be reached is printed, and those observed in *)
(* the real code have to be among them.                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, SequencesExt

Programs == ndJsonDeserialize(IOEnv.PROGRAMS)

\* Recheck: after giving up the lock it is checked whether more was left in the queue meanwhile
\* AtomicEnd: the end is observed only by the first who ends it
\* Second: who subscribes checks for the end again after it was added
CONSTANTS Recheck, AtomicEnd, Second

VARIABLES pr,      \* which program
          pc, ip,  \* what each thread does
          ph,      \* the phase of a subscribe
          ret,     \* where a thread goes once the queue is drained
          bat,     \* what the thread has taken from the queue
          lock,    \* who holds the subscribers, 0 if nobody
          q,       \* notifications left for the holder
          cf,      \* closed for good
          ob,      \* the end that has been observed: completed, errored, unsubscribed
          subs,    \* the subscribers attached
          st, log, \* of each subscriber
          tds      \* what is to be run once the (only) subscriber of a shared one is closed
vars == <<pr, pc, ip, ph, ret, bat, lock, q, cf, ob, subs, st, log, tds>>

P == Programs[pr]
T == 1..Len(P.thr)
Op(t) == P.thr[t][ip[t]]
K == 1..P.n
Closed == cf \/ ob.c \/ ob.e # 0 \/ ob.u

Init == /\ pr \in 1..Len(Programs)
        /\ pc = [t \in T |-> "start"] /\ ip = [t \in T |-> 1] /\ ph = [t \in T |-> 0]
        /\ ret = [t \in T |-> "own"] /\ bat = [t \in T |-> <<>>]
        /\ lock = 0 /\ q = <<>> /\ cf = FALSE /\ ob = [c |-> FALSE, e |-> 0, u |-> FALSE]
        /\ subs = 1..P.pre
        /\ st = [k \in K |-> IF k <= P.pre THEN "open" ELSE "new"]
        /\ log = [k \in K |-> <<>>] /\ tds = <<>>

(* ---- what is delivered ---- *)
\* S: [q, cf, subs, st, log]
Put(S, k, ev) == [S EXCEPT !.log[k] = Append(@, ev)]
Shut(S, k) == [S EXCEPT !.st[k] = "closed", !.log[k] = Append(@, <<"u">>) \o S.tds, !.tds = <<>>]
Open(S) == {k \in S.subs : S.st[k] = "open"}

\* a subscriber that reacts to a value by sending another one; the lock is held, so it is left in the queue
Reacts(S, ks, v) ==
  LET w == {r \in Range(P.react) : r[1] \in ks /\ r[2] = v}
  IN IF w = {} \/ S.cf \/ ob.c \/ ob.e # 0 \/ ob.u THEN S
     ELSE [S EXCEPT !.q = Append(@, <<"next", (CHOOSE r \in w : TRUE)[3]>>)]

ForAll(S, ks, F(_, _)) == FoldLeft(F, S, SetToSeq(ks))

Deliver(S, n) ==
  CASE n[1] = "next" -> LET ks == Open(S) IN Reacts(ForAll(S, ks, LAMBDA a, k: Put(a, k, n)), ks, n[2])
    [] n[1] = "comp" -> ForAll(S, Open(S), LAMBDA a, k: Shut(Put(a, k, <<"comp">>), k))
    [] n[1] = "err" -> ForAll(S, Open(S), LAMBDA a, k: Shut(Put(a, k, n), k))
    [] n[1] = "all" -> [ForAll(S, Open(S), LAMBDA a, k: Shut(a, k)) EXCEPT !.subs = {}]
    [] n[1] = "unsub" -> LET a == IF n[2] \in Open(S) THEN Shut(S, n[2]) ELSE S
                         IN [a EXCEPT !.subs = @ \ {n[2]}]
    [] n[1] = "add" -> [S EXCEPT !.subs = @ \cup {n[2]}]

Now == [q |-> q, cf |-> cf, subs |-> subs, st |-> st, log |-> log, tds |-> tds]
Become(S) == q' = S.q /\ cf' = S.cf /\ subs' = S.subs /\ st' = S.st /\ log' = S.log /\ tds' = S.tds

\* a subscriber is told how the subject has ended
Told(S, k) == IF S.st[k] = "closed" \/ ~Closed THEN S
              ELSE IF ob.e # 0 THEN Shut(Put(S, k, <<"err", ob.e>>), k)
              ELSE IF ob.c THEN Shut(Put(S, k, <<"comp">>), k) ELSE Shut(S, k)

\* what was left in the queue is applied
Left(S, n) ==
  IF n[1] = "add" /\ S.st[n[2]] # "open" THEN S
  ELSE IF n[1] = "add" /\ S.cf THEN Told(S, n[2])
  ELSE LET a == IF S.cf THEN S ELSE Deliver(S, n)
           b == IF n[1] \in {"comp", "err"} THEN Deliver(a, <<"all">>) ELSE a
       IN IF n[1] \in {"comp", "err", "all"} THEN [b EXCEPT !.cf = TRUE] ELSE b

\* what a thread does itself while it holds the lock
Own(S, o) == CASE o[1] = "all" -> [Deliver(S, o) EXCEPT !.cf = TRUE]
               [] o[1] = "sub" -> Deliver(S, <<"add", o[2]>>)
               [] OTHER -> Deliver(S, o)

\* what could not be done is left in the queue
Leave(S, o) ==
  LET n == IF o[1] = "sub" THEN <<"add", o[2]>> ELSE o
  IN IF S.cf THEN (IF o[1] = "sub" /\ ~Second /\ S.st[o[2]] = "open" THEN Shut(S, o[2]) ELSE S)
     ELSE [S EXCEPT !.q = Append(@, n)]

(* ---- the steps of a thread ---- *)
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Done(t) == pc' = [pc EXCEPT ![t] = "start"] /\ ip' = [ip EXCEPT ![t] = @ + 1] /\ ph' = [ph EXCEPT ![t] = 0]
Data == <<q, cf, subs, st, log, tds>>
Own3 == <<ph, ret, bat>>

Start(t) ==
  /\ pc[t] = "start" /\ ip[t] <= Len(P.thr[t])
  /\ LET o == Op(t)
     IN CASE o[1] = "next" -> /\ Go(t, IF Closed THEN "app" ELSE "try")
                              /\ UNCHANGED <<pr, ip, Own3, lock, Data, ob>>
          [] o[1] \in {"comp", "err"} ->
               IF ~Closed /\ ~AtomicEnd THEN Go(t, "mark") /\ UNCHANGED <<pr, ip, Own3, lock, Data, ob>>
               ELSE IF ~Closed
               THEN /\ ob' = IF o[1] = "comp" THEN [ob EXCEPT !.c = TRUE] ELSE [ob EXCEPT !.e = o[2]]
                    /\ Go(t, "try") /\ UNCHANGED <<pr, ip, Own3, lock, Data>>
               ELSE Go(t, "app") /\ UNCHANGED <<pr, ip, Own3, lock, Data, ob>>
          [] o[1] = "all" -> /\ Go(t, IF ob.u THEN "app" ELSE "try") /\ ob' = [ob EXCEPT !.u = TRUE]
                             /\ UNCHANGED <<pr, ip, Own3, lock, Data>>
          [] o[1] = "sub" -> /\ Go(t, "app") /\ ph' = [ph EXCEPT ![t] = 1]
                             /\ UNCHANGED <<pr, ip, ret, bat, lock, Data, ob>>
          [] o[1] = "td" -> \* waits for the lock
                 /\ lock = 0 /\ Done(t)
                 /\ IF st[1] = "closed" THEN log' = [log EXCEPT ![1] = Append(@, o)] /\ UNCHANGED tds
                                        ELSE tds' = Append(tds, o) /\ UNCHANGED log
                 /\ UNCHANGED <<pr, ret, bat, lock, q, cf, subs, st, ob>>
          [] o[1] = "unsub" -> /\ Go(t, "try") /\ UNCHANGED <<pr, ip, Own3, lock, Data, ob>>
Mark(t) ==
  /\ pc[t] = "mark" /\ Go(t, "try")
  /\ ob' = IF Op(t)[1] = "comp" THEN [ob EXCEPT !.c = TRUE] ELSE [ob EXCEPT !.e = Op(t)[2]]
  /\ UNCHANGED <<pr, ip, Own3, lock, Data>>
Try(t) ==
  /\ pc[t] = "try"
  /\ IF lock = 0 THEN /\ lock' = t /\ ret' = [ret EXCEPT ![t] = "own"] /\ Go(t, "drain")
                 ELSE /\ Go(t, "defer") /\ UNCHANGED <<lock, ret>>
  /\ UNCHANGED <<pr, ip, ph, bat, Data, ob>>
Drain(t) ==
  /\ pc[t] = "drain"
  /\ IF q = <<>> THEN Go(t, ret[t]) /\ UNCHANGED <<bat, q>>
                 ELSE Go(t, "batch") /\ bat' = [bat EXCEPT ![t] = q] /\ q' = <<>>
  /\ UNCHANGED <<pr, ip, ph, ret, lock, cf, subs, st, log, tds, ob>>
Batch(t) ==
  /\ pc[t] = "batch"
  /\ IF bat[t] = <<>> THEN Go(t, "drain") /\ UNCHANGED <<bat, Data>>
     ELSE /\ Become(Left(Now, Head(bat[t]))) /\ bat' = [bat EXCEPT ![t] = Tail(@)] /\ UNCHANGED pc
  /\ UNCHANGED <<pr, ip, ph, ret, lock, ob>>
DoOwn(t) ==
  /\ pc[t] = "own"
  /\ Become(Own(Now, Op(t)))
  /\ IF Op(t)[1] = "unsub" THEN ret' = [ret EXCEPT ![t] = "rel"] /\ Go(t, "drain")
                           ELSE Go(t, "rel") /\ UNCHANGED ret
  /\ UNCHANGED <<pr, ip, ph, bat, lock, ob>>
Rel(t) ==
  /\ pc[t] = "rel" /\ lock' = 0
  /\ Go(t, IF Recheck THEN "app" ELSE IF ret[t] = "own" THEN "app" ELSE "end")
  /\ UNCHANGED <<pr, ip, Own3, Data, ob>>
Defer(t) ==
  /\ pc[t] = "defer" /\ Become(Leave(Now, Op(t)))
  /\ Go(t, IF Op(t)[1] = "unsub" /\ ~Recheck THEN "end" ELSE "app")
  /\ UNCHANGED <<pr, ip, Own3, lock, ob>>
App(t) ==
  /\ pc[t] = "app" /\ Go(t, IF q = <<>> THEN "end" ELSE "apptry")
  /\ UNCHANGED <<pr, ip, Own3, lock, Data, ob>>
AppTry(t) ==
  /\ pc[t] = "apptry"
  /\ IF lock = 0 THEN lock' = t /\ ret' = [ret EXCEPT ![t] = "rel"] /\ Go(t, "drain")
                 ELSE Go(t, "end") /\ UNCHANGED <<lock, ret>>
  /\ UNCHANGED <<pr, ip, ph, bat, Data, ob>>
End(t) ==
  /\ pc[t] = "end"
  /\ CASE ph[t] = 1 -> Go(t, "look") /\ UNCHANGED <<ip, ph>>
       [] ph[t] = 2 /\ Second -> Go(t, "again") /\ UNCHANGED <<ip, ph>>
       [] OTHER -> Done(t)
  /\ UNCHANGED <<pr, ret, bat, lock, Data, ob>>
Look(t) ==
  /\ pc[t] = "look" /\ Become(Told([Now EXCEPT !.st[Op(t)[2]] = "open"], Op(t)[2]))
  /\ IF Closed THEN Done(t) ELSE Go(t, "try") /\ ph' = [ph EXCEPT ![t] = 2] /\ UNCHANGED ip
  /\ UNCHANGED <<pr, ret, bat, lock, ob>>
Again(t) ==
  /\ pc[t] = "again" /\ Become(Told(Now, Op(t)[2]))
  /\ Done(t) /\ UNCHANGED <<pr, ret, bat, lock, ob>>

Step(t) == \/ Start(t) \/ Mark(t) \/ Try(t) \/ Drain(t) \/ Batch(t) \/ DoOwn(t) \/ Rel(t) \/ Defer(t)
           \/ App(t) \/ AppTry(t) \/ End(t) \/ Look(t) \/ Again(t)
Next == \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars

(* ---- what has to hold ---- *)
Over == \A t \in T : pc[t] = "start" /\ ip[t] > Len(P.thr[t])
Outcome == [st |-> [k \in K |-> st[k]], log |-> [k \in K |-> log[k]]]
Report == Over => PrintT(<<"OUT", P.id, ToJson(Outcome)>>)

Values(s) == SelectSeq(s, LAMBDA e: e[1] = "next")
Sent(t) == SelectSeq(P.thr[t], LAMBDA o: o[1] = "next")
Ends == {"comp", "err", "all"}
NoEnd == \A t \in T : \A j \in 1..Len(P.thr[t]) : P.thr[t][j][1] \notin Ends
Kept(k) == k <= P.pre /\ \A t \in T : \A j \in 1..Len(P.thr[t]) : P.thr[t][j] # <<"unsub", k>>
Sub(a, b) == SelectSeq(a, LAMBDA e: e \in Range(b))

\* one at a time, whatever the threads do
Held == \A t \in T : pc[t] \in {"drain", "batch", "own", "rel"} => lock = t
\* nothing stays undelivered
NothingLeft == Over => q = <<>> /\ lock = 0
\* every value arrives exactly once at those who were there all along
Complete == Over /\ NoEnd => \A k \in K : Kept(k) =>
              /\ Len(Values(log[k])) = Cardinality(Range(Values(log[k])))
              /\ \A t \in T : Range(Sent(t)) \subseteq Range(log[k])
\* no value arrives twice
Once == \A k \in K : Len(Values(log[k])) = Cardinality(Range(Values(log[k])))
\* the values of a thread in the order of the thread
InOrder == \A k \in K, t \in T : LET s == Sub(Values(log[k]), Sent(t))
                                 IN s = Sub(Sent(t), s)
\* all agree on one order
Agree == \A a, b \in K : LET x == Values(log[a]) y == Values(log[b]) IN Sub(x, y) = Sub(y, x)
\* at most one end, and nothing after it
Final == \A k \in K : \A j \in 1..Len(log[k]) :
           log[k][j][1] \in {"comp", "err", "u"} => \A i \in (j + 1)..Len(log[k]) : log[k][i][1] \in {"u", "td"} /\ (log[k][i][1] = "u" => log[k][j][1] # "u")
\* all are told the same end
SameEnd == \A a, b \in K : \A x \in Range(log[a]), y \in Range(log[b]) :
             x[1] \in {"comp", "err"} /\ y[1] \in {"comp", "err"} => x = y
\* nobody is left behind by the end of the subject
NobodyLeft == Over /\ Closed => \A k \in K : st[k] # "open"
\* what was added runs once, when it closes or right away if it has
Torn == Over => \A t \in T : \A j \in 1..Len(P.thr[t]) : LET o == P.thr[t][j] IN
          o[1] = "td" => Len(SelectSeq(log[1], LAMBDA e: e = o)) = (IF st[1] = "closed" THEN 1 ELSE 0)
=============================================================================
