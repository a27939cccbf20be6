-------------------------------- MODULE Bevy --------------------------------
(***************************************************************************)
(* An executable specification of the Bevy integration: subscriptions,     *)
(* observables and subjects living on entities, observables of events,     *)
(* messages, resources and keyboard input, and scheduled work executed by  *)
(* the executors of four schedules, one frame of the app after another.    *)
(*                                                                          *)
(*   en  entities of the environment: alive, observable on them, signals   *)
(*   su  subscription entities: waiting for their observable, running,...  *)
(*   co  cores: one per chain of subscribers that opens and closes as one  *)
(*   sj  subjects      sa  satellites observing events of an entity        *)
(*   ex  executors: time, active works, queued actions, invokable works    *)
(*   rt  subscribes waiting for a retry                                     *)
(*   wq  commands issued by works, applied when the executor has finished  *)
(*   log what was observed during the current act                          *)
(* An act is one transition; a frame is an act as well.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Put(st, e) == [st EXCEPT !.log = Append(@, e)]
B(x) == IF x THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Infinite == 1000000000
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

Alive(st, e) == e \in DOMAIN st.en /\ st.en[e].al
HasObs(st, e) == Alive(st, e) /\ st.en[e].comp # <<>>

(***************************************************************************)
(* Scheduling                                                               *)
(***************************************************************************)
Q(st, k, a) == [st EXCEPT !.ex[k].q = Append(@, a)]
Work0 == [id |-> 0, cid |-> 0, kind |-> "imm", body |-> <<>>, due |-> 0, ivl |-> 0, max |-> 0, n |-> 0, was |-> FALSE]
Schedule(st, k, w) ==
  Q([st EXCEPT !.uid = @ + 1], k, <<"act", [w EXCEPT !.id = st.uid]>>)
Imm(st, k, cid, body) == Schedule(st, k, [Work0 EXCEPT !.cid = cid, !.body = body])
Fresh(st) == st.uid
Took(st) == [st EXCEPT !.uid = @ + 1]

(***************************************************************************)
(* Cores                                                                    *)
(***************************************************************************)
NewCore(st, D) == [st EXCEPT !.co = Append(@, [open |-> TRUE, sink |-> D, left |-> Infinite, n |-> 0, tds |-> <<>>])]
Open(st, c) == st.co[c].open

RunTd(st, t) ==
  CASE t[1] = "log" -> Put(st, <<5, t[2]>>)
    [] t[1] = "imm" -> Imm(st, t[2], 0, t[3])
    [] t[1] = "inv" -> Q(st, t[2], <<"inv", t[3]>>)
    [] t[1] = "can" -> Q(st, t[2], <<"can", t[3]>>)

RECURSIVE RunTds(_, _)
RunTds(st, ts) == IF ts = <<>> THEN st ELSE RunTds(RunTd(st, Head(ts)), Tail(ts))

AddTd(st, c, t) == IF Open(st, c) THEN [st EXCEPT !.co[c].tds = Append(@, t)] ELSE RunTd(st, t)

Close(st, c) ==
  IF ~Open(st, c) THEN st
  ELSE LET s1 == [st EXCEPT !.co[c].open = FALSE, !.co[c].tds = <<>>]
           s2 == IF st.co[c].sink[1] = "d" THEN Put(s1, <<4, st.co[c].sink[2]>>) ELSE s1
       IN RunTds(s2, st.co[c].tds)

\* x is a notification: <<1, v>> next, <<2, v>> error, <<3, <<>> >> complete
Sink(st, D, x) ==
  CASE D[1] = "d" -> Put(st, <<x[1], D[2]>> \o x[2])
    [] D[1] = "e" -> Imm(st, D[3], 0, <<"sig", D[2], x>>)
    [] D[1] = "r" -> Imm(st, D[3], 0, <<"write", D[2], D[4], x>>)

Done3 == <<3, <<>> >>
Deliver(st, c, x) ==
  IF ~Open(st, c) THEN st
  ELSE LET s1 == Sink(st, st.co[c].sink, x) IN
       IF x[1] # 1 THEN Close(s1, c)
       ELSE LET s2 == [s1 EXCEPT !.co[c].left = @ - 1, !.co[c].n = @ + 1]
                D == s2.co[c].sink IN
            IF s2.co[c].left = 0 THEN Close(Sink(s2, D, Done3), c)
            ELSE IF D[1] = "d" /\ Len(D) = 4 /\ s2.co[c].n = D[3] /\ D[4] \in DOMAIN s2.hd
            THEN Close(s2, c)         \* its observer unsubscribes itself
            ELSE s2

RECURSIVE DeliverAll(_, _, _), DeliverEach(_, _, _)
\* several notifications to one core
DeliverAll(st, c, xs) == IF xs = <<>> THEN st ELSE DeliverAll(Deliver(st, c, Head(xs)), c, Tail(xs))
\* one notification to several cores
DeliverEach(st, cs, x) == IF cs = <<>> THEN st ELSE DeliverEach(Deliver(st, Head(cs), x), Tail(cs), x)
RECURSIVE CloseEach(_, _)
CloseEach(st, cs) == IF cs = <<>> THEN st ELSE CloseEach(Close(st, Head(cs)), Tail(cs))

(***************************************************************************)
(* Subjects                                                                 *)
(***************************************************************************)
SubjPush(st, i, x) ==
  IF st.sj[i].st # 0 THEN st
  ELSE IF x[1] = 1 THEN DeliverEach(st, st.sj[i].subs, x)
  ELSE DeliverEach([st EXCEPT !.sj[i] = [st |-> x[1], err |-> x[2], subs |-> <<>>]], st.sj[i].subs, x)

\* removing the component of a subject closes it
SubjClose(st, i) ==
  IF st.sj[i].st # 0 THEN st
  ELSE CloseEach([st EXCEPT !.sj[i] = [st |-> 4, err |-> <<>>, subs |-> <<>>]], st.sj[i].subs)

(***************************************************************************)
(* Subscribing a core to an observable                                      *)
(***************************************************************************)
\* a work that keeps polling something, until the core is closed
Poll(st, c, k, body) ==
  LET cid == Fresh(st)
      s1 == Schedule(Took(st), k, [Work0 EXCEPT !.cid = cid, !.kind = "con", !.body = body])
  IN AddTd(s1, c, <<"can", k, cid>>)

RECURSIVE SubO(_, _, _)
SubO(st, O, c) ==
  CASE O[1] = "subj" ->
         LET s == st.sj[O[2] + 1] IN
         (CASE s.st = 0 -> IF Open(st, c) THEN [st EXCEPT !.sj[O[2] + 1].subs = Append(@, c)] ELSE st
            [] s.st = 4 -> Close(st, c)
            [] OTHER -> Deliver(st, c, <<s.st, s.err>>))
    [] O[1] = "S" -> SubO(st, <<"subj", O[2]>>, c)
    [] O[1] = "it" -> DeliverAll(st, c, [i \in 1..O[2] |-> <<1, <<i>> >>] \o <<Done3>>)
    [] O[1] = "just" -> DeliverAll(st, c, <<<<1, O[2]>>, Done3>>)
    [] O[1] = "throw" -> Deliver(st, c, <<2, O[2]>>)
    [] O[1] = "never" -> st
    [] O[1] = "empty" -> Deliver(st, c, Done3)
    [] O[1] = "take" -> SubO([st EXCEPT !.co[c].left = Min2(@, O[2])], O[3], c)
    [] O[1] = "msg" -> Poll(st, c, O[2], <<"msg", c>>)
    [] O[1] = "res" -> Poll(st, c, O[4], <<"res", c, O[2], O[3]>>)
    [] O[1] = "key" -> Poll(st, c, O[3], <<"key", c, O[2]>>)
    [] O[1] = "timer" ->
         LET cid == Fresh(st)
             s1 == Schedule(Took(st), O[3], [Work0 EXCEPT !.cid = cid, !.kind = "del", !.body = <<"timer", c>>,
                                                       !.due = st.ex[O[3]].now + O[2]])
         IN AddTd(s1, c, <<"can", O[3], cid>>)
    [] O[1] = "intv" ->
         LET s0 == IF O[4] = 1 THEN Deliver(st, c, <<1, <<0>> >>) ELSE st
             cid == Fresh(s0)
             s1 == Schedule(Took(s0), O[5], [Work0 EXCEPT !.cid = cid, !.kind = "rep", !.body = <<"intv", c>>,
                               !.due = st.ex[O[5]].now, !.ivl = O[2], !.max = O[3], !.n = O[4]])
         IN AddTd(s1, c, <<"can", O[5], cid>>)
    [] O[1] = "ev" ->
         LET cid == Fresh(st)
             s1 == Imm([st EXCEPT !.uid = @ + 2], O[3], cid, <<"observe", O[2], c, cid + 1>>)
         IN AddTd(AddTd(s1, c, <<"inv", O[3], cid + 1>>), c, <<"can", O[3], cid>>)
    [] O[1] = "px" ->
         LET cid == Fresh(st)
             s1 == Imm([st EXCEPT !.uid = @ + 2], O[3], cid, <<"proxy", O[2], c, cid + 1, O[3]>>)
         IN AddTd(AddTd(s1, c, <<"inv", O[3], cid + 1>>), c, <<"can", O[3], cid>>)

(***************************************************************************)
(* Subscription entities                                                    *)
(***************************************************************************)
NewSub(st, sid, waiting) ==
  [st EXCEPT !.su = Append(@, [sid |-> sid, al |-> TRUE, unf |-> waiting, comp |-> 0, of |-> 0])]
SubIx(st, sid) == LET js == {j \in 1..Len(st.su) : st.su[j].sid = sid}
                  IN IF js = {} THEN 0 ELSE CHOOSE j \in js : TRUE
KillSub(st, j) ==
  IF j = 0 \/ ~st.su[j].al THEN st
  ELSE LET c == st.su[j].comp
           s1 == [st EXCEPT !.su[j] = [@ EXCEPT !.al = FALSE, !.unf = FALSE, !.comp = 0, !.of = 0]]
       IN IF c # 0 THEN Close(s1, c) ELSE s1

\* the subscribe command: subscribes, or waits for the next frame while there is nothing to subscribe to
SubCmd(st, r) ==
  IF ~st.su[r.su].al THEN Close(st, r.core)
  ELSE IF HasObs(st, r.tgt)
  THEN LET s1 == SubO([st EXCEPT !.su[r.su].unf = FALSE], st.en[r.tgt].comp, r.core) IN
       IF Open(s1, r.core)
       THEN AddTd([s1 EXCEPT !.su[r.su].comp = r.core, !.su[r.su].of = r.tgt], r.core, <<"imm", 2, <<"dsub", r.su>> >>)
       ELSE KillSub(s1, r.su)
  ELSE IF r.left > 0 THEN [st EXCEPT !.rt = Append(@, [r EXCEPT !.left = @ - 1])]
  ELSE Close(st, r.core)

MaxRetries == 3
SubCmd0(st, j, tgt, c) == SubCmd(st, [su |-> j, tgt |-> tgt, core |-> c, left |-> MaxRetries])

RECURSIVE SubCmds(_, _)
SubCmds(st, rs) == IF rs = <<>> THEN st ELSE SubCmds(SubCmd(st, Head(rs)), Tail(rs))
Retry(st) == SubCmds([st EXCEPT !.rt = <<>>], st.rt)

(***************************************************************************)
(* Satellites observing the events of an entity                             *)
(***************************************************************************)
KillSat(st, j) ==
  IF ~st.sa[j].al THEN st
  ELSE LET s1 == [st EXCEPT !.sa[j].al = FALSE, !.sa[j].on = FALSE]
       IN IF st.sa[j].on THEN Deliver(s1, st.sa[j].core, Done3) ELSE s1
RECURSIVE KillSats(_, _)
KillSats(st, js) == IF js = <<>> THEN st ELSE KillSats(KillSat(st, Head(js)), Tail(js))
SatsOn(st, e) == SelectSeq([j \in 1..Len(st.sa) |-> j], LAMBDA j : st.sa[j].on /\ st.sa[j].ent = e)

StartObserving(st, j) ==
  IF ~Alive(st, st.sa[j].ent) THEN Deliver(st, st.sa[j].core, Done3)
  ELSE IF ~st.sa[j].al THEN st ELSE [st EXCEPT !.sa[j].on = TRUE]

(***************************************************************************)
(* Entities                                                                 *)
(***************************************************************************)
Unlist(st, e) == [st EXCEPT !.su = [j \in 1..Len(st.su) |-> IF st.su[j].of = e THEN [st.su[j] EXCEPT !.of = 0] ELSE st.su[j]]]
RmComp(st, e) ==
  IF ~HasObs(st, e) THEN st
  ELSE LET O == st.en[e].comp
           s1 == [st EXCEPT !.en[e].comp = <<>>]
       IN IF O[1] = "S" THEN SubjClose(s1, O[2] + 1) ELSE s1
Kill(st, e) ==
  IF ~Alive(st, e) THEN st
  ELSE LET s1 == RmComp(st, e) IN KillSats(Unlist([s1 EXCEPT !.en[e].al = FALSE], e), SatsOn(s1, e))

(***************************************************************************)
(* Executors                                                                *)
(***************************************************************************)
RECURSIVE Drain(_, _)
Drain(st, k) ==
  IF st.ex[k].q = <<>> THEN st
  ELSE LET a == Head(st.ex[k].q)
           s0 == [st EXCEPT !.ex[k].q = Tail(@)]
       IN Drain(CASE a[1] = "act" -> [s0 EXCEPT !.ex[k].act = Append(@, a[2])]
                  [] a[1] = "add" -> [s0 EXCEPT !.ex[k].inv = @ \cup {<<a[2], a[3]>>}]
                  [] a[1] = "inv" -> [s0 EXCEPT !.ex[k].invd = Append(@, a[2])]
                  [] a[1] = "can" -> [s0 EXCEPT !.ex[k].act = SelectSeq(@, LAMBDA w : w.cid # a[2])], k)

Cmd(st, c) == [st EXCEPT !.wq = Append(@, c)]

Body(st, k, b) ==
  CASE b[1] = "log" -> Put(st, <<10, b[2], st.ex[k].now>>)
    [] b[1] = "sig" -> IF Alive(st, b[2]) THEN Cmd(st, b) ELSE st
    [] b[1] = "write" ->
         IF ~st.rs.is THEN st
         ELSE LET s1 == Put(st, <<30 + b[4][1], b[2]>> \o b[4][2]) IN
              IF b[3] = 1 /\ b[4][1] = 1 THEN [s1 EXCEPT !.rs.v = b[4][2], !.rs.ver = @ + 1]
              ELSE s1
    [] b[1] = "dsub" -> Cmd(st, b)
    [] b[1] = "dsat" -> Cmd(st, b)
    [] b[1] = "timer" -> Deliver(Deliver(st, b[2], <<1, <<0>> >>), b[2], Done3)
    [] b[1] = "observe" ->
         LET j == Len(st.sa) + 1
             s1 == [st EXCEPT !.sa = Append(@, [al |-> TRUE, on |-> FALSE, ent |-> b[2], core |-> b[3]])]
         IN Q(Cmd(s1, <<"sat", j>>), k, <<"add", b[4], <<"dsat", j>> >>)
    [] b[1] = "proxy" ->
         LET s1 == NewSub(st, -1, TRUE)
             j == Len(s1.su)
         IN Q(Cmd(s1, <<"sub", j, b[2], b[3]>>), k, <<"add", b[4], <<"dsub", j>> >>)

KeysOf(st, m) == CASE m = 0 -> st.ky.jp [] m = 1 -> st.ky.p [] OTHER -> st.ky.jr

\* one work gets its turn; what is left of it, or nothing when it is done
RECURSIVE Emit(_, _, _, _)
Emit(st, c, from, times) ==
  IF times = 0 \/ ~Open(st, c) THEN st ELSE Emit(Deliver(st, c, <<1, <<from>> >>), c, from + 1, times - 1)

TickOne(st, k, w) ==
  LET now == st.ex[k].now
      Go(s) == [st |-> s, keep |-> <<>>]
      Keep(s, v) == [st |-> s, keep |-> <<v>>]
      b == w.body
  IN CASE w.kind = "imm" -> Go(Body(st, k, b))
       [] w.kind = "del" -> IF w.due <= now THEN Go(Body(st, k, b)) ELSE Keep(st, w)
       [] w.kind = "rep" ->
            LET m == IF w.ivl = 0 THEN w.max ELSE (now - w.due) \div w.ivl
                t == Min2(m, w.max)
            IN IF m > 0 /\ ~Open(st, b[2]) THEN Go(st)
               ELSE Keep(Emit(st, b[2], w.n, t), [w EXCEPT !.due = @ + m * w.ivl, !.n = @ + t])
       [] b[1] = "log" -> Keep(Body(st, k, b), w)
       [] b[1] = "msg" ->
            IF ~Open(st, b[2]) THEN Go(st)
            ELSE LET ms == SelectSeq(st.ms.old \o st.ms.new, LAMBDA m : m[1] > w.n)
                 IN Keep(DeliverAll(st, b[2], [i \in 1..Len(ms) |-> <<1, ms[i][2]>>]), [w EXCEPT !.n = st.ms.n])
       [] b[1] = "res" ->
            LET added == st.rs.is /\ ~w.was
                changed == st.rs.is /\ w.was /\ st.rs.ver > w.n
                s1 == IF (added /\ b[3] = 1) \/ (changed /\ b[4] = 1) THEN Deliver(st, b[2], <<1, st.rs.v>>) ELSE st
            IN Keep(s1, [w EXCEPT !.was = st.rs.is, !.n = st.rs.ver])
       [] b[1] = "key" -> LET ks == Sorted(KeysOf(st, b[3]))
                          IN Keep(DeliverAll(st, b[2], [i \in 1..Len(ks) |-> <<1, <<ks[i]>> >>]), w)

RECURSIVE TickWorks(_, _, _, _)
\* works that were active when the pass started; each gets at most one turn per run
TickWorks(st, k, ws, done) ==
  IF ws = <<>> THEN [st |-> st, kept |-> done]
  ELSE LET r == IF Head(ws).id \in st.ticked THEN [st |-> st, keep |-> <<Head(ws)>>] ELSE TickOne(st, k, Head(ws))
       IN TickWorks(r.st, k, Tail(ws), done \o r.keep)

RECURSIVE Invoke(_, _, _)
Invoke(st, k, ids) ==
  IF ids = <<>> THEN st
  ELSE LET bs == {p \in st.ex[k].inv : p[1] = Head(ids)}
           b == CHOOSE p \in bs : TRUE
       IN Invoke(IF bs = {} THEN st ELSE Body([st EXCEPT !.ex[k].inv = @ \ bs], k, b[2]), k, Tail(ids))

RECURSIVE ExecLoop(_, _)
ExecLoop(st, k) ==
  LET had == st.ex[k].q # <<>>
      s1 == Drain(st, k)
      ids == {s1.ex[k].act[i].id : i \in 1..Len(s1.ex[k].act)}
      some == ids \ s1.ticked # {}
      r == TickWorks(s1, k, s1.ex[k].act, <<>>)
      s2 == [r.st EXCEPT !.ex[k].act = r.kept, !.ticked = @ \cup ids]
      s3 == Invoke([s2 EXCEPT !.ex[k].invd = <<>>], k, s2.ex[k].invd)
  IN IF some \/ had THEN ExecLoop(s3, k) ELSE s3

(***************************************************************************)
(* Acts, and what the commands of works do                                  *)
(***************************************************************************)
RECURSIVE Do(_, _), ActSeq(_, _), ReactSeq(_, _, _), Cmds(_, _)
Act(st, a) == Do(st, <<"act", a>>)
ActSeq(st, as) == IF as = <<>> THEN st ELSE ActSeq(Act(st, Head(as)), Tail(as))

\* a signal arrives at an entity: it is observed, and pushed into the subject on it, then come the reactions
ReactSeq(st, rs, n) == IF rs = <<>> THEN st ELSE ReactSeq(ActSeq(st, Head(rs)[3]), Tail(rs), n)
Signal(st, e, x) ==
  IF ~Alive(st, e) THEN st
  ELSE LET n == st.en[e].n + 1
           s1 == Put([st EXCEPT !.en[e].n = n], <<20 + x[1], e>> \o x[2])
           O == st.en[e].comp
           s2 == IF O # <<>> /\ O[1] = "S" THEN SubjPush(s1, O[2] + 1, x) ELSE s1
       IN ReactSeq(s2, SelectSeq(st.cfg.react, LAMBDA r : r[1] = e /\ r[2] = n), n)

Cmds(st, cs) ==
  IF cs = <<>> THEN st
  ELSE LET c == Head(cs) IN
       Cmds(CASE c[1] = "sig" -> Signal(st, c[2], c[3])
              [] c[1] = "dsub" -> KillSub(st, c[2])
              [] c[1] = "dsat" -> KillSat(st, c[2])
              [] c[1] = "sat" -> StartObserving(st, c[2])
              [] c[1] = "sub" -> SubCmd0(st, c[2], c[3], c[4]), Tail(cs))

ClockOf(k) == CASE k = 0 -> 0 [] k = 1 -> 1 [] k = 2 -> 0 [] k = 3 -> 2
Exec(st, k) ==
  LET s0 == [st EXCEPT !.ex[k].now = Max2(@, st.ck[ClockOf(k)]), !.ticked = {}]
      s1 == ExecLoop(s0, k)
  IN Cmds([s1 EXCEPT !.wq = <<>>], s1.wq)

RECURSIVE KillSubs(_, _)
KillSubs(st, js) == IF js = <<>> THEN st ELSE KillSubs(KillSub(st, Head(js)), Tail(js))
Waiting(st) == SelectSeq([j \in 1..Len(st.su) |-> j], LAMBDA j : st.su[j].al /\ st.su[j].unf)

\* leaving the app unsubscribes everything that has a subscription component
RECURSIVE EndSubs(_, _), EndSats(_, _)
EndSubs(st, js) == IF js = <<>> THEN st
  ELSE EndSubs(IF st.su[Head(js)].comp # 0 THEN Close(st, st.su[Head(js)].comp) ELSE st, Tail(js))
EndSats(st, js) == IF js = <<>> THEN st
  ELSE EndSats(IF st.sa[Head(js)].on THEN Deliver(st, st.sa[Head(js)].core, Done3) ELSE st, Tail(js))
Leave(st) == LET s1 == Retry(st) IN EndSats(EndSubs(s1, [j \in 1..Len(s1.su) |-> j]), [j \in 1..Len(s1.sa) |-> j])

Frame(st, pre, upd, post) ==
  LET s1 == Retry([st EXCEPT !.ms.old = st.ms.new, !.ms.new = <<>>])
      s2 == Exec(ActSeq(Put(s1, <<12, 3>>), pre), 3)
      s3 == Exec(ActSeq(Put(s2, <<12, 0>>), upd), 0)
      s4 == Exec(ActSeq(Put(s3, <<12, 1>>), post), 1)
      s5 == Exec(Put(s4, <<12, 2>>), 2)
      s6 == IF s5.leave THEN Leave([s5 EXCEPT !.leave = FALSE]) ELSE s5
  IN KillSubs(s6, Waiting(s6))

Csub(st, sid, e, D) ==
  LET s1 == NewCore(NewSub(st, sid, TRUE), D) IN SubCmd0(s1, Len(s1.su), e, Len(s1.co))
\* a destination nobody took
Unused(st, D) == IF D[1] = "d" THEN Put(st, <<4, D[2]>>) ELSE st
Known(f, i) == i \in DOMAIN f

Do(st, x) ==
  LET a == x[2] IN
  CASE a[1] = "nop" -> st
    [] a[1] = "frame" -> Frame(st, a[2], a[3], a[4])
    [] a[1] = "ent" -> [st EXCEPT !.en = (a[2] :> [al |-> TRUE, comp |-> <<>>, n |-> 0]) @@ @]
    [] a[1] = "comp" -> IF Alive(st, a[2]) THEN [st EXCEPT !.en[a[2]].comp = a[3]] ELSE st
    [] a[1] = "rmcomp" -> RmComp(st, a[2])
    [] a[1] = "kill" -> Kill(st, a[2])
    [] a[1] = "csub" -> Csub(st, a[2], a[3], a[4])
    [] a[1] = "qsub" -> IF HasObs(st, a[3]) THEN Csub(st, a[2], a[3], a[4]) ELSE Put(Unused(st, a[4]), <<7, a[2]>>)
    [] a[1] = "esub" ->
         IF ~Alive(st, a[3]) THEN Unused(st, a[4])
         ELSE LET s1 == NewCore(NewSub(st, a[2], TRUE), a[4])
                  iid == Fresh(s1)
                  s2 == Q(Took(s1), a[5], <<"add", iid, <<"dsub", Len(s1.su)>> >>)
                  s3 == AddTd(s2, Len(s1.co), <<"inv", a[5], iid>>)
                  s4 == [s3 EXCEPT !.hd = (a[2] :> [c |-> Len(s1.co), own |-> FALSE]) @@ @]
              IN SubCmd0(s4, Len(s1.su), a[3], Len(s1.co))
    [] a[1] = "wsub" ->
         LET s1 == NewCore(NewSub(st, a[2], FALSE), a[4])
             c == Len(s1.co)
             j == Len(s1.su)
             s2 == SubO(s1, a[3], c)
             s3 == AddTd(s2, c, <<"imm", a[5], <<"dsub", j>> >>)
             iid == Fresh(s3)
             s4 == Q(Took(s3), a[5], <<"add", iid, <<"dsub", j>> >>)
             s5 == AddTd(s4, c, <<"inv", a[5], iid>>)
         IN [s5 EXCEPT !.su[j].comp = c, !.hd = (a[2] :> [c |-> c, own |-> FALSE]) @@ @]
    [] a[1] = "dsub" ->
         LET s1 == NewCore(st, a[4])
             s2 == SubO(s1, a[3], Len(s1.co))
         IN [s2 EXCEPT !.hd = (a[2] :> [c |-> Len(s1.co), own |-> TRUE]) @@ @]
    [] a[1] = "killsub" -> KillSub(st, SubIx(st, a[2]))
    [] a[1] = "rmsub" ->
         LET j == SubIx(st, a[2]) IN
         IF j = 0 THEN st ELSE IF ~st.su[j].al \/ st.su[j].comp = 0 THEN st
         ELSE Close([st EXCEPT !.su[j].comp = 0], st.su[j].comp)
    [] a[1] = "unsub" -> IF Known(st.hd, a[2]) THEN Close(st, st.hd[a[2]].c) ELSE st
    [] a[1] = "drop" ->
         IF ~Known(st.hd, a[2]) THEN st
         ELSE LET h == st.hd[a[2]]
                  s1 == [st EXCEPT !.hd = [i \in DOMAIN @ \ {a[2]} |-> @[i]]]
              IN IF h.own THEN Close(s1, h.c) ELSE s1
    [] a[1] = "td" -> IF Known(st.hd, a[2]) THEN AddTd(st, st.hd[a[2]].c, <<"log", a[3]>>) ELSE st
    [] a[1] = "ctd" ->
         LET j == SubIx(st, a[2]) IN
         IF j = 0 THEN st ELSE IF st.su[j].comp = 0 THEN st ELSE AddTd(st, st.su[j].comp, <<"log", a[3]>>)
    [] a[1] = "next" -> SubjPush(st, a[2] + 1, <<1, a[3]>>)
    [] a[1] = "err" -> SubjPush(st, a[2] + 1, <<2, a[3]>>)
    [] a[1] = "done" -> SubjPush(st, a[2] + 1, Done3)
    [] a[1] = "sig" -> Signal(st, a[2], <<a[3], IF a[3] = 3 THEN <<>> ELSE a[4]>>)
    [] a[1] = "ev" ->
         LET js == SatsOn(st, a[2]) IN DeliverEach(st, [i \in 1..Len(js) |-> st.sa[js[i]].core], <<1, a[3]>>)
    [] a[1] = "msg" -> [st EXCEPT !.ms.new = Append(@, <<st.ms.n + 1, a[2]>>), !.ms.n = @ + 1]
    [] a[1] = "res" -> [st EXCEPT !.rs = [is |-> TRUE, v |-> a[2], ver |-> @.ver + 1]]
    [] a[1] = "resmut" -> IF st.rs.is THEN [st EXCEPT !.rs = [is |-> TRUE, v |-> a[2], ver |-> @.ver + 1]] ELSE st
    [] a[1] = "resrm" -> [st EXCEPT !.rs.is = FALSE]
    [] a[1] = "press" -> IF a[2] \in st.ky.p THEN st
                         ELSE [st EXCEPT !.ky.p = @ \cup {a[2]}, !.ky.jp = @ \cup {a[2]}]
    [] a[1] = "release" -> IF a[2] \notin st.ky.p THEN st
                           ELSE [st EXCEPT !.ky.p = @ \ {a[2]}, !.ky.jr = @ \cup {a[2]}]
    [] a[1] = "keys" -> [st EXCEPT !.ky.jp = {}, !.ky.jr = {}]
    [] a[1] = "adv" -> [st EXCEPT !.ck[a[2]] = @ + a[3]]
    [] a[1] = "work" ->
         LET k == a[5]
             known == Known(st.cn, a[2])
             cid == IF known THEN st.cn[a[2]][2] ELSE Fresh(st)
             s1 == [(IF known THEN st ELSE Took(st)) EXCEPT !.cn = (a[2] :> <<k, cid>>) @@ @]
         IN Schedule(s1, k, [Work0 EXCEPT !.cid = cid, !.kind = a[3], !.body = <<"log", a[2]>>, !.due = st.ex[k].now + a[4]])
    [] a[1] = "cancel" -> IF Known(st.cn, a[2]) THEN Q(st, st.cn[a[2]][1], <<"can", st.cn[a[2]][2]>>) ELSE st
    [] a[1] = "exit" -> [st EXCEPT !.leave = TRUE]

Step(st, a) == Act([st EXCEPT !.log = <<>>], a)

(***************************************************************************)
(* Initial state, and what can be observed of a state                       *)
(***************************************************************************)
Empty == [x \in {} |-> 0]
Executor0 == [now |-> 0, act |-> <<>>, q |-> <<>>, inv |-> {}, invd |-> <<>>]
Init0(cfg) ==
  [cfg |-> cfg, log |-> <<>>, en |-> Empty, su |-> <<>>, co |-> <<>>, sa |-> <<>>, hd |-> Empty, cn |-> Empty,
   sj |-> [i \in 1..cfg.subjects |-> [st |-> 0, err |-> <<>>, subs |-> <<>>]],
   ex |-> [k \in 0..3 |-> Executor0], rt |-> <<>>, wq |-> <<>>, ticked |-> {}, uid |-> 1, leave |-> FALSE,
   ms |-> [old |-> <<>>, new |-> <<>>, n |-> 0],
   rs |-> [is |-> cfg.res # <<>>, v |-> cfg.res, ver |-> 1],
   ky |-> [p |-> {}, jp |-> {}, jr |-> {}], ck |-> [c \in 0..3 |-> 0]]

Pairs(f(_), S) == LET ks == Sorted(S) IN FlattenSeq([i \in 1..Len(ks) |-> <<ks[i], f(ks[i])>>])
AliveOf(st) == LET f(e) == B(st.en[e].al) IN Pairs(f, DOMAIN st.en)
SubState(st, j) == LET s == st.su[j] IN
  IF ~s.al THEN 0 ELSE IF s.unf THEN 1 ELSE IF s.comp = 0 THEN 4 ELSE IF Open(st, s.comp) THEN 2 ELSE 3
SubsOf(st) == LET f(sid) == SubState(st, SubIx(st, sid))
              IN Pairs(f, {st.su[j].sid : j \in 1..Len(st.su)} \ {-1})
ClosedOf(st) == LET f(sid) == B(~Open(st, st.hd[sid].c)) IN Pairs(f, DOMAIN st.hd)
ListedBy(st, e) == LET js == SelectSeq(st.su, LAMBDA s : s.al /\ s.of = e)
                   IN SortSeq([i \in 1..Len(js) |-> js[i].sid], LAMBDA a, b : a < b)
RelOf(st) == LET ks == Sorted(DOMAIN st.en) IN [i \in 1..Len(ks) |-> <<ks[i], ListedBy(st, ks[i])>>]
Entities(st) ==
  LET es == {e \in DOMAIN st.en : st.en[e].al} IN
    2 * Cardinality(es)
  + Cardinality({e \in es : st.en[e].comp # <<>>})
  + Cardinality({e \in es : st.en[e].comp # <<>> /\ st.en[e].comp[1] = "S"})
  + Cardinality({j \in 1..Len(st.su) : st.su[j].al}) + Cardinality({j \in 1..Len(st.sa) : st.sa[j].al})

Observed(st) == [ev |-> st.log, al |-> AliveOf(st), sa |-> SubsOf(st), cl |-> ClosedOf(st), rel |-> RelOf(st), ne |-> Entities(st)]
=============================================================================
