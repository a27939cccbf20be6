--------------------------------- MODULE Rx ---------------------------------
(***************************************************************************)
(* An executable specification of rx_core: what every composition of       *)
(* observables, operators, subjects and scheduled work does in response to *)
(* a sequence of calls ("acts") made from outside or from inside of         *)
(* callbacks.                                                               *)
(*                                                                          *)
(* The state `st' holds                                                     *)
(*   nd   subscriber chain nodes: destinations, operators, shared           *)
(*        subscribers, ... each refers to its downstream node `o'           *)
(*   sb   subjects        cn  connectables      ob  named observables       *)
(*   hd   subscription handles    ss  shared subscriptions                  *)
(*   wk   scheduled works, with the scheduler's queues and clock            *)
(*   log  what the environment observed during the current act             *)
(* One act = one transition (Act).  Everything a call triggers happens      *)
(* inside it, through the mutually recursive operators below, except what   *)
(* is deferred: a notification addressed to a subject or shared subscriber  *)
(* that is already delivering one is queued and delivered afterwards.       *)
(***************************************************************************)
EXTENDS RxSync, RxAdsr, TLC

\* The operators that call each other all go through Do: the one point of mutual recursion
RECURSIVE Do(_, _), Closed(_, _), HClosed(_, _), ActSeq(_, _), PushSeq(_, _, _), SbEach(_, _, _), ShDrain(_, _, _),
          SbDrain(_, _, _), IterPush(_, _, _, _, _), CreatePush(_, _, _)

Push(st, n, x) == Do(st, <<"Push", n, x>>)
AddTd(st, n, t) == Do(st, <<"AddTd", n, t>>)
RunTds(st, ts) == Do(st, <<"RunTds", ts>>)
Act(st, a) == Do(st, <<"Act", a>>)
Subscribe(st, O, d) == Do(st, <<"Subscribe", O, d>>)
HUnsub(st, h) == Do(st, <<"HUnsub", h>>)
SbPush(st, k, x) == Do(st, <<"SbPush", k, x>>)
SubPipe(st, src, ops, d) == Do(st, <<"SubPipe", src, ops, d>>)
Exec(st, b, t) == Do(st, <<"Exec", b, t>>)
SsUnsub(st, i) == Do(st, <<"SsUnsub", i>>)
HoShut(st, n) == Do(st, <<"HoShut", n>>)
ShPush(st, n, x) == Do(st, <<"ShPush", n, x>>)
CnDisconnect(st, c) == Do(st, <<"CnDisconnect", c>>)
CnConnect(st, c) == Do(st, <<"CnConnect", c>>)

Put(st, e) == [st EXCEPT !.log = Append(@, e)]
Put0(st, es) == [st EXCEPT !.log = @ \o es]
NewNode(st, r) == [st EXCEPT !.nd = Append(@, r)]
Upd(st, n, r) == [st EXCEPT !.nd[n] = r]
NextN(st) == Len(st.nd) + 1
Ret(st, h) == [st EXCEPT !.ret = h]
NewHandle(st, r) == [st EXCEPT !.hd = Append(@, r), !.ret = Len(st.hd) + 1]

RECURSIVE FlatActs(_, _)
FlatActs(react, js) == IF js = <<>> THEN <<>> ELSE react[Head(js)][4] \o FlatActs(react, Tail(js))

\* the environment's reactions to what it observes
React(st, id, on, n) ==
  IF st.cfg.react = <<>> THEN st ELSE
  LET R == st.cfg.react
      js == SelectSeq([j \in 1..Len(R) |-> j],
              LAMBDA j : /\ R[j][1] = id /\ R[j][2] = on /\ (on # "n" \/ R[j][3] = n) /\ j \notin st.fired)
  IN IF js = <<>> THEN st
     ELSE ActSeq([st EXCEPT !.fired = @ \cup {js[i] : i \in 1..Len(js)}], FlatActs(R, js))

ActSeq(st, as) == IF as = <<>> THEN st ELSE ActSeq(Act(st, Head(as)), Tail(as))

ScQ(st, x) == [st EXCEPT !.sc.q = Append(@, x)]

\* a consumer of connectable c is gone
CnLeave(st, c) ==
  LET e == st.cn[c]
      n == IF e.cnt > 0 THEN e.cnt - 1 ELSE 0
      off == e.ref /\ n = 0 /\ ~e.fin
      s1 == [st EXCEPT !.cn[c] = [e EXCEPT !.cnt = n, !.rz = @ \/ (off /\ e.cing), !.slot = IF off THEN 0 ELSE @]]
  IN IF off /\ e.slot # 0 /\ ~HClosed(s1, e.slot) THEN HUnsub(s1, e.slot) ELSE s1

-----------------------------------------------------------------------------
(* Teardowns: <<"log", code, id>> reports to the environment, <<"n", n>>    *)
(* unsubscribes a node, <<"s", i>> a shared subscription, <<"h", h>> a      *)
(* handle                                                                    *)
RunTd(st, t) ==
  CASE t[1] = "log" -> React(Put(st, <<t[2], t[3]>>), t[3], IF t[2] = 4 THEN "x" ELSE "t", 0)
    [] t[1] = "n" -> Push(st, t[2], <<"u">>)
    [] t[1] = "s" -> SsUnsub(st, t[2])
    [] t[1] = "h" -> HUnsub(st, t[2])
    [] t[1] = "cancel" -> ScQ(st, <<"C", t[2]>>)
    [] t[1] = "rl" -> IF st.nd[t[2]].last = 0 THEN st ELSE SsUnsub(st, st.nd[t[2]].last)
    [] t[1] = "hx" -> HoShut(st, t[2])
    [] t[1] = "rc" -> CnLeave(st, t[2])
    [] OTHER -> st

RunTds0(st, ts) == IF ts = <<>> THEN st ELSE RunTds(RunTd(st, Head(ts)), Tail(ts))

-----------------------------------------------------------------------------
(* Destinations: the observers at the end of a chain *)
IsTerm(x) == x[1] \in {"e", "c"}
DestClose(st, n) ==
  LET d == st.nd[n] IN
  IF d.cl THEN st ELSE RunTds(Upd(st, n, [d EXCEPT !.cl = TRUE, !.tds = <<>>]), d.tds)

DestPush(st, n, x) ==
  LET d == st.nd[n] IN
  IF x[1] \in {"u", "d"} THEN DestClose(st, n)
  ELSE IF d.cl THEN st
  ELSE IF d.sk > 0 THEN      \* a subject used as the observer
    LET s1 == SbPush(st, d.sk, x) IN IF IsTerm(x) THEN DestClose(s1, n) ELSE s1
  ELSE IF x[1] = "n" THEN
    React(Put(Upd(st, n, [d EXCEPT !.cnt = @ + 1]), <<1, d.id>> \o x[2]), d.id, "n", d.cnt + 1)
  ELSE IF x[1] = "e" THEN
    DestClose(React(Put(st, <<2, d.id>> \o x[2]), d.id, "e", d.cnt), n)
  ELSE DestClose(React(Put(st, <<3, d.id>>), d.id, "c", d.cnt), n)

-----------------------------------------------------------------------------
(* Operators that only transform what passes *)
PushSeq(st, n, xs) == IF xs = <<>> THEN st ELSE PushSeq(Push(st, n, Head(xs)), n, Tail(xs))

\* operators that report themselves closed once they sent a terminal, whatever is downstream
OwnFlag == {"take", "elat", "elatd"}
OpPush(st, n, x) ==
  LET d == st.nd[n] IN
  IF x[1] \in {"u", "d"} THEN Push(Upd(st, n, [d EXCEPT !.cl = TRUE]), d.o, x)
  ELSE IF d.cl \/ (x[1] # "n" /\ d.a[1] = "take" /\ Closed(st, d.o)) THEN st
  ELSE LET r == SyncStep(d.a, d.s, x)
           done == \E i \in 1..Len(r.outs) : IsTerm(r.outs[i])
           s1 == Upd(st, n, [d EXCEPT !.s = r.s, !.cl = done])
           s2 == Put0(s1, r.ev)
           s3 == IF d.a[1] = "tapn" /\ x[1] = "n" THEN React(s2, d.a[2], "n", 1)
                 ELSE s2
       IN IF d.a[1] \in {"isempty", "take", "onn"} /\ Len(r.outs) = 2
          THEN LET s4 == Push(s3, d.o, r.outs[1]) IN IF Closed(s4, d.o) THEN s4 ELSE Push(s4, d.o, r.outs[2])
          ELSE IF d.a[1] = "onn" /\ Len(r.outs) = 1 /\ x[1] = "n" /\ Closed(s3, d.o) THEN s3
          ELSE PushSeq(s3, d.o, r.outs)

\* the observer of a tap is one per operator: it is shared by all subscriptions
TapPush(st, n, x) ==
  LET d == st.nd[n]
      s1 == IF x[1] \in {"u", "d"} \/ d.a[2] \in st.tapdone THEN st
            ELSE LET ev == <<7, d.a[2], IF x[1] = "n" THEN 1 ELSE IF x[1] = "e" THEN 2 ELSE 3>>
                           \o (IF x[1] = "c" THEN <<>> ELSE x[2])
                 IN LET s2 == React(Put(st, ev), d.a[2], x[1], 1)
                    IN IF IsTerm(x) THEN [s2 EXCEPT !.tapdone = @ \cup {d.a[2]}] ELSE s2
  IN Push(s1, d.o, x)

-----------------------------------------------------------------------------
(* Shared subscribers: one notification at a time, later ones are queued *)
ShDrain(st, n, depth) ==
  LET d == st.nd[n] IN
  IF d.q = <<>> THEN st
  ELSE LET x == Head(d.q)
           s1 == Upd(st, n, [d EXCEPT !.q = Tail(@), !.cf = @ \/ x[1] # "n"])
           s2 == IF d.cf THEN s1 ELSE Push(s1, d.o, x)
       IN ShDrain(s2, n, depth)

\* what is queued is delivered as soon as nothing is being delivered
ShTry(st, n) ==
  IF st.nd[n].busy \/ st.nd[n].q = <<>> THEN st
  ELSE LET s1 == ShDrain(Upd(st, n, [st.nd[n] EXCEPT !.busy = TRUE]), n, 0)
       IN Upd(s1, n, [s1.nd[n] EXCEPT !.busy = FALSE])

ShRun(st, n, x) ==
  LET s0 == ShTry(st, n)
      d == s0.nd[n]
      s1 == Upd(s0, n, [d EXCEPT !.busy = TRUE, !.cf = @ \/ x[1] = "u"])
      s2 == IF x[1] = "u" /\ Closed(s1, d.o) THEN s1 ELSE Push(s1, d.o, x)
  IN Upd(s2, n, [s2.nd[n] EXCEPT !.busy = FALSE])

ShPush0(st, n, x) ==
  LET d == st.nd[n] IN
  IF x[1] = "u" THEN
    IF d.ou THEN ShTry(st, n)
    ELSE LET s1 == Upd(st, n, [d EXCEPT !.ou = TRUE, !.oc = TRUE]) IN
         IF d.busy THEN (IF d.cf THEN s1 ELSE Upd(s1, n, [s1.nd[n] EXCEPT !.q = Append(@, x)]))
         ELSE ShTry(ShRun(s1, n, x), n)
  ELSE IF d.oc \/ d.cf \/ (~d.busy /\ Closed(st, d.o)) THEN ShTry(st, n)
  ELSE LET s1 == IF IsTerm(x) THEN Upd(st, n, [d EXCEPT !.oc = TRUE]) ELSE st IN
       IF d.busy THEN (IF d.cf THEN s1 ELSE Upd(s1, n, [s1.nd[n] EXCEPT !.q = Append(@, x)]))
       ELSE ShTry(ShRun(s1, n, x), n)

\* with the destination of a shared subscriber locked: notifications go to it directly, then
\* what was queued meanwhile is delivered
ShLock(st, n) == Upd(st, n, [st.nd[n] EXCEPT !.busy = TRUE])
ShUnlock(st, n) == ShTry(Upd(st, n, [st.nd[n] EXCEPT !.busy = FALSE]), n)

ShClosed(st, n) == LET d == st.nd[n] IN d.oc \/ d.cf \/ (~d.busy /\ Closed(st, d.o))
ShNode(o) == [k |-> "sh", o |-> o, busy |-> FALSE, q |-> <<>>, cf |-> FALSE, oc |-> FALSE, ou |-> FALSE]

-----------------------------------------------------------------------------
(* Shared subscriptions *)
SsUnsub0(st, i) ==
  LET s == st.ss[i] IN
  IF s.cl THEN st ELSE RunTds([st EXCEPT !.ss[i] = [cl |-> TRUE, tds |-> <<>>]], s.tds)
SsAdd(st, i, t) ==
  IF st.ss[i].cl THEN RunTd(st, t) ELSE [st EXCEPT !.ss[i].tds = Append(@, t)]
NewSs(st, tds) == [st EXCEPT !.ss = Append(@, [cl |-> FALSE, tds |-> tds])]

-----------------------------------------------------------------------------
(* Subjects *)
Subject(j) ==
  LET base == [kind |-> j[1], par |-> 0, vals |-> <<>>, done |-> "", err |-> <<>>, uns |-> FALSE,
               subs |-> <<>>, busy |-> FALSE, q |-> <<>>, cf |-> FALSE, nid |-> 1] IN
  CASE j[1] = "beh" -> [base EXCEPT !.vals = <<j[2]>>]
    [] j[1] = "rep" -> [base EXCEPT !.par = j[2]]
    [] j[1] = "prov" -> [base EXCEPT !.vals = << Append(j[2], j[3]) >>]
    [] OTHER -> base

SbClosed(s) == s.done # "" \/ s.uns

SbEach(st, ns, x) ==
  IF ns = <<>> THEN st
  ELSE LET n == Head(ns)   had == n \in st.lk
           s1 == Push([st EXCEPT !.lk = @ \cup {n}], n, x)
       IN SbEach(IF Closed(st, n) THEN st ELSE IF had THEN s1 ELSE [s1 EXCEPT !.lk = @ \ {n}], Tail(ns), x)

SbNodes(s) == [i \in 1..Len(s.subs) |-> s.subs[i][2]]
SbClean(st, k) == [st EXCEPT !.sb[k].subs = SelectSeq(@, LAMBDA p : ~Closed(st, p[2]))]

\* applies one notification to the current subscribers (the subject is locked)
SbApply(st, k, x) ==
  LET s == st.sb[k] IN
  CASE x[1] \in {"n", "e", "c"} -> SbEach(st, SbNodes(s), x)
    [] x[1] = "u" -> SbEach([st EXCEPT !.sb[k].subs = <<>>], SbNodes(s), x)
    [] x[1] = "ui" ->
         LET gone == SelectSeq(s.subs, LAMBDA p : p[1] = x[2]) IN
         SbEach([st EXCEPT !.sb[k].subs = SelectSeq(@, LAMBDA p : p[1] # x[2])],
                [i \in 1..Len(gone) |-> gone[i][2]], <<"u">>)
    [] x[1] = "add" ->
         IF Closed(st, x[3]) THEN st
         ELSE IF s.cf THEN Push(st, x[3], <<"u">>)
         ELSE [st EXCEPT !.sb[k].subs = Append(@, <<x[2], x[3]>>)]

SbDrain(st, k, depth) ==
  LET s == st.sb[k] IN
  IF s.q = <<>> THEN st
  ELSE LET x == Head(s.q)
           s1 == [st EXCEPT !.sb[k].q = Tail(@)]
           s1b == IF s.cf /\ x[1] # "add" THEN s1 ELSE SbApply(s1, k, x)
           \* a deferred terminal also unsubscribes whoever is still open
           s2 == IF x[1] \in {"e", "c"} THEN SbApply(s1b, k, <<"u">>) ELSE s1b
           s3 == IF x[1] \in {"u", "e", "c"} THEN [s2 EXCEPT !.sb[k].cf = TRUE] ELSE s2
       IN SbDrain(s3, k, depth)

SbRun(st, k, x) ==
  LET s1 == [st EXCEPT !.sb[k].busy = TRUE, !.sb[k].cf = @ \/ x[1] = "u"]
      s2 == SbDrain(SbApply(s1, k, x), k, 0)
  IN [s2 EXCEPT !.sb[k].busy = FALSE]

\* the publish subject below every kind of subject
SbSend(st, k, x) ==
  IF st.sb[k].busy THEN [st EXCEPT !.sb[k].q = Append(@, x)] ELSE SbRun(st, k, x)

LastN(s, n) == IF Len(s) > n THEN SubSeq(s, Len(s) - n + 1, Len(s)) ELSE s

SbRemember(s, v) ==
  CASE s.kind = "beh" -> [s EXCEPT !.vals = <<v>>]
    [] s.kind = "prov" -> [s EXCEPT !.vals = <<v>>]
    [] s.kind = "rep" -> [s EXCEPT !.vals = LastN(Append(@, v), s.par)]
    [] s.kind = "async" -> [s EXCEPT !.vals = <<v>>]
    [] s.kind = "asum" -> [s EXCEPT !.vals = IF @ = <<>> THEN <<v>> ELSE <<Add(@[1], Lst(v))>>]
    [] OTHER -> s

SbPush0(st, k, x) ==
  LET s == st.sb[k] IN
  CASE x[1] = "n" ->
         IF SbClosed(s) THEN st
         ELSE LET s1 == [st EXCEPT !.sb[k] = SbRemember(s, x[2])] IN
              IF s.kind \in {"async", "asum"} THEN s1 ELSE SbSend(s1, k, x)
    [] x[1] = "e" ->
         IF SbClosed(s) THEN st
         ELSE SbSend([st EXCEPT !.sb[k].done = "e", !.sb[k].err = x[2]], k, x)
    [] x[1] = "c" ->
         IF SbClosed(s) THEN st
         ELSE LET s0 == IF s.kind \in {"async", "asum"} /\ s.vals # <<>> THEN SbSend(st, k, <<"n", s.vals[1]>>) ELSE st
              IN IF SbClosed(s0.sb[k]) THEN s0 ELSE SbSend([s0 EXCEPT !.sb[k].done = "c"], k, x)
    [] x[1] = "u" ->
         IF s.uns THEN st ELSE SbSend([st EXCEPT !.sb[k].uns = TRUE], k, x)

\* subscribing the chain `d' to subject k
SbSubscribe(st, k, d) ==
  LET s == st.sb[k]
      replay == IF s.done = "e" THEN <<>>
                ELSE IF s.kind \in {"beh", "rep", "prov"} THEN s.vals
                ELSE IF s.kind \in {"async", "asum"} /\ SbClosed(s) THEN s.vals
                ELSE <<>>
      s1 == PushSeq(st, d, [i \in 1..Len(replay) |-> <<"n", replay[i]>>])
      t  == s1.sb[k]
      s2 == IF t.done = "e" THEN Push(s1, d, <<"e", t.err>>)
            ELSE IF t.done = "c" THEN Push(s1, d, <<"c">>) ELSE s1
  IN IF SbClosed(t)
     THEN NewHandle(IF Closed(s2, d) THEN s2 ELSE Push(s2, d, <<"u">>), [k |-> "inert"])
     ELSE LET id == t.nid
              s3 == [s2 EXCEPT !.sb[k].nid = id + 1]
              s4 == IF t.busy THEN [s3 EXCEPT !.sb[k].q = Append(@, <<"add", id, d>>)]
                    ELSE [s3 EXCEPT !.sb[k].subs = Append(@, <<id, d>>)]
          IN NewHandle(s4, [k |-> "mc", sk |-> k, id |-> id, n |-> d, tk |-> FALSE])

-----------------------------------------------------------------------------
(* The scheduler and what is run by it                                      *)
(* A work is [k, on, ms, imm, max, cons, b]; its body b is a tuple.          *)
(* sc.q holds requests: they take effect when the scheduler picks them up,   *)
(* at the beginning of a tick and after the works due in it ran.             *)
NewCid(st) == [st EXCEPT !.sc.ncid = @ + 1]
Work(k, ms, b) == [k |-> k, ms |-> ms, imm |-> FALSE, max |-> 1, on |-> 0, cons |-> 0, b |-> b]
Schedule(st, cid, w) == ScQ(st, <<"A", cid, [w EXCEPT !.on = st.sc.snow, !.cons = st.sc.snow]>>)
MaxN(a, b) == IF a > b THEN a ELSE b
WR(st, done, b) == [st EXCEPT !.wr = [done |-> done, b |-> b]]

\* pulling the next item of an iterator of which one item may have been looked at already
PeekIt(st, id, vs, it) ==
  IF it.pk \/ id = 0 THEN [st |-> st, it |-> [it EXCEPT !.pk = TRUE]]
  ELSE [st |-> Put(st, <<7, id, it.pos>>), it |-> [it EXCEPT !.pk = TRUE]]
PullIt(st, id, vs, it) ==
  LET p == PeekIt(st, id, vs, it) IN [st |-> p.st, it |-> [pos |-> it.pos + 1, pk |-> FALSE]]

\* the last step of a delaying operator's work: completion and unsubscription that waited for it
TmAfter(st, n, sh, prev) ==
  LET d == st.nd[n]   in == st.nd[sh].o IN
  IF prev # 1 \/ Closed(st, in) THEN st
  ELSE IF d.uc THEN Push(st, in, <<"c">>) ELSE IF d.uu THEN Push(st, in, <<"u">>) ELSE st

Exec0(st, b, t) ==
  CASE b[1] = "user" ->
         LET n == b[3] + 1
             acts == FlattenSeq([i \in 1..Len(b[4]) |-> IF b[4][i][1] = n THEN b[4][i][2] ELSE <<>>])
             s1 == ActSeq(Put(st, <<10, b[2], t>>), acts)
         IN WR(s1, b[5] > 0 /\ n >= b[5], <<"user", b[2], n, b[4], b[5]>>)
    [] b[1] = "ivl" ->
         IF ShClosed(st, b[2]) THEN WR(st, TRUE, b)
         ELSE WR(ShPush(st, b[2], <<"n", <<b[3]>> >>), FALSE, <<"ivl", b[2], b[3] + 1>>)
    [] b[1] = "tmr" ->
         LET s1 == ShPush(st, b[2], <<"n", <<UNITV>> >>)
             s2 == IF ShClosed(s1, b[2]) THEN s1 ELSE ShPush(s1, b[2], <<"c">>)
         IN WR(ShTry(s2, b[2]), TRUE, b)
    [] b[1] = "iot" ->    \* <<"iot", sh, nth, vs, id, ticks, it>>
         LET sh == b[2]   k == b[6] + 1 IN
         IF ShClosed(st, sh) THEN WR(st, TRUE, b)
         ELSE IF k % b[3] # 0 THEN WR(st, FALSE, [b EXCEPT ![6] = k])
         ELSE LET has == b[7].pos < Len(b[4])
                  p == PullIt(st, b[5], b[4], b[7])
                  s1 == IF has THEN ShPush(p.st, sh, <<"n", b[4][b[7].pos + 1]>>) ELSE p.st
              IN IF has /\ ShClosed(s1, sh) THEN WR(s1, TRUE, b)
                 ELSE LET q == PeekIt(s1, b[5], b[4], p.it) IN
                      IF q.it.pos >= Len(b[4]) THEN WR(ShPush(q.st, sh, <<"c">>), TRUE, b)
                      ELSE WR(q.st, FALSE, [b EXCEPT ![6] = 0, ![7] = q.it])
    [] b[1] = "tm" ->     \* delay, observe_on, debounce_time: <<"tm", node, sh, value>>
         LET n == b[2]   sh == b[3]   in == st.nd[sh].o
             deb == st.nd[n].a[1] = "deb"
             s1 == ShLock(IF deb THEN Upd(st, n, [st.nd[n] EXCEPT !.cnt = 2]) ELSE st, sh)
             s2 == IF Closed(s1, in) THEN s1 ELSE Push(s1, in, <<"n", b[4]>>)
             cnt == s2.nd[n].cnt
             prev == IF ~deb THEN cnt ELSE IF cnt = 2 THEN 1 ELSE 0
             s3 == Upd(s2, n, [s2.nd[n] EXCEPT !.cnt = IF deb THEN (IF @ = 2 THEN 0 ELSE @) ELSE IF @ = 0 THEN -1 ELSE @ - 1])
         IN WR(ShUnlock(TmAfter(s3, n, sh, prev), sh), TRUE, b)
    [] b[1] = "tmx" -> WR(Upd(st, b[2], [st.nd[b[2]] EXCEPT !.cnt = @ - 1]), TRUE, b)
    [] b[1] = "thr" ->    \* <<"thr", node, sh>>
         LET n == b[2]   sh == b[3]
             d == [st.nd[n] EXCEPT !.ltt = t]
             trail == d.a[3] # 0 /\ d.last # <<>> IN
         IF d.dl < 0 THEN WR(Upd(st, n, d), TRUE, b)
         ELSE IF t < d.dl THEN WR(Upd(st, n, d), FALSE, b)
         ELSE LET s1 == Upd(st, n, [d EXCEPT !.last = <<>>, !.dl = IF trail THEN @ ELSE -1])
                  s2 == IF trail THEN ShPush(s1, sh, <<"n", d.last[1]>>) ELSE s1
              IN IF trail /\ ShClosed(s2, sh) THEN WR(s2, TRUE, b)
                 ELSE IF d.up = "c" THEN WR(ShPush(s2, sh, <<"c">>), TRUE, b)
                 ELSE IF d.up # "" THEN WR(ShPush(s2, sh, <<"u">>), TRUE, b)
                 ELSE WR(s2, ~trail, b)
    [] b[1] = "fws" ->    \* <<"fws", node, sh, index>>
         LET n == b[2]   sh == b[3]   d == st.nd[n] IN
         IF ShClosed(st, sh) THEN WR(st, TRUE, b)
         ELSE LET v == IF d.last # <<>> THEN d.last[1] ELSE Pr(<<t>>, <<b[4]>>)
                  s1 == ShPush(Upd(st, n, [d EXCEPT !.last = <<>>]), sh, <<"n", v>>)
              IN WR(s1, ShClosed(s1, sh), <<"fws", n, sh, b[4] + 1>>)
    [] b[1] = "adsr" ->   \* <<"adsr", node, sh, envelope state, last now>>
         LET n == b[2]   sh == b[3]   d == st.nd[n] IN
         IF ShClosed(st, sh) THEN WR(st, TRUE, b)
         ELSE LET env == [att |-> d.a[4], dec |-> d.a[5], rel |-> d.a[6], sus |-> 10 * d.a[7]]
                  r == AdsrStep(env, b[4], d.on, t - b[5])
                  s1 == Upd(st, n, [d EXCEPT !.on = IF d.a[3] # 0 THEN FALSE ELSE @, !.lsn = r.none])
                  s2 == IF d.a[2] # 0 \/ ~r.none \/ ~d.lsn THEN ShPush(s1, sh, <<"n", r.v>>) ELSE s1
              IN WR(s2, ShClosed(s2, sh), <<"adsr", n, sh, r.s, t>>)
    [] b[1] = "subon" ->  \* <<"subon", sh, shared subscription, source, operators>>
         LET sh == b[2] IN
         IF ShClosed(st, sh) THEN WR(st, TRUE, b)
         ELSE LET s1 == SubPipe(st, b[4], b[5], sh)
                  h == s1.ret
              IN WR(IF ShClosed(s1, sh) THEN HUnsub(s1, h) ELSE SsAdd(s1, b[3], <<"h", h>>), TRUE, b)

\* a work that is let go without running
DropWork(st, w) ==
  CASE w.b[1] \in {"ivl", "tmr", "iot", "subon"} -> ShTry(st, w.b[2])
    [] w.b[1] \in {"tm", "thr", "fws", "adsr"} -> ShTry(st, w.b[3])
    [] OTHER -> st
RECURSIVE DropWorks(_, _)
DropWorks(st, ws) == IF ws = <<>> THEN st ELSE DropWorks(DropWork(st, Head(ws)), Tail(ws))

RECURSIVE RepLoop(_, _, _, _)
RepLoop(st, w, t, ex) ==   \* st.wr.done tells whether the last run was the last one
  IF ~((w.cons + w.ms <= MaxN(w.on, t) /\ ~st.wr.done) \/ w.imm) THEN WR(st, st.wr.done, w)
  ELSE LET s1 == IF ex < w.max THEN LET s == Exec(st, w.b, t) IN WR(s, s.wr.done \/ st.wr.done, s.wr.b)
                 ELSE WR(st, st.wr.done, w.b)
           w1 == [w EXCEPT !.b = s1.wr.b, !.imm = FALSE, !.cons = IF w.imm THEN @ ELSE @ + w.ms]
       IN IF w.ms = 0 /\ ex + 1 >= w.max THEN WR(s1, s1.wr.done, w1) ELSE RepLoop(s1, w1, t, ex + 1)

\* one tick of one work; wr.b becomes the work afterwards
TickWork(st, w, t) ==
  CASE w.k = "d" -> IF w.on + w.ms <= MaxN(w.on, t) THEN LET s == Exec(st, w.b, t) IN WR(s, TRUE, w) ELSE WR(st, FALSE, w)
    [] w.k = "i" -> LET s == Exec(st, w.b, t) IN WR(s, TRUE, w)
    [] w.k = "r" -> RepLoop(WR(st, FALSE, 0), w, t, 0)
    [] OTHER -> LET s == Exec(st, w.b, t) IN WR(s, s.wr.done, [w EXCEPT !.b = s.wr.b])

ScRemove(st, P(_)) ==
  LET gone == SelectSeq(st.sc.act, P)
      s1 == [st EXCEPT !.sc.act = SelectSeq(@, LAMBDA e : ~P(e))]
  IN DropWorks(s1, [i \in 1..Len(gone) |-> gone[i][3]])

ScApply(st, x) ==
  CASE x[1] = "A" -> [st EXCEPT !.sc.act = Append(@, <<st.sc.nextw, x[2], x[3]>>), !.sc.nextw = @ + 1]
    [] x[1] = "AI" -> [st EXCEPT !.sc.inv = (x[2] :> x[3]) @@ @]
    [] x[1] = "I" -> [st EXCEPT !.sc.invd = Append(@, x[2])]
    [] x[1] = "CI" -> [st EXCEPT !.sc.inv = [i \in DOMAIN @ \ {x[2]} |-> @[i]],
                                 !.sc.invd = SelectSeq(@, LAMBDA i : i # x[2])]
    [] x[1] = "C" -> ScRemove(st, LAMBDA e : e[2] = x[2])

RECURSIVE ScPick(_, _), ScTickAll(_, _, _), ScInvoke(_, _), ScLoop(_, _)
ScPick(st, xs) == IF xs = <<>> THEN st ELSE ScPick(ScApply(st, Head(xs)), Tail(xs))

ScIndex(st, w) == CHOOSE i \in 1..Len(st.sc.act) : st.sc.act[i][1] = w
ScTickAll(st, ids, done) ==
  IF ids = <<>> THEN ScRemove(st, LAMBDA e : e[1] \in done)
  ELSE LET i == ScIndex(st, Head(ids))
           s1 == TickWork(st, st.sc.act[i][3], st.sc.now)
       IN ScTickAll([s1 EXCEPT !.sc.act[i][3] = s1.wr.b, !.sc.ticked = @ \cup {Head(ids)}],
                    Tail(ids), IF s1.wr.done THEN done \cup {Head(ids)} ELSE done)

ScInvoke(st, is) ==
  IF is = <<>> THEN st
  ELSE LET i == Head(is) IN
       IF i \notin DOMAIN st.sc.inv THEN ScInvoke(st, Tail(is))
       ELSE LET s1 == TickWork(st, st.sc.inv[i], st.sc.now)
                s2 == IF s1.wr.done THEN [s1 EXCEPT !.sc.inv = [j \in DOMAIN @ \ {i} |-> @[j]]]
                      ELSE [s1 EXCEPT !.sc.inv[i] = s1.wr.b]
            IN ScInvoke(s2, Tail(is))

ScLoop(st, i) ==
  LET s1 == ScPick([st EXCEPT !.sc.snow = MaxN(@, st.sc.now), !.sc.q = <<>>], st.sc.q)
      todo == SelectSeq([j \in 1..Len(s1.sc.act) |-> s1.sc.act[j][1]], LAMBDA w : w \notin s1.sc.ticked)
      s2 == ScTickAll(s1, todo, {})
      s3 == ScInvoke([s2 EXCEPT !.sc.invd = <<>>], s2.sc.invd)
  IN IF todo = <<>> /\ st.sc.q = <<>> THEN s3
     ELSE IF i = 100 THEN Put(s3, <<8>>)
     ELSE ScLoop(s3, i + 1)

TickTo(st, t) == ScLoop([st EXCEPT !.sc.now = MaxN(@, t), !.sc.ticked = {}], 0)

ScEmpty(st) == st.sc.act = <<>> /\ DOMAIN st.sc.inv = {}

-----------------------------------------------------------------------------
(* Operators that hold values back: node [k |-> "tm", a, o (a shared         *)
(* subscriber), cid, uc, uu, cnt, last, dl, ltt, up, on, lsn]                *)
TmPush(st, n, x) ==
  LET d == st.nd[n]   k == d.a[1]   sh == d.o
      cancel(s) == ScQ(s, <<"C", d.cid>>)
      trail == d.a[1] = "thr" /\ d.a[3] # 0 /\ d.last # <<>>
      hold == d.dl >= 0 /\ trail
      clear(r) == [r EXCEPT !.dl = -1, !.last = <<>>]
  IN
  CASE x[1] = "d" -> st
    [] x[1] = "n" ->
         (CASE k = "delay" -> Schedule(Upd(st, n, [d EXCEPT !.cnt = @ + 1]), d.cid, Work("d", d.a[2], <<"tm", n, sh, x[2]>>))
            [] k = "obson" -> Schedule(Upd(st, n, [d EXCEPT !.cnt = @ + 1]), d.cid, Work("i", 0, <<"tm", n, sh, x[2]>>))
            [] k = "deb" -> Schedule(cancel(Upd(st, n, [d EXCEPT !.cnt = 1])), d.cid, Work("d", d.a[2], <<"tm", n, sh, x[2]>>))
            [] k = "thr" ->
                 (IF d.dl < 0
                  THEN LET s1 == Upd(st, n, [d EXCEPT !.dl = d.ltt + d.a[2], !.last = IF d.a[3] = 1 THEN <<x[2]>> ELSE @])
                           s2 == IF d.a[3] # 1 THEN ShPush(s1, sh, <<"n", x[2]>>) ELSE s1
                       IN IF ShClosed(s2, sh) THEN s2 ELSE Schedule(s2, d.cid, Work("c", 0, <<"thr", n, sh>>))
                  ELSE IF d.dl > d.ltt THEN Upd(st, n, [d EXCEPT !.last = IF d.a[3] # 0 THEN <<x[2]>> ELSE @])
                  ELSE Upd(st, n, [d EXCEPT !.dl = d.ltt + d.a[2], !.last = <<x[2]>>]))
            [] k = "fws" -> Upd(st, n, [d EXCEPT !.last = <<x[2]>>])
            [] k = "adsr" -> Upd(st, n, [d EXCEPT !.on = Lst(x[2]) # 0]))
    [] x[1] = "e" ->
         (CASE k \in {"delay", "deb", "obson"} -> ShPush(cancel(Upd(st, n, [d EXCEPT !.uu = TRUE, !.cnt = 0])), sh, x)
            [] k = "thr" -> ShPush(cancel(Upd(st, n, clear([d EXCEPT !.up = "e"]))), sh, x)
            [] k = "fws" -> ShPush(cancel(ShPush(st, sh, x)), sh, <<"u">>)
            [] OTHER -> ShPush(st, sh, x))
    [] x[1] = "c" ->
         (CASE k \in {"delay", "deb", "obson"} ->
                 LET s1 == Upd(st, n, [d EXCEPT !.uc = TRUE, !.uu = TRUE]) IN
                 IF d.cnt = 0 THEN ShPush(s1, sh, x)
                 ELSE IF k = "obson" THEN Schedule(s1, d.cid, Work("i", 0, <<"tmx", n>>)) ELSE s1
            [] k = "thr" ->
                 IF hold THEN Upd(st, n, [d EXCEPT !.up = "c"])
                 ELSE ShPush(cancel(Upd(st, n, clear([d EXCEPT !.up = "c"]))), sh, x)
            [] k = "fws" -> ShPush(cancel(ShPush(st, sh, x)), sh, <<"u">>)
            [] OTHER -> ShPush(st, sh, x))
    [] x[1] = "u" ->
         (CASE k \in {"delay", "deb", "obson"} ->
                 IF Closed(st, n) THEN st
                 ELSE LET s1 == Upd(st, n, [d EXCEPT !.uu = TRUE]) IN IF d.cnt = 0 THEN ShPush(s1, sh, x) ELSE s1
            [] k = "thr" ->
                 IF Closed(st, n) THEN st
                 ELSE IF hold THEN Upd(st, n, [d EXCEPT !.up = "u"])
                 ELSE ShPush(cancel(Upd(st, n, clear([d EXCEPT !.up = "u"]))), sh, x)
            [] OTHER -> ShPush(cancel(st), sh, x))

TmClosed(st, n) ==
  LET d == st.nd[n] IN ShClosed(st, d.o) \/ (d.a[1] \in {"delay", "deb"} /\ d.uu) \/ (d.a[1] = "thr" /\ d.up # "")

TmOps == {"delay", "obson", "deb", "thr", "fws", "adsr"}
\* builds the operator in front of d; the new node is the last one
TmNew(st, op, d) ==
  LET c == NewCid(st)
      cid == c.sc.ncid
      s1 == IF op[1] \in {"fws", "adsr"} THEN c ELSE AddTd(c, d, <<"cancel", cid>>)
      s2 == NewNode(s1, ShNode(d))
      sh == Len(s2.nd)
      s3 == NewNode(s2, [k |-> "tm", a |-> op, o |-> sh, cid |-> cid, uc |-> FALSE, uu |-> FALSE, cnt |-> 0,
                         last |-> <<>>, dl |-> -1, ltt |-> 0, up |-> "", on |-> FALSE, lsn |-> FALSE])
      n == Len(s3.nd)
  IN CASE op[1] = "fws" -> AddTd(Schedule(s3, cid, Work("c", 0, <<"fws", n, sh, 0>>)), d, <<"cancel", cid>>)
       [] op[1] = "adsr" -> AddTd(Schedule(s3, cid, Work("c", 0, <<"adsr", n, sh, AdsrInit, 0>>)), d, <<"cancel", cid>>)
       [] OTHER -> s3

HAddTd(st, h, t) ==
  LET d == st.hd[h] IN
  CASE d.k = "inert" -> RunTd(st, t)
    [] d.k = "mc" -> IF d.tk THEN RunTd(st, t) ELSE AddTd(st, d.n, t)
    [] d.k \in {"node", "wk"} -> AddTd(st, d.n, t)
    [] d.k = "ss" -> SsAdd(st, d.i, t)

-----------------------------------------------------------------------------
(* Flattening: a node of kind "ho" receives observables; pol "c" runs lim    *)
(* of them at a time and queues the others, "s" switches to the newest, "x"  *)
(* ignores new ones while one runs.  inn are the handles of the inner        *)
(* observables (those up to off are gone); nc and nu count those not completed and not unsubscribed;    *)
(* up and dn tell how the outer and the downstream side ended.               *)
(* A node of kind "hi" is what an inner observable is subscribed to.         *)
HoNode(pol, lim, inners, sh, ot) ==
  [k |-> "ho", pol |-> pol, lim |-> IF lim = 0 THEN 1 ELSE lim, inners |-> inners, o |-> sh, ot |-> ot,
   q |-> <<>>, inn |-> <<>>, off |-> 0, cur |-> 0, nc |-> 0, nu |-> 0, up |-> {}, dn |-> {}]
HoNew(st, pol, lim, inners, d) ==
  LET s1 == NewNode(st, ShNode(d))
      sh == Len(s1.nd)   n == sh + 1
      s2 == NewSs(s1, << <<"hx", n>> >>)
      ot == Len(s2.ss)
  IN AddTd(NewNode(s2, HoNode(pol, lim, inners, sh, ot)), d, <<"s", ot>>)

HoClosed(st, n) == LET d == st.nd[n] IN ShClosed(st, d.o) \/ st.ss[d.ot].cl
HoEnd(st, n) == IF HoClosed(st, n) THEN st ELSE ShPush(SsUnsub(st, st.nd[n].ot), st.nd[n].o, <<"u">>)
HoUp(st, n, fs) == [st EXCEPT !.nd[n].up = @ \cup fs]
HoDn(st, n, fs) == [st EXCEPT !.nd[n].dn = @ \cup fs]
CanComplete(d) == d.q = <<>> /\ d.nc = 0 /\ "c" \in d.up /\ d.dn = {}
CanUnsub(d) == (d.q = <<>> /\ d.nu = 0 /\ "u" \in d.up /\ "u" \notin d.dn) \/ "e" \in d.up \/ d.dn # {}

RECURSIVE HUnsubs(_, _)
HUnsubs(st, hs) == IF hs = <<>> THEN st ELSE HUnsubs(IF Head(hs) = 0 THEN st ELSE HUnsub(st, Head(hs)), Tail(hs))

\* the subscriptions of the inner observables end, nothing queued is started any more
HoShut0(st, n) ==
  LET d == st.nd[n] IN
  IF d.pol = "c"
  THEN HoUp(HUnsubs(Upd(st, n, [d EXCEPT !.q = <<>>, !.off = Len(d.inn)]), SubSeq(d.inn, d.off + 1, Len(d.inn))), n, {"u"})
  ELSE HUnsubs(Upd(st, n, [d EXCEPT !.cur = 0]), <<d.cur>>)

HiNode(n, key) == [k |-> "hi", p |-> n, key |-> key, cl |-> FALSE, comp |-> FALSE, tds |-> <<>>]

\* subscribes an inner observable; it has been counted already
HoStart(st, n, O) ==
  LET d == st.nd[n]
      key == Len(d.inn) + 1
      s1 == NewNode(IF d.pol = "c" THEN Upd(st, n, [d EXCEPT !.inn = Append(@, 0)]) ELSE st, HiNode(n, key))
      s2 == Subscribe(s1, O, Len(s1.nd))
      h == s2.ret
  IN IF HClosed(s2, h) THEN s2
     ELSE IF d.pol = "c" THEN (IF s2.nd[n].off < key THEN [s2 EXCEPT !.nd[n].inn[key] = h] ELSE HUnsub(s2, h))
     ELSE IF HoClosed(s2, n) THEN HUnsub(s2, h) ELSE [s2 EXCEPT !.nd[n].cur = h]

HoCount(d) == [d EXCEPT !.nc = @ + 1, !.nu = @ + 1]
HoNextQueued(st, n) ==
  LET d == st.nd[n] IN
  IF d.q = <<>> THEN st ELSE HoStart(Upd(st, n, HoCount([d EXCEPT !.q = Tail(@)])), n, Head(d.q))

HoNext(st, n, O) ==
  LET d == st.nd[n] IN
  IF HoClosed(st, n) THEN st
  ELSE CASE d.pol = "c" ->
              IF d.nc < d.lim THEN HoStart(Upd(st, n, HoCount(d)), n, O) ELSE Upd(st, n, [d EXCEPT !.q = Append(@, O)])
         [] d.pol = "s" ->
              HoStart(HUnsubs(Upd(st, n, [HoCount(d) EXCEPT !.cur = 0]), <<d.cur>>), n, O)
         [] d.pol = "x" ->
              IF d.nu > 0 THEN st ELSE HoStart(HUnsubs(Upd(st, n, [HoCount(d) EXCEPT !.cur = 0]), <<d.cur>>), n, O)

HoPush(st, n, x) ==
  LET d == st.nd[n]
      finish(s) == IF d.pol = "c" THEN SsUnsub(s, d.ot) ELSE HoEnd(s, n)
  IN
  IF HoClosed(st, n) THEN st
  ELSE CASE x[1] = "n" -> HoNext(st, n, d.inners[(Lst(x[2]) % Len(d.inners)) + 1])
         [] x[1] = "e" -> finish(ShPush(HoUp(Upd(st, n, [d EXCEPT !.q = <<>>]), n, {"e"}), d.o, x))
         [] x[1] = "c" ->
              LET s1 == HoUp(st, n, {"c", "u"}) IN
              IF CanComplete(s1.nd[n]) THEN finish(ShPush(s1, d.o, x)) ELSE s1
         [] OTHER -> IF d.pol = "c" THEN ShPush(st, d.o, <<"u">>) ELSE HoEnd(st, n)

HiUnsub(st, i) ==
  LET e == st.nd[i]   n == e.p IN
  IF e.cl THEN st
  ELSE LET s1 == RunTds(Upd(st, i, [e EXCEPT !.cl = TRUE, !.tds = <<>>]), e.tds)
           d == s1.nd[n]
           was == "u" \in d.dn
           s2 == Upd(s1, n, [d EXCEPT !.nu = @ - 1, !.nc = IF e.comp THEN @ ELSE @ - 1,
                                      !.dn = IF CanUnsub(d) THEN @ \cup {"u"} ELSE @])
       IN IF was THEN s2
          ELSE LET s3 == IF d.pol = "c" /\ s2.nd[n].nc < d.lim /\ s2.nd[n].dn = {} THEN HoNextQueued(s2, n) ELSE s2
                   f == s3.nd[n]
               IN IF ~(CanUnsub(f) /\ "e" \notin f.up /\ "e" \notin f.dn) THEN s3
                  ELSE IF d.pol = "c" THEN SsUnsub(ShPush(s3, f.o, <<"u">>), f.ot)
                  ELSE ShPush(SsUnsub(s3, f.ot), f.o, <<"u">>)

HiPush(st, i, x) ==
  LET e == st.nd[i]   n == e.p   sh == st.nd[e.p].o IN
  IF e.cl THEN st
  ELSE CASE x[1] = "n" ->
              LET s1 == ShPush(st, sh, x) IN
              IF ShClosed(s1, sh) THEN HiUnsub(HoDn(s1, n, {"u"}), i) ELSE s1
         [] x[1] = "e" -> HiUnsub(ShPush(HoDn(Upd(st, n, [st.nd[n] EXCEPT !.q = <<>>]), n, {"e"}), sh, x), i)
         [] x[1] = "c" ->
              LET s1 == Upd(st, i, [e EXCEPT !.comp = TRUE])
                  s2 == IF s1.nd[n].pol = "c" THEN HoNextQueued(s1, n) ELSE s1
                  s3 == Upd(s2, n, [s2.nd[n] EXCEPT !.nc = @ - 1])
              IN HiUnsub(IF CanComplete(s3.nd[n]) THEN ShPush(HoDn(s3, n, {"c"}), sh, x) ELSE s3, i)
         [] OTHER -> HiUnsub(st, i)

-----------------------------------------------------------------------------
(* catch: a node of kind "ho" (pol "k") that subscribes the recovery          *)
(* observable inners[1] at the first error; lim says whether it still may     *)
CaNew(st, O, d) ==
  LET s1 == NewSs(NewNode(st, ShNode(d)), <<>>)
      sh == Len(s1.nd)   ot == Len(s1.ss)
  IN AddTd(NewNode(s1, HoNode("k", 1, <<O>>, sh, ot)), d, <<"s", ot>>)

CaEnd(st, n) ==
  LET d == st.nd[n] IN IF st.ss[d.ot].cl THEN st ELSE ShPush(SsUnsub(st, d.ot), d.o, <<"u">>)

CaPush(st, n, x) ==
  LET d == st.nd[n]
      over(s) == IF ShClosed(s, d.o) THEN CaEnd(s, n) ELSE s
  IN
  CASE x[1] = "n" -> over(ShPush(st, d.o, x))
    [] x[1] = "e" ->
         IF st.ss[d.ot].cl \/ d.lim = 0 THEN st
         ELSE LET s1 == Put(HoUp(Upd(st, n, [HoCount(d) EXCEPT !.lim = 0]), n, {"c", "u"}), <<7, 800>> \o x[2])
                  s2 == NewNode(s1, HiNode(n, 1))
                  s3 == Subscribe(s2, d.inners[1], Len(s2.nd))
              IN over(IF HClosed(s3, s3.ret) THEN s3 ELSE SsAdd(s3, d.ot, <<"h", s3.ret>>))
    [] x[1] = "c" ->
         IF st.ss[d.ot].cl THEN st
         ELSE LET s1 == HoUp(st, n, {"c", "u"}) IN
              IF CanComplete(s1.nd[n]) THEN CaEnd(ShPush(s1, d.o, x), n) ELSE s1
    [] x[1] = "u" -> CaEnd(st, n)
    [] OTHER -> st

-----------------------------------------------------------------------------
(* retry: what all attempts share is a node of kind "rr" (stolen while the    *)
(* source is being subscribed to, caught the error of that attempt, last the  *)
(* shared subscription of the running attempt), every attempt is subscribed   *)
(* through a node of kind "rs" that knows how many retries came before it.    *)
RsNode(r, k) == [k |-> "rs", r |-> r, o |-> r - 1, retries |-> k, fin |-> FALSE]

RsFinish(st, i, x) ==
  LET r == st.nd[i].r   d == st.nd[r]
      s1 == IF x[1] = "u" THEN st ELSE ShPush(Upd(st, i, [st.nd[i] EXCEPT !.fin = FALSE]), d.o, x)
  IN ShPush(SsUnsub(s1, d.ot), d.o, <<"u">>)

RsUnsub(st, i) ==
  LET e == st.nd[i] IN IF st.nd[e.r].caught = <<>> /\ ~e.fin THEN RsFinish(st, i, <<"u">>) ELSE st

\* one more attempt; its subscription is the last one afterwards, if it is still open
RrAttempt(st, r, k) ==
  LET d == st.nd[r]
      s1 == NewNode(Upd(st, r, [d EXCEPT !.stolen = TRUE]), RsNode(r, k))
      s2 == SubPipe(s1, d.src, d.ops, Len(s1.nd))
      h == s2.ret
      s3 == IF HClosed(s2, h) THEN s2
            ELSE LET s4 == NewSs(s2, <<>>)
                     i == Len(s4.ss)
                     s5 == SsAdd(HAddTd(s4, h, <<"s", i>>), i, <<"h", h>>)
                 IN Upd(s5, r, [s5.nd[r] EXCEPT !.last = i])
  IN Upd(s3, r, [s3.nd[r] EXCEPT !.stolen = FALSE])

RrDropLast(st, r) ==
  LET l == st.nd[r].last   s1 == Upd(st, r, [st.nd[r] EXCEPT !.last = 0])
  IN IF l = 0 THEN st ELSE SsUnsub(s1, l)

\* an attempt that failed later on starts the next ones
RECURSIVE RsRetry(_, _)
RsRetry(st, i) ==
  LET e == st.nd[i]   r == e.r IN
  IF e.retries > st.nd[r].max \/ ShClosed(st, e.o) THEN st
  ELSE LET s1 == RrDropLast(Upd(st, r, [st.nd[r] EXCEPT !.stolen = TRUE]), r)
           s2 == Upd(s1, r, [s1.nd[r] EXCEPT !.caught = <<>>])
           s3 == Upd(s2, i, [s2.nd[i] EXCEPT !.retries = @ + 1, !.fin = FALSE])
           s4 == RrAttempt(s3, r, e.retries + 1)
       IN IF s4.nd[r].caught # <<>> THEN RsRetry(s4, i) ELSE SsAdd(s4, s4.nd[r].ot, <<"rl", r>>)

\* attempts that fail while being subscribed to are repeated at once
RECURSIVE RrFirst(_, _, _)
RrFirst(st, r, k) ==
  IF k > st.nd[r].max THEN st
  ELSE LET s1 == RrAttempt(Upd(st, r, [st.nd[r] EXCEPT !.caught = <<>>]), r, k) IN
       IF s1.nd[r].caught # <<>>
       THEN LET s2 == RrDropLast(s1, r) IN IF ShClosed(s2, r - 1) THEN s2 ELSE RrFirst(s2, r, k + 1)
       ELSE LET s2 == SsAdd(s1, s1.nd[r].ot, <<"rl", r>>)
            IN IF ShClosed(s2, r - 1) THEN SsUnsub(s2, s2.nd[r].ot) ELSE s2

RrSubscribe(st, max, src, ops, d) ==
  LET s1 == NewNode(st, ShNode(d))
      sh == Len(s1.nd)   r == sh + 1
      s2 == NewSs(s1, << <<"n", sh>> >>)
      ot == Len(s2.ss)
      s3 == NewNode(s2, [k |-> "rr", o |-> sh, ot |-> ot, max |-> max, stolen |-> FALSE, last |-> 0,
                         caught |-> <<>>, src |-> src, ops |-> ops])
      s4 == RrFirst(s3, r, 0)
      c == s4.nd[r].caught
      s5 == Upd(s4, r, [s4.nd[r] EXCEPT !.caught = <<>>])
      s6 == IF c = <<>> THEN s4 ELSE SsUnsub(ShPush(ShPush(s5, sh, c[1]), sh, <<"u">>), ot)
  IN NewHandle(s6, [k |-> "ss", i |-> ot])

RsPush(st, i, x) ==
  LET e == st.nd[i]   r == e.r IN
  CASE x[1] = "n" -> LET s1 == ShPush(st, e.o, x) IN IF ShClosed(s1, e.o) THEN RsUnsub(s1, i) ELSE s1
    [] x[1] = "e" ->
         IF st.nd[r].stolen THEN Upd(st, r, [st.nd[r] EXCEPT !.caught = <<x>>])
         ELSE LET s1 == RsRetry(st, i)
                  c == s1.nd[r].caught
                  s2 == Upd(Upd(s1, r, [s1.nd[r] EXCEPT !.caught = <<>>]), i, [s1.nd[i] EXCEPT !.fin = TRUE])
              IN IF s2.nd[i].retries > s2.nd[r].max THEN RsFinish(s2, i, IF c = <<>> THEN x ELSE c[1]) ELSE s2
    [] x[1] = "c" -> RsFinish(st, i, x)
    [] x[1] = "u" -> RsUnsub(st, i)
    [] OTHER -> st

FlatPol == [mm |-> "c", ma |-> "c", cm |-> "c", ca |-> "c", sm |-> "s", sa |-> "s", em |-> "x", ea |-> "x"]

-----------------------------------------------------------------------------
(* Combining two inputs: both are subscribed through nodes of kind "ei" that *)
(* tell one node of kind "cb" (behind a shared subscriber) what their side   *)
(* did. Per side: v the last value (<<>>: none yet), q the values waiting to *)
(* be paired, c completed, z closed.                                         *)
CbSide == [v |-> <<>>, q |-> <<>>, c |-> FALSE, z |-> FALSE]
CbNode(O, d) == [k |-> "cb", a |-> O, o |-> d, s |-> <<CbSide, CbSide>>]

CbTake(a, s, y) ==
  CASE y[1] = "n" ->
         [s EXCEPT !.v = <<y[2]>>,
                   !.q = IF a[1] # "zip" THEN @
                         ELSE IF Len(@) < a[4] THEN Append(@, y[2])
                         ELSE IF a[5] = 0 THEN LastN(Append(@, y[2]), a[4]) ELSE @]
    [] y[1] = "c" -> [s EXCEPT !.c = TRUE, !.z = TRUE]
    [] OTHER -> [s EXCEPT !.z = TRUE]

\* nothing can be combined any more
CbOver(a, s, f(_)) ==
  CASE a[1] = "zip" -> \E i \in 1..2 : f(s[i]) /\ s[i].q = <<>>
    [] a[1] = "cl" -> (f(s[1]) /\ f(s[2])) \/ \E i \in 1..2 : f(s[i]) /\ s[i].v = <<>>
    [] OTHER -> f(s[1]) /\ f(s[2])

CbChange(s, just) == IF s.v = <<>> THEN <<CNONE>> ELSE <<IF just THEN CJUST ELSE CLATEST>> \o s.v[1]

CbEnd(st, n) ==
  LET d == st.nd[n]
      \* an input that ended without a value while the other one never emitted either only unsubscribes
      dull == d.a[1] = "cl" /\ \E i \in 1..2 : d.s[i].v = <<>> /\ ~d.s[i].z
      s1 == IF Closed(st, d.o) \/ dull \/ ~CbOver(d.a, d.s, LAMBDA s : s.c) THEN st ELSE Push(st, d.o, <<"c">>)
  IN IF Closed(s1, d.o) \/ ~CbOver(d.a, d.s, LAMBDA s : s.z) THEN s1 ELSE Push(s1, d.o, <<"u">>)

CbPush(st, n, x) ==    \* x = <<"n", <<side, notification>>>>
  IF x[1] = "u" THEN Put(st, <<8>>) ELSE
  LET d == st.nd[n]   i == x[2][1]   y == x[2][2]
      s == [d.s EXCEPT ![i] = CbTake(d.a, @, y)]
      s0 == Upd(st, n, [d EXCEPT !.s = s])
      both == s[1].v # <<>> /\ s[2].v # <<>>
      new == y[1] = "n" /\ ~Closed(st, d.o)
  IN IF y[1] = "e" THEN Push(s0, d.o, y)
     ELSE CASE d.a[1] = "zip" ->
            IF new /\ s[1].q # <<>> /\ s[2].q # <<>>
            THEN CbEnd(Push(Upd(st, n, [d EXCEPT !.s = <<[s[1] EXCEPT !.q = Tail(@)], [s[2] EXCEPT !.q = Tail(@)]>>]),
                            d.o, <<"n", Pr(s[1].q[1], s[2].q[1])>>), n)
            ELSE CbEnd(s0, n)
       [] d.a[1] = "join" ->
            IF s[1].c /\ s[2].c /\ both /\ ~Closed(s0, d.o)
            THEN LET s1 == Push(s0, d.o, <<"n", Pr(s[1].v[1], s[2].v[1])>>) IN Push(s1, d.o, <<"c">>)
            ELSE CbEnd(s0, n)
       [] OTHER ->
            LET s1 == CbEnd(s0, n) IN
            IF y[1] # "n" \/ Closed(s1, d.o) \/ (d.a[1] = "cl" /\ ~both) THEN s1
            ELSE Push(s1, d.o, <<"n", IF d.a[1] = "cl" THEN Pr(s[1].v[1], s[2].v[1])
                                     ELSE Pr(CbChange(s[1], i = 1), CbChange(s[2], i = 2))>>)

CombOps == {"cl", "cc", "zip", "join"}
EiNode(sh, i) == [k |-> "ei", o |-> sh, side |-> i, cl |-> FALSE]
EiPush(st, n, x) ==
  LET d == st.nd[n] IN
  IF x[1] = "d" \/ d.cl THEN st
  ELSE ShPush(IF x[1] = "n" THEN st ELSE Upd(st, n, [d EXCEPT !.cl = TRUE]), d.o, <<"n", <<d.side, x>> >>)
CbSubscribe(st, O, d) ==
  LET s1 == NewNode(st, CbNode(O, d))
      s2 == NewSs(NewNode(s1, ShNode(Len(s1.nd))), <<>>)
      sh == Len(s2.nd)   i == Len(s2.ss)
      s3 == NewNode(s2, EiNode(sh, 1))
      s4 == Subscribe(s3, O[2], Len(s3.nd))
      h1 == s4.ret
      s5 == NewNode(s4, EiNode(sh, 2))
      s6 == Subscribe(s5, O[3], Len(s5.nd))
      h2 == s6.ret
      s7 == SsAdd(SsAdd(AddTd(s6, sh, <<"s", i>>), i, <<"h", h1>>), i, <<"h", h2>>)
  IN NewHandle(s7, [k |-> "ss", i |-> i])

(* with_latest_from: "wl" is the operator, "wi" what the other source is subscribed to *)
WlPush(st, n, x) ==
  LET d == st.nd[n] IN
  CASE x[1] = "n" -> IF d.v = <<>> THEN st ELSE ShPush(st, d.o, <<"n", Pr(x[2], d.v[1])>>)
    [] x[1] = "d" -> st
    [] OTHER -> ShPush(st, d.o, x)

WiClose(st, n) ==
  LET d == st.nd[n] IN
  IF d.cl THEN st ELSE RunTds(Upd(st, n, [d EXCEPT !.cl = TRUE, !.tds = <<>>]), d.tds)
WiPush(st, n, x) ==
  LET d == st.nd[n]   w == st.nd[d.p] IN
  IF d.cl THEN st
  ELSE CASE x[1] = "n" -> Upd(st, d.p, [w EXCEPT !.v = <<x[2]>>])
         [] x[1] = "e" -> WiClose(ShPush(st, w.o, x), n)
         [] x[1] = "c" -> WiClose(IF w.v = <<>> THEN ShPush(st, w.o, x) ELSE st, n)
         [] OTHER -> WiClose(st, n)

\* the operator is node Len(st.nd) + 2 afterwards
WlNew(st, O, d) ==
  LET sh == Len(st.nd) + 1   n == sh + 1
      s1 == NewNode(NewNode(st, ShNode(d)), [k |-> "wl", o |-> sh, v |-> <<>>])
      s2 == NewNode(s1, [k |-> "wi", p |-> n, cl |-> FALSE, tds |-> <<>>])
      s3 == Subscribe(s2, O, Len(s2.nd))
  IN AddTd(s3, sh, <<"h", s3.ret>>)

-----------------------------------------------------------------------------
(* Connectables: consumers subscribe a connector subject, connecting         *)
(* subscribes that subject to the source.  A connection belongs to the       *)
(* connector there was when it was made; a new connector is made when there  *)
(* is none (options decide when the current one is let go).                  *)
CnNew(O, kind, bits) ==
  [src |-> O, kind |-> kind, ref |-> bits % 2 = 1, rd |-> (bits \div 2) % 2 = 1, re |-> (bits \div 4) % 2 = 1,
   rk |-> (bits \div 8) % 2 = 1, cs |-> 0, one |-> 0, slot |-> 0, cnt |-> 0, fin |-> FALSE, cing |-> FALSE,
   dreq |-> FALSE, rz |-> FALSE]

Connector(st, c) ==
  LET e == st.cn[c] IN
  IF e.cs # 0 THEN st
  ELSE IF e.one # 0 THEN [st EXCEPT !.cn[c].cs = e.one]
  ELSE LET j == CASE e.kind = "rep" -> <<"rep", 2>> [] e.kind = "beh" -> <<"beh", <<99>> >> [] OTHER -> <<"pub">>
           k == Len(st.sb) + 1
       IN [st EXCEPT !.sb = Append(@, Subject(j)), !.cn[c].cs = k, !.cn[c].one = IF e.kind = "one" THEN k ELSE 0]

CnSubscribe(st, c, d) ==
  LET s1 == Connector(st, c)
      s2 == SbSubscribe(s1, s1.cn[c].cs, d)
      h == s2.ret
  IN IF HClosed(s2, h) THEN s2
     ELSE Ret(HAddTd([s2 EXCEPT !.cn[c].cnt = @ + 1], h, <<"rc", c>>), h)

CnDisconnect0(st, c) ==
  LET e == st.cn[c]
      s1 == [st EXCEPT !.cn[c].dreq = e.cing, !.cn[c].slot = 0]
  IN IF e.slot # 0 /\ ~HClosed(s1, e.slot) THEN HUnsub(s1, e.slot) ELSE s1

CnReset(st, c) == [CnDisconnect(st, c) EXCEPT !.cn[c].cs = 0]

CnConnected(st, c) == LET e == st.cn[c] IN e.slot # 0 /\ ~HClosed(st, e.slot)

CnConnect0(st, c) ==
  IF ~st.cn[c].fin /\ CnConnected(st, c) THEN st
  ELSE
  LET s1 == Connector([st EXCEPT !.cn[c].fin = FALSE, !.cn[c].cing = TRUE, !.cn[c].dreq = FALSE, !.cn[c].rz = FALSE], c)
      k == s1.cn[c].cs
      s2 == NewNode(s1, [k |-> "cs", c |-> c, sb |-> k, cl |-> SbClosed(s1.sb[k]), tds |-> <<>>, live |-> TRUE])
      s3 == Subscribe(s2, s1.cn[c].src, Len(s2.nd))
      e == s3.cn[c]
      s4 == [s3 EXCEPT !.cn[c].slot = s3.ret, !.cn[c].cing = FALSE, !.cn[c].dreq = FALSE, !.cn[c].rz = FALSE]
  IN IF (e.dreq \/ (e.rz /\ e.cnt = 0)) /\ ~e.fin THEN CnDisconnect(s4, c) ELSE s4

CsEnd(st, n) ==
  LET d == st.nd[n] IN
  IF d.cl THEN st ELSE RunTds(Upd(st, n, [d EXCEPT !.cl = TRUE, !.tds = <<>>]), d.tds)

CsPush(st, n, x) ==
  LET d == st.nd[n]   e == st.cn[d.c] IN
  IF d.cl \/ SbClosed(st.sb[d.sb]) \/ x[1] = "d" THEN st
  ELSE IF x[1] = "n" THEN SbPush(st, d.sb, x)
  ELSE IF x[1] = "u" THEN CsEnd(IF e.rd THEN [st EXCEPT !.cn[d.c].cs = 0] ELSE st, n)
  ELSE LET drop == (x[1] = "e" /\ e.re) \/ (x[1] = "c" /\ e.rk)
           s1 == [st EXCEPT !.cn[d.c].fin = TRUE, !.cn[d.c].cs = IF drop THEN 0 ELSE @]
       IN CsEnd(SbPush(s1, d.sb, x), n)

\* the connectable of a share operator: one for every place where it is built
ShareOf(st, src, rest, op) ==
  IF op[4] \in DOMAIN st.shr THEN st
  ELSE [st EXCEPT !.cn = Append(@, CnNew(IF rest = <<>> THEN src ELSE <<"p", src, rest>>, op[2], op[3])),
                  !.shr = (op[4] :> Len(st.cn) + 1) @@ @]

ShareSubscribe(st, src, rest, op, d) ==
  LET s1 == ShareOf(st, src, rest, op)
      c == s1.shr[op[4]]
      s2 == CnSubscribe(s1, c, d)
      h == s2.ret
  IN IF HClosed(s2, h) \/ s2.cn[c].cing THEN s2 ELSE Ret(CnConnect(s2, c), h)

-----------------------------------------------------------------------------
(* Dispatch over nodes *)
Push0(st, n, x) ==
  LET k == st.nd[n].k IN
  CASE k = "dest" -> DestPush(st, n, x)
    [] k = "op" -> OpPush(st, n, x)
    [] k = "tap" -> TapPush(st, n, x)
    [] k = "sh" -> IF x[1] = "d" THEN st ELSE ShPush(st, n, x)
    [] k = "tm" -> TmPush(st, n, x)
    [] k = "ho" -> IF st.nd[n].pol = "k" THEN CaPush(st, n, x) ELSE HoPush(st, n, x)
    [] k = "rs" -> RsPush(st, n, x)
    [] k = "hi" -> HiPush(st, n, x)
    [] k = "ei" -> EiPush(st, n, x)
    [] k = "cb" -> CbPush(st, n, x)
    [] k = "wl" -> WlPush(st, n, x)
    [] k = "wi" -> WiPush(st, n, x)
    [] k = "cs" -> CsPush(st, n, x)

Closed(st, n) ==
  LET d == st.nd[n] IN
  CASE d.k = "dest" -> d.cl
    [] d.k = "op" -> (d.cl /\ d.a[1] \in OwnFlag) \/ Closed(st, d.o)
    [] d.k = "tap" -> Closed(st, d.o)
    [] d.k = "sh" -> ShClosed(st, n)
    [] d.k = "tm" -> TmClosed(st, n)
    [] d.k = "ho" -> IF d.pol = "k" THEN st.ss[d.ot].cl ELSE HoClosed(st, n)
    [] d.k \in {"hi", "wi"} -> d.cl
    [] d.k = "ei" -> d.cl \/ Closed(st, d.o)
    [] d.k \in {"cb", "wl", "rs"} -> Closed(st, d.o)
    [] d.k = "cs" -> d.cl \/ SbClosed(st.sb[d.sb])

AddTd0(st, n, t) ==
  LET d == st.nd[n] IN
  CASE d.k \in {"dest", "hi", "wi", "cs"} -> IF d.cl THEN RunTd(st, t) ELSE Upd(st, n, [d EXCEPT !.tds = Append(@, t)])
    [] d.k = "ho" -> IF d.pol = "c" THEN SsAdd(st, d.ot, t)
                     ELSE IF Closed(st, n) THEN RunTd(st, t) ELSE AddTd(st, d.o, t)
    [] d.k \in {"op", "tap", "sh", "tm", "ei", "cb", "wl", "rs"} -> AddTd(st, d.o, t)

-----------------------------------------------------------------------------
(* Handles: what subscribe returns *)
HClosed(st, h) ==
  LET d == st.hd[h] IN
  CASE d.k = "inert" -> TRUE
    \* whoever is being notified counts as open
    [] d.k = "mc" -> d.tk \/ (d.n \notin st.lk /\ Closed(st, d.n))
    [] d.k \in {"node", "wk"} -> Closed(st, d.n)
    [] d.k = "ss" -> st.ss[d.i].cl

HUnsub0(st, h) ==
  LET d == st.hd[h] IN
  CASE d.k = "inert" -> st
    [] d.k = "mc" ->
         LET s1 == IF HClosed(st, h) THEN st ELSE SbSend(st, d.sk, <<"ui", d.id>>)
         IN [s1 EXCEPT !.hd[h].tk = TRUE]
    [] d.k = "node" -> Push(st, d.n, <<"u">>)
    [] d.k = "wk" ->
         LET s1 == IF d.cid = 0 THEN st ELSE ScQ(st, <<"C", d.cid>>)
         IN IF Closed(s1, d.n) THEN ShTry(s1, d.n) ELSE Push(s1, d.n, <<"u">>)
    [] d.k = "ss" -> SsUnsub(st, d.i)

-----------------------------------------------------------------------------
(* Observables *)
\* a source that is finished when subscribe returns: the chain is unsubscribed if it is
\* still open, and dropped (<<"d">>)
Inert(st, d) ==
  NewHandle(Push(IF Closed(st, d) THEN st ELSE Push(st, d, <<"u">>), d, <<"d">>), [k |-> "inert"])

\* an iterator is only advanced while its consumer is open (id > 0: every pull is observed)
IterPush(st, vs, i, d, id) ==
  LET s0 == IF id > 0 THEN Put(st, <<7, id, i - 1>>) ELSE st IN
  IF i > Len(vs) THEN s0
  ELSE IF Closed(s0, d) THEN s0
  ELSE IterPush(Push(s0, d, <<"n", vs[i]>>), vs, i + 1, d, id)

RECURSIVE IterAll(_, _, _, _, _)
\* the same with every item pulled before looking at the consumer
IterAll(st, vs, i, d, id) ==
  LET s0 == IF id > 0 THEN Put(st, <<7, id, i - 1>>) ELSE st IN
  IF i > Len(vs) THEN [st |-> s0, all |-> TRUE]
  ELSE IF Closed(s0, d) THEN [st |-> s0, all |-> FALSE]
  ELSE IterAll(Push(s0, d, <<"n", vs[i]>>), vs, i + 1, d, id)

CreatePush(st, xs, d) ==
  IF xs = <<>> THEN st
  ELSE CreatePush(Push(st, d, IF Head(xs)[1] \in {"n", "e", "u"} THEN Head(xs) ELSE <<"c">>), Tail(xs), d)

IsSyncOp(op) == op[1] \in SyncOps

OpNode(op, d) == [k |-> IF op[1] = "tap" THEN "tap" ELSE "op", a |-> op, s |-> SyncInit(op), cl |-> FALSE, o |-> d]

RECURSIVE HoNextAll(_, _, _)
HoNextAll(st, n, os) == IF os = <<>> THEN st ELSE HoNextAll(HoNext(st, n, Head(os)), n, Tail(os))

\* subscribes  src | ops  to d
SubPipe0(st, src, ops, d) ==
  IF ops = <<>> THEN Subscribe(st, src, d)
  ELSE
  LET op == Lst(ops)   rest == SubSeq(ops, 1, Len(ops) - 1)   ex == Expand(op) IN
  CASE ex # <<op>> -> SubPipe(st, src, rest \o ex, d)
    [] op[1] = "take" ->
         LET s1 == IF op[2] = 0 /\ ~Closed(st, d) THEN Push(st, d, <<"c">>) ELSE st
             s2 == NewNode(s1, [OpNode(op, d) EXCEPT !.cl = Closed(s1, d)])
         IN SubPipe(s2, src, rest, Len(s2.nd))
    [] op[1] = "fin" -> SubPipe(AddTd(st, d, <<"log", 5, op[2]>>), src, rest, d)
    [] op[1] = "sw" -> SubPipe(Push(st, d, <<"n", op[2]>>), src, rest, d)
    [] op[1] = "onsub" ->
         LET s1 == Put(st, <<6, op[2]>>) IN
         SubPipe(IF Len(op) > 2 THEN Push(s1, d, <<"n", <<op[3]>> >>) ELSE s1, src, rest, d)
    [] op[1] \in TmOps -> LET s1 == TmNew(st, op, d) IN SubPipe(s1, src, rest, Len(s1.nd))
    [] op[1] = "subon" ->
         LET s1 == NewNode(NewSs(NewCid(st), <<>>), ShNode(d))
             sh == Len(s1.nd)   i == Len(s1.ss)   cid == s1.sc.ncid
             s2 == Schedule(s1, cid, Work("d", op[2], <<"subon", sh, i, src, rest>>))
             s3 == AddTd(SsAdd(s2, i, <<"cancel", cid>>), d, <<"s", i>>)
         IN NewHandle(s3, [k |-> "node", n |-> sh])
    [] op[1] \in DOMAIN FlatPol ->
         LET s1 == HoNew(st, FlatPol[op[1]], IF op[1] \in {"cm", "ca"} THEN 1 ELSE op[2], op[3], d)
         IN SubPipe(s1, src, rest, Len(st.nd) + 2)
    [] op[1] = "catch" -> LET s1 == CaNew(st, op[2], d) IN SubPipe(s1, src, rest, Len(st.nd) + 2)
    [] op[1] = "share" -> ShareSubscribe(st, src, rest, op, d)
    [] op[1] = "retry" -> RrSubscribe(st, op[2], src, rest, d)
    [] op[1] = "wlf" -> LET s1 == WlNew(st, op[2], d) IN SubPipe(s1, src, rest, Len(st.nd) + 2)
    [] IsSyncOp(op) -> LET s1 == NewNode(st, OpNode(op, d)) IN SubPipe(s1, src, rest, Len(s1.nd))

Subscribe0(st, O, d) ==
  CASE O[1] = "subj" ->
         LET k == O[2] + 1   s == st.sb[k] IN
         IF s.kind = "prov"
         THEN LET how == IF Len(O) > 2 THEN O[3] ELSE 0
                  s1 == NewNode(st, OpNode(<<"pv", how, IF Len(O) > 3 THEN O[4] ELSE 0>>, d))
              IN SbSubscribe(s1, k, Len(s1.nd))
         ELSE SbSubscribe(st, k, d)
    [] O[1] = "just" -> Inert(PushSeq(st, d, << <<"n", O[2]>>, <<"c">> >>), d)
    [] O[1] = "iter" ->
         LET s1 == IterPush(st, O[2], 1, d, 0) IN Inert(IF Closed(s1, d) THEN s1 ELSE Push(s1, d, <<"c">>), d)
    [] O[1] = "citer" ->
         LET s1 == IterPush(st, O[3], 1, d, O[2]) IN Inert(IF Closed(s1, d) THEN s1 ELSE Push(s1, d, <<"c">>), d)
    [] O[1] = "empty" -> Inert(Push(st, d, <<"c">>), d)
    [] O[1] = "throw" -> Inert(Push(st, d, <<"e", O[2]>>), d)
    [] O[1] = "closed" -> Inert(st, d)
    [] O[1] = "never" -> NewHandle(st, [k |-> "node", n |-> d])
    [] O[1] = "create" -> NewHandle(CreatePush(st, O[2], d), [k |-> "node", n |-> d])
    [] O[1] = "def" -> Subscribe(Put(st, <<6, O[2]>>), O[3], d)
    [] O[1] = "seq" ->
         LET n == IF O[2] \in DOMAIN st.seqc THEN st.seqc[O[2]] ELSE 0
             j == IF n + 1 > Len(O[3]) THEN Len(O[3]) ELSE n + 1
         IN Subscribe([Put(st, <<6, O[2]>>) EXCEPT !.seqc = (O[2] :> (n + 1)) @@ @], O[3][j], d)
    [] O[1] \in {"interval", "timer"} ->
         LET s1 == NewNode(st, ShNode(d))
             sh == Len(s1.nd)
             first == O[1] = "interval" /\ O[3] # 0
             s2 == IF first THEN ShPush(s1, sh, <<"n", <<0>> >>) ELSE s1
             s3 == NewCid(s2)
             cid == s3.sc.ncid
             w == IF O[1] = "timer" THEN Work("d", O[2], <<"tmr", sh>>)
                  ELSE [Work("r", O[2], <<"ivl", sh, IF first THEN 1 ELSE 0>>) EXCEPT !.max = O[4]]
             s4 == AddTd(Schedule(s3, cid, w), d, <<"cancel", cid>>)
         IN NewHandle(s4, [k |-> "wk", n |-> sh, cid |-> cid])
    [] O[1] \in {"iot", "ciot"} ->
         LET id == IF O[1] = "ciot" THEN O[5] ELSE 0   nth == O[3]   vs == O[2] IN
         IF nth = 0 THEN
           LET s1 == IterAll(st, vs, 1, d, id)
               s2 == NewNode(s1.st, ShNode(d))
               s3 == IF s1.all /\ ~Closed(s2, d) THEN Push(s2, d, <<"c">>) ELSE s2
           IN NewHandle(s3, [k |-> "wk", n |-> Len(s3.nd), cid |-> 0])
         ELSE
           LET s1 == NewNode(st, ShNode(d))
               sh == Len(s1.nd)
               it0 == [pos |-> 0, pk |-> FALSE]
               p == PullIt(s1, id, vs, it0)
               s2 == IF Len(vs) > 0 THEN ShPush(p.st, sh, <<"n", vs[1]>>) ELSE p.st
               pk == PeekIt(s2, id, vs, p.it)
               s3 == IF ShClosed(s2, sh) THEN s2 ELSE IF Len(vs) <= 1 THEN ShPush(pk.st, sh, <<"c">>) ELSE pk.st
               started == O[4] # 0
               s4 == IF started THEN s3 ELSE s1
               it == IF started THEN pk.it ELSE it0
           IN IF started /\ ShClosed(s4, sh) THEN NewHandle(s4, [k |-> "wk", n |-> sh, cid |-> 0])
              ELSE LET s5 == NewCid(s4)
                       cid == s5.sc.ncid
                       s6 == AddTd(Schedule(s5, cid, Work("c", 0, <<"iot", sh, nth, vs, id, 0, it>>)), d, <<"cancel", cid>>)
                   IN NewHandle(s6, [k |-> "wk", n |-> sh, cid |-> cid])
    [] O[1] \in {"merge", "concat"} ->
         LET os == Lst(O)
             n == Len(st.nd) + 2
             s1 == HoNew(st, "c", IF O[1] = "merge" THEN O[2] ELSE 1, <<>>, d)
         IN NewHandle(HoPush(HoNextAll(s1, n, os), n, <<"c">>), [k |-> "node", n |-> n])
    [] O[1] \in CombOps -> CbSubscribe(st, O, d)
    [] O[1] = "conn" -> CnSubscribe(st, O[2] + 1, d)
    [] O[1] = "ref" -> Subscribe(st, st.cfg.obs[O[2] + 1], d)
    [] O[1] = "p" -> SubPipe(st, O[2], O[3], d)

-----------------------------------------------------------------------------
(* Acts: the calls the environment makes *)
NewDest(st, id) ==
  NewNode(st, [k |-> "dest", id |-> id, sk |-> 0, cl |-> FALSE, cnt |-> 0, tds |-> << <<"log", 4, id>> >>])

Has(st, id) == id \in DOMAIN st.subs /\ id \notin st.taken
WithSub(st, id, F(_, _)) ==
  IF ~Has(st, id) THEN st
  ELSE [F([st EXCEPT !.taken = @ \cup {id}], st.subs[id]) EXCEPT !.taken = @ \ {id}]

PutSub(st, id) == [st EXCEPT !.subs = (id :> st.ret) @@ @]

Act0(st, a) ==
  CASE a[1] = "next" ->
         SbPush(st, a[2] + 1, <<"n", IF st.sb[a[2] + 1].kind = "prov" THEN Append(a[3], IF Len(a) > 3 THEN a[4] ELSE 0)
                                     ELSE a[3]>>)
    [] a[1] = "err" -> SbPush(st, a[2] + 1, <<"e", a[3]>>)
    [] a[1] = "comp" -> SbPush(st, a[2] + 1, <<"c">>)
    [] a[1] = "usub" -> SbPush(st, a[2] + 1, <<"u">>)
    [] a[1] = "sub" ->
         LET s1 == NewDest(st, a[2]) IN PutSub(Subscribe(s1, a[3], Len(s1.nd)), a[2])
    [] a[1] = "subj" ->
         LET s1 == NewNode(st, [k |-> "dest", id |-> 0, sk |-> a[4] + 1, cl |-> FALSE, cnt |-> 0, tds |-> <<>>]) IN PutSub(Subscribe(s1, a[3], Len(s1.nd)), a[2])
    [] a[1] = "unsub" -> WithSub(st, a[2], LAMBDA s, h : HUnsub(s, h))
    [] a[1] = "drop" ->
         IF a[2] \notin DOMAIN st.subs THEN st
         ELSE LET h == st.subs[a[2]]
                  s1 == [st EXCEPT !.subs = [i \in DOMAIN @ \ {a[2]} |-> @[i]]]
              IN IF a[2] \in st.taken THEN s1 ELSE HUnsub(s1, h)
    [] a[1] = "td" -> WithSub(st, a[2], LAMBDA s, h : HAddTd(s, h, <<"log", 5, a[3]>>))
    [] a[1] = "tick" -> TickTo(st, st.sc.now + a[2])
    [] a[1] = "tickto" -> TickTo(st, a[2])
    [] a[1] = "w" ->
         LET b == <<"user", a[2], 0, a[7], a[8]>>
             w == [Work(a[3], a[4], b) EXCEPT !.imm = a[5] # 0, !.max = a[6]]
             base == a[2] % 100
         IN IF a[3] = "v" THEN ScQ([st EXCEPT !.sc.uinv = @ \cup {a[2]}], <<"AI", a[2], w>>)
            ELSE Schedule([st EXCEPT !.sc.ucid = @ \cup {base}], 100000 + base, w)
    [] a[1] = "cancel" -> IF a[2] \in st.sc.ucid THEN ScQ(st, <<"C", 100000 + a[2]>>) ELSE st
    [] a[1] = "invoke" -> IF a[2] \in st.sc.uinv THEN ScQ(st, <<"I", a[2]>>) ELSE st
    [] a[1] = "cinv" -> IF a[2] \in st.sc.uinv THEN ScQ(st, <<"CI", a[2]>>) ELSE st
    [] a[1] = "conn" -> CnConnect(st, a[2] + 1)
    [] a[1] = "disc" -> CnDisconnect(st, a[2] + 1)
    [] a[1] = "reset" -> CnReset(st, a[2] + 1)
    [] a[1] = "nop" -> st

-----------------------------------------------------------------------------
Do(st, c) ==
  CASE c[1] = "Push" -> Push0(st, c[2], c[3])
    [] c[1] = "AddTd" -> AddTd0(st, c[2], c[3])
    [] c[1] = "RunTds" -> RunTds0(st, c[2])
    [] c[1] = "Act" -> Act0(st, c[2])
    [] c[1] = "Subscribe" -> Subscribe0(st, c[2], c[3])
    [] c[1] = "HUnsub" -> HUnsub0(st, c[2])
    [] c[1] = "SbPush" -> SbPush0(st, c[2], c[3])
    [] c[1] = "SubPipe" -> SubPipe0(st, c[2], c[3], c[4])
    [] c[1] = "Exec" -> Exec0(st, c[2], c[3])
    [] c[1] = "SsUnsub" -> SsUnsub0(st, c[2])
    [] c[1] = "HoShut" -> HoShut0(st, c[2])
    [] c[1] = "ShPush" -> ShPush0(st, c[2], c[3])
    [] c[1] = "CnDisconnect" -> CnDisconnect0(st, c[2])
    [] c[1] = "CnConnect" -> CnConnect0(st, c[2])

-----------------------------------------------------------------------------
(* Initial state for a configuration, and what is visible after an act *)
Init0(cfg) ==
  [cfg |-> cfg, nd |-> <<>>, sb |-> [i \in 1..Len(cfg.subjects) |-> Subject(cfg.subjects[i])],
   cn |-> [i \in 1..Len(cfg.conns) |-> CnNew(cfg.conns[i][2], cfg.conns[i][3], cfg.conns[i][4])], shr |-> <<>>,
   hd |-> <<>>, lk |-> {}, ss |-> <<>>, subs |-> <<>>, taken |-> {}, fired |-> {}, tapdone |-> {}, seqc |-> <<>>,
   log |-> <<>>, ret |-> 0, wr |-> [done |-> FALSE, b |-> 0],
   sc |-> [now |-> 0, snow |-> 0, q |-> <<>>, act |-> <<>>, nextw |-> 1, inv |-> <<>>, invd |-> <<>>,
           ticked |-> {}, ncid |-> 0, ucid |-> {}, uinv |-> {}]]

Step(st, a) == Act([st EXCEPT !.log = <<>>], a)

B(b) == IF b THEN 1 ELSE 0
ClosedFlags(st) ==
  LET ids == SetToSortSeq(DOMAIN st.subs, LAMBDA x, y : x < y)
  IN FlattenSeq([i \in 1..Len(ids) |-> <<ids[i], B(HClosed(st, st.subs[ids[i]]))>>])
SubjectFlags(st) == [i \in 1..Len(st.cfg.subjects) |-> B(SbClosed(st.sb[i]))]
\* which of the configured connectables are connected
Connected(st) == [i \in 1..Len(st.cfg.conns) |-> B(CnConnected(st, i))]
Stored(st) ==
  [i \in 1..Len(st.cfg.subjects) |->
     IF st.sb[i].kind = "prov" THEN [j \in 1..Len(st.sb[i].vals) |-> LET v == st.sb[i].vals[j] IN Pr(SubSeq(v, 1, Len(v) - 1), <<Lst(v)>>)]
     ELSE st.sb[i].vals]
=============================================================================
