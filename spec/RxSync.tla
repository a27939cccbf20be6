------------------------------- MODULE RxSync -------------------------------
(* Synchronous operators: what one operator does with one notification.     *)
(* Pure: SyncStep(a, s, x) gives the operator's next state and the sequence *)
(* of notifications it sends downstream.                                    *)
(*   a : the operator's syntax, <<name, parameters...>>                     *)
(*   s : its state                                                          *)
(*   x : <<"n", value>> | <<"e", error>> | <<"c">>                          *)
(* Values are prefix encoded sequences of integers.                         *)
EXTENDS Integers, Sequences, SequencesExt

PAIR == 10001   LST == 10002    OKV == 10005    ERRV == 10006
NNEXT == 10007  NERR == 10008   NCOMP == 10009  UNITV == 10010
CJUST == 10011  CLATEST == 10012  CNONE == 10013
ENONEXT == 10021  ENOMATCH == 10022  ERANGE == 10023

Lst(v) == v[Len(v)]
Add(v, k) == [v EXCEPT ![Len(v)] = @ + k]
Pr(a, b) == <<PAIR>> \o a \o b
ListV(l) == <<LST, Len(l)>> \o FlattenSeq(l)
Modr(v, a) == Lst(v) % a[2] = a[3]

\* operators that ComposeSync expands into other operators
Expand(op) ==
  IF op[1] = "cmp" THEN
    CASE op[2] = 0 -> << <<"map", 1>>, <<"take", 2>> >>
      [] op[2] = 1 -> << <<"skip", 1>>, <<"scan", <<10>>>> >>
      [] op[2] = 2 -> << <<"map", 2>>, <<"filter", 2, 0>>, <<"count">> >>
      [] OTHER     -> << <<"take", 3>>, <<"ew", <<77>>>> >>
  ELSE IF op[1] = "matdemat" THEN << <<"mat">>, <<"demat0">> >>
  ELSE << op >>

SyncOps == {"map", "maps", "filter", "fidx", "fmap", "take", "skip", "first", "find", "findi", "elat",
            "elatd", "isempty", "count", "scan", "reduce", "pair", "buf", "ew", "enum", "tapn", "onn", "lo",
            "mat", "demat", "demat0", "intores", "liftres", "maperr", "mapinto", "ident", "erase", "tap", "mapnever", "pv"}

SyncInit(a) ==
  CASE a[1] \in {"take", "skip"} -> a[2]
    [] a[1] \in {"scan", "reduce"} -> a[2]
    [] a[1] \in {"fidx", "count", "enum", "findi", "elat", "elatd"} -> 0
    [] a[1] \in {"find"} -> FALSE
    [] a[1] \in {"pair", "buf"} -> <<>>
    [] OTHER -> 0

N(v) == <<"n", v>>   E(e) == <<"e", e>>   C == <<"c">>
Res(s, outs) == [s |-> s, outs |-> outs, ev |-> <<>>]
ResEv(s, outs, ev) == [s |-> s, outs |-> outs, ev |-> ev]

SyncNext(a, s, v) ==
  LET k == a[1] IN
  CASE k = "map"    -> Res(s, <<N(Add(v, a[2]))>>)
    [] k = "maps"   -> ResEv(s, <<N(v)>>, << <<7, a[2]>> \o v >>)
    [] k = "filter" -> Res(s, IF Modr(v, a) THEN <<N(v)>> ELSE <<>>)
    [] k = "fidx"   -> Res(s + 1, IF s % a[2] = 0 THEN <<N(v)>> ELSE <<>>)
    [] k = "fmap"   -> Res(s, IF Modr(v, a) THEN <<N(Add(v, 100))>> ELSE <<>>)
    [] k = "take"   -> IF s = 0 THEN Res(s, <<>>) ELSE Res(s - 1, IF s = 1 THEN <<N(v), C>> ELSE <<N(v)>>)
    [] k = "skip"   -> IF s = 0 THEN Res(s, <<N(v)>>) ELSE Res(s - 1, <<>>)
    [] k = "first"  -> Res(s, <<N(v), C>>)
    [] k = "find"   -> IF Modr(v, a) THEN Res(TRUE, <<N(v), C>>) ELSE Res(TRUE, <<>>)
    [] k = "findi"  -> IF Modr(v, a) THEN Res(s + 1, <<N(<<s>>), C>>) ELSE Res(s + 1, <<>>)
    [] k \in {"elat", "elatd"} -> IF s = a[2] THEN Res(s, <<N(v), C>>) ELSE Res(s + 1, <<>>)
    [] k = "isempty" -> Res(s, <<N(<<0>>), C>>)
    [] k = "count"  -> Res(s + 1, <<>>)
    [] k = "scan"   -> LET t == Add(s, Lst(v)) IN Res(t, <<N(t)>>)
    [] k = "reduce" -> Res(Add(s, Lst(v)), <<>>)
    [] k = "pair"   -> Res(v, IF s = <<>> THEN <<>> ELSE <<N(Pr(s, v))>>)
    [] k = "buf"    -> LET t == Append(s, v) IN
                       IF Len(t) = a[2] THEN Res(<<>>, <<N(ListV(t))>>) ELSE Res(t, <<>>)
    [] k = "enum"   -> Res(s + 1, <<N(Pr(v, <<s>>))>>)
    [] k = "tapn"   -> ResEv(s, <<N(v)>>, << <<7, a[2]>> \o v >>)
    [] k = "pv"     -> LET w == SubSeq(v, 1, Len(v) - 1)   p == Lst(v) IN  \* views of a provenance subject
                       CASE a[2] = 0 -> Res(s, <<N(Pr(w, <<p>>))>>)
                         [] a[2] = 1 -> Res(s + 1, IF p = a[3] THEN <<N(w)>> ELSE <<>>)
                         [] a[2] = 2 -> Res(s + 1, IF s = 0 \/ p = a[3] THEN <<N(w)>> ELSE <<>>)
                         [] OTHER    -> Res(s, <<N(w)>>)
    [] k = "onn"    -> Res(s, (IF Lst(v) = 7 THEN <<N(Add(v, 500))>> ELSE <<>>)
                              \o (IF Modr(v, a) THEN <<N(v)>> ELSE <<>>))
    [] k = "lo"     -> Res(s, IF Modr(v, a) THEN <<N(v)>> ELSE <<>>)
    [] k = "mat"    -> Res(s, <<N(<<NNEXT>> \o v)>>)
    [] k \in {"demat", "demat0"} ->
         (IF v[1] = NNEXT THEN Res(s, <<N(Tail(v))>>)
          ELSE IF v[1] = NERR THEN Res(s, <<E(Tail(v))>>)
          ELSE IF v[1] = NCOMP THEN Res(s, <<C>>)
          ELSE Res(s, <<N(v)>>))
    [] k = "intores" -> Res(s, <<N(<<OKV>> \o v)>>)
    [] k = "mapnever" -> Res(s, <<N(<<OKV>> \o v)>>)
    [] k = "liftres" -> Res(s, IF Modr(v, a) THEN <<E(v)>> ELSE <<N(v)>>)
    [] OTHER        -> Res(s, <<N(v)>>)

SyncError(a, s, e) ==
  LET k == a[1] IN
  CASE k = "mat"     -> Res(s, <<N(<<NERR>> \o e), C>>)
    [] k \in {"intores", "mapnever"} -> Res(s, <<N(<<ERRV>> \o e)>>)
    [] k = "demat"   -> Res(s, <<>>)
    [] k = "maperr"  -> Res(s, <<E(Add(e, a[2]))>>)
    [] OTHER         -> Res(s, <<E(e)>>)

SyncComplete(a, s) ==
  LET k == a[1] IN
  CASE k = "first"   -> Res(s, <<E(<<ENONEXT>>)>>)
    [] k = "find"    -> Res(s, <<E(IF s THEN <<ENOMATCH>> ELSE <<ENONEXT>>)>>)
    [] k = "findi"   -> Res(s, <<E(IF s > 0 THEN <<ENOMATCH>> ELSE <<ENONEXT>>)>>)
    [] k = "elat"    -> Res(s, <<E(<<ERANGE, a[2], s>>)>>)
    [] k = "elatd"   -> Res(s, <<N(a[3]), C>>)
    [] k = "isempty" -> Res(s, <<N(<<1>>), C>>)
    [] k = "count"   -> Res(s, <<N(<<s>>), C>>)
    [] k = "reduce"  -> Res(s, <<N(s), C>>)
    [] k = "buf"     -> Res(<<>>, IF s = <<>> THEN <<C>> ELSE <<N(ListV(s)), C>>)
    [] k = "ew"      -> Res(s, <<N(a[2]), C>>)
    [] k = "mat"     -> Res(s, <<N(<<NCOMP>>), C>>)
    [] OTHER         -> Res(s, <<C>>)

SyncStep(a, s, x) ==
  IF x[1] = "n" THEN SyncNext(a, s, x[2]) ELSE IF x[1] = "e" THEN SyncError(a, s, x[2]) ELSE SyncComplete(a, s)
=============================================================================
