-------------------------------- MODULE Lox --------------------------------
(***************************************************************************)
(* The Lox language as a small-step abstract machine.  A behaviour is one  *)
(* run of one program (all programs of LOX_PROGS are initial states).      *)
(*                                                                         *)
(*   ctl  what is evaluated:                                               *)
(*     <<"e", node>>        evaluate the expression or statement           *)
(*     <<"v", value>>       give the value to the continuation             *)
(*     <<"x", kind, value>> unwind: thr (throw) brk cont ret               *)
(*     <<"bv", kind, value>> a block returned: val, ret or brk             *)
(*     <<"y", value>>       the thread may be switched                     *)
(*     <<"wj", t>> <<"wl", mutex>>  waits for the end of a thread, a mutex *)
(*     <<"ten">>            the thread has ended                           *)
(*     <<"ord", map>>       the order of the map is chosen                   *)
(*     <<"fin", st, why, rc>> the main thread has ended (done, unc, exit)  *)
(*     <<"hk", st, why, rc>>  run the next atExit hook                     *)
(*     <<"out", st, why, rc>> the process has ended; <<"abort", reason>>   *)
(*   fr   frame: env (name -> cell), this, cref, cls, nm, kd, blk          *)
(*   k    continuation, a sequence of frames, top first                    *)
(*   h    heap (sequence of objects), s store (sequence of values)         *)
(*   g    global variables, c global constants, o printed lines            *)
(*   t    threads (the saved ctl, fr, k of those that don't run), cur the  *)
(*        running one, mx mutex -> owner, ax atExit hooks                  *)
(*   ld   paths of the scripts loaded by requireScript, al: constant ->    *)
(*        file to load for it, lp: the array of the load path              *)
(*   pp   states of the parent processes, ch child processes, rcy children *)
(*        that have printed and weren't waited for                         *)
(***************************************************************************)
EXTENDS LoxVal, IOUtils, Json

CONSTANT MaxSteps
Progs == JsonDeserialize(IOEnv.LOX_PROGS)

VARIABLE m

N(i) == Progs[m.pid].nodes[i]
ND(mm, i) == Progs[mm.pid].nodes[i]

(******************************* small helpers ****************************)
V(mm, v) == IF mm.ctl[1] = "abort" THEN mm ELSE [mm EXCEPT !.ctl = <<"v", v>>]
Ev(mm, i) == [mm EXCEPT !.ctl = <<"e", i>>]
X(mm, kd, v) == [mm EXCEPT !.ctl = <<"x", kd, v>>]
Ab(mm, why) == [mm EXCEPT !.ctl = <<"abort", why>>]
Push(mm, kk) == [mm EXCEPT !.k = <<kk>> \o @]
Pop(mm) == [mm EXCEPT !.k = Tail(@)]
Last_(mm) == Ref(Len(mm.h))
Alloc(mm, ob) == [mm EXCEPT !.h = Append(@, ob)]
VAlloc(mm, ob) == LET a == Alloc(mm, ob) IN V(a, Last_(a))
VStr(mm, str) == IF HasAbort(str) THEN Ab(mm, "show") ELSE IF Len(str) > 20000 THEN Ab(mm, "long") ELSE VAlloc(mm, MkStr(str))
Err(mm, cls, msg) ==
  LET a == Alloc(mm, MkStr(msg))
      b == Alloc(a, [MkInst(cls) EXCEPT !.pr = ("message" :> Last_(a))])
  IN X(b, "thr", Last_(b))
Bool(mm, x) == V(mm, B(x))

Declare(mm, nm, v) == [mm EXCEPT !.s = Append(@, v), !.fr.env = Put(@, nm, Len(mm.s) + 1)]
RECURSIVE DeclareAll(_, _, _)
DeclareAll(mm, nms, vs) ==
  IF nms = <<>> THEN mm ELSE DeclareAll(Declare(mm, Head(nms), Head(vs)), Tail(nms), Tail(vs))

\* evaluate the expressions left to right, then apply `op` to the values
EvList(mm, op, ids) == Push([mm EXCEPT !.ctl = <<"v", Nil>>], <<"list", op, ids, <<>>, TRUE>>)
\* run statements; the value of the last one is the value of the sequence
Seq_(mm, ids) ==
  IF ids = <<>> THEN V(mm, Nil)
  ELSE IF Len(ids) = 1 THEN Ev(mm, ids[1])
  ELSE Ev(Push(mm, <<"seq", Tail(ids)>>), ids[1])

RECURSIVE Invoke(_, _, _, _, _, _)
RECURSIVE Send(_, _, _, _)
\* methodAdded(name) of the class, if it is defined, after a method was added
Added(mm, c, nm) ==
  LET f == IF mm.h[c].k = "mod" THEN <<"none">> ELSE FindStatic(mm.h, Ref(c), "methodAdded") IN
  IF f[1] # "clo" THEN V(mm, Nil)
  ELSE LET a == Push(Alloc(mm, MkStr(nm)), <<"const", Nil>>) IN Invoke(a, Ref(c), "methodAdded", <<Last_(a)>>, <<>>, Nil)

RECURSIVE ToStr(_, _, _, _)

(******************************* calls ************************************)
\* Enter a closure. kd: fun, init, blk (block literal), bfn (function as block), set (setter: value is discarded)
\* kws: sequence of <<name, value>>
Frame0 == [env |-> EmptyFun, this |-> Nil, cref |-> 0, cls |-> 0, nm |-> "", st |-> FALSE, kd |-> "top", blk |-> Nil, fw |-> FALSE, file |-> "/D/p.lox"]
ArityName(F) == IF F.nm = "" THEN "(anon)" ELSE F.nm
Enter(mm, fa, this, cref, kd, args0, kws, blk0) ==
  LET c == mm.h[fa]
      F == ND(mm, c.f)
      nreq == Len(F.req) nopt == Len(F.optn) nkw == Len(F.kwn)
      \* a Block object as the last argument is the block of the call; it is an argument too where one is required
      fwd == kd \in {"fun", "init"} /\ args0 # <<>> /\ kws = <<>> /\ Kind(mm.h, Last(args0)) = "blk"
      nilblk == ~fwd /\ F.bp # "" /\ F.rest = "" /\ Len(args0) = nreq + nopt + 1 /\ kws = <<>> /\ Last(args0) = Nil
      a1 == IF nilblk \/ (fwd /\ (F.bp # "" \/ nkw > 0 \/ Len(args0) > nreq)) THEN Front(args0) ELSE args0
      args == IF fwd /\ F.rest = "" /\ Len(a1) > nreq + nopt THEN SubSeq(a1, 1, nreq + nopt) ELSE a1
      blk == IF fwd THEN Last(args0) ELSE blk0
      amax == IF F.rest # "" THEN 20 ELSE nreq + nopt + nkw
      pos == nreq + nopt
      n == Len(args)
      known == \A i \in 1..Len(kws) : \E j \in 1..nkw : F.kwn[j] = kws[i][1]
      badkw == LET S == {i \in 1..Len(kws) : ~ \E j \in 1..nkw : F.kwn[j] = kws[i][1]}
               IN kws[CHOOSE i \in S : \A j \in S : (IF nkw = 0 THEN i <= j ELSE i >= j)][1]
      extra == IF n > pos THEN n - pos ELSE 0
      fillk == IF F.rest = "" /\ nkw > 0 THEN extra ELSE 0   \* positional values for keyword parameters
      KwVal(j) ==
        LET S == {i \in 1..Len(kws) : kws[i][1] = F.kwn[j]}
        IN IF j <= fillk THEN <<TRUE, args[pos + j]>>
           ELSE IF S # {} THEN <<TRUE, kws[CHOOSE i \in S : TRUE][2]>> ELSE <<FALSE, Nil>>
      reqv == [i \in 1..nreq |-> IF i <= n THEN args[i] ELSE Nil]
      optv == [i \in 1..nopt |-> IF nreq + i <= n THEN args[nreq + i] ELSE Nil]
      kwv == [j \in 1..nkw |-> KwVal(j)[2]]
      pend == SelectSeq([i \in 1..nopt |-> <<F.optn[i], F.opte[i], nreq + i <= n>>], LAMBDA t : ~t[3])
              \o SelectSeq([j \in 1..nkw |-> <<F.kwn[j], F.kwe[j], KwVal(j)[1]>>], LAMBDA t : ~t[3])
      m1 == [Push(mm, <<(IF kd \in {"blk", "bfn"} THEN "blk" ELSE "call"), mm.fr, kd, this>>)
               EXCEPT !.fr = [env |-> c.env, this |-> this, cref |-> cref, cls |-> c.cls, nm |-> c.nm, st |-> c.st,
                              kd |-> kd, blk |-> blk, fw |-> fwd, file |-> mm.fr.file]]
      m2 == DeclareAll(m1, F.req, reqv)
      m3 == DeclareAll(m2, F.optn, optv)
      m4 == IF F.rest = "" THEN m3
            ELSE LET a == Alloc(m3, MkArr(IF n > pos THEN SubSeq(args, pos + 1, n) ELSE <<>>))
                 IN Declare(a, F.rest, Last_(a))
      m5 == DeclareAll(m4, F.kwn, kwv)
      m6 == IF F.bp = "" THEN m5 ELSE Declare(m5, F.bp, blk)
      m7 == [m6 EXCEPT !.fr.env = [x \in DOMAIN @ |-> @[x]]]
  IN IF (fwd /\ blk0[1] # "nil") \/ (kd \notin {"fun", "init"} /\ args # <<>> /\ Kind(mm.h, Last(args)) = "blk")
     THEN Ab(mm, "block as argument")
     ELSE IF kd = "bfn" /\ (n < nreq \/ n > amax) THEN Ab(mm, "arguments of a block")
     ELSE IF kd # "blk" /\ ~fwd /\ (n < nreq \/ n > amax)
     THEN Err(mm, AArgErr, F.an \o ": Expected " \o
              (IF F.rest = "" /\ nopt + nkw = 0 THEN ToString(nreq) ELSE ToString(nreq) \o "-" \o ToString(amax))
              \o " arguments but got " \o ToString(n) \o ".")
     ELSE IF ~known THEN Err(mm, AArgErr, "Unknown keyword argument '" \o badkw \o "'")
     ELSE IF Len(mm.k) > 200 THEN Ab(mm, "depth")
     ELSE IF pend = <<>> THEN Seq_(m6, F.body)
     ELSE Ev(Push(m6, <<"dflt", [i \in 1..Len(pend) |-> <<pend[i][1], pend[i][2]>>], F.body>>), pend[1][2])

\* call a block value (a Block object or nil) with values, from the native code described by the top continuation
\* Constants used in the block are looked up from `cref`; -1 - c: called by native code from where the class c isn't visible.
YieldWith(mm, blk, vals, cref) ==
  LET b == mm.h[blk[2]] c == mm.h[b.f] IN
  IF c.k # "fn" THEN Ab(mm, "native block")
  ELSE Enter(mm, b.f, <<"unk">>, IF c.cref < 0 THEN c.cref ELSE IF cref = c.cref THEN cref ELSE -1 - c.cref, IF c.lit THEN "blk" ELSE "bfn", vals, <<>>, <<"unk">>)
YieldTo(mm, blk, vals) == YieldWith(mm, blk, vals, -1)
\* blk.yield(..) checks the number of arguments even for block literals
YieldStrict(mm, blk, vals, cref) ==
  LET b == mm.h[blk[2]] c == mm.h[b.f] n == Len(vals) IN
  IF c.k # "fn" THEN Ab(mm, "native block")
  ELSE LET F == ND(mm, c.f) nreq == Len(F.req) amax == IF F.rest # "" THEN 20 ELSE nreq + Len(F.optn) + Len(F.kwn) IN
  IF n < nreq \/ n > amax THEN Err(mm, AArgErr, F.an \o ": Expected " \o (IF amax = nreq THEN ToString(nreq) ELSE ToString(nreq) \o "-" \o ToString(amax))
                                   \o " arguments but got " \o ToString(n) \o ".")
  ELSE YieldWith(Push(mm, <<"yl">>), blk, vals, cref)

\* arr.each and the methods that are based on it: kont <<"it", kind, array, next index, acc, blk>>
IterStep(mm, kind, arr, i, acc, blk) ==
  LET e == mm.h[arr[2]].e IN
  IF i > Len(e)
  THEN CASE kind = "each" -> V(mm, arr)
         [] kind \in {"map", "select", "reject"} -> VAlloc(mm, MkArr(acc))
         [] kind = "find" -> V(mm, Nil)
         [] kind = "reduce" -> V(mm, acc)
  ELSE YieldTo(Push(mm, <<"it", kind, arr, i, acc, blk>>), blk, IF kind = "reduce" THEN <<e[i], acc>> ELSE <<e[i]>>)

IterBack(mm, kk, bk, v) ==  \* the block returned; `kk` was popped
  LET kind == kk[2] arr == kk[3] i == kk[4] acc == kk[5] blk == kk[6]
      e == mm.h[arr[2]].e
      el == IF i <= Len(e) THEN e[i] ELSE Nil
  IN CASE bk = "brk" -> V(mm, Nil)
       [] kind = "each" -> IF bk = "ret" THEN V(mm, v) ELSE IterStep(mm, kind, arr, i + 1, acc, blk)
       [] kind = "map" -> IterStep(mm, kind, arr, i + 1, Append(acc, v), blk)
       [] kind = "select" -> IterStep(mm, kind, arr, i + 1, IF Truthy(v) THEN Append(acc, el) ELSE acc, blk)
       [] kind = "reject" -> IterStep(mm, kind, arr, i + 1, IF Truthy(v) THEN acc ELSE Append(acc, el), blk)
       [] kind = "find" -> IF Truthy(v) THEN V(mm, el) ELSE IterStep(mm, kind, arr, i + 1, acc, blk)
       [] kind = "reduce" -> IF ~IsNum(el) THEN Err(mm, ATypeErr, "Return value from reduce() must be a number")
                             ELSE IterStep(mm, kind, arr, i + 1, v, blk)

\* The order of the entries of a map isn't specified, but it stays the same while no key is added or deleted: where
\* it matters for the first time, it is chosen (NeedOrd, Order).
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
NeedOrd(mm, a) ==
  LET f == Fact(Len(mm.h[a].e)) IN
  IF Len(mm.h[a].e) > 3 \/ mm.no * f > 24 THEN Ab(mm, "map order") ELSE [mm EXCEPT !.ctl = <<"ord", a>>, !.no = @ * f]
KeysOf(mm, mp) == [i \in 1..Len(mm.h[mp[2]].e) |-> mm.h[mp[2]].e[i][1]]

\* map.each and map.map
MIterStep(mm, kind, mp, i, acc, blk, ks) ==
  LET e == mm.h[mp[2]].e IN
  IF KeysOf(mm, mp) # ks THEN Ab(mm, "map changed")
  ELSE IF i > Len(e) THEN (IF kind = "each" THEN V(mm, mp) ELSE VAlloc(mm, MkArr(acc)))
  ELSE YieldTo(Push(mm, <<"mit", kind, mp, i, acc, blk, ks>>), blk, <<e[i][1], e[i][2]>>)
MIterBack(mm, kk, bk, v) ==
  IF bk = "brk" THEN V(mm, Nil)
  ELSE IF kk[2] = "each" /\ bk = "ret" THEN V(mm, v)
  ELSE MIterStep(mm, kk[2], kk[3], kk[4] + 1, Append(kk[5], v), kk[6], kk[7])

\* sortBy: the block compares two elements; which ones are compared isn't specified, so it should be a consistent order
RECURSIVE SortByStep(_, _, _, _, _, _)
SortByStep(mm, r, done, j, rest, blk) ==  \* insert Head(rest) after done[j] or before it
  IF rest = <<>> THEN VAlloc(mm, MkArr(done))
  ELSE IF j = 0 THEN SortByStep(mm, r, <<Head(rest)>> \o done, Len(done) + 1, Tail(rest), blk)
  ELSE YieldTo(Push(mm, <<"sb", r, done, j, rest, blk>>), blk, <<done[j], Head(rest)>>)
SortByBack(mm, kk, bk, v) ==
  LET done == kk[3] j == kk[4] rest == kk[5] IN
  IF bk = "brk" \/ ~IsNum(v) THEN Err(mm, ATypeErr, "sort block must return a number")
  ELSE IF NumI(TruncQ(v)) # v THEN Ab(mm, "fraction")  \* cut off: not an order in general
  ELSE IF TruncQ(v) > 0 THEN SortByStep(mm, kk[2], done, j - 1, rest, kk[6])
  ELSE SortByStep(mm, kk[2], SubSeq(done, 1, j) \o <<Head(rest)>> \o SubSeq(done, j + 1, Len(done)), Len(done) + 1, Tail(rest), kk[6])

Typ(mm, v) == TypeName(mm.h, v)
ArgErr(mm, i, want, v) == Err(mm, AArgErr, "Expected argument " \o ToString(i) \o " to be " \o (IF want \in {"number", "class", "module"} THEN "a " \o want ELSE "of type " \o want)
  \o ", got: " \o (IF want \notin {"number", "class", "module"} /\ Kind(mm.h, v) = "inst" THEN FullName(mm.h, ClassOf(mm.h, v)) ELSE Typ(mm, v)))
Frozen(mm, what) == Err(mm, AError, what \o " is frozen, cannot modify")
NArity(mm, what, want, got) ==
  Err(mm, AArgErr, "Error in " \o what \o ", expected " \o ToString(want) \o (IF want = 1 THEN " arg, got " ELSE " args, got ") \o ToString(got))
SetArr(mm, a, e) == IF Len(e) > 150 THEN Ab(mm, "long") ELSE [mm EXCEPT !.h[a].e = e]
SetMap(mm, a, e) == IF Len(e) > 150 THEN Ab(mm, "long")
  ELSE [mm EXCEPT !.h[a].ord = @ /\ Len(e) = Len(mm.h[a].e) /\ \A i \in 1..Len(e) : e[i][1] = mm.h[a].e[i][1], !.h[a].e = e]
SetStr(mm, a, str) == IF Len(str) > 20000 THEN Ab(mm, "long") ELSE [mm EXCEPT !.h[a].s = str]
RemAt(e, i) == SubSeq(e, 1, i - 1) \o SubSeq(e, i + 1, Len(e))
EqU(mm, a, b) == Eq(mm.h, a, b, 5)
SeqAny(e, P(_)) == \E i \in 1..Len(e) : P(e[i])

RECURSIVE InsSort(_, _)
InsNum(e, v) == LET n == Cardinality({i \in 1..Len(e) : NumCmp(e[i], v) <= 0})
                IN SubSeq(e, 1, n) \o <<v>> \o SubSeq(e, n + 1, Len(e))
InsSort(e, done) == IF e = <<>> THEN done ELSE InsSort(Tail(e), InsNum(done, Head(e)))

RECURSIVE SumAll(_, _)
SumAll(e, acc) == IF e = <<>> \/ acc[1] # "n" THEN acc
                  ELSE IF ~IsNum(Head(e)) THEN <<"err">> ELSE SumAll(Tail(e), Arith("+", acc, Head(e)))

RECURSIVE SplitS(_, _)
SplitS(str, pat) ==
  IF str = "" THEN <<>>
  ELSE LET p == StrFind(str, pat, 0) IN
       IF p = -1 THEN <<str>>
       ELSE <<SubSeq(str, 1, p)>> \o SplitS(SubSeq(str, p + Len(pat) + 1, Len(str)), pat)
RECURSIVE LStrip(_)
LStrip(str) == IF str # "" /\ Ch(str, 1) = " " THEN LStrip(SubSeq(str, 2, Len(str))) ELSE str
RECURSIVE RStrip(_)
RStrip(str) == IF str # "" /\ Ch(str, Len(str)) = " " THEN RStrip(SubSeq(str, 1, Len(str) - 1)) ELSE str
RECURSIVE AllocStrs(_, _, _)
AllocStrs(mm, ss, done) ==
  IF ss = <<>> THEN VAlloc(mm, MkArr(done))
  ELSE LET a == Alloc(mm, MkStr(Head(ss))) IN AllocStrs(a, Tail(ss), Append(done, Last_(a)))

MapPut(mm, e, kv, v) == LET j == MapFind(mm.h, e, kv) IN IF j = 0 THEN Append(e, <<kv, v, DKey(mm.h, kv, 3)>>) ELSE [e EXCEPT ![j] = <<kv, v, @[3]>>]
RECURSIVE MapPutAll(_, _, _)
MapPutAll(mm, e, es) == IF es = <<>> THEN e ELSE MapPutAll(mm, MapPut(mm, e, Head(es)[1], Head(es)[2]), Tail(es))
\* map keys that are modelled
KeyOk(mm, v) == KeyOkH(mm.h, v, 3)

RECURSIVE JoinItems(_, _)
JoinItems(e, sep) == IF e = <<>> THEN <<>> ELSE IF Len(e) = 1 THEN <<<<"v", e[1], 1>>>> ELSE <<<<"v", e[1], 1>>, <<"s", sep>>>> \o JoinItems(Tail(e), sep)
ArrNative(mm, r, nm, args, blk) ==
  LET a == r[2] o == mm.h[a] e == o.e n == Len(args) x == IF n >= 1 THEN args[1] ELSE Nil IN
  CASE nm \in {"push", "opShovelLeft"} /\ n = 1 -> IF o.fz THEN Frozen(mm, "Array") ELSE V(SetArr(mm, a, Append(e, x)), r)
    [] nm = "pop" /\ n = 0 -> IF o.fz THEN Frozen(mm, "Array") ELSE IF e = <<>> THEN V(mm, Nil)
                    ELSE V(SetArr(mm, a, SubSeq(e, 1, Len(e) - 1)), e[Len(e)])
    [] nm = "pushFront" /\ n = 1 -> IF o.fz THEN Frozen(mm, "Array") ELSE V(SetArr(mm, a, <<x>> \o e), r)
    [] nm = "popFront" /\ n = 0 -> IF o.fz THEN Frozen(mm, "Array") ELSE IF e = <<>> THEN V(mm, Nil)
                    ELSE V(SetArr(mm, a, Tail(e)), e[1])
    [] nm = "first" /\ n = 0 -> V(mm, IF e = <<>> THEN Nil ELSE e[1])
    [] nm = "last" /\ n = 0 -> V(mm, IF e = <<>> THEN Nil ELSE e[Len(e)])
    [] nm = "delete" /\ n = 1 ->
         IF o.fz THEN Frozen(mm, "Array")
         ELSE IF \E i \in 1..Len(e) : EqU(mm, x, e[i]) = "u" THEN Ab(mm, "eq")
         ELSE LET S == {i \in 1..Len(e) : EqU(mm, x, e[i]) = "t"}
                  i == CHOOSE i \in S : \A j \in S : i <= j
              IN IF S = {} THEN V(mm, Nil) ELSE V(SetArr(mm, a, RemAt(e, i)), NumI(i - 1))
    [] nm = "deleteAt" /\ n = 1 ->
         IF ~IsNum(x) THEN ArgErr(mm, 1, "number", x)
         ELSE IF o.fz THEN Frozen(mm, "Array")
         ELSE LET i == TruncQ(x) + 1 IN
              IF i < 1 \/ i > Len(e) THEN V(mm, Nil) ELSE V(SetArr(mm, a, RemAt(e, i)), e[i])
    [] nm = "opIndexGet" /\ n = 1 -> IF ~IsNum(x) THEN ArgErr(mm, 1, "number", x)
                             ELSE LET i == TruncQ(x) + 1 IN V(mm, IF i < 1 \/ i > Len(e) THEN Nil ELSE e[i])
    [] nm = "opIndexSet" /\ n = 2 ->
         IF ~IsNum(x) THEN ArgErr(mm, 1, "number", x)
         ELSE IF o.fz THEN Frozen(mm, "Array")
         ELSE LET i == TruncQ(x) + 1 IN
              IF i < 1 \/ i > Len(e) THEN V(mm, Nil) ELSE V(SetArr(mm, a, [e EXCEPT ![i] = args[2]]), args[2])
    [] nm = "clear" /\ n = 0 -> IF o.fz THEN Frozen(mm, "Array") ELSE V(SetArr(mm, a, <<>>), r)
    [] nm = "reverse" /\ n = 0 -> VAlloc(mm, MkArr(Reverse(e)))
    [] nm = "dup" /\ n = 0 -> VAlloc(mm, IF "pr" \in DOMAIN o THEN ("pr" :> o.pr) @@ MkArr(e) ELSE MkArr(e))
    [] nm = "sum" /\ n = 0 -> LET t == SumAll(e, NumI(0)) IN
                    IF t[1] = "n" THEN V(mm, t) ELSE IF t[1] = "abort" THEN Ab(mm, "num")
                    ELSE Err(mm, ATypeErr, "Element in summation is not a number")
    [] nm = "sort" /\ n = 0 ->
         IF Len(e) = 1 THEN VAlloc(mm, MkArr(e))
         ELSE IF \A i \in 1..Len(e) : IsNum(e[i]) THEN VAlloc(mm, MkArr(InsSort(e, <<>>)))
         ELSE IF \A i \in 1..Len(e) : IsStr(mm.h, e[i])
         THEN VAlloc(mm, MkArr(SortSeq(e, LAMBDA p, q : StrCmp(mm.h[p[2]].s, mm.h[q[2]].s) < 0)))
         ELSE IF \E i \in 1..Len(e) : Kind(mm.h, e[i]) \notin {"n", "str"} THEN Err(mm, ATypeErr, "Can only compare a number with number or string with string")
         ELSE IF \A i \in 1..Len(e), j \in 1..Len(e) : IsNum(e[i]) = IsNum(e[j]) THEN Ab(mm, "sort")
         ELSE Err(mm, ATypeErr, "Can only compare a number with number or string with string")
    [] nm = "sortBy" /\ n = 0 -> IF blk[1] = "nil" THEN Err(mm, AArgErr, "Block must be given")
                                 ELSE IF Len(e) <= 1 THEN VAlloc(mm, MkArr(e)) ELSE SortByStep(mm, r, <<e[1]>>, 1, Tail(e), blk)
    [] nm = "inspect" /\ n = 0 -> IF Pure(mm.h, r, "inspect", 4) THEN VStr(mm, Inspect(mm.h, r)) ELSE Ab(mm, "show")
    [] nm = "iter" /\ n = 0 -> VAlloc(mm, MkIter(r))
    [] nm = "join" /\ n = 1 ->
         IF ~IsStr(mm.h, x) THEN ArgErr(mm, 1, "String", x)
         ELSE ToStr(mm, JoinItems(e, mm.h[x[2]].s), "str", "")
    [] nm = "toString" /\ n = 0 -> ToStr(mm, <<<<"v", r, 0>>>>, "str", "")
    [] nm = "opEquals" /\ n = 1 -> LET q == EqU(mm, r, x) IN IF q = "u" THEN Ab(mm, "eq") ELSE Bool(mm, q = "t")
    [] nm \in {"each", "map", "select", "reject", "find"} /\ n = 0 ->
         IF blk[1] = "nil" THEN Err(mm, AError, "no block given") ELSE IterStep(mm, nm, r, 1, <<>>, blk)
    [] nm = "reduce" /\ n = 1 ->
         IF blk[1] = "nil" THEN Err(mm, AError, "no block given") ELSE IterStep(mm, nm, r, 1, x, blk)
    [] OTHER -> Ab(mm, "native Array#" \o nm)

PairKeys(e) == [i \in 1..Len(e) |-> <<e[i][1], e[i][2]>>]
MapNative(mm, r, nm, args, blk) ==
  LET a == r[2] o == mm.h[a] e == o.e n == Len(args) x == IF n >= 1 THEN args[1] ELSE Nil
      j == IF n >= 1 THEN MapFind(mm.h, e, x) ELSE 0
      again == Push(mm, <<"again", r, nm, args, blk>>) IN
  CASE \E i \in 1..n : nm \in {"opIndexGet", "hasKey", "delete", "slice"} /\ ~KeyOk(mm, args[i]) -> Ab(mm, "key")
    [] Stale(mm.h, e) /\ nm \in {"opIndexGet", "opIndexSet", "hasKey", "delete", "slice", "dup", "merge", "mergeWith"} -> Ab(mm, "stale key")
    [] nm \in {"merge", "mergeWith"} /\ n = 1 /\ Kind(mm.h, x) = "map" /\ Stale(mm.h, mm.h[x[2]].e) -> Ab(mm, "stale key")
    [] nm = "opIndexGet" /\ n = 1 -> V(mm, IF j = 0 THEN Nil ELSE e[j][2])
    [] nm = "hasKey" /\ n = 1 -> Bool(mm, j # 0)
    [] nm = "opIndexSet" /\ n = 2 -> IF ~KeyOk(mm, x) THEN Ab(mm, "key") ELSE IF o.fz THEN Frozen(mm, "Map")
                                     ELSE V(SetMap(mm, a, MapPut(mm, e, x, args[2])), args[2])
    [] nm = "delete" /\ n >= 1 -> IF o.fz THEN Frozen(mm, "Map")
                                  ELSE LET left == SelectSeq(e, LAMBDA t : \A i \in 1..n : Eq(mm.h, t[1], args[i], 4) # "t")
                                       IN V(SetMap(mm, a, left), NumI(Len(e) - Len(left)))
    [] nm = "clear" /\ n = 0 -> IF o.fz THEN Frozen(mm, "Map") ELSE V(SetMap(mm, a, <<>>), r)
    [] nm = "dup" /\ n = 0 -> VAlloc(mm, IF "pr" \in DOMAIN o THEN ("pr" :> o.pr) @@ MkMap(e) ELSE MkMap(e))
    [] nm = "rehash" /\ n = 0 -> IF o.fz THEN Frozen(mm, "Map")
         ELSE IF \E i \in 1..Len(e), q \in 1..Len(e) : i # q /\ DKey(mm.h, e[i][1], 3) = DKey(mm.h, e[q][1], 3) THEN Ab(mm, "equal keys")
         ELSE V([mm EXCEPT !.h[a].e = [i \in 1..Len(e) |-> <<e[i][1], e[i][2], DKey(mm.h, e[i][1], 3)>>], !.h[a].ord = FALSE], r)
    [] nm = "merge" /\ n = 1 -> IF Kind(mm.h, x) # "map" THEN ArgErr(mm, 1, "Map", x)
                                ELSE VAlloc(mm, MkMap(MapPutAll(mm, e, mm.h[x[2]].e)))
    [] nm = "mergeWith" /\ n = 1 -> IF Kind(mm.h, x) # "map" THEN ArgErr(mm, 1, "Map", x)
                                ELSE IF o.fz THEN Frozen(mm, "Map")
                                ELSE V(SetMap(mm, a, MapPutAll(mm, e, mm.h[x[2]].e)), r)
    [] nm = "slice" /\ n >= 1 -> VAlloc(mm, MkMap(MapPutAll(mm, <<>>,
                                   SelectSeq([i \in 1..n |-> LET q == MapFind(mm.h, e, args[i])
                                                             IN IF q = 0 THEN <<Nil, <<"none">>>> ELSE <<args[i], e[q][2]>>],
                                             LAMBDA t : t[2] # <<"none">>))))
    [] nm \in {"keys", "values"} /\ n = 0 ->
         VAlloc(mm, [MkArr([i \in 1..Len(e) |-> e[i][IF nm = "keys" THEN 1 ELSE 2]]) EXCEPT !.k = IF Ordered(o) THEN "arr" ELSE "arrU"])
    [] nm \in {"each", "map"} /\ n = 0 ->
         IF blk[1] = "nil" THEN Err(mm, AError, "no block given")
         ELSE IF ~Ordered(o) THEN NeedOrd(again, a) ELSE MIterStep(mm, nm, r, 1, <<>>, blk, KeysOf(mm, r))
    [] nm = "inspect" /\ n = 0 /\ ~Ordered(o) -> NeedOrd(again, a)
    [] nm = "toString" /\ n = 0 -> ToStr(mm, <<<<"v", r, 0>>>>, "str", "")
    [] nm = "inspect" /\ n = 0 -> IF Pure(mm.h, r, "inspect", 4) THEN VStr(mm, Inspect(mm.h, r)) ELSE Ab(mm, "show")
    [] nm = "iter" /\ n = 0 -> VAlloc(mm, MkIter(r))
    [] nm = "opEquals" /\ n = 1 -> LET q == EqU(mm, r, x) IN IF q = "u" THEN Ab(mm, "eq") ELSE Bool(mm, q = "t")
    [] OTHER -> Ab(mm, "native Map#" \o nm)

\* Map([[k, v], ..])
MapInit(mm, args) ==
  IF args = <<>> THEN VAlloc(mm, MkMap(<<>>))
  ELSE IF Len(args) > 1 THEN Err(mm, AArgErr, "Expected 1 argument, got " \o ToString(Len(args)))
  ELSE IF ~IsArr(mm.h, args[1]) THEN Err(mm, AArgErr, "Expected argument 1 to be of exact class Array, got: " \o
            (IF Kind(mm.h, args[1]) = "inst" THEN FullName(mm.h, ClassOf(mm.h, args[1])) ELSE Typ(mm, args[1])))
  ELSE LET e == mm.h[args[1][2]].e
           ok(x) == IsArr(mm.h, x) /\ Len(mm.h[x[2]].e) = 2
           bad == {i \in 1..Len(e) : ~ok(e[i])}
           b == e[CHOOSE i \in bad : \A q \in bad : i <= q]
       IN IF bad = {} THEN (IF \E i \in 1..Len(e) : ~KeyOk(mm, mm.h[e[i][2]].e[1]) THEN Ab(mm, "key")
                            ELSE VAlloc(mm, MkMap(MapPutAll(mm, <<>>, [i \in 1..Len(e) |-> mm.h[e[i][2]].e]))))
          ELSE IF IsArr(mm.h, b) THEN Err(mm, AArgErr, "Wrong array size given, expected 2, got: " \o ToString(Len(mm.h[b[2]].e)))
          ELSE Err(mm, ATypeErr, "Expected array element to be an array of length 2, got a: " \o Typ(mm, b))

\* iterator.next(): the next element of the array, entry of the map or value of iterNext(), nil at the end
IterNative(mm, r, nm, args) ==
  LET o == mm.h[r[2]] c == mm.h[o.of[2]] i == o.i + 1 IN
  IF nm # "next" \/ args # <<>> THEN Ab(mm, "native Iterator#" \o nm)
  ELSE IF c.k = "map" /\ ~Ordered(c) THEN NeedOrd(Push(mm, <<"again", r, nm, args, Nil>>), o.of[2])
  ELSE LET a == [mm EXCEPT !.h[r[2]].i = i] IN
       IF i > Len(c.e) THEN V(a, Nil)
       ELSE IF c.k = "map" THEN VAlloc(a, MkArr(<<c.e[i][1], c.e[i][2]>>)) ELSE V(a, c.e[i])

RECURSIVE Digits(_, _)
Digits(str, acc) == IF str = "" \/ acc > 9999999 THEN acc
  ELSE IF \E d \in 0..9 : ToString(d) = Ch(str, 1) THEN Digits(SubSeq(str, 2, Len(str)), 10 * acc + (CHOOSE d \in 0..9 : ToString(d) = Ch(str, 1))) ELSE acc
Atoi(str) == LET l == LStrip(str) IN
  IF l = "" THEN 0 ELSE IF Ch(l, 1) = "-" THEN -Digits(SubSeq(l, 2, Len(l)), 0) ELSE Digits(IF Ch(l, 1) = "+" THEN SubSeq(l, 2, Len(l)) ELSE l, 0)

\* arrays whose order isn't specified (keys and values of maps): only sort, size and sum are decided
UnordNative(mm, r, nm, args) ==
  LET e == mm.h[r[2]].e IN
  CASE nm = "sort" -> ArrNative([mm EXCEPT !.h[r[2]].k = "arr"], r, "sort", args, Nil)
    [] nm = "sum" -> ArrNative(mm, r, "sum", args, Nil)
    [] OTHER -> Ab(mm, "unordered")

StrNative(mm, r, nm, args) ==
  LET a == r[2] o == mm.h[a] z == o.s n == Len(args) x == IF n >= 1 THEN args[1] ELSE Nil
      xs == IF IsStr(mm.h, x) THEN mm.h[x[2]].s ELSE ""
      i == IF IsNum(x) THEN TruncQ(x) ELSE 0 IN
  CASE nm = "toString" /\ n = 0 -> V(mm, r)
    [] nm = "inspect" /\ n = 0 -> VStr(mm, Inspect(mm.h, r))
    [] nm = "opAdd" /\ n = 1 -> IF IsStr(mm.h, x) THEN VStr(mm, z \o xs)
         ELSE Err(mm, ATypeErr, "String#+ (opAdd) called with non-string argument. Type: " \o Typ(mm, x))
    [] nm = "opMul" /\ n = 1 -> IF ~IsNum(x) THEN Err(mm, ATypeErr, "String#* (opMul) called with non-number argument. Type: " \o Typ(mm, x))
                                ELSE IF i > 20 THEN Ab(mm, "opMul") ELSE VStr(mm, StrRep(z, IF i < 1 THEN 1 ELSE i))
    [] nm \in {"push", "opShovelLeft"} /\ n = 1 ->
         IF ~IsStr(mm.h, x) THEN ArgErr(mm, 1, "String", x)
         ELSE IF o.fz THEN Frozen(mm, "String") ELSE V(SetStr(mm, a, z \o xs), r)
    [] nm = "clear" /\ n = 0 -> IF o.fz THEN Frozen(mm, "String") ELSE V(SetStr(mm, a, ""), r)
    [] nm = "dup" /\ n = 0 -> VAlloc(mm, IF "pr" \in DOMAIN o THEN ("pr" :> o.pr) @@ MkStr(z) ELSE MkStr(z))
    [] nm = "opIndexGet" /\ n = 1 -> IF ~IsNum(x) THEN ArgErr(mm, 1, "number", x) ELSE VStr(mm, IF i < 0 \/ i >= Len(z) THEN "" ELSE Ch(z, i + 1))
    [] nm = "opIndexSet" /\ n = 2 ->
         IF ~IsNum(x) THEN ArgErr(mm, 1, "number", x)
         ELSE IF ~IsStr(mm.h, args[2]) THEN ArgErr(mm, 3, "String", args[2])
         ELSE IF o.fz THEN Frozen(mm, "String")
         \* the character is replaced by the string; an empty one changes nothing
         ELSE IF i < 0 \/ i > Len(z) \/ (i = Len(z) /\ Len(mm.h[args[2][2]].s) = 1) THEN Err(mm, AArgErr, "index too big")
         ELSE IF mm.h[args[2][2]].s = "" THEN V(mm, r)
         ELSE V(SetStr(mm, a, SubSeq(z, 1, i) \o mm.h[args[2][2]].s \o SubSeq(z, i + 2, Len(z))), r)
    [] nm = "insertAt" /\ n = 2 ->
         IF ~IsStr(mm.h, x) THEN ArgErr(mm, 1, "String", x)
         ELSE IF ~IsNum(args[2]) THEN ArgErr(mm, 2, "number", args[2])
         ELSE LET at == TruncQ(args[2]) IN
              IF o.fz THEN Frozen(mm, "String")
              ELSE IF at < 0 \/ at > Len(z) THEN Err(mm, AArgErr, "index too big")
              ELSE V(SetStr(mm, a, SubSeq(z, 1, at) \o xs \o SubSeq(z, at + 1, Len(z))), r)
    [] nm = "substr" /\ n = 2 ->
         IF ~IsNum(x) THEN ArgErr(mm, 1, "number", x)
         ELSE IF ~IsNum(args[2]) THEN ArgErr(mm, 2, "number", args[2])
         ELSE LET l == TruncQ(args[2]) mx == Len(z) - i
                  l1 == IF l < 0 THEN (IF mx + l + 1 < 0 THEN 0 ELSE mx + l + 1) ELSE l
                  l2 == IF l1 > mx THEN mx ELSE l1
              IN IF i < 0 \/ i >= Len(z) THEN VStr(mm, "") ELSE VStr(mm, SubSeq(z, i + 1, i + l2))
    [] nm = "rest" /\ n = 1 -> IF ~IsNum(x) THEN ArgErr(mm, 1, "number", x)
                               ELSE VStr(mm, IF i < 0 \/ i >= Len(z) THEN "" ELSE SubSeq(z, i + 1, Len(z)))
    [] nm = "split" /\ n = 1 -> IF ~IsStr(mm.h, x) THEN ArgErr(mm, 1, "String", x)
                                ELSE IF xs = "" THEN Err(mm, AArgErr, "pattern can't be empty")
                                ELSE AllocStrs(mm, SplitS(z, xs), <<>>)
    [] nm = "endsWith" /\ n = 1 -> IF ~IsStr(mm.h, x) THEN ArgErr(mm, 1, "String", x) ELSE Bool(mm, IsSuffixStr(xs, z))
    [] nm = "compact" /\ n = 0 -> VStr(mm, RStrip(LStrip(z)))
    [] nm = "compactLeft" /\ n = 0 -> VStr(mm, LStrip(z))
    [] nm = "padRight" /\ n = 2 ->
         IF ~IsNum(x) THEN ArgErr(mm, 1, "number", x)
         ELSE IF ~IsStr(mm.h, args[2]) THEN ArgErr(mm, 2, "String", args[2])
         ELSE IF i > 40 THEN Ab(mm, "pad")
         ELSE IF i <= Len(z) THEN V(mm, r)
         ELSE IF o.fz THEN Frozen(mm, "String")
         ELSE IF mm.h[args[2][2]].s = "" THEN Err(mm, AArgErr, "padding can't be empty")
         ELSE V(SetStr(mm, a, z \o StrRep(Ch(mm.h[args[2][2]].s, 1), i - Len(z))), r)
    [] nm = "index" /\ n = 1 -> IF ~IsStr(mm.h, x) THEN ArgErr(mm, 1, "String", x)
                                ELSE LET p == StrFind(z, xs, 0) IN V(mm, IF p < 0 THEN Nil ELSE NumI(p))
    [] nm = "opEquals" /\ n = 1 -> Bool(mm, IsStr(mm.h, x) /\ xs = z)
    [] OTHER -> Ab(mm, "native String#" \o nm)

FieldsOf(o) == IF "pr" \in DOMAIN o THEN o.pr ELSE EmptyFun

PropGet(mm, r, nm) ==  \* fields, getters, methods, nil
  LET o == mm.h[r[2]] IN
  IF Has(FieldsOf(o), nm) THEN V(mm, o.pr[nm])
  ELSE LET gt == FindGet(mm.h, r, nm) IN
  IF o.k \in {"arr", "map", "str", "arrU"} /\ nm = "size" /\ gt[1] = "none"
  THEN V(mm, NumI(Len(IF o.k = "str" THEN o.s ELSE o.e)))
  ELSE IF nm = "class" THEN V(mm, Ref(ClassOf(mm.h, r)))
  ELSE IF o.k \in {"cls", "mod"} /\ nm = "name" THEN VStr(mm, FullName(mm.h, r[2]))
  ELSE IF o.k = "cls" /\ nm = "superClass" THEN (IF o.sup = 0 THEN V(mm, Nil) ELSE V(mm, Ref(o.sup)))
  ELSE IF gt[1] = "clo"
  THEN Enter(mm, gt[2], r, ClassOf(mm.h, r), "fun", <<>>, <<>>, Nil)
  ELSE LET me == IF IsCls(mm.h, r) THEN FindStatic(mm.h, r, nm) ELSE FindMeth(mm.h, r, nm) IN
  CASE me[1] = "clo" /\ IsCls(mm.h, r) /\ ~Has(o.st, nm) -> Ab(mm, "inherited static method")
    [] me[1] = "clo" -> VAlloc(mm, [k |-> "bm", r |-> r, me |-> me, fz |-> FALSE])
    [] me[1] = "nat" -> VAlloc(mm, [k |-> "bm", r |-> r, me |-> me, fz |-> FALSE])
    [] me[1] = "snat" -> Ab(mm, "native static")
    [] OTHER -> IF nm \in {"size", "message", "objectId", "singletonClass", "classInfo", "module"} /\ o.k # "inst" THEN Ab(mm, "prop " \o nm) ELSE V(mm, Nil)

SetField(mm, a, nm, v) == [mm EXCEPT !.h[a] = ("pr" :> Put(FieldsOf(@), nm, v)) @@ @]
PropSet(mm, r, nm, v) ==
  LET o == mm.h[r[2]] se == FindSet(mm.h, r, nm) IN
  IF o.k \notin {"inst", "cls", "mod", "arr", "str", "map"} THEN Ab(mm, "propset")
  ELSE IF se[1] = "clo" THEN (IF o.fz THEN Err(mm, AError, "Tried to set property on frozen object") ELSE Enter(Push(mm, <<"const", v>>), se[2], r, ClassOf(mm.h, r), "fun", <<v>>, <<>>, Nil))
  ELSE IF o.fz THEN Err(mm, AError, "Tried to set property on frozen object")
  ELSE V(SetField(mm, r[2], nm, v), v)

CanFreeze(o) == o.k \in {"inst", "arr", "map", "str", "cls", "mod"}

ObjNative(mm, r, nm, args, kws, blk) ==
  LET o == mm.h[r[2]] n == Len(args) x == IF n >= 1 THEN args[1] ELSE Nil
      xs == IF IsStr(mm.h, x) THEN mm.h[x[2]].s ELSE "" IN
  CASE nm = "init" -> IF n = 0 THEN V(mm, r) ELSE NArity(mm, FullName(mm.h, ClassOf(mm.h, r)) \o "#init", 0, n)
    [] nm = "isSame" /\ n = 1 -> Bool(mm, IsRef(x) /\ x = r)
    [] nm = "opEquals" /\ n = 1 -> Bool(mm, IsRef(x) /\ x = r)
    [] nm = "dup" /\ n = 0 /\ "io" \in DOMAIN o -> Ab(mm, "dup of a file")
    [] nm = "dup" /\ n = 0 /\ o.k = "inst" -> VAlloc(mm, [MkInst(o.c) EXCEPT !.pr = o.pr])
    [] nm = "dup" /\ n = 0 /\ o.k \in {"cls", "mod"} -> Err(mm, ATypeErr, "Cannot call dup() on a " \o Typ(mm, r))
    [] nm = "freeze" /\ n = 0 /\ CanFreeze(o) -> V([mm EXCEPT !.h[r[2]].fz = TRUE], r)
    [] nm = "unfreeze" /\ n = 0 /\ CanFreeze(o) -> V([mm EXCEPT !.h[r[2]].fz = FALSE], r)
    [] nm = "isFrozen" /\ n = 0 /\ CanFreeze(o) -> Bool(mm, o.fz)
    [] nm = "send" /\ n >= 1 -> IF ~IsStr(mm.h, x) THEN ArgErr(mm, 1, "String", x)
                                ELSE IF kws # <<>> \/ blk[1] # "nil" THEN Ab(mm, "send")
                                ELSE Send(mm, r, xs, Tail(args))
    [] nm = "getProperty" /\ n = 1 -> IF ~IsStr(mm.h, x) THEN ArgErr(mm, 1, "String", x) ELSE PropGet(mm, r, xs)
    [] nm = "setProperty" /\ n = 2 -> IF ~IsStr(mm.h, x) THEN ArgErr(mm, 1, "String", x) ELSE PropSet(mm, r, xs, args[2])
    [] nm = "hasProperty" /\ n = 1 -> IF ~IsStr(mm.h, x) THEN ArgErr(mm, 1, "String", x) ELSE Bool(mm, Has(FieldsOf(o), xs))
    [] nm = "hasGetter" /\ n = 1 /\ o.k = "inst" -> IF xs \in {"class", "singletonClass", "objectId"} THEN Ab(mm, "getter")
                                     ELSE Bool(mm, FindGet(mm.h, r, xs)[1] # "none")
    [] nm = "hasSetter" /\ n = 1 /\ o.k = "inst" -> Bool(mm, FindSet(mm.h, r, xs)[1] # "none")
    [] nm = "respondsTo" /\ n = 1 /\ o.k = "inst" /\ IsStr(mm.h, x) ->
         LET f == FindMeth(mm.h, r, xs) IN
         Bool(mm, f[1] # "none" \/ xs \in {"inspect", "instanceEval", "hashKey", "methodMissing"})
    [] nm = "extend" /\ n = 1 /\ o.k = "inst" ->
         IF Kind(mm.h, x) # "mod" THEN ArgErr(mm, 1, "module", x)
         ELSE IF \E i \in 1..Len(o.sing) : o.sing[i] = x[2] THEN V(mm, r)
         ELSE IF \E i \in 1..Len(Mro(mm.h, o.c)) : Mro(mm.h, o.c)[i] = x[2] THEN Ab(mm, "extend included")
         ELSE V([mm EXCEPT !.h[r[2]].sing = Append(@, x[2])], r)
    [] OTHER -> Ab(mm, "native Object#" \o nm)

RECURSIVE ConstIn(_, _, _)
ConstIn(h, mro, nm) == IF mro = <<>> THEN <<"none">> ELSE IF Has(h[Head(mro)].co, nm) THEN h[Head(mro)].co[nm] ELSE ConstIn(h, Tail(mro), nm)
RECURSIVE ConstUnder(_, _, _)
ConstUnder(h, a, nm) == IF a = 0 THEN <<"none">>
                        ELSE LET f == ConstIn(h, IF h[a].k = "mod" THEN <<a>> ELSE Mro(h, a), nm)
                             IN IF f[1] # "none" THEN f ELSE ConstUnder(h, h[a].under, nm)
ClsNative(mm, r, nm, args) ==
  LET o == mm.h[r[2]] n == Len(args) x == IF n >= 1 THEN args[1] ELSE Nil
      xs == IF IsStr(mm.h, x) THEN mm.h[x[2]].s ELSE "" IN
  CASE nm = "include" /\ n = 1 /\ o.k = "cls" ->
         IF Kind(mm.h, x) # "mod" THEN ArgErr(mm, 1, "module", x)
         ELSE IF \E i \in 1..Len(o.mods) : o.mods[i] = x[2] THEN V(mm, x)
         ELSE IF \E i \in 1..Len(Mro(mm.h, r[2])) : Mro(mm.h, r[2])[i] = x[2] THEN Ab(mm, "include inherited")
         ELSE V([mm EXCEPT !.h[r[2]].mods = Append(@, x[2])], x)
    [] nm = "isA" /\ n = 1 -> IF Kind(mm.h, x) # "cls" THEN ArgErr(mm, 1, "class", x)
                             ELSE Bool(mm, \E i \in 1..Len(Mro(mm.h, r[2])) : Ref(Mro(mm.h, r[2])[i]) = x)
    [] nm \in {"constDefined", "constGet"} /\ n = 1 /\ o.k = "cls" ->
         IF ~IsStr(mm.h, x) THEN ArgErr(mm, 1, "String", x)
         ELSE LET f == ConstUnder(mm.h, r[2], xs) g == IF f[1] = "none" /\ Has(mm.c, xs) THEN mm.c[xs] ELSE f IN
              V(mm, IF nm = "constGet" THEN (IF g[1] = "none" THEN Nil ELSE g) ELSE B(g[1] # "none"))
    [] nm = "constants" /\ n = 0 /\ o.k = "cls" /\ r[2] > NBuiltin ->
         LET ks == SetToSeq(DOMAIN o.co) a == [mm EXCEPT !.h = @ \o [i \in 1..Len(ks) |-> MkStr(ks[i])]]
         IN VAlloc(a, [MkArr([i \in 1..Len(ks) |-> Ref(Len(mm.h) + i)]) EXCEPT !.k = IF Len(ks) > 1 THEN "arrU" ELSE "arr"])
    [] nm = "inspect" /\ n = 0 -> VStr(mm, FullName(mm.h, r[2]))
    [] nm = "ancestors" /\ n = 0 /\ o.k = "cls" -> VAlloc(mm, MkArr([i \in 1..Len(Mro(mm.h, r[2])) |-> Ref(Mro(mm.h, r[2])[i])]))
    [] nm = "aliasMethod" /\ n = 2 /\ o.k = "cls" ->
         IF ~IsStr(mm.h, x) \/ ~IsStr(mm.h, args[2]) THEN Ab(mm, "alias")
         ELSE LET f == Lookup(mm.h, Mro(mm.h, r[2]), "me", xs) IN
         IF f[1] = "none" THEN Err(mm, AArgErr, "Method '" \o xs \o "' not found for aliasMethod")
         ELSE IF f[1] # "clo" THEN Ab(mm, "alias")
         ELSE Added([mm EXCEPT !.h[r[2]].me = Put(@, mm.h[args[2][2]].s, f[2])], r[2], mm.h[args[2][2]].s)
    [] nm = "defineMethod" /\ n = 2 /\ o.k = "cls" ->
         IF ~IsStr(mm.h, x) \/ Kind(mm.h, args[2]) # "fn" THEN Ab(mm, "defineMethod")
         ELSE Added(Push([mm EXCEPT !.h[r[2]].me = Put(@, xs, args[2][2])], <<"const", r>>), r[2], xs)
    [] OTHER -> Ab(mm, "native Class#" \o nm)

(************************ threads and processes ***************************)
Yield(mm, v) == [mm EXCEPT !.ctl = <<"y", v>>]
ThreadOf(mm, r) == CHOOSE i \in 1..Len(mm.t) : mm.t[i].obj = r
\* constants of the class where the function was written aren't decided
FnCref(mm, fa) == IF mm.h[fa].cref = 0 THEN 0 ELSE IF mm.h[fa].cref < 0 THEN mm.h[fa].cref ELSE -1 - mm.h[fa].cref
Live(mm, i) == i = mm.cur \/ mm.t[i].ctl[1] # "ten"
Alone(mm) == \A i \in 1..Len(mm.t) : i = mm.cur \/ ~Live(mm, i)

NewThread(mm, f) ==
  IF Kind(mm.h, f) # "fn" THEN (IF IsRef(f) THEN Ab(mm, "newThread") ELSE Err(mm, AArgErr, "Expected argument 1 to be a function, got: " \o Typ(mm, f)))
  ELSE IF mm.h[f[2]].lit THEN Ab(mm, "newThread")
  ELSE LET a == Alloc(mm, MkInst(AThread))
           b == Enter([a EXCEPT !.k = <<>>, !.fr = Frame0], f[2], <<"unk">>, FnCref(mm, f[2]), "fun", <<>>, <<>>, <<"unk">>)
           th == [ctl |-> b.ctl, fr |-> b.fr, k |-> b.k, jd |-> FALSE, tl |-> <<>>, obj |-> Last_(a)]
       IN Yield([b EXCEPT !.k = a.k, !.fr = a.fr, !.t = Append(@, th)], Last_(a))

JoinThread(mm, v) ==
  IF Kind(mm.h, v) = "inst" /\ mm.h[v[2]].c = AThread
  THEN LET i == ThreadOf(mm, v) IN
       IF i = 1 \/ i = mm.cur THEN Ab(mm, "join")
       ELSE IF mm.t[i].jd THEN Err(mm, AError, "Error joining thread")
       ELSE IF \E j \in 1..Len(mm.t) : j # mm.cur /\ mm.t[j].ctl = <<"wj", i>> THEN Ab(mm, "joined twice")
       ELSE [mm EXCEPT !.ctl = <<"wj", i>>]
  ELSE IF IsRef(v) THEN Ab(mm, "join") ELSE Err(mm, AArgErr, "Expected argument 1 to be of type Thread, got: " \o Typ(mm, v))

ThreadNative(mm, r, nm, args) ==
  LET i == ThreadOf(mm, r) IN
  CASE nm = "opIndexGet" /\ Len(args) = 1 -> IF ~KeyOk(mm, args[1]) THEN Ab(mm, "key")
                            ELSE LET j == MapFind(mm.h, mm.t[i].tl, args[1]) IN V(mm, IF j = 0 THEN Nil ELSE mm.t[i].tl[j][2])
    [] nm = "opIndexSet" /\ Len(args) = 2 -> IF ~KeyOk(mm, args[1]) THEN Ab(mm, "key")
                            ELSE V([mm EXCEPT !.t[i].tl = MapPut(mm, @, args[1], args[2])], args[2])
    [] OTHER -> Ab(mm, "native Thread#" \o nm)

Owner(mm, r) == IF r[2] \in DOMAIN mm.mx THEN mm.mx[r[2]] ELSE 0
MutexNative(mm, r, nm, args) ==
  CASE nm = "init" /\ args = <<>> -> V(mm, r)
    [] nm = "lock" /\ args = <<>> -> IF Owner(mm, r) = 0 THEN V([mm EXCEPT !.mx = Put(@, r[2], mm.cur)], r)
                     ELSE IF Owner(mm, r) = mm.cur THEN Ab(mm, "locked twice")
                     ELSE [mm EXCEPT !.ctl = <<"wl", r[2]>>]
    [] nm = "unlock" /\ args = <<>> -> IF Owner(mm, r) # mm.cur THEN Err(mm, AError, "Mutex isn't locked by the current thread")
                       ELSE V([mm EXCEPT !.mx[r[2]] = 0], r)
    [] OTHER -> Ab(mm, "native Mutex#" \o nm)

\* fork: the child runs first; what processes that run at the same time print has no specified order
Fork(mm, args) ==
  IF Len(mm.pp) >= 3 THEN Ab(mm, "fork")
  ELSE IF args # <<>> /\ (Kind(mm.h, args[1]) # "fn" \/ mm.h[args[1][2]].lit)
       THEN (IF IsRef(args[1]) THEN Ab(mm, "fork") ELSE Err(mm, AArgErr, "Expected argument 1 to be callable, is: " \o Typ(mm, args[1])))
  ELSE LET a == Alloc(mm, [k |-> "pid", fz |-> FALSE])
           parent == V([a EXCEPT !.ch = Put(@, Len(a.h), <<"run">>)], Last_(a))
           \* the child has only the thread that called fork, as its main thread
           c0 == mm.cur
           child == [a EXCEPT !.pp = Append(@, [st |-> [parent EXCEPT !.pp = <<>>, !.o = <<>>], n |-> Len(mm.o), pid |-> Len(a.h)]), !.ch = EmptyFun,
                              !.cur = 1, !.mx = [q \in DOMAIN @ |-> IF @[q] = c0 THEN 1 ELSE 0],
                              !.t = [i \in 1..Len(@) |-> IF i = 1 THEN [@[c0] EXCEPT !.ctl = <<"run">>, !.jd = FALSE]
                                                          ELSE [@[IF i = c0 THEN 1 ELSE i] EXCEPT !.ctl = <<"ten">>, !.fr = Frame0, !.k = <<>>, !.jd = TRUE]]]
       IN IF args = <<>> THEN V(child, Nil)
          ELSE Enter(Push(child, <<"ck">>), args[1][2], <<"unk">>, FnCref(mm, args[1][2]), "fun", <<>>, <<>>, <<"unk">>)
\* the process has ended: continue its parent
EndChild(mm, rc) ==
  LET p == Last(mm.pp) prt == mm.rcy # p.st.rcy \/ Len(mm.o) > p.n IN
  [p.st EXCEPT !.pp = Front(mm.pp), !.o = mm.o, !.n = mm.n, !.ch[p.pid] = <<"end", rc>>, !.rcy = IF prt THEN @ \cup {p.pid} ELSE @]

\* a child is waited for once; other threads run until it has ended
Reaped(mm, a) ==
  IF a \notin DOMAIN mm.ch THEN V(mm, NumI(-1))
  ELSE V([mm EXCEPT !.ch = [q \in DOMAIN @ \ {a} |-> @[q]], !.rcy = @ \ {a}], NumI(256 * mm.ch[a][2]))

ProcNative(mm, nm, args) ==
  LET x == IF args = <<>> THEN Nil ELSE args[1] IN
  CASE nm = "fork" /\ Len(args) <= 1 -> Fork(mm, args)
    [] nm = "waitpid" /\ Len(args) = 1 ->
         IF Kind(mm.h, x) # "pid" THEN (IF IsRef(x) \/ IsNum(x) THEN Ab(mm, "waitpid") ELSE ArgErr(mm, 1, "number", x))
         ELSE IF Alone(mm) THEN Reaped(mm, x[2]) ELSE [mm EXCEPT !.ctl = <<"ww", x[2]>>]
    [] nm = "waitall" /\ args = <<>> /\ ~Alone(mm) -> Ab(mm, "waitall")
    [] nm = "waitall" /\ args = <<>> ->
         LET ids == SetToSeq(DOMAIN mm.ch)
             a == [mm EXCEPT !.h = @ \o [i \in 1..Len(ids) |-> MkArr(<<Ref(ids[i]), NumI(256 * mm.ch[ids[i]][2])>>)],
                             !.ch = EmptyFun, !.rcy = @ \ DOMAIN mm.ch]
         IN VAlloc(a, [MkArr([i \in 1..Len(ids) |-> Ref(Len(mm.h) + i)]) EXCEPT !.k = IF Len(ids) > 1 THEN "arrU" ELSE "arr"])
    [] nm = "WIFEXITED" /\ Len(args) = 1 -> IF IsNum(x) /\ x[2] >= 0 THEN Bool(mm, TruncQ(x) % 128 = 0) ELSE Ab(mm, "status")
    [] nm = "WEXITSTATUS" /\ Len(args) = 1 -> IF IsNum(x) /\ x[2] >= 0 THEN V(mm, NumI((TruncQ(x) \div 256) % 256)) ELSE Ab(mm, "status")
    [] OTHER -> Ab(mm, "native Process." \o nm)

RECURSIVE FileStatic(_, _, _, _)
StaticNative(mm, r, f, args) ==
  LET cl == f[2] nm == f[3] w == IF cl = AProcess THEN -1 ELSE IF nm \in {"current", "main", "schedule"} THEN 0 ELSE IF nm \in {"wrap", "parseInt"} THEN 1 ELSE -1 IN
  CASE w >= 0 /\ Len(args) # w -> NArity(mm, "Class#" \o nm, w, Len(args))
    [] cl = AArray /\ nm = "fill" /\ Len(args) \notin {1, 2} -> Err(mm, AArgErr, "Error in Class#fill, expected 1 to 2 args, got " \o ToString(Len(args)))
    [] cl = AThread /\ nm = "current" /\ args = <<>> -> V(mm, mm.t[mm.cur].obj)
    [] cl = AThread /\ nm = "main" /\ args = <<>> -> V(mm, mm.t[1].obj)
    [] cl = AThread /\ nm = "schedule" /\ args = <<>> -> Yield(mm, Nil)
    [] cl = AProcess -> ProcNative(mm, nm, args)
    [] cl = AArray /\ nm = "wrap" /\ Len(args) = 1 -> IF IsArr(mm.h, args[1]) THEN V(mm, args[1]) ELSE VAlloc(mm, MkArr(args))
    [] cl = AArray /\ nm = "fill" /\ Len(args) \in {1, 2} ->
         IF ~IsNum(args[1]) THEN ArgErr(mm, 1, "number", args[1])
         ELSE IF TruncQ(args[1]) > 150 THEN Ab(mm, "long")
         ELSE VAlloc(mm, MkArr([i \in 1..(IF TruncQ(args[1]) < 0 THEN 0 ELSE TruncQ(args[1])) |-> IF Len(args) = 2 THEN args[2] ELSE Nil]))
    [] cl \in {AIO, AFile, ADir} -> IF Len(mm.pp) > 0 \/ Len(mm.t) > 1 THEN Ab(mm, "IO with threads") ELSE FileStatic(mm, cl, nm, args)
    [] cl = AString /\ nm = "parseInt" /\ Len(args) = 1 ->
         IF ~IsStr(mm.h, args[1]) THEN ArgErr(mm, 1, "String", args[1])
         ELSE LET q == Atoi(mm.h[args[1][2]].s) IN IF Abs(q) > 9999999 THEN Ab(mm, "num") ELSE V(mm, NumI(q))
    [] OTHER -> Ab(mm, "native static")

(******************************* files **********************************)
\* fs: path -> <<"f", file>> or <<"d", 0>>; ino: what is in the files (and pipes); open files are instances with a field io
Norm(p) == IF p \in {"/D", "."} THEN "" ELSE IF IsPrefixStr("/D/", p) THEN SubSeq(p, 4, Len(p)) ELSE p
Slashes(p) == {i \in 1..Len(p) : Ch(p, i) = "/"}
Look(mm, p0) ==
  LET p == Norm(p0) up == {SubSeq(p, 1, i - 1) : i \in Slashes(p)} IN
  IF p = "" THEN "d" ELSE IF Has(mm.fs, p) THEN mm.fs[p][1]
  ELSE IF \E d \in up : Has(mm.fs, d) /\ mm.fs[d][1] = "f" THEN "ENOTDIR"
  ELSE IF \E d \in up : ~Has(mm.fs, d) THEN "ENODIR" ELSE "ENOENT"
StrErr(e) == CASE e \in {"ENOENT", "ENODIR"} -> "No such file or directory" [] e = "ENOTDIR" -> "Not a directory" [] e = "EISDIR" -> "Is a directory"
               [] e = "EEXIST" -> "File exists" [] e = "EBADF" -> "Bad file descriptor" [] e = "EINVAL" -> "Invalid argument"
SysErr(mm, e, what) == Err(mm, IF e = "ENODIR" THEN ASys("ENOENT") ELSE IF e \in {"ENOTDIR", "EISDIR"} THEN ASysErr ELSE ASys(e), what \o ": " \o StrErr(e))
Flag(fl, bit) == (fl \div bit) % 2 = 1
FreeFd(mm) == LET used == {mm.h[i].io.fd : i \in {j \in 1..Len(mm.h) : "io" \in DOMAIN mm.h[j] /\ mm.h[j].io.open}}
              IN CHOOSE i \in 3..(3 + Cardinality(used)) : i \notin used /\ \A j \in 3..(i - 1) : j \in used
MkIO(mm, nm, n, rd, wr, ap) == [nm |-> nm, n |-> n, pos |-> 0, rd |-> rd, wr |-> wr, ap |-> ap, open |-> TRUE, fd |-> FreeFd(mm)]
SetIO(mm, a, io) == [mm EXCEPT !.h[a] = ("io" :> io) @@ @]
\* at: the instance, 0: a new one
OpenFile(mm, at, name, fl) ==
  LET st == Look(mm, name) p == Norm(name) acc == fl % 4 cr == Flag(fl, 64)
      what == "Error " \o (IF cr THEN "creating" ELSE "opening") \o " File '" \o name \o "'"
      m0 == IF at = 0 THEN Alloc(mm, MkInst(AFile)) ELSE mm
      a == IF at = 0 THEN Len(m0.h) ELSE at
      with(mx, n) == V(SetIO(mx, a, MkIO(mx, name, n, acc \in {0, 2}, acc \in {1, 2}, Flag(fl, 1024))), Ref(a))
  IN IF acc = 3 \/ name = "" THEN Ab(mm, "open flags")
     ELSE IF st \in {"f", "d"} /\ cr /\ Flag(fl, 128) THEN SysErr(mm, "EEXIST", what)
     ELSE IF st = "d" THEN (IF acc # 0 \/ cr THEN SysErr(mm, "EISDIR", what) ELSE Ab(mm, "open directory"))
     ELSE IF st = "f" THEN (IF Flag(fl, 512) THEN (IF acc = 0 \/ mm.fs[p][2] = 0 THEN Ab(mm, "truncate") ELSE with([m0 EXCEPT !.ino[mm.fs[p][2]] = ""], mm.fs[p][2]))
                            ELSE with(m0, mm.fs[p][2]))
     ELSE IF st = "ENOENT" /\ cr THEN with([m0 EXCEPT !.ino = Append(@, ""), !.fs = Put(@, p, <<"f", Len(mm.ino) + 1>>)], Len(mm.ino) + 1)
     ELSE SysErr(mm, st, what)
IORd(mm, io, n) ==  \* the next n characters (-1: all)
  LET c == mm.ino[io.n] IN SubSeq(c, io.pos + 1, IF n < 0 \/ io.pos + n > Len(c) THEN Len(c) ELSE io.pos + n)
\* reading from a pipe waits for the other end
Waits(mm, io, got) == \E i \in 1..Len(mm.h) : "io" \in DOMAIN mm.h[i] /\ mm.h[i].io.n = io.n /\ mm.h[i].io.open /\ mm.h[i].io.wr /\ mm.h[i].c = AIO /\ ~got
Closed(mm, io, verb) == Err(mm, AError, "IO error: cannot " \o verb \o " closed fd: " \o ToString(io.fd))
NotOpen(mm, io) == Err(mm, AError, "File '" \o io.nm \o "' is not open")
IORead(mm, r, n) ==
  LET io == mm.h[r[2]].io s == IORd(mm, io, n) IN
  IF ~io.open THEN Closed(mm, io, "read from")
  ELSE IF ~io.rd THEN SysErr(mm, "EBADF", "IO Error during read")
  ELSE IF io.n = 0 \/ Waits(mm, io, Len(s) = n) THEN Ab(mm, "read")
  ELSE VStr([mm EXCEPT !.h[r[2]].io.pos = @ + Len(s)], s)
IOLine(mm, r, n) ==
  LET io == mm.h[r[2]].io s0 == IORd(mm, io, n) q == StrFind(s0, "\n", 0) s == IF q < 0 THEN s0 ELSE SubSeq(s0, 1, q + 1) IN
  IF ~io.open THEN Closed(mm, io, "read from")
  ELSE IF ~io.rd THEN VStr(mm, "")
  ELSE IF io.n = 0 \/ Waits(mm, io, q >= 0 \/ Len(s) = n) THEN Ab(mm, "read")
  ELSE VStr([mm EXCEPT !.h[r[2]].io.pos = @ + Len(s)], s)
\* what is written replaces what is at that place
IOPut(mm, r, s) ==
  LET io == mm.h[r[2]].io c == mm.ino[io.n] pos == IF io.ap \/ mm.h[r[2]].c = AIO THEN Len(c) ELSE io.pos IN
  IF io.n = 0 THEN Ab(mm, "write")
  ELSE IF mm.h[r[2]].c = AIO /\ ~\E i \in 1..Len(mm.h) : "io" \in DOMAIN mm.h[i] /\ mm.h[i].io.n = io.n /\ mm.h[i].io.open /\ mm.h[i].io.rd THEN Ab(mm, "write to a pipe that isn't read")
  ELSE IF Len(c) > 60000 THEN Ab(mm, "long")
  ELSE IF pos > Len(c) THEN Ab(mm, "hole")
  ELSE [mm EXCEPT !.ino[io.n] = SubSeq(c, 1, pos) \o s \o SubSeq(c, pos + Len(s) + 1, Len(c)), !.h[r[2]].io.pos = pos + Len(s)]
IOWrite(mm, r, x, res) ==
  LET io == mm.h[r[2]].io s == mm.h[x[2]].s IN
  IF ~io.open THEN Closed(mm, io, "write to")
  ELSE IF s # "" /\ ~io.wr THEN SysErr(mm, "EBADF", "Error during write")
  ELSE IF s = "" THEN V(mm, res) ELSE V(IOPut(mm, r, s), res)
IOPuts(mm, r, x) ==
  LET io == mm.h[r[2]].io s == mm.h[x[2]].s IN
  IF ~io.open THEN Closed(mm, io, "write to")
  ELSE IF ~io.wr THEN SysErr(mm, "EBADF", "Error during write")
  ELSE V(IOPut(mm, r, s \o "\n"), Nil)
CloseIO(mm, r) == [mm EXCEPT !.h[r[2]].io.open = FALSE]
FileStat(mm, nm) ==
  LET st == Look(mm, nm) f == IF st = "f" THEN mm.fs[Norm(nm)][2] ELSE 0
      a == Alloc(mm, ("stat" :> st) @@ [MkInst(AFileStat) EXCEPT !.pr = IF f > 0 THEN ("size" :> NumI(Len(mm.ino[f]))) ELSE @])
  IN V(a, Last_(a))
IONative(mm, r, nm, args) ==
  LET n == Len(args) x == IF n > 0 THEN args[1] ELSE Nil IN
  IF nm = "init" THEN (IF n # 1 \/ "io" \in DOMAIN mm.h[r[2]] THEN Ab(mm, "File(..)") ELSE IF ~IsStr(mm.h, x) THEN ArgErr(mm, 1, "String", x) ELSE OpenFile(mm, r[2], mm.h[x[2]].s, 2))
  ELSE IF ~("io" \in DOMAIN mm.h[r[2]]) THEN Ab(mm, "file without init")
  ELSE LET io == mm.h[r[2]].io IN
  CASE nm = "read" /\ n <= 1 -> IF n = 1 /\ ~IsNum(x) THEN ArgErr(mm, 1, "number", x)
                               ELSE IF n = 1 /\ x[3] # 1 THEN Ab(mm, "read")
                               ELSE IORead(mm, r, IF n = 0 \/ x[2] <= 0 THEN -1 ELSE x[2])
    [] nm = "getline" /\ n <= 1 -> IF n = 1 /\ ~IsNum(x) THEN ArgErr(mm, 1, "number", x)
                               ELSE IF n = 1 /\ x[3] # 1 THEN Ab(mm, "read")
                               ELSE IOLine(mm, r, IF n = 0 \/ x[2] <= 0 \/ x[2] > 4091 THEN 4091 ELSE x[2])
    [] nm = "getchar" /\ n = 0 -> IOLine(mm, r, 1)
    [] nm = "write" /\ n = 1 /\ IsA(mm.h, r, AFile) /\ ~io.open -> NotOpen(mm, io)
    [] nm = "write" /\ n = 1 /\ IsA(mm.h, r, AFile) /\ ~io.wr -> Err(mm, AError, "File '" \o io.nm \o "' is not open for writing")
    [] nm \in {"write", "print", "puts"} /\ n = 1 -> IF ~IsStr(mm.h, x) THEN ArgErr(mm, 1, "String", x)
                               ELSE IF nm = "puts" THEN IOPuts(mm, r, x)
                               ELSE IOWrite(mm, r, x, IF nm = "print" THEN x ELSE NumI(Len(mm.h[x[2]].s)))
    [] nm = "close" /\ n = 0 -> V(CloseIO(mm, r), Nil)
    [] nm = "fd" /\ n = 0 -> V(mm, NumI(io.fd))
    [] nm = "path" /\ n = 0 -> VStr(mm, io.nm)
    [] nm = "unlink" /\ n = 0 -> LET st == Look(mm, io.nm) IN
         IF st = "f" THEN V([CloseIO(mm, r) EXCEPT !.fs = [q \in DOMAIN @ \ {Norm(io.nm)} |-> @[q]]], True)
         ELSE SysErr(mm, IF st = "d" THEN "EISDIR" ELSE st, "Error during file unlink")
    [] nm = "rename" /\ n = 1 -> IF ~IsStr(mm.h, x) THEN ArgErr(mm, 1, "String", x)
         ELSE LET to == mm.h[x[2]].s st == Look(mm, io.nm) st2 == Look(mm, to) IN
              IF st \notin {"f", "ENOENT"} \/ to = "" THEN Ab(mm, "rename")
              ELSE IF st = "ENOENT" THEN SysErr(mm, IF st2 = "ENOTDIR" THEN "ENOTDIR" ELSE "ENOENT", "Error during file rename")
              ELSE IF st2 = "d" /\ \E q \in DOMAIN mm.fs : IsPrefixStr(Norm(to) \o "/", q) THEN Ab(mm, "rename")
              ELSE IF st2 = "d" THEN SysErr(mm, "EISDIR", "Error during file rename")
              ELSE IF st2 \in {"ENOTDIR", "ENODIR"} THEN SysErr(mm, st2, "Error during file rename")
              ELSE V([mm EXCEPT !.fs = IF Norm(io.nm) = Norm(to) THEN @ ELSE Put([q \in DOMAIN @ \ {Norm(io.nm)} |-> @[q]], Norm(to), @[Norm(io.nm)]), !.h[r[2]].io.nm = to], True)
    [] (nm = "seek" /\ n = 2) \/ (nm = "rewind" /\ n = 0) ->
         LET off == IF n = 0 THEN NumI(0) ELSE x wh == IF n = 0 THEN NumI(0) ELSE args[2] IN
         IF ~IsNum(off) THEN ArgErr(mm, 1, "number", off) ELSE IF ~IsNum(wh) THEN ArgErr(mm, 2, "number", wh)
         ELSE IF off[3] # 1 \/ wh[3] # 1 \/ wh[2] \in {3, 4} \/ io.n = 0 THEN Ab(mm, "seek")
         ELSE IF ~io.open THEN NotOpen(mm, io)
         ELSE LET p == off[2] + (CASE wh[2] = 0 -> 0 [] wh[2] = 1 -> io.pos [] wh[2] = 2 -> Len(mm.ino[io.n]) [] OTHER -> -10000000) IN
              IF p < 0 THEN SysErr(mm, "EINVAL", "Error during file seek") ELSE V([mm EXCEPT !.h[r[2]].io.pos = p], NumI(p))
    [] nm \in {"isReg", "isSymlink", "stat"} /\ n = 0 -> LET st == Look(mm, io.nm) IN
         IF st \notin {"f", "d"} THEN SysErr(mm, st, (IF nm = "stat" THEN "stat retrieval error for file " ELSE "Error during stat for file ") \o io.nm)
         ELSE IF nm = "stat" THEN FileStat(mm, io.nm) ELSE Bool(mm, nm = "isReg" /\ st = "f")
    [] OTHER -> Ab(mm, "native IO#" \o nm)
RECURSIVE Lines(_)
Lines(s) == IF s = "" THEN <<>> ELSE LET q == StrFind(s, "\n", 0) IN IF q < 0 THEN <<s>> ELSE <<SubSeq(s, 1, q + 1)>> \o Lines(SubSeq(s, q + 2, Len(s)))
RECURSIVE VStrs(_, _, _)
VStrs(mm, ss, acc) == IF ss = <<>> THEN VAlloc(mm, MkArr(acc)) ELSE LET a == Alloc(mm, MkStr(Head(ss))) IN VStrs(a, Tail(ss), Append(acc, Last_(a)))
RECURSIVE PathJoin(_)
PathJoin(ps) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o (IF ps[1] # "" /\ Ch(ps[1], Len(ps[1])) = "/" THEN "" ELSE "/") \o PathJoin(Tail(ps))
RECURSIVE SortStrs(_)
SortStrs(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE p \in S : \A q \in S : StrCmp(p, q) <= 0 IN <<a>> \o SortStrs(S \ {a})
IsIO(mm, v) == Kind(mm.h, v) = "inst" /\ IsA(mm.h, v, AIO)
FileStatic(mm, cl, nm, args) ==
  LET n == Len(args) x == IF n > 0 THEN args[1] ELSE Nil y == IF n > 1 THEN args[2] ELSE Nil
      p == IF IsStr(mm.h, x) THEN mm.h[x[2]].s ELSE "" st == Look(mm, p)
      txt == IF st = "f" THEN mm.fs[Norm(p)][2] ELSE 0 IN
  IF n = 0 /\ ~(nm \in {"pipe", "pwd"}) THEN Ab(mm, "arity")
  ELSE IF cl = AIO THEN
    (CASE nm = "pipe" /\ n = 0 -> LET a == Alloc([mm EXCEPT !.ino = Append(@, "")], MkInst(AIO)) q == Len(a.ino)
                                      b == SetIO(a, Len(a.h), MkIO(a, "reader (pipe)", q, TRUE, FALSE, FALSE))
                                      c == Alloc(b, MkInst(AIO)) d == SetIO(c, Len(c.h), MkIO(c, "writer (pipe)", q, FALSE, TRUE, FALSE))
                                  IN VAlloc(d, MkArr(<<Last_(b), Last_(d)>>))
       [] nm \in {"read", "write", "close"} /\ ~IsIO(mm, x) -> ArgErr(mm, 1, "IO", x)
       [] ~("io" \in DOMAIN mm.h[x[2]]) -> Ab(mm, "file without init")
       [] nm = "read" /\ n \in {1, 2} -> IF n = 2 /\ ~IsNum(y) THEN ArgErr(mm, 2, "number", y)
                               ELSE IF n = 2 /\ y[3] # 1 THEN Ab(mm, "read") ELSE IORead(mm, x, IF n = 1 \/ y[2] <= 0 THEN -1 ELSE y[2])
       [] nm = "write" /\ n = 2 -> IF ~IsStr(mm.h, y) THEN ArgErr(mm, 2, "String", y) ELSE IOWrite(mm, x, y, NumI(Len(mm.h[y[2]].s)))
       [] nm = "close" /\ n = 1 -> V(CloseIO(mm, x), Nil)
       [] OTHER -> Ab(mm, "native IO." \o nm))
  ELSE IF nm = "copy" /\ n = 2 THEN
    (IF ~(IsIO(mm, x) /\ IsA(mm.h, x, AFile)) THEN ArgErr(mm, 1, "File", x)
     ELSE IF ~(IsIO(mm, y) /\ IsA(mm.h, y, AFile)) THEN ArgErr(mm, 2, "File", y)
     ELSE IF ~({"io"} \subseteq (DOMAIN mm.h[x[2]] \cap DOMAIN mm.h[y[2]])) THEN Ab(mm, "file without init")
     ELSE LET a == mm.h[x[2]].io b == mm.h[y[2]].io s == IORd(mm, a, -1) IN
          IF ~a.open THEN NotOpen(mm, a) ELSE IF ~b.open THEN NotOpen(mm, b)
          ELSE IF ~b.wr THEN Err(mm, AError, "File '" \o b.nm \o "' is not open for writing")
          ELSE IF ~a.rd THEN SysErr(mm, "EBADF", "Error during read")
          ELSE IF a.n = b.n \/ a.n = 0 THEN Ab(mm, "copy")
          ELSE V(IOPut([mm EXCEPT !.h[x[2]].io.pos = @ + Len(s)], y, s), NumI(Len(s))))
  ELSE IF nm = "join" THEN
    (IF \E i \in 1..n : ~IsStr(mm.h, args[i])
     THEN LET i == CHOOSE j \in 1..n : ~IsStr(mm.h, args[j]) /\ \A q \in 1..(j - 1) : IsStr(mm.h, args[q]) IN ArgErr(mm, i, "String", args[i])
     ELSE VStr(mm, PathJoin([i \in 1..n |-> mm.h[args[i][2]].s])))
  ELSE IF nm = "pwd" THEN (IF n = 0 THEN VStr(mm, "/D") ELSE Ab(mm, "arity"))
  ELSE IF ~IsStr(mm.h, x) THEN (IF nm = "stat" THEN Ab(mm, "stat") ELSE ArgErr(mm, 1, "String", x))
  ELSE IF \E i \in 2..n : ~IsNum(args[i]) THEN (IF nm \in {"create", "open"} /\ n <= (IF nm = "open" THEN 3 ELSE 2)
                                               THEN LET i == CHOOSE j \in 2..n : ~IsNum(args[j]) /\ \A q \in 2..(j - 1) : IsNum(args[q]) IN ArgErr(mm, i, "number", args[i]) ELSE Ab(mm, "arity"))
  ELSE CASE nm = "create" /\ n = 1 -> OpenFile(mm, 0, p, 2 + 64 + 128)
    [] nm = "open" /\ n \in {1, 2} -> IF n = 2 /\ y[3] # 1 THEN Ab(mm, "open flags") ELSE OpenFile(mm, 0, p, IF n = 1 THEN 2 ELSE y[2])
    [] nm = "exists" /\ n = 1 -> IF p = "" THEN Ab(mm, "path") ELSE Bool(mm, st \in {"f", "d"})
    [] nm \in {"read", "readLines"} /\ n = 1 -> IF st = "d" \/ (st = "f" /\ txt = 0) THEN Ab(mm, "read")
                               ELSE IF st # "f" THEN Err(mm, AArgErr, "File '" \o p \o "' error: " \o StrErr(st))
                               ELSE IF nm = "read" THEN VStr(mm, mm.ino[txt]) ELSE VStrs(mm, Lines(mm.ino[txt]), <<>>)
    [] nm = "isDir" /\ n = 1 -> IF p = "" THEN Ab(mm, "path") ELSE IF st \notin {"f", "d"} THEN SysErr(mm, st, "Error during stat for file " \o p) ELSE Bool(mm, st = "d")
    [] nm = "stat" /\ n = 1 -> IF p = "" THEN Ab(mm, "stat") ELSE IF st \notin {"f", "d"} THEN SysErr(mm, st, "stat retrieval error for file " \o p) ELSE FileStat(mm, p)
    [] nm = "extension" /\ n = 1 -> LET S == {i \in 1..Len(p) : Ch(p, i) = "."} IN VStr(mm, IF S = {} THEN "" ELSE SubSeq(p, (CHOOSE i \in S : \A j \in S : j <= i) + 1, Len(p)))
    [] nm = "expandPath" /\ n = 1 -> VStr(mm, IF p # "" /\ Ch(p, 1) = "/" THEN p ELSE "/D/" \o p)
    [] nm = "mkdir" /\ n = 1 -> IF p = "" THEN Ab(mm, "path") ELSE IF st \in {"f", "d"} THEN SysErr(mm, "EEXIST", "Couldn't create directory " \o p)
                               ELSE IF st # "ENOENT" THEN SysErr(mm, st, "Couldn't create directory " \o p)
                               ELSE V([mm EXCEPT !.fs = Put(@, Norm(p), <<"d", 0>>)], True)
    [] nm = "glob" /\ n = 1 -> \* only dir/prefix*
         IF p = "" \/ Ch(p, Len(p)) # "*" \/ \E i \in 1..(Len(p) - 1) : Ch(p, i) \in {"*", "?", "[", "{", "\\"} THEN Ab(mm, "glob")
         ELSE LET pre == SubSeq(p, 1, Len(p) - 1) np == IF IsPrefixStr("/D/", pre) THEN SubSeq(pre, 4, Len(pre)) ELSE pre
                  S == {q \in DOMAIN mm.fs : IsPrefixStr(np, q) /\ ~\E i \in (Len(np) + 1)..Len(q) : Ch(q, i) = "/"}
              IN IF \E q \in S : q = np \/ Ch(q, 1) = "." THEN Ab(mm, "glob") ELSE VStrs(mm, [i \in 1..Cardinality(S) |-> IF np = pre THEN SortStrs(S)[i] ELSE "/D/" \o SortStrs(S)[i]], <<>>)
    [] OTHER -> Ab(mm, "native File." \o nm)

\* loadScript and requireScript: the first file of that name in the directories of the load path. The script is run with
\* the `this` of the place where it is loaded, and without its local variables; it defines global constants. Files: <<path, node, text>>,
\* node 0: not a program. "/D" is the current directory.
RECURSIVE IndexOf(_, _, _)
IndexOf(e, x, i) == IF i > Len(e) THEN 0 ELSE IF e[i][1] = x THEN i ELSE IndexOf(e, x, i + 1)
FileAt(mm, path) == IndexOf(Progs[mm.pid].files, IF Len(path) > 3 /\ SubSeq(path, 1, 3) = "/D/" THEN SubSeq(path, 4, Len(path)) ELSE path, 1)
InDir(d, name) ==
  LET d1 == IF d = "." THEN "/D" ELSE IF Len(d) > 1 /\ SubSeq(d, 1, 2) = "./" THEN "/D/" \o SubSeq(d, 3, Len(d)) ELSE d
  IN d1 \o (IF Ch(d, Len(d)) = "/" THEN "" ELSE "/") \o name
RECURSIVE FindScript(_, _, _)
FindScript(mm, dirs, name) ==
  IF dirs = <<>> THEN ""
  ELSE IF ~IsStr(mm.h, Head(dirs)) \/ mm.h[Head(dirs)[2]].s = "" THEN FindScript(mm, Tail(dirs), name)
  ELSE LET p == InDir(mm.h[Head(dirs)[2]].s, name) IN
       IF FileAt(mm, p) # 0 THEN p
       ELSE IF StrFind(name, ".lox", 0) < 0 /\ FileAt(mm, p \o ".lox") # 0 THEN p \o ".lox"
       ELSE FindScript(mm, Tail(dirs), name)
LoadScript(mm, once, x) ==
  IF ~IsStr(mm.h, x) THEN ArgErr(mm, 1, "String", x)
  ELSE LET name == mm.h[x[2]].s
           path == IF name # "" /\ Ch(name, 1) = "/" THEN (IF FileAt(mm, name) # 0 THEN name ELSE "") ELSE FindScript(mm, mm.h[mm.lp].e, name)
           nd == Progs[mm.pid].files[FileAt(mm, path)][2] IN
  IF name = "" \/ Len(mm.pp) > 0 \/ Kind(mm.h, Ref(mm.lp)) # "arr" THEN Ab(mm, "load")
  ELSE IF path = "" THEN Err(mm, ALoadErr, "File '" \o name \o "' not found")
  ELSE IF once /\ path \in mm.ld THEN V(mm, False)
  ELSE IF nd = 0 THEN Err(mm, ASyntaxErr, "Syntax error")
  ELSE Ev([Push(mm, <<"ls", mm.fr>>) EXCEPT !.fr = [Frame0 EXCEPT !.this = IF IsRef(mm.fr.this) THEN mm.fr.this ELSE <<"unk">>, !.blk = <<"unk">>, !.file = path],
                                            !.ld = IF once THEN @ \cup {path} ELSE @], nd)
DirOf(path) == LET is == {i \in 1..Len(path) : Ch(path, i) = "/"} IN SubSeq(path, 1, (CHOOSE i \in is : \A j \in is : j <= i) - 1)

\* exit(n) in the main thread ends the process, in another one the thread. In an atExit hook it sets the exit status.
ThreadEnd(mm) == [mm EXCEPT !.ctl = <<"ten">>, !.k = <<>>, !.fr = Frame0, !.mx = [a \in DOMAIN @ |-> IF @[a] = mm.cur THEN 0 ELSE @[a]]]
Exit(mm, n) ==
  IF mm.cur # 1 THEN ThreadEnd(mm)
  ELSE LET b == IF mm.k = <<>> THEN <<"none">> ELSE mm.k[Len(mm.k)] rc == IF n >= 0 THEN n % 256 ELSE (256 - ((-n) % 256)) % 256 IN
       [mm EXCEPT !.k = <<>>, !.fr = Frame0, !.ctl = IF b[1] = "hk" THEN <<"fin", b[2], b[3], rc>> ELSE <<"fin", "done", "", rc>>]
ExitNow(mm, n) == IF mm.cur # 1 THEN ThreadEnd(mm) ELSE LET e == Exit(mm, n) IN [e EXCEPT !.ctl = <<"out">> \o Tail(@)]

\* the number of arguments of native methods, -1: any
Args0 == {"dup", "freeze", "unfreeze", "isFrozen", "inspect", "pop", "popFront", "first", "last", "each", "map", "select", "reject", "find", "sum", "reverse", "sort",
          "sortBy", "clear", "toString", "iter", "keys", "values", "rehash", "compact", "compactLeft", "lock", "unlock", "next", "ancestors", "constants", "current", "main", "schedule"}
Args1 == {"isSame", "getProperty", "hasProperty", "hasGetter", "hasSetter", "respondsTo", "extend", "opEquals", "include", "isA", "constDefined", "constGet", "push", "pushFront",
          "deleteAt", "opIndexGet", "reduce", "join", "hasKey", "merge", "mergeWith", "opAdd", "opMul", "split", "endsWith", "rest", "index", "wrap", "parseInt"}
Args2 == {"setProperty", "aliasMethod", "defineMethod", "opIndexSet", "insertAt", "substr", "padRight"}
NatArgs(cl, nm) ==
  IF cl \in {ABlock, AError, AProcess, AIO, AFile, ADir, AFileStat} \/ nm \in {"init", "opShovelLeft"} THEN -1
  ELSE IF nm = "delete" THEN (IF cl = AArray THEN 1 ELSE -1)
  ELSE IF nm \in Args0 THEN 0 ELSE IF nm \in Args1 THEN 1 ELSE IF nm \in Args2 THEN 2 ELSE -1

\* the result of a native whose value programs shouldn't look at
CallNative(mm, r, f, args0, kws, blk0) ==
  LET cl == f[2] nm == f[3]
      fwd == args0 # <<>> /\ Kind(mm.h, Last(args0)) = "blk"  \* it is the block of the call
      args == IF fwd THEN Front(args0) ELSE args0
      blk == IF fwd THEN Last(args0) ELSE blk0 IN
  IF kws # <<>> THEN Ab(mm, "native kw")
  ELSE IF NatArgs(cl, nm) >= 0 /\ Len(args) # NatArgs(cl, nm)
  THEN NArity(mm, FullName(mm.h, ClassOf(mm.h, r)) \o "#" \o nm, NatArgs(cl, nm), Len(args))
  ELSE IF fwd /\ blk0[1] # "nil" THEN Ab(mm, "block as argument")
  ELSE CASE cl = AArray /\ Kind(mm.h, r) = "arr" -> ArrNative(mm, r, nm, args, blk)
    [] cl = AMap -> MapNative(mm, r, nm, args, blk)
    [] cl = AString -> StrNative(mm, r, nm, args)
    [] cl = AObject -> ObjNative(mm, r, nm, args, kws, blk)
    [] cl \in {AClass, AModule} -> ClsNative(mm, r, nm, args)
    [] cl = AError /\ nm = "init" -> IF Len(args) > 1 THEN Err(mm, AArgErr, "Error in " \o FullName(mm.h, ClassOf(mm.h, r)) \o "#init, expected 0 to 1 args, got " \o ToString(Len(args)))
                                     ELSE IF args # <<>> /\ args[1][1] # "nil" /\ ~IsStr(mm.h, args[1]) THEN ArgErr(mm, 1, "String", args[1])
                                     ELSE V([mm EXCEPT !.h[r[2]].pr = Put(@, "message", IF args = <<>> THEN Nil ELSE args[1])], r)
    [] cl = ABlock /\ nm = "yield" -> YieldStrict(mm, r, args, -1)
    [] cl = AIterator -> IterNative(mm, r, nm, args)
    [] cl = AThread -> ThreadNative(mm, r, nm, args)
    [] cl = AMutex -> MutexNative(mm, r, nm, args)
    [] cl \in {AIO, AFile} -> IF Len(mm.pp) > 0 \/ Len(mm.t) > 1 THEN Ab(mm, "IO with threads") ELSE IONative(mm, r, nm, args)
    [] cl = AFileStat /\ args = <<>> -> Bool(mm, nm = (IF mm.h[r[2]].stat = "f" THEN "isReg" ELSE "isDir"))
    [] OTHER -> Ab(mm, "native")

\* r.send(nm, args): methodMissing is not called
Send(mm, r, nm, args) ==
  LET f == IF IsCls(mm.h, r) THEN FindStatic(mm.h, r, nm) ELSE FindMeth(mm.h, r, nm)
      g == IF IsCls(mm.h, r) THEN <<"none">> ELSE FindGet(mm.h, r, nm) IN
  IF f[1] \in {"snat", "clo", "nat"} \/ Kind(mm.h, r) = "arrU" THEN Invoke(mm, r, nm, args, <<>>, Nil)
  ELSE IF (g[1] # "none" \/ IsCls(mm.h, r)) /\ args = <<>> THEN (IF g[1] = "clo" THEN Invoke(mm, r, nm, args, <<>>, Nil) ELSE Ab(mm, "send getter"))
  ELSE IF nm \in {"inspect", "instanceEval", "hashKey", "methodMissing"} THEN Ab(mm, "method")
  ELSE IF IsCls(mm.h, r) THEN Err(mm, AError, (IF Kind(mm.h, r) = "mod" THEN "module" ELSE "class") \o " method '" \o FullName(mm.h, r[2]) \o "." \o nm \o "' not found")
  ELSE Err(mm, AError, "instance method '" \o FullName(mm.h, ClassOf(mm.h, r)) \o "#" \o nm \o "' not found")

\* call the method `nm` of r
Invoke(mm, r, nm, args, kws, blk) ==
  IF ~InstLike(mm.h, r) /\ Kind(mm.h, r) # "arrU"
  THEN Err(mm, ATypeErr, "Tried to invoke method '" \o nm \o "' on non-instance (type=" \o Typ(mm, r) \o ")")
  ELSE IF Kind(mm.h, r) = "arrU" THEN UnordNative(mm, r, nm, args)
  ELSE LET f == IF IsCls(mm.h, r) THEN FindStatic(mm.h, r, nm) ELSE FindMeth(mm.h, r, nm) IN
  CASE f[1] = "snat" -> IF kws # <<>> THEN Ab(mm, "native kw") ELSE StaticNative(mm, r, f, args)
    [] f[1] = "clo" -> Enter(mm, f[2], r, IF IsCls(mm.h, r) THEN r[2] ELSE ClassOf(mm.h, r), IF nm = "init" THEN "init" ELSE "fun", args, kws, blk)
    [] f[1] = "nat" -> CallNative(mm, r, f, args, kws, blk)
    [] OTHER ->
       LET gt == IF IsCls(mm.h, r) THEN <<"none">> ELSE FindGet(mm.h, r, nm)
                mi == IF IsCls(mm.h, r) THEN FindStatic(mm.h, r, "methodMissing") ELSE FindMeth(mm.h, r, "methodMissing") IN
       IF Has(FieldsOf(mm.h[r[2]]), nm) THEN Ab(mm, "call of a field")
       ELSE IF r[2] = AProcess THEN Ab(mm, "Process")
       ELSE IF gt[1] = "clo" /\ args = <<>> /\ kws = <<>> THEN Enter(mm, gt[2], r, ClassOf(mm.h, r), "fun", <<>>, <<>>, Nil)
       ELSE IF args = <<>> /\ nm \in {"class", "size", "name", "superClass", "objectId", "singletonClass", "classInfo"} THEN Ab(mm, "getter call")
       ELSE IF mi[1] = "clo" THEN
            LET a == Alloc(mm, MkStr(nm)) IN Enter(a, mi[2], r, ClassOf(mm.h, r), "fun", <<Last_(a)>> \o args, kws, blk)
       ELSE IF nm \in {"inspect", "instanceEval", "hashKey"} THEN Ab(mm, "method")
       ELSE Err(mm, ANameErr, "Undefined method " \o nm \o " for " \o FullName(mm.h, ClassOf(mm.h, r)))

\* C(args): a new instance
RECURSIVE IsBuiltinSub(_, _)
IsBuiltinSub(h, a) == IF a = 0 THEN FALSE ELSE IF a \in {AString, AArray, AMap, AClass, AModule, ABlock, AThread, AMutex, AIterator} THEN TRUE ELSE IsBuiltinSub(h, h[a].sup)
Instantiate(mm, a, args, kws, blk) ==
  CASE a = AArray -> IF kws # <<>> THEN Ab(mm, "kw") ELSE VAlloc(mm, MkArr(args))
    [] a = AMap -> IF kws # <<>> THEN Ab(mm, "Map(..)") ELSE MapInit(mm, args)
    [] a = AString -> IF kws # <<>> \/ Len(args) > 1 THEN Ab(mm, "String(..)")
                      ELSE IF args = <<>> THEN VStr(mm, "")
                      ELSE ToStr(mm, <<<<"v", args[1], 0>>>>, "str", "")
    [] a # AMutex /\ IsBuiltinSub(mm.h, a) -> Ab(mm, "subclass of builtin")
    [] a \in {AIO, ADir, AFileStat} -> Ab(mm, "IO(..)")
    [] OTHER -> LET m1 == Alloc(mm, MkInst(a)) r == Last_(m1) f == FindMeth(m1.h, r, "init") IN
       IF f[1] = "clo" THEN Enter(m1, f[2], r, a, "init", args, kws, blk)
       ELSE CallNative(m1, r, f, args, kws, blk)

CallVal(mm, f, args, kws, blk) ==
  CASE Kind(mm.h, f) = "fn" -> LET c == mm.h[f[2]] IN Enter(mm, f[2], IF c.lit THEN <<"unk">> ELSE mm.fr.this, mm.fr.cref, "fun", args, kws, blk)
    [] Kind(mm.h, f) = "cls" -> Instantiate(mm, f[2], args, kws, blk)
    [] Kind(mm.h, f) = "bm" -> LET b == mm.h[f[2]] IN
         IF b.me[1] = "clo" THEN Enter(mm, b.me[2], b.r, ClassOf(mm.h, b.r), "fun", args, kws, blk)
         ELSE CallNative(mm, b.r, b.me, args, kws, blk)
    [] f[1] = "nat" ->
         IF kws # <<>> THEN Ab(mm, "native kw")
         ELSE IF args # <<>> /\ Kind(mm.h, Last(args)) = "blk" THEN Ab(mm, "block as argument")
         ELSE IF f[2] \in {"typeof", "classof", "sleep"} /\ Len(args) # 1 THEN NArity(mm, f[2], 1, Len(args))
         ELSE IF f[2] \in {"exit", "_exit"} /\ Len(args) > 1 THEN Err(mm, AArgErr, "Error in " \o f[2] \o ", expected 0 to 1 args, got " \o ToString(Len(args)))
         ELSE CASE f[2] = "alias" /\ Len(args) = 2 /\ IsStr(mm.h, args[2]) ->
                     IF ~(IsRef(args[1]) \/ args[1][1] = "nat") THEN Err(mm, AArgErr, "Argument 1 given to alias() must be callable")
                     ELSE IF Kind(mm.h, args[1]) \notin {"fn", "nat"} THEN Ab(mm, "alias") ELSE V([mm EXCEPT !.g = Put(@, mm.h[args[2][2]].s, args[1])], Nil)
           [] f[2] = "typeof" /\ Len(args) = 1 -> VStr(mm, Typ(mm, args[1]))
           [] f[2] = "classof" /\ Len(args) = 1 /\ InstLike(mm.h, args[1]) -> V(mm, Ref(ClassOf(mm.h, args[1])))
           [] f[2] = "classof" /\ Len(args) = 1 /\ (args[1] \in {Nil, True, False} \/ IsNum(args[1])) -> V(mm, Nil)
           [] f[2] = "blockGiven" /\ args = <<>> -> IF mm.fr.blk[1] = "unk" THEN Ab(mm, "blockGiven") ELSE Bool(mm, mm.fr.blk[1] # "nil")
           [] f[2] = "yield" -> IF mm.fr.blk[1] = "unk" THEN Ab(mm, "yield")
                                ELSE IF mm.fr.blk[1] = "nil" THEN Err(mm, AError, "Cannot yield, no block given")
                                ELSE IF mm.fr.fw THEN YieldStrict(mm, mm.fr.blk, args, mm.fr.cref)
                                ELSE YieldWith(Push(mm, <<"yl">>), mm.fr.blk, args, mm.fr.cref)
           [] f[2] \in {"loadScript", "requireScript"} ->
                IF Len(args) # 1 THEN NArity(mm, f[2], 1, Len(args)) ELSE LoadScript(mm, f[2] = "requireScript", args[1])
           [] f[2] = "autoload" -> IF Len(args) # 2 THEN NArity(mm, f[2], 2, Len(args))
                ELSE IF ~IsStr(mm.h, args[1]) THEN ArgErr(mm, 1, "String", args[1])
                ELSE IF ~IsStr(mm.h, args[2]) THEN ArgErr(mm, 2, "String", args[2])
                ELSE V([mm EXCEPT !.al = Put(@, mm.h[args[1][2]].s, mm.h[args[2][2]].s)], Nil)
           [] f[2] = "newThread" -> IF Len(args) # 1 THEN NArity(mm, "newThread", 1, Len(args)) ELSE NewThread(mm, args[1])
           [] f[2] = "joinThread" -> IF Len(args) # 1 THEN NArity(mm, "joinThread", 1, Len(args)) ELSE JoinThread(mm, args[1])
           [] f[2] = "sleep" /\ Len(args) = 1 -> IF ~IsNum(args[1]) THEN (IF IsRef(args[1]) THEN Ab(mm, "sleep") ELSE ArgErr(mm, 1, "number", args[1]))
                                                 ELSE IF TruncQ(args[1]) >= 1 THEN Yield(mm, Nil) ELSE V(mm, Nil)
           [] f[2] \in {"exit", "_exit"} /\ Len(args) <= 1 ->
                IF args # <<>> /\ ~IsNum(args[1]) THEN (IF IsRef(args[1]) THEN Ab(mm, "exit") ELSE ArgErr(mm, 1, "number", args[1]))
                ELSE LET n == IF args = <<>> THEN 0 ELSE TruncQ(args[1]) IN IF f[2] = "exit" THEN Exit(mm, n) ELSE ExitNow(mm, n)
           [] f[2] = "atExit" -> IF Len(args) # 1 THEN NArity(mm, "atExit", 1, Len(args))
                ELSE IF Kind(mm.h, args[1]) # "fn" THEN (IF IsRef(args[1]) THEN Ab(mm, "atExit") ELSE Err(mm, AArgErr, "Expected argument 1 to be a function, got: " \o Typ(mm, args[1])))
                ELSE V([mm EXCEPT !.ax = Append(@, args[1][2])], Nil)
           [] OTHER -> Ab(mm, "native " \o f[2])
    [] OTHER -> Err(mm, ATypeErr, "Tried to call uncallable object (type=" \o Typ(mm, f) \o ")")

(****************************** string conversion *************************)
\* convert v, then: "print", "str" (new string) or "interp" (append to acc, continue with the other values)
StrDone(mm, what, str) ==
  IF HasAbort(str) THEN Ab(mm, "show")
  ELSE CASE what = "print" -> IF mm.rcy # {} THEN Ab(mm, "print race") ELSE V([mm EXCEPT !.o = Append(@, str)], Nil)
    [] what = "str" -> VStr(mm, str)
\* items: <<"s", string>> or <<"v", value, depth>>
Items(vs, d) == [i \in 1..Len(vs) |-> <<"v", vs[i], d>>]
Within(items, self, str) == [i \in 1..Len(items) |-> IF items[i][1] = "v" /\ items[i][2] = self THEN <<"s", str>> ELSE items[i]]
RECURSIVE SepItems(_, _)
SepItems(items, sep) == IF Len(items) <= 1 THEN items ELSE <<Head(items), <<"s", sep>>>> \o SepItems(Tail(items), sep)
RECURSIVE EntryItems(_, _)
EntryItems(e, d) == IF e = <<>> THEN <<>> ELSE <<<<"v", e[1][1], d>>, <<"s", " => ">>, <<"v", e[1][2], d>>>> \o (IF Len(e) > 1 THEN <<<<"s", ", ">>>> ELSE <<>>) \o EntryItems(Tail(e), d)
ToStr(mm, items, what, acc) ==
  IF items = <<>> THEN StrDone(mm, what, acc)
  ELSE LET it == Head(items) rest == Tail(items) IN
  IF it[1] = "s" THEN ToStr(mm, rest, what, acc \o it[2])
  ELSE LET v == it[2] d == it[3] k == Kind(mm.h, v) IN
  CASE k = "arrU" -> Ab(mm, "show")
    [] k = "map" /\ ~Ordered(mm.h[v[2]]) -> NeedOrd(Push(mm, <<"show", items, what, acc>>), v[2])
    [] Pure(mm.h, v, "toString", 5) -> ToStr(mm, rest, what, acc \o Show(mm.h, v))
    [] k = "inst" -> Invoke(Push(mm, <<"tos", rest, what, acc>>), v, "toString", <<>>, <<>>, Nil)
    [] d > 6 -> Ab(mm, "show")
    [] k = "arr" -> ToStr(mm, <<<<"s", "[">>>> \o SepItems(Within(Items(mm.h[v[2]].e, d + 1), v, "[...]"), ",") \o <<<<"s", "]">>>> \o rest, what, acc)
    [] k = "map" -> ToStr(mm, <<<<"s", "{">>>> \o Within(EntryItems(mm.h[v[2]].e, d + 1), v, "{...}") \o <<<<"s", "}">>>> \o rest, what, acc)
    [] OTHER -> Ab(mm, "show")

(****************************** operators *********************************)
OpMeth(op) == CASE op = "+" -> "opAdd" [] op = "-" -> "opDiff" [] op = "*" -> "opMul" [] op = "/" -> "opDiv"
                [] op = "<<" -> "opShovelLeft" [] op = ">>" -> "opShovelRight"
                [] OTHER -> "?"
CmpRes(op, c) == CASE op = "<" -> c < 0 [] op = "<=" -> c <= 0 [] op = ">" -> c > 0 [] op = ">=" -> c >= 0

Binary(mm, op, a, b) ==
  CASE op \in {"==", "!="} ->
         LET q == EqU(mm, a, b) IN
         IF q # "u" THEN Bool(mm, (q = "t") = (op = "=="))
         ELSE IF UserMeth(mm.h, a, "opEquals")
              THEN Invoke(Push(mm, <<"eqres", op>>), a, "opEquals", <<b>>, <<>>, Nil)
         ELSE Ab(mm, "eq")
    [] op \in {"<", "<=", ">", ">="} ->
         IF IsNum(a) /\ IsNum(b) THEN Bool(mm, CmpRes(op, NumCmp(a, b)))
         ELSE IF IsStr(mm.h, a) /\ IsStr(mm.h, b)
              THEN Bool(mm, CmpRes(op, StrCmp(mm.h[a[2]].s, mm.h[b[2]].s)))
         ELSE IF IsCls(mm.h, a) THEN (IF FindStatic(mm.h, a, "opCmp")[1] # "none" \/ Kind(mm.h, a) = "mod" THEN Ab(mm, "cmp") ELSE Err(mm, AError, "class method '" \o FullName(mm.h, a[2]) \o ".opCmp' not found"))
         ELSE IF InstLike(mm.h, a) THEN
              (IF UserMeth(mm.h, a, "opCmp")
               THEN Invoke(Push(mm, <<"cmpres", op>>), a, "opCmp", <<b>>, <<>>, Nil)
               ELSE Err(mm, AError, "instance method '" \o FullName(mm.h, ClassOf(mm.h, a)) \o "#opCmp' not found"))
         ELSE Err(mm, ATypeErr, "Can only compare numbers and objects with '" \o op \o "', lhs=" \o Typ(mm, a) \o ", rhs=" \o Typ(mm, b))
    [] OTHER ->
         IF IsNum(a) /\ IsNum(b) THEN
              LET r == Arith(op, a, b) IN
              CASE r[1] = "n" -> V(mm, r) [] r[1] = "err" -> Err(mm, AError, "Can't divide by 0") [] OTHER -> Ab(mm, "num")
         ELSE IF InstLike(mm.h, a) /\ ~IsCls(mm.h, a) /\ OpMeth(op) # "?" THEN
              LET f == FindMeth(mm.h, a, OpMeth(op)) IN
              IF f[1] # "none" THEN Invoke(mm, a, OpMeth(op), <<b>>, <<>>, Nil)
              ELSE Err(mm, ANameErr, "Method " \o FullName(mm.h, ClassOf(mm.h, a)) \o "#" \o OpMeth(op) \o " not found for operation '" \o op \o "'")
         ELSE IF IsCls(mm.h, a) /\ OpMeth(op) # "?" THEN
              (IF FindStatic(mm.h, a, OpMeth(op))[1] # "none" THEN Ab(mm, "binop")
               ELSE Err(mm, ANameErr, "Method " \o FullName(mm.h, ClassOf(mm.h, a)) \o "#" \o OpMeth(op) \o " not found for operation '" \o op \o "'"))
         ELSE Err(mm, ATypeErr, "Binary operation type error, op=" \o op \o ", lhs=" \o Typ(mm, a) \o ", rhs=" \o Typ(mm, b))

(****************************** constants *********************************)
FindConst(mm, nm) ==
  LET f == ConstUnder(mm.h, IF mm.fr.cref < 0 THEN -1 - mm.fr.cref ELSE mm.fr.cref, nm) IN
  IF f[1] # "none" THEN (IF mm.fr.cref < 0 THEN <<"hidden">> ELSE f) ELSE IF Has(mm.c, nm) THEN mm.c[nm] ELSE <<"none">>

\* the first clause whose class the error has handles it; names that aren't constants, and constants that aren't classes, match nothing
RECURSIVE CatchClass(_, _)
CatchClass(mm, i) ==
  IF N(i).t = "const" THEN FindConst(mm, N(i).n)
  ELSE LET b == CatchClass(mm, N(i).e) IN
       IF b[1] \in {"none", "hidden"} THEN b
       ELSE IF ~IsCls(mm.h, b) THEN <<"hidden">>
       ELSE IF Has(mm.h[b[2]].co, N(i).n) THEN mm.h[b[2]].co[N(i).n] ELSE <<"none">>
RECURSIVE Catch(_, _, _, _)
Catch(mm, cs, err, i) ==
  IF i > Len(cs) THEN X(mm, "thr", err)
  ELSE LET c == CatchClass(mm, cs[i][1]) IN
       IF c[1] = "hidden" \/ (c[1] = "none" /\ mm.fr.cref < 0) THEN Ab(mm, "constant in a block")
       ELSE IF Kind(mm.h, c) = "cls" /\ IsA(mm.h, err, c[2])
            THEN LET p1 == Push(mm, <<"scope", mm.fr>>) IN Ev(IF cs[i][2] = "" THEN p1 ELSE Declare(p1, cs[i][2], err), cs[i][3])
       ELSE Catch(mm, cs, err, i + 1)

NoConst(mm, nm) == Err(mm, ANameErr, "Undefined constant '" \o (IF mm.fr.cref = 0 THEN "" ELSE mm.h[mm.fr.cref].nm \o "::") \o nm \o "'.")
SetConst(mm, nm, v) ==
  IF mm.fr.cref < 0 THEN Ab(mm, "constant set in a block") ELSE
  IF mm.fr.cref = 0 THEN [mm EXCEPT !.c = Put(@, nm, v)] ELSE [mm EXCEPT !.h[mm.fr.cref].co = Put(@, nm, v)]

(****************************** super *************************************)
RECURSIVE After(_, _)
After(mro, c) == IF mro = <<>> THEN <<>> ELSE IF Head(mro) = c THEN Tail(mro) ELSE After(Tail(mro), c)

(********************** applying an operation to values *******************)
\* `var a, b = v` and `foreach (a, b in ..)`: the first k elements of an array, nil when there are too few
Unpack(mm, v, k) == LET e == mm.h[v[2]].e IN [i \in 1..k |-> IF i <= Len(e) THEN e[i] ELSE Nil]
UnpackErr(mm, v) == Err(mm, ATypeErr, "Cannot unpack a non-array value. Type found: " \o Typ(mm, v))
\* expand the splatted arguments (arrays, see BadSplat)
RECURSIVE Splat(_, _, _, _)
Splat(mm, sp, vals, acc) ==
  IF sp = <<>> THEN acc
  ELSE IF Head(sp) = 0 THEN Splat(mm, Tail(sp), Tail(vals), Append(acc, Head(vals)))
  ELSE Splat(mm, Tail(sp), Tail(vals), acc \o mm.h[Head(vals)[2]].e)

MkBlockLit(mm, f) == \* block literal: <<m, Block object>>
  LET a == Alloc(mm, [k |-> "fn", f |-> f, env |-> mm.fr.env, cref |-> mm.fr.cref, cls |-> mm.fr.cls, nm |-> mm.fr.nm, st |-> mm.fr.st,
                      lit |-> TRUE, fz |-> FALSE])
      b == Alloc(a, [k |-> "blk", f |-> Len(a.h), fz |-> FALSE])
  IN b

\* vals: the positional arguments, then the keyword values, then the block argument (if n.ba)
WithArgs(mm, n, vals, Go(_, _, _, _)) ==
  LET np == Len(n.l) nk == Len(n.kl)
      sp == Splat(mm, n.sp, SubSeq(vals, 1, np), <<>>)
      kws == [i \in 1..nk |-> <<n.kn[i], vals[np + i]>>]
      ba == IF n.ba # 0 THEN vals[np + nk + 1] ELSE Nil
      m1 == IF n.blk # 0 THEN MkBlockLit(mm, n.blk)
            ELSE IF Kind(mm.h, ba) = "fn" THEN Alloc(mm, [k |-> "blk", f |-> ba[2], fz |-> FALSE]) ELSE mm
      isf == Kind(mm.h, ba) = "fn"
      blk == IF n.blk # 0 \/ isf THEN Last_(m1) ELSE Nil
  IN IF Len(sp) > 7 THEN Ab(mm, "args")
     ELSE IF n.ba # 0 /\ ~isf /\ ba # Nil
     THEN (IF IsRef(ba) /\ Kind(mm.h, ba) \notin {"inst", "arr", "map", "str", "blk"} THEN Ab(mm, "block arg")
           ELSE IF ~IsRef(ba) /\ ba[1] \notin {"n", "b"} THEN Ab(mm, "block arg")
           ELSE Err(mm, ATypeErr, "Cannot use '&' operator on a non-function"))
     ELSE IF n.ba # 0 /\ kws # <<>> /\ ~isf THEN Ab(mm, "block arg")
     ELSE IF n.ba # 0 /\ kws = <<>> THEN Go(m1, Append(sp, IF isf THEN blk ELSE Nil), kws, Nil)
     ELSE Go(m1, sp, kws, blk)
ArgIds(n) == n.l \o n.kl \o (IF n.ba # 0 THEN <<n.ba>> ELSE <<>>)

Idx(mm, a, b) == IF ~InstLike(mm.h, a) THEN (IF IsRef(a) /\ Kind(mm.h, a) # "fn" THEN Ab(mm, "idx") ELSE Err(mm, ATypeErr, "Cannot call opIndexGet ('[]') on a non-instance, found a: " \o Typ(mm, a)))
                 ELSE IF IsCls(mm.h, a) /\ FindStatic(mm.h, a, "opIndexGet")[1] # "none" THEN Ab(mm, "idx")
                 ELSE IF FindMeth(mm.h, a, "opIndexGet")[1] = "none" THEN Err(mm, ANameErr, "Undefined instance method 'opIndexGet' for class " \o FullName(mm.h, ClassOf(mm.h, a)))
                 ELSE Invoke(mm, a, "opIndexGet", <<b>>, <<>>, Nil)
IdxSet(mm, a, b, c) == IF ~InstLike(mm.h, a) THEN (IF IsRef(a) /\ Kind(mm.h, a) # "fn" THEN Ab(mm, "idxset")
                            ELSE Err(mm, ATypeErr, "Cannot call opIndexSet ('[]=') on a non-instance, found a: " \o Typ(mm, a)))
                       ELSE IF IsCls(mm.h, a) /\ FindStatic(mm.h, a, "opIndexSet")[1] # "none" THEN Ab(mm, "idxset")
                       ELSE IF FindMeth(mm.h, a, "opIndexSet")[1] = "none" THEN Err(mm, ANameErr, "Undefined instance method 'opIndexSet' for class " \o FullName(mm.h, ClassOf(mm.h, a)))
                       ELSE Invoke(mm, a, "opIndexSet", <<b, c>>, <<>>, Nil)

Apply(mm, op, vs) ==
  LET n == ND(mm, op) IN
  CASE n.t = "bin" -> Binary(mm, n.op, vs[1], vs[2])
    [] n.t = "neg" -> IF IsNum(vs[1]) THEN V(mm, NegN(vs[1]))
                      ELSE Err(mm, ATypeErr, "Can only negate numbers, type=" \o Typ(mm, vs[1]))
    [] n.t = "not" -> Bool(mm, ~Truthy(vs[1]))
    [] n.t = "interp" -> ToStr(mm, Items(vs, 0), "str", "")
    [] n.t = "arr" -> VAlloc(mm, MkArr(vs))
    [] n.t = "map" -> IF \E i \in 1..(Len(vs) \div 2) : ~KeyOk(mm, vs[2 * i - 1]) THEN Ab(mm, "key")
                      ELSE VAlloc(mm, MkMap(MapPutAll(mm, <<>>, [i \in 1..(Len(vs) \div 2) |-> <<vs[2 * i - 1], vs[2 * i]>>])))
    [] n.t = "idx" -> Idx(mm, vs[1], vs[2])
    [] n.t = "idxset" -> IdxSet(mm, vs[1], vs[2], vs[3])
    [] n.t = "asg" -> IF Has(mm.fr.env, n.n) THEN V([mm EXCEPT !.s[mm.fr.env[n.n]] = vs[1]], vs[1])
                      ELSE V([mm EXCEPT !.g = Put(@, n.n, vs[1])], vs[1])
    [] n.t = "get" -> IF InstLike(mm.h, vs[1]) \/ Kind(mm.h, vs[1]) = "arrU" THEN PropGet(mm, vs[1], n.n)
                      ELSE IF IsRef(vs[1]) /\ Kind(mm.h, vs[1]) # "fn" THEN Ab(mm, "get")
                      ELSE Err(mm, ATypeErr, "Tried to access property '" \o n.n \o "' of non-instance (type: " \o Typ(mm, vs[1]) \o ")")
    [] n.t = "set" -> IF InstLike(mm.h, vs[1]) THEN PropSet(mm, vs[1], n.n, vs[2])
                      ELSE IF IsRef(vs[1]) /\ Kind(mm.h, vs[1]) # "fn" THEN Ab(mm, "set")
                      ELSE Err(mm, ATypeErr, "Tried to set property '" \o n.n \o "' of non-instance")
    [] n.t = "cget" -> IF vs[1] = Nil THEN Ab(mm, "cget")
                       ELSE IF ~IsCls(mm.h, vs[1]) THEN Err(mm, ATypeErr, "Constants must be defined under classes/modules")
                       ELSE IF Has(mm.h[vs[1][2]].co, n.n) THEN V(mm, mm.h[vs[1][2]].co[n.n])
                       ELSE Err(mm, ANameErr, "Undefined constant '" \o mm.h[vs[1][2]].nm \o "::" \o n.n \o "'.")
    [] n.t = "call" -> WithArgs(mm, n, Tail(vs), LAMBDA mm1, args, kws, blk : CallVal(mm1, vs[1], args, kws, blk))
    [] n.t = "inv" -> WithArgs(mm, n, Tail(vs), LAMBDA mm1, args, kws, blk : Invoke(mm1, vs[1], n.n, args, kws, blk))
    [] n.t = "sup" -> WithArgs(mm, n, vs, LAMBDA mm1, args, kws, blk :
         LET r == mm.fr.this IN
         IF mm.fr.cls = 0 \/ r[1] # "r" \/ mm.fr.kd \in {"blk", "bfn"} THEN Ab(mm, "super")
         ELSE LET st == IsCls(mm.h, r)
                  f == IF st THEN LookupSt(mm.h, After(Mro(mm.h, r[2]), mm.fr.cls), n.n)
                       ELSE Lookup(mm.h, After(MroOf(mm.h, r), mm.fr.cls), "me", n.n) IN
              CASE f[1] = "clo" -> Enter(mm1, f[2], r, IF st THEN r[2] ELSE ClassOf(mm.h, r), IF n.n = "init" THEN "init" ELSE "fun", args, kws, blk)
                [] f[1] = "nat" -> CallNative(mm1, r, f, args, kws, blk)
                [] OTHER -> Err(mm, AError, "Could not find method '" \o n.n \o "' for 'super'"))
    [] n.t = "expr" -> V(mm, vs[1])
    [] n.t = "print" -> ToStr(mm, <<<<"v", vs[1], 0>>>>, "print", "")
    [] n.t = "vard" -> IF n.gl THEN V([mm EXCEPT !.g = Put(@, n.n, IF vs = <<>> THEN Nil ELSE vs[1])], Nil)
                       ELSE V(Declare(mm, n.n, IF vs = <<>> THEN Nil ELSE vs[1]), Nil)
    [] n.t = "mvar" -> IF ~IsArr(mm.h, vs[1]) THEN UnpackErr(mm, vs[1])
                       ELSE LET xs == Unpack(mm, vs[1], Len(n.ns))
                            IN IF n.gl THEN V([mm EXCEPT !.g = [x \in DOMAIN @ \cup ToSet(n.ns) |->
                                                   IF x \in ToSet(n.ns) THEN xs[CHOOSE i \in 1..Len(n.ns) : n.ns[i] = x] ELSE @[x]]], Nil)
                               ELSE V(DeclareAll(mm, n.ns, xs), Nil)
    [] n.t = "casg" -> V(SetConst(mm, n.n, vs[1]), vs[1])
    [] n.t = "throw" -> IF IsStr(mm.h, vs[1])  \* throw "message": an Error
                        THEN LET b == Alloc(mm, [MkInst(AError) EXCEPT !.pr = ("message" :> vs[1])]) IN X(b, "thr", Last_(b))
                        ELSE IF Kind(mm.h, vs[1]) = "inst" /\ IsA(mm.h, vs[1], AError) THEN X(mm, "thr", vs[1])
                        ELSE Err(mm, ATypeErr, "Tried to throw unthrowable value, must be a subclass of Error. Type found: " \o Typ(mm, vs[1]))
    [] n.t = "ret" -> X(mm, "ret", IF vs = <<>> THEN Nil ELSE vs[1])
    [] n.t = "brk" -> X(mm, "brk", Nil)
    [] n.t = "cont" -> X(mm, "cont", Nil)

(*************************** nodes with operands **************************)
Operands(n) ==
  CASE n.t \in {"bin", "idx"} -> <<n.a, n.b>>
    [] n.t \in {"neg", "not", "expr", "print", "throw", "casg", "asg", "cget", "mvar"} -> <<n.e>>
    [] n.t \in {"interp", "arr", "map"} -> n.l
    [] n.t = "idxset" -> <<n.a, n.b, n.c>>
    [] n.t = "get" -> <<n.a>>
    [] n.t = "set" -> <<n.a, n.e>>
    [] n.t = "call" -> <<n.f>> \o ArgIds(n)
    [] n.t = "inv" -> <<n.a>> \o ArgIds(n)
    [] n.t = "sup" -> ArgIds(n)
    [] n.t \in {"vard", "ret"} -> IF n.e = 0 THEN <<>> ELSE <<n.e>>
    [] n.t \in {"brk", "cont"} -> <<>>
\* the value v of the i-th operand is to be splatted, and isn't an array
BadSplat(mm, n, i, v) ==
  /\ n.t \in {"call", "inv", "sup"}
  /\ LET j == i - (IF n.t = "sup" THEN 0 ELSE 1) IN j \in 1..Len(n.l) /\ n.sp[j] = 1 /\ ~IsArr(mm.h, v)
HasOperands == {"bin", "idx", "neg", "not", "expr", "print", "throw", "casg", "asg", "cget", "mvar", "interp", "arr", "map", "idxset",
                "get", "set", "call", "inv", "sup", "vard", "ret", "brk", "cont"}

MkFn(mm, f, nm, cls, st) ==
  [k |-> "fn", f |-> f, env |-> mm.fr.env, cref |-> mm.fr.cref, cls |-> cls, nm |-> nm, st |-> st, lit |-> FALSE, fz |-> FALSE]

(******************************** actions *********************************)
Running == m.ctl[1] \in {"e", "v", "x", "bv"} /\ m.n < MaxSteps
Go(mm) == m' = [mm EXCEPT !.n = m.n + 1]

\* literals, variables, constants, this, closures
Atom ==
  /\ m.ctl[1] = "e"
  /\ LET n == N(m.ctl[2]) IN
     \/ n.t = "num" /\ Go(V(m, <<"n", n.p, n.q>>))
     \/ n.t = "str" /\ Go(VStr(m, n.s))
     \/ n.t = "nil" /\ Go(V(m, Nil))
     \/ n.t = "bool" /\ Go(Bool(m, n.b))
     \/ n.t = "var" /\ Go(IF n.n \in {"__FILE__", "__DIR__"} THEN (IF n.n = "__FILE__" THEN VStr(m, m.fr.file) ELSE IF Ch(m.fr.file, 1) # "/" THEN V(m, Nil) ELSE VStr(m, DirOf(m.fr.file)))
                          ELSE IF Has(m.fr.env, n.n) THEN V(m, m.s[m.fr.env[n.n]])
                          ELSE IF Has(m.g, n.n) THEN V(m, m.g[n.n])
                          ELSE Err(m, ANameErr, "Undefined global variable '" \o n.n \o "'."))
     \/ n.t = "const" /\ Go(LET f == FindConst(m, n.n) IN
                            IF f[1] = "hidden" \/ (f[1] = "none" /\ m.fr.cref < 0) THEN Ab(m, "constant in a block")
                            ELSE IF f[1] # "none" THEN V(m, f)
                            ELSE IF Has(m.al, n.n) THEN LET a == Push(Alloc(m, MkStr(m.al[n.n])), <<"alc", m.ctl[2]>>) IN LoadScript(a, TRUE, Last_(a))
                            ELSE NoConst(m, n.n))
     \/ n.t = "this" /\ Go(IF IsRef(m.fr.this) THEN V(m, m.fr.this) ELSE Ab(m, "this"))
     \/ n.t = "fun" /\ Go(VAlloc(m, MkFn(m, m.ctl[2], n.nm, 0, FALSE)))

\* start evaluating the operands of a node
Operator ==
  /\ m.ctl[1] = "e"
  /\ N(m.ctl[2]).t \in HasOperands
  /\ LET ops == Operands(N(m.ctl[2])) IN
     IF ops = <<>> THEN Go(Apply(m, m.ctl[2], <<>>))
     ELSE Go([m EXCEPT !.ctl = <<"e", Head(ops)>>, !.k = <<<<"list", m.ctl[2], Tail(ops), <<>>>>>> \o @])

Operand ==
  /\ m.ctl[1] = "v" /\ m.k # <<>> /\ m.k[1][1] = "list"
  /\ LET kk == m.k[1] vs == Append(kk[4], m.ctl[2]) IN
     IF BadSplat(m, N(kk[2]), Len(vs), m.ctl[2]) THEN Go(Err(Pop(m), ATypeErr, "Splatted expression must evaluate to an Array (type=" \o Typ(m, m.ctl[2]) \o ")"))
     ELSE IF kk[3] = <<>> THEN Go(Apply(Pop(m), kk[2], vs))
     ELSE Go([m EXCEPT !.ctl = <<"e", Head(kk[3])>>, !.k[1] = <<"list", kk[2], Tail(kk[3]), vs>>])

ShortCircuit ==
  \/ /\ m.ctl[1] = "e" /\ N(m.ctl[2]).t \in {"and", "or"}
     /\ Go(Ev(Push(m, <<N(m.ctl[2]).t, N(m.ctl[2]).b>>), N(m.ctl[2]).a))
  \/ /\ m.ctl[1] = "v" /\ m.k # <<>> /\ m.k[1][1] \in {"and", "or"}
     /\ Go(IF Truthy(m.ctl[2]) = (m.k[1][1] = "and") THEN Ev(IF m.k[1][1] = "and" THEN Push(Pop(m), <<"and2">>) ELSE Push(Pop(m), <<"or2", m.ctl[2]>>), m.k[1][2]) ELSE Pop(m))
  \* both falsy: `or` gives the left one; `and` gives false for a falsy right one
  \/ /\ m.ctl[1] = "v" /\ m.k # <<>> /\ m.k[1][1] \in {"and2", "or2"}
     /\ Go(IF Truthy(m.ctl[2]) THEN Pop(m) ELSE V(Pop(m), IF m.k[1][1] = "and2" THEN False ELSE m.k[1][2]))

Statement ==
  /\ m.ctl[1] = "e"
  /\ LET n == N(m.ctl[2]) IN
     \/ n.t = "block" /\ Go(Seq_(Push(m, <<"scope", m.fr>>), n.l))
     \/ n.t = "top" /\ Go(Seq_(m, n.l))
     \/ n.t = "if" /\ Go(Ev(Push(m, <<"if", n.a, n.b>>), n.c))
     \/ n.t = "while" /\ Go(Ev(Push(m, <<"wc", m.ctl[2], m.fr>>), n.c))
     \/ n.t = "for" /\ Go(Ev(Push(Push(m, <<"scope", m.fr>>), <<"fi", m.ctl[2]>>), n.i))
     \/ n.t = "foreach" /\ Go(Ev(Push(m, <<"feo", m.ctl[2]>>), n.e))
     \* a named function is assigned to the variable of that name: a global one unless a local one is visible
     \/ n.t = "fdef" /\ Go(LET a == Alloc(m, MkFn(m, n.f, n.n, 0, FALSE))
                           IN V(IF Has(m.fr.env, n.n) THEN [a EXCEPT !.s[m.fr.env[n.n]] = Last_(a)] ELSE [a EXCEPT !.g = Put(@, n.n, Last_(a))], Nil))
     \/ n.t = "try" /\ Go(LET m1 == IF n.en = 0 THEN m ELSE Push(m, <<"enb", n.en, m.fr>>)
                          IN Ev(Push(m1, <<"try", m.ctl[2], m.fr>>), n.b))

Branch ==
  /\ m.ctl[1] = "v" /\ m.k # <<>> /\ m.k[1][1] = "if"
  /\ Go(IF Truthy(m.ctl[2]) THEN Ev(Pop(m), m.k[1][2]) ELSE IF m.k[1][3] # 0 THEN Ev(Pop(m), m.k[1][3]) ELSE V(Pop(m), Nil))

Sequence ==
  /\ m.ctl[1] = "v" /\ m.k # <<>> /\ m.k[1][1] = "seq"
  /\ Go(Seq_(Pop(m), m.k[1][2]))

LeaveScope ==
  /\ m.ctl[1] = "v" /\ m.k # <<>> /\ m.k[1][1] = "scope"
  /\ Go([Pop(m) EXCEPT !.fr = m.k[1][2]])

Feach(mm, id, fr, arr, i) ==
  LET n == ND(mm, id) e == mm.h[arr[2]].e mp == mm.h[arr[2]].k = "map"
      m0 == [mm EXCEPT !.fr = fr]
      m1 == Push(m0, <<"feb", id, fr, arr, i + 1>>)
  IN IF i > Len(e) THEN V(m0, Nil)
     ELSE IF mp THEN
       (IF ~Ordered(mm.h[arr[2]]) THEN Ab(mm, "map changed")
        ELSE IF Len(n.ns) >= 2 THEN Ev(DeclareAll(m1, n.ns, [j \in 1..Len(n.ns) |-> IF j <= 2 THEN e[i][j] ELSE Nil]), n.b)
        ELSE LET a == Alloc(m1, MkArr(<<e[i][1], e[i][2]>>)) IN Ev(Declare(a, n.ns[1], Last_(a)), n.b))
     ELSE IF ~Truthy(e[i]) THEN Ab(mm, "falsy element")
     ELSE IF Len(n.ns) = 1 THEN Ev(Declare(m1, n.ns[1], e[i]), n.b)
     ELSE IF ~IsArr(mm.h, e[i]) THEN UnpackErr(mm, e[i])
     ELSE Ev(DeclareAll(m1, n.ns, Unpack(mm, e[i], Len(n.ns))), n.b)

\* foreach over an instance: `it` has the method iterNext
FeachIt(mm, id, fr, it) ==
  Invoke(Push([mm EXCEPT !.fr = fr], <<"fen", id, fr, it>>), it, IF Kind(mm.h, it) = "iter" THEN "next" ELSE "iterNext", <<>>, <<>>, Nil)

Loop ==
  /\ m.ctl[1] = "v" /\ m.k # <<>>
  /\ LET kk == m.k[1] p == Pop(m) IN
     \/ kk[1] = "wc" /\ Go(IF Truthy(m.ctl[2]) THEN Ev(Push(p, <<"wb", kk[2], kk[3]>>), N(kk[2]).b) ELSE V(p, Nil))
     \/ kk[1] = "wb" /\ Go(Ev(Push([p EXCEPT !.fr = kk[3]], <<"wc", kk[2], kk[3]>>), N(kk[2]).c))
     \/ kk[1] = "fi" /\ Go(Ev(Push(p, <<"fc", kk[2], m.fr>>), N(kk[2]).c))
     \/ kk[1] = "fc" /\ Go(IF Truthy(m.ctl[2]) THEN Ev(Push(p, <<"fb", kk[2], kk[3]>>), N(kk[2]).b) ELSE V(p, Nil))
     \/ kk[1] = "fb" /\ Go(Ev(Push([p EXCEPT !.fr = kk[3]], <<"fs", kk[2], kk[3]>>), N(kk[2]).s))
     \/ kk[1] = "fs" /\ Go(Ev(Push(p, <<"fc", kk[2], kk[3]>>), N(kk[2]).c))
     \/ kk[1] = "feo" /\ Go(LET v == m.ctl[2] IN
          CASE IsArr(m.h, v) -> Feach(p, kk[2], m.fr, v, 1)
            [] Kind(m.h, v) = "map" -> IF ~Ordered(m.h[v[2]]) THEN NeedOrd(m, v[2]) ELSE Feach(p, kk[2], m.fr, v, 1)
            [] Kind(m.h, v) = "iter" -> Err(p, ANameErr, "Undefined instance method 'iterNext' for class Iterator")
            [] Kind(m.h, v) = "inst" ->
                 IF FindMeth(m.h, v, "iter")[1] = "clo" THEN Invoke(Push(p, <<"fei", kk[2], m.fr>>), v, "iter", <<>>, <<>>, Nil)
                 ELSE IF FindMeth(m.h, v, "iterNext")[1] = "clo" THEN FeachIt(p, kk[2], m.fr, v)
                 ELSE Err(p, ANameErr, "Undefined instance method 'iterNext' for class " \o FullName(m.h, ClassOf(m.h, v)))
            [] IsRef(v) -> Ab(m, "foreach")
            [] OTHER -> Err(p, ATypeErr, "Non-iterable value given to 'foreach' statement. Type found: " \o Typ(m, v)))
     \/ kk[1] = "fei" /\ Go(LET v == m.ctl[2] IN
          CASE IsArr(m.h, v) -> Feach([p EXCEPT !.fr = kk[3]], kk[2], kk[3], v, 1)
            [] Kind(m.h, v) = "map" -> IF ~Ordered(m.h[v[2]]) THEN NeedOrd(m, v[2]) ELSE Feach([p EXCEPT !.fr = kk[3]], kk[2], kk[3], v, 1)
            [] Kind(m.h, v) = "iter" -> FeachIt(p, kk[2], kk[3], v)
            [] IsRef(v) /\ Kind(m.h, v) \notin {"inst", "str", "cls", "mod"} -> Ab(m, "iter")
            [] OTHER -> Err(p, ATypeErr, "Return value from iter() must be an Iterator or iterable value (Array/Map)"))
     \/ kk[1] = "fen" /\ Go(IF ~Truthy(m.ctl[2]) THEN V([p EXCEPT !.fr = kk[3]], Nil)
                            ELSE IF Len(N(kk[2]).ns) # 1 THEN
                              (IF ~IsArr(m.h, m.ctl[2]) THEN UnpackErr(p, m.ctl[2])
                               ELSE Ev(DeclareAll(Push([p EXCEPT !.fr = kk[3]], <<"feib", kk[2], kk[3], kk[4]>>), N(kk[2]).ns, Unpack(m, m.ctl[2], Len(N(kk[2]).ns))), N(kk[2]).b))
                            ELSE Ev(Declare(Push([p EXCEPT !.fr = kk[3]], <<"feib", kk[2], kk[3], kk[4]>>), N(kk[2]).ns[1], m.ctl[2]), N(kk[2]).b))
     \/ kk[1] = "feib" /\ Go(FeachIt(p, kk[2], kk[3], kk[4]))
     \/ kk[1] = "feb" /\ Go(Feach(p, kk[2], kk[3], kk[4], kk[5]))

\* the end of a function body, default arguments
FunctionEnd ==
  /\ m.ctl[1] = "v" /\ m.k # <<>>
  /\ LET kk == m.k[1] p == Pop(m) IN
     \/ kk[1] = "call" /\ Go(V([p EXCEPT !.fr = kk[2]], IF kk[3] = "init" THEN kk[4] ELSE Nil))
     \/ kk[1] = "blk" /\ Go([p EXCEPT !.fr = kk[2], !.ctl = <<"bv", "val", IF kk[3] = "bfn" THEN Nil ELSE m.ctl[2]>>])
     \/ kk[1] = "dflt" /\ Go(LET nx == Tail(kk[2])
                                 p1 == [p EXCEPT !.s[m.fr.env[kk[2][1][1]]] = m.ctl[2]]
                             IN IF nx = <<>> THEN Seq_(p1, kk[3]) ELSE Ev(Push(p1, <<"dflt", nx, kk[3]>>), nx[1][2]))

\* a user-defined operator or toString returned
UserOperator ==
  /\ m.ctl[1] = "v" /\ m.k # <<>>
  /\ LET kk == m.k[1] p == Pop(m) v == m.ctl[2] IN
     \/ kk[1] = "eqres" /\ Go(Bool(p, Truthy(v) = (kk[2] = "==")))
     \/ kk[1] = "cmpres" /\ Go(IF ~IsNum(v) THEN Err(p, ATypeErr, "Expected number returned from opCmp") ELSE Bool(p, CmpRes(kk[2], TruncQ(v))))
     \/ kk[1] = "tos" /\ Go(IF ~IsStr(m.h, v) THEN Err(p, ATypeErr, "TypeError, toString() returned non-string, is a: " \o Typ(m, v)) ELSE ToStr(p, kk[2], kk[3], kk[4] \o m.h[v[2]].s))
     \/ kk[1] = "const" /\ Go(V(p, kk[2]))
     \/ kk[1] = "alc" /\ Go(LET f == FindConst(p, N(kk[2]).n) IN IF f[1] = "none" THEN NoConst(p, N(kk[2]).n) ELSE V(p, f))
     \/ kk[1] = "ls" /\ Go(V([p EXCEPT !.fr = kk[2]], True))
     \/ kk[1] = "again" /\ Go(Invoke(p, kk[2], kk[3], kk[4], <<>>, kk[5]))
     \/ kk[1] = "show" /\ Go(ToStr(p, kk[2], kk[3], kk[4]))

\* a block returned to the native code that called it
BlockReturn ==
  /\ m.ctl[1] = "bv"
  /\ LET kk == m.k[1] p == Pop(m) IN
     \/ kk[1] = "it" /\ Go(IterBack(p, kk, m.ctl[2], m.ctl[3]))
     \/ kk[1] = "mit" /\ Go(MIterBack(p, kk, m.ctl[2], m.ctl[3]))
     \/ kk[1] = "sb" /\ Go(SortByBack(p, kk, m.ctl[2], m.ctl[3]))
     \/ kk[1] = "yl" /\ Go(V(p, IF m.ctl[2] = "brk" THEN Nil ELSE m.ctl[3]))

\* the order of the entries of a map is observed for the first time
Order ==
  /\ m.ctl[1] = "ord"
  /\ LET a == m.ctl[2] e == m.h[a].e n == Len(e) IN
     \E p \in {q \in [1..n -> 1..n] : \A i, j \in 1..n : q[i] = q[j] => i = j} :
       Go([m EXCEPT !.ctl = <<"v", Ref(a)>>, !.h[a].e = [i \in 1..n |-> e[p[i]]], !.h[a].ord = TRUE])

\* the end of try bodies, catch selection, ensure
Protect ==
  /\ m.ctl[1] = "v" /\ m.k # <<>>
  /\ LET kk == m.k[1] p == Pop(m) IN
     \/ kk[1] = "try" /\ Go(IF N(kk[2]).el # 0 THEN Ev(p, N(kk[2]).el) ELSE p)
     \/ kk[1] = "enb" /\ Go(Ev(Push([p EXCEPT !.fr = kk[3]], <<"ene", kk[3], m.ctl>>), kk[2]))
     \/ kk[1] = "ene" /\ Go([p EXCEPT !.fr = kk[2], !.ctl = kk[3]])

\* the error that ended the program
ErrorText(mm, v) ==
  LET e == mm.h[v[2]] ms == IF Has(e.pr, "message") THEN e.pr["message"] ELSE Nil IN
  FullName(mm.h, e.c) \o "|" \o (IF IsStr(mm.h, ms) THEN mm.h[ms[2]].s ELSE "?")

\* unwinding: go to the continuation that handles the jump
Handles(kk, kd) ==
  \/ kk[1] = "enb"
  \/ kd = "thr" /\ kk[1] \in {"try", "hk", "ck"}
  \/ kd \in {"brk", "cont"} /\ kk[1] \in {"wb", "fb", "feb", "feib", "blk"}
  \/ kd = "ret" /\ kk[1] \in {"call", "blk", "ls"}
RECURSIVE Drop(_, _)
Drop(ks, kd) == IF ks = <<>> \/ Handles(Head(ks), kd) THEN ks ELSE Drop(Tail(ks), kd)

Unwind ==
  /\ m.ctl[1] = "x"
  /\ LET kd == m.ctl[2] v == m.ctl[3] ks == Drop(m.k, kd) IN
     IF \E i \in 1..(Len(m.k) - Len(ks)) : m.k[i][1] = "sb" THEN Go(Ab(m, "error in sortBy"))  \* which elements are compared isn't specified
     ELSE IF ks = <<>> THEN Go(IF kd # "thr" THEN Ab(m, "jump")
                          ELSE IF m.cur # 1 THEN ThreadEnd(m)
                          ELSE [m EXCEPT !.k = <<>>, !.fr = Frame0, !.ctl = <<"fin", "unc", ErrorText(m, v), 1>>])
     ELSE LET kk == ks[1] p == [m EXCEPT !.k = Tail(ks)] IN
       CASE kk[1] = "enb" -> Go(Ev(Push([p EXCEPT !.fr = kk[3]], <<"ene", kk[3], m.ctl>>), kk[2]))
         [] kk[1] = "try" -> Go(IF N(kk[2]).cs = <<>> THEN X([p EXCEPT !.fr = kk[3]], "thr", v)
                                ELSE Catch([p EXCEPT !.fr = kk[3]], N(kk[2]).cs, v, 1))
         [] kk[1] = "ls" -> Go(V([p EXCEPT !.fr = kk[2]], True))
         [] kk[1] = "call" -> Go(V([p EXCEPT !.fr = kk[2]], IF kk[3] = "init" THEN kk[4] ELSE v))
         [] kk[1] = "blk" -> Go([p EXCEPT !.fr = kk[2],
                                   !.ctl = CASE kd = "ret" -> <<"bv", IF kk[3] = "bfn" THEN "val" ELSE "ret", v>>
                                             [] kd = "brk" -> <<"bv", "brk", Nil>>
                                             [] kd = "cont" -> <<"bv", "val", Nil>>])
         \* an error in an atExit hook: the next one runs; in a forked function: the child goes on in a handler of its parent
         [] kk[1] = "hk" -> Go([p EXCEPT !.fr = Frame0, !.ctl = <<"hk", kk[2], kk[3], 1>>])
         [] kk[1] = "ck" -> IF Drop(p.k, kd) = <<>> THEN Go([p EXCEPT !.k = <<>>, !.fr = Frame0, !.ctl = <<"fin", "unc", ErrorText(m, v), 1>>]) ELSE Go(Ab(m, "error in fork"))
         [] kd = "brk" -> Go(V([p EXCEPT !.fr = kk[3]], Nil))
         [] kd = "cont" -> Go([m EXCEPT !.k = ks, !.ctl = <<"v", Nil>>, !.fr = kk[3]])

\* class and module definitions: members are executed in order with the class as cref
Definition ==
  \/ /\ m.ctl[1] = "e" /\ N(m.ctl[2]).t \in {"class", "module"}
     /\ LET n == N(m.ctl[2]) IN
        IF n.t = "class" /\ n.sup # 0 THEN Go(Ev(Push(m, <<"clsup", m.ctl[2]>>), n.sup))
        ELSE Go(V(Push(m, <<"clsup", m.ctl[2]>>), Ref(AObject)))
  \/ /\ m.ctl[1] = "v" /\ m.k # <<>> /\ m.k[1][1] = "clsup"
     /\ LET n == N(m.k[1][2]) p == Pop(m)
            tb == IF m.fr.cref <= 0 THEN m.c ELSE m.h[m.fr.cref].co
            old == IF Has(tb, n.n) THEN tb[n.n] ELSE <<"none">>
        IN IF m.fr.cref < 0 THEN Go(Ab(m, "class in a block"))
           ELSE IF Kind(m.h, m.ctl[2]) # "cls" THEN Go(Err(p, ATypeErr, "Class " \o n.n \o " tried to inherit from non-class"))
           ELSE IF IsBuiltinSub(m.h, m.ctl[2][2]) THEN Go(Ab(m, "superclass"))
           ELSE IF Kind(m.h, old) \in {"cls", "mod"} THEN
                (IF n.t = "class" /\ n.sup # 0 /\ Kind(m.h, old) = "cls" THEN Go(Err(p, ANameErr, "Class " \o n.n \o " already exists (if re-opening class, no superclass should be given)"))
                 ELSE IF Kind(m.h, old) # (IF n.t = "class" THEN "cls" ELSE "mod") THEN Go(Err(p, ATypeErr, IF n.t = "class" THEN "Tried to define class " \o n.n \o ", but it's a module" ELSE "Tried to define module " \o n.n \o ", but it's a class"))
                 ELSE IF old[2] <= NBuiltin THEN Go(Ab(m, "reopen"))
                 ELSE Go(Seq_([Push(p, <<"scope", p.fr>>) EXCEPT !.fr.cref = old[2], !.fr.cls = old[2]], n.l)))
           ELSE LET a == Alloc(p, [MkClass(n.n, m.ctl[2][2], n.t = "module") EXCEPT !.under = m.fr.cref])
                    b == SetConst(a, n.n, Last_(a))
                IN Go(Seq_([Push(b, <<"scope", b.fr>>) EXCEPT !.fr.cref = Len(a.h), !.fr.cls = Len(a.h)], n.l))
  \/ /\ m.ctl[1] = "e" /\ N(m.ctl[2]).t = "meth"
     /\ LET n == N(m.ctl[2])
            a == Alloc(m, MkFn(m, n.f, n.n, m.fr.cls, n.kd = "st"))
            cl == m.fr.cls
        IN Go(IF n.kd = "me" THEN Added([a EXCEPT !.h[cl].me = Put(@, n.n, Len(a.h))], cl, n.n)
              ELSE V(CASE n.kd = "ge" -> [a EXCEPT !.h[cl].ge = Put(@, n.n, Len(a.h))]
                  [] n.kd = "se" -> [a EXCEPT !.h[cl].se = Put(@, n.n, Len(a.h))]
                  [] n.kd = "st" -> [a EXCEPT !.h[cl].st = Put(@, n.n, Len(a.h))], Nil))

Finish ==
  /\ m.ctl[1] = "v" /\ m.k = <<>>
  /\ Go(IF m.cur = 1 THEN [m EXCEPT !.ctl = <<"fin", "done", "", 0>>] ELSE ThreadEnd(m))

\* threads are only switched where they wait, start other threads or say so
Ready(mm, i) ==
  LET c == mm.t[i].ctl IN
  CASE c[1] = "wj" -> mm.t[c[2]].ctl[1] = "ten"
    [] c[1] = "wl" -> Owner(mm, Ref(c[2])) = 0
    [] OTHER -> c[1] # "ten"
Resume(mm) ==
  LET c == mm.ctl IN
  CASE c[1] = "y" -> V(mm, c[2])
    [] c[1] = "wj" -> V([mm EXCEPT !.t[c[2]].jd = TRUE], Nil)
    [] c[1] = "wl" -> V([mm EXCEPT !.mx[c[2]] = mm.cur], Ref(c[2]))
    [] c[1] = "ww" -> Reaped(mm, c[2])
    [] OTHER -> mm
Switch ==
  /\ m.ctl[1] \in {"y", "wj", "wl", "ww", "ten", "fin"}
  /\ LET s == [m EXCEPT !.t[m.cur] = [@ EXCEPT !.ctl = m.ctl, !.fr = m.fr, !.k = m.k]]
         R == {i \in 1..Len(s.t) : Ready(s, i) /\ s.t[i].ctl[1] # "fin"}
     IN \/ \E i \in R : Go(Resume([s EXCEPT !.cur = i, !.ctl = s.t[i].ctl, !.fr = s.t[i].fr, !.k = s.t[i].k]))
        \* the main thread has ended: the process ends at some time, after the atExit hooks
        \/ /\ s.t[1].ctl[1] = "fin"
           /\ Go([s EXCEPT !.cur = 1, !.ctl = <<"hk">> \o Tail(s.t[1].ctl), !.t = SubSeq(s.t, 1, 1)])
        \/ /\ R = {} /\ s.t[1].ctl[1] # "fin"
           /\ Go(Ab(m, "deadlock"))

Hooks ==
  \/ /\ m.ctl[1] = "hk"
     /\ IF m.ax = <<>> THEN Go([m EXCEPT !.ctl[1] = "out"])
        ELSE Go(LET f == Last(m.ax) p == [m EXCEPT !.ax = Front(@), !.k = <<m.ctl>>, !.fr = Frame0]
                IN Enter(p, f, <<"unk">>, FnCref(m, f), "fun", <<>>, <<>>, <<"unk">>))
  \/ /\ m.ctl[1] = "v" /\ m.k # <<>> /\ m.k[1][1] = "hk"
     /\ Go([Pop(m) EXCEPT !.ctl = m.k[1]])
  \* the function given to fork has returned
  \/ /\ m.ctl[1] = "v" /\ m.k # <<>> /\ m.k[1][1] = "ck"
     /\ Go([m EXCEPT !.ctl = <<"fin", "done", "", 0>>, !.k = <<>>, !.fr = Frame0])

ChildEnd ==
  /\ m.ctl[1] = "out" /\ m.pp # <<>>
  /\ Go(EndChild(m, m.ctl[4]))

TooLong ==
  /\ m.ctl[1] \notin {"out", "abort", "reported"} /\ m.n >= MaxSteps
  /\ m' = Ab(m, "steps")

\* report the outcome of a finished run, to be compared with what clox prints
Outcome ==
  CASE m.ctl[1] = "out" -> [id |-> Progs[m.pid].id, st |-> m.ctl[2], out |-> m.o, steps |-> m.n, why |-> m.ctl[3], rc |-> m.ctl[4]]
    [] m.ctl[1] = "abort" -> [id |-> Progs[m.pid].id, st |-> "abort", out |-> IF m.rcy = {} THEN m.o ELSE <<>>, steps |-> m.n, why |-> m.ctl[2], rc |-> 0]
Report ==
  /\ m.ctl[1] = "abort" \/ (m.ctl[1] = "out" /\ m.pp = <<>>)
  /\ PrintT("LOXOUT " \o ToJson(Outcome))
  /\ m' = [m EXCEPT !.ctl = <<"reported">>, !.k = <<>>, !.h = <<>>, !.s = <<>>, !.fr = 0, !.g = 0, !.c = 0, !.t = 0, !.ax = 0, !.pp = 0, !.mx = 0, !.ch = 0]

Globals0 == [x \in {"typeof", "classof", "yield", "blockGiven", "newThread", "joinThread", "sleep", "exit", "_exit", "atExit",
                    "clock", "loadScript", "requireScript", "autoload", "debugger", "eval", "alias", "random"} |-> <<"nat", x>>]
Consts0 == [x \in ToSet(BuiltinNames) |-> Ref(BA(x))]

Init ==
  \E p \in 1..Len(Progs) :
    m = [pid |-> p, ctl |-> <<"e", Progs[p].root>>, fr |-> Frame0, k |-> <<>>, h |-> BuiltinHeap \o <<MkInst(AThread), MkArr([i \in 1..Len(Progs[p].lp) |-> Ref(NBuiltin + 2 + i)])>> \o [i \in 1..Len(Progs[p].lp) |-> MkStr(Progs[p].lp[i])], s |-> <<>>,
         fs |-> ("p.lox" :> <<"f", 0>>), ino |-> <<>>, ld |-> {}, al |-> EmptyFun, lp |-> NBuiltin + 2,
         g |-> ("loadPath" :> Ref(NBuiltin + 2)) @@ Globals0, c |-> Consts0, o |-> <<>>, n |-> 0,
         t |-> <<[ctl |-> <<"run">>, fr |-> Frame0, k |-> <<>>, jd |-> FALSE, tl |-> <<>>, obj |-> Ref(NBuiltin + 1)]>>, cur |-> 1,
         no |-> 1, mx |-> EmptyFun, ax |-> <<>>, pp |-> <<>>, ch |-> EmptyFun, rcy |-> {}]

Step == Atom \/ Operator \/ Operand \/ ShortCircuit \/ Statement \/ Branch \/ Sequence \/ LeaveScope \/ Loop
        \/ FunctionEnd \/ UserOperator \/ BlockReturn \/ Protect \/ Unwind \/ Definition \/ Finish
        \/ Switch \/ Hooks \/ ChildEnd \/ Order
Next == (m.n < MaxSteps /\ Step) \/ TooLong \/ Report
Spec == Init /\ [][Next]_m

(***************************** invariants *********************************)
TypeOK == m.ctl[1] \in {"e", "ord", "v", "x", "bv", "y", "wj", "wl", "ww", "ten", "fin", "hk", "out", "abort", "reported"}
\* every value points to an object that exists, every variable to a cell
Going == m.ctl[1] \notin {"abort", "reported"}
WellFormed ==
  Going =>
    /\ \A i \in 1..Len(m.s) : IsRef(m.s[i]) => m.s[i][2] \in 1..Len(m.h)
    /\ \A x \in DOMAIN m.fr.env : m.fr.env[x] \in 1..Len(m.s)
    /\ (m.ctl[1] = "v" /\ IsRef(m.ctl[2])) => m.ctl[2][2] \in 1..Len(m.h)
\* after the last statement the frame is the top-level frame again, with no local variables left
Balanced == (m.ctl[1] = "v" /\ m.k = <<>>) => (m.fr = Frame0)
\* a mutex belongs to a thread that lives; a joined thread has ended; a thread that waits for a mutex doesn't have it
Threads ==
  Going => /\ \A a \in DOMAIN m.mx : m.mx[a] # 0 => m.mx[a] <= Len(m.t) /\ Live(m, m.mx[a])
           /\ \A i \in 1..Len(m.t) : m.t[i].jd => i # m.cur /\ m.t[i].ctl[1] = "ten"
           /\ \A i \in 1..Len(m.t) : i # m.cur /\ m.t[i].ctl[1] = "wl" => m.mx[m.t[i].ctl[2]] # i
=============================================================================
