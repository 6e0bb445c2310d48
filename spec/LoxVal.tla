------------------------------ MODULE LoxVal ------------------------------
(***************************************************************************)
(* Values, heap objects and their pure observations: truthiness, number    *)
(* arithmetic and formatting, equality, string conversion, class lookup.   *)
(*                                                                         *)
(* Values are tuples                                                       *)
(*   <<"nil">>  <<"b",0|1>>  <<"n",p,q>>  (the rational p/q)  <<"r",addr>> *)
(*   <<"nat",name>>  (native global functions)                             *)
(* Numbers are rationals with denominator 1,2,4 or 8, so that IEEE doubles *)
(* represent them exactly; anything else is Abort (program not decided).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Bitwise

Nil == <<"nil">>
True == <<"b", 1>>
False == <<"b", 0>>
B(x) == IF x THEN True ELSE False
NumI(i) == <<"n", i, 1>>
Ref(a) == <<"r", a>>
IsNum(v) == v[1] = "n"
IsRef(v) == v[1] = "r"
Truthy(v) == ~(v[1] = "nil" \/ (v[1] = "b" /\ v[2] = 0))

EmptyFun == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Has(f, k) == k \in DOMAIN f

Abs(i) == IF i < 0 THEN -i ELSE i
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Limit == 67108864
Half == 1073741824

\* negative zero is <<"n", 0, -1>>
NegZ == <<"n", 0, -1>>
IsNeg(v) == v[2] < 0 \/ v[3] < 0
MulOk(a, b) == a = 0 \/ b = 0 \/ Abs(a) <= Half \div Abs(b)

\* the rational p/q, or <<"abort">> when it isn't one that is modelled
Rat(p, q) ==
  IF q = 0 THEN <<"abort">> ELSE
  LET s  == IF q < 0 THEN -1 ELSE 1
      g  == Gcd(Abs(p), Abs(q))
      pp == s * (IF g = 0 THEN 0 ELSE (IF p < 0 THEN -(Abs(p) \div g) ELSE p \div g))
      qq == IF g = 0 THEN 1 ELSE Abs(q) \div g
  IN IF qq \in {1, 2, 4, 8} /\ Abs(pp) <= Limit THEN <<"n", pp, qq>> ELSE <<"abort">>
ZeroSign(r, neg) == IF r[1] = "n" /\ r[2] = 0 /\ neg THEN NegZ ELSE r

\* C semantics of integer conversion, division remainder
TruncQ(v) == IF v[2] < 0 THEN -(Abs(v[2]) \div v[3]) ELSE v[2] \div Abs(v[3])
CRem(a, b) == LET r == Abs(a) % Abs(b) IN IF a < 0 THEN -r ELSE r
IsInt(v) == v[1] = "n" /\ v[3] = 1
NegN(v) == IF v = NegZ THEN <<"n", 0, 1>> ELSE IF v[2] = 0 THEN NegZ ELSE <<"n", -v[2], v[3]>>

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

\* bitwise operators on two's complement integers: -1 - c is the complement of c
Cpl(a) == -1 - a
BitOp(op, a, b) ==
  IF a >= 0 /\ b >= 0 THEN (CASE op = "&" -> a & b [] op = "|" -> a | b [] op = "^" -> a ^^ b)
  ELSE IF a < 0 /\ b < 0 THEN (CASE op = "&" -> Cpl(Cpl(a) | Cpl(b)) [] op = "|" -> Cpl(Cpl(a) & Cpl(b)) [] op = "^" -> Cpl(a) ^^ Cpl(b))
  ELSE LET x == IF a < 0 THEN b ELSE a  \* the one that isn't negative
           c == Cpl(IF a < 0 THEN a ELSE b)
       IN CASE op = "&" -> x - (x & c) [] op = "|" -> Cpl(c - (c & x)) [] op = "^" -> Cpl(c ^^ x)

\* arithmetic on two numbers: a number, <<"err">> (division by zero) or <<"abort">>
Arith(op, a, b) ==
  CASE op = "+" -> ZeroSign(Rat(a[2] * b[3] + b[2] * a[3], a[3] * b[3]), a = NegZ /\ b = NegZ)
    [] op = "-" -> ZeroSign(Rat(a[2] * b[3] - b[2] * a[3], a[3] * b[3]), a = NegZ /\ b[2] = 0 /\ b[3] = 1)
    [] op = "*" -> IF ~MulOk(a[2], b[2]) THEN <<"abort">>
                   ELSE ZeroSign(Rat(a[2] * b[2], a[3] * b[3]), IsNeg(a) # IsNeg(b))
    [] op = "/" -> IF b[2] = 0 THEN <<"err">> ELSE IF ~MulOk(a[2], b[3]) \/ ~MulOk(b[2], a[3]) THEN <<"abort">>
                   ELSE ZeroSign(Rat(a[2] * b[3], a[3] * b[2]), IsNeg(a) # IsNeg(b))
    [] op = "%" -> IF TruncQ(b) = 0 THEN <<"err">> ELSE NumI(CRem(TruncQ(a), TruncQ(b)))
    [] op \in {"&", "|", "^"} -> Rat(BitOp(op, TruncQ(a), TruncQ(b)), 1)
    [] op = "<<" -> IF IsNeg(a) \/ IsNeg(b) \/ TruncQ(b) > 26 THEN <<"abort">>
                    ELSE IF ~MulOk(TruncQ(a), Pow2(TruncQ(b))) THEN <<"abort">>
                    ELSE Rat(TruncQ(a) * Pow2(TruncQ(b)), 1)
    [] op = ">>" -> IF IsNeg(b) \/ TruncQ(b) > 26 THEN <<"abort">>
                    ELSE NumI(TruncQ(a) \div Pow2(TruncQ(b)))

\* -1, 0, 1
NumCmp(a, b) == LET x == a[2] * Abs(b[3])
                    y == b[2] * Abs(a[3])
                IN IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 0 /\ SubSeq(s, Len(s), Len(s)) = "0" THEN StripZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
RECURSIVE Pad0(_, _)
Pad0(s, n) == IF Len(s) >= n THEN s ELSE Pad0("0" \o s, n)
\* p/q rounded to an integer, ties to even
RoundDiv(p, q) == LET d == p \div q r == p % q
                  IN IF 2 * r > q \/ (2 * r = q /\ d % 2 = 1) THEN d + 1 ELSE d

Ch1(s) == SubSeq(s, 1, 1)
\* printf("%g"): 6 significant digits
NumStr(v) ==
  IF v = NegZ THEN "-0" ELSE
  LET n == Abs(v[2]) q == v[3] ip == n \div q
      sg == IF v[2] < 0 THEN "-" ELSE ""
      d == Len(ToString(ip))                       \* digits of the integer part
      dec == IF d >= 6 THEN 0 ELSE 6 - d             \* decimals that are kept
      r == IF d <= 6 THEN RoundDiv(n * Pow10(IF dec > 3 THEN 3 ELSE dec), q) ELSE RoundDiv(n, q * Pow10(d - 6))
      k == IF dec > 3 THEN 3 ELSE dec                \* eighths have at most 3 decimals
      e == d - 1 + (IF Len(ToString(r)) > 6 THEN 1 ELSE 0)
      digs == ToString(r)
      frac == StripZeros(SubSeq(Pad0(ToString(r % Pow10(k)), k), 1, k))
      mant == StripZeros(SubSeq(digs, 2, 6))
  IN IF q = 1 /\ ip < 1000000 THEN sg \o ToString(ip)
     ELSE IF d <= 6 /\ ~(k = 0 /\ r >= 1000000)
     THEN sg \o ToString(r \div Pow10(k)) \o (IF k = 0 \/ frac = "" THEN "" ELSE "." \o frac)
     ELSE sg \o Ch1(digs) \o (IF mant = "" THEN "" ELSE "." \o mant) \o "e+" \o Pad0(ToString(e), 2)

(*************************** strings as sequences **************************)
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE StrRep(_, _)
StrRep(s, n) == IF n <= 0 THEN "" ELSE s \o StrRep(s, n - 1)
Chars == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord(c) == CHOOSE i \in 1..Len(Chars) : Ch(Chars, i) = c
RECURSIVE StrCmp(_, _)
StrCmp(a, b) ==
  IF a = b THEN 0 ELSE IF a = "" THEN -1 ELSE IF b = "" THEN 1
  ELSE IF Ch(a, 1) = Ch(b, 1) THEN StrCmp(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
  ELSE IF Ord(Ch(a, 1)) < Ord(Ch(b, 1)) THEN -1 ELSE 1
\* index (0 based) of the first occurrence of t in s, -1 if none
StrFind(s, t, from) ==
  LET S == {i \in (from + 1)..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t}
  IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
IsPrefixStr(t, s) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
IsSuffixStr(t, s) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

(****************************** builtin classes ****************************)
\* builtin classes have fixed heap addresses
BuiltinNames == <<"Object", "Class", "Module", "Error", "ArgumentError", "TypeError", "NameError",
                  "String", "Array", "Map", "Block", "Thread", "Mutex", "Process", "Iterator", "SyntaxError", "LoadError",
                  "IO", "File", "Dir", "FileStat", "SystemError">>
\* constants of SystemError
SysNames == <<"ENOENT", "EEXIST", "EBADF", "EINVAL">>
BA(nm) == CHOOSE i \in 1..Len(BuiltinNames) : BuiltinNames[i] = nm
AObject == 1  AClass == 2  AModule == 3  AError == 4  AArgErr == 5  ATypeErr == 6  ANameErr == 7
AString == 8  AArray == 9  AMap == 10  ABlock == 11
AThread == 12  AMutex == 13  AProcess == 14  AIterator == 15  ASyntaxErr == 16  ALoadErr == 17
AIO == 18  AFile == 19  ADir == 20  AFileStat == 21  ASysErr == 22
ASys(e) == 22 + (CHOOSE i \in 1..Len(SysNames) : SysNames[i] = e)
MkClass(nm, sup, mod) ==
  [k |-> IF mod THEN "mod" ELSE "cls", nm |-> nm, sup |-> sup, me |-> EmptyFun, ge |-> EmptyFun,
   se |-> EmptyFun, st |-> EmptyFun, mods |-> <<>>, co |-> EmptyFun, pr |-> EmptyFun, under |-> 0, fz |-> FALSE]
FileConsts == ("O_RDONLY" :> NumI(0)) @@ ("O_WRONLY" :> NumI(1)) @@ ("O_RDWR" :> NumI(2)) @@ ("O_CREAT" :> NumI(64)) @@ ("O_EXCL" :> NumI(128))
  @@ ("O_TRUNC" :> NumI(512)) @@ ("O_APPEND" :> NumI(1024)) @@ ("SEEK_SET" :> NumI(0)) @@ ("SEEK_CUR" :> NumI(1)) @@ ("SEEK_END" :> NumI(2))
BuiltinHeap ==
  [i \in 1..Len(BuiltinNames) |->
     [MkClass(BuiltinNames[i],
             IF i = 1 THEN 0 ELSE IF BuiltinNames[i] \in {"ArgumentError", "TypeError", "NameError", "SyntaxError", "LoadError", "SystemError"} THEN AError
             ELSE IF i = AFile THEN AIO ELSE AObject,
             BuiltinNames[i] = "Process")
      EXCEPT !.co = IF i = AFile THEN FileConsts ELSE IF i = ASysErr THEN [x \in ToSet(SysNames) |-> Ref(ASys(x))] ELSE @]]
  \o [i \in 1..Len(SysNames) |-> [MkClass(SysNames[i], ASysErr, FALSE) EXCEPT !.under = ASysErr]]
NBuiltin == Len(BuiltinNames) + Len(SysNames)

(********************************* objects *********************************)
MkStr(s) == [k |-> "str", s |-> s, fz |-> FALSE]
MkArr(e) == [k |-> "arr", e |-> e, fz |-> FALSE]
\* entries are <<key, value, what the key was when it was put in>>; ord: the order of the entries was observed
MkMap(e) == [k |-> "map", e |-> e, fz |-> FALSE, ord |-> FALSE]
Ordered(o) == o.ord \/ Len(o.e) <= 1
\* the iterator of an array or map
MkIter(v) == [k |-> "iter", of |-> v, i |-> 0, fz |-> FALSE]
MkInst(c) == [k |-> "inst", c |-> c, pr |-> EmptyFun, sing |-> <<>>, fz |-> FALSE]

Kind(h, v) == IF IsRef(v) THEN h[v[2]].k ELSE v[1]
IsStr(h, v) == IsRef(v) /\ h[v[2]].k = "str"
IsArr(h, v) == IsRef(v) /\ h[v[2]].k = "arr"
IsCls(h, v) == IsRef(v) /\ h[v[2]].k \in {"cls", "mod"}
\* objects that have methods
InstLike(h, v) == IsRef(v) /\ h[v[2]].k \in {"str", "arr", "map", "inst", "cls", "mod", "blk", "iter"}
ClassOf(h, v) ==
  LET o == h[v[2]] IN
  CASE o.k = "inst" -> o.c [] o.k = "str" -> AString [] o.k = "arr" -> AArray [] o.k = "map" -> AMap
    [] o.k = "cls" -> AClass [] o.k = "mod" -> AModule [] o.k = "blk" -> ABlock [] o.k = "iter" -> AIterator [] OTHER -> AObject
TypeName(h, v) ==
  CASE v[1] = "nil" -> "nil" [] v[1] = "b" -> "bool" [] v[1] = "n" -> "number" [] v[1] = "nat" -> "function"
    [] OTHER -> LET o == h[v[2]] IN
       CASE o.k = "str" -> "string" [] o.k = "arr" -> "array" [] o.k = "map" -> "map" [] o.k = "inst" -> "instance"
         [] o.k = "cls" -> "class" [] o.k = "mod" -> "module" [] o.k = "fn" -> "closure" [] o.k = "bm" -> "function" [] o.k = "pid" -> "number"
         [] OTHER -> "instance"

\* the ancestors of a class: the class, its modules (last included first), then those of its superclass
RECURSIVE Mro(_, _)
Mro(h, a) == IF a = 0 THEN <<>> ELSE <<a>> \o Reverse(h[a].mods) \o Mro(h, h[a].sup)
MroOf(h, v) == (IF h[v[2]].k = "inst" THEN Reverse(h[v[2]].sing) ELSE <<>>) \o Mro(h, ClassOf(h, v))
IsA(h, v, c) == \E i \in 1..Len(MroOf(h, v)) : MroOf(h, v)[i] = c

\* native methods of the builtin classes (those that are modelled)
ObjNat == {"dup", "isSame", "freeze", "unfreeze", "isFrozen", "send", "getProperty", "setProperty", "hasProperty",
           "respondsTo", "hasGetter", "hasSetter", "extend", "opEquals", "init", "inspect", "instanceEval", "hashKey", "methodMissing"}
ClsNat == {"include", "ancestors", "isA", "constDefined", "constGet", "constants", "aliasMethod", "defineMethod", "inspect", "methodAdded"}
ArrNat == {"push", "pop", "pushFront", "popFront", "first", "last", "delete", "deleteAt", "opIndexGet", "opIndexSet",
           "each", "map", "select", "reject", "find", "reduce", "sum", "reverse", "sort", "sortBy", "clear", "join", "toString",
           "opEquals", "dup", "opShovelLeft", "init", "inspect", "iter", "hashKey"}
MapNat == {"opIndexGet", "opIndexSet", "hasKey", "delete", "clear", "merge", "slice", "opEquals", "dup", "keys",
           "values", "each", "map", "mergeWith", "rehash", "toString", "init", "inspect", "iter", "hashKey"}
StrNat == {"toString", "opAdd", "opMul", "opIndexGet", "opIndexSet", "opEquals", "push", "opShovelLeft", "clear",
           "insertAt", "substr", "dup", "split", "endsWith", "compact", "compactLeft", "padRight", "rest", "index", "init", "inspect"}
NatOf(a) ==
  CASE a = AObject -> ObjNat [] a = AClass -> ClsNat [] a = AArray -> ArrNat [] a = AMap -> MapNat
    [] a = AString -> StrNat [] a = AError -> {"init"} [] a = ABlock -> {"yield"}
    [] a = AThread -> {"opIndexGet", "opIndexSet", "throw", "detach", "init"} [] a = AMutex -> {"lock", "unlock", "init"}
    [] a = AIterator -> {"next", "init"} [] a = AModule -> {"inspect", "init"}
    [] a = AIO -> {"read", "getline", "getchar", "write", "print", "puts", "close", "fd"}
    [] a = AFile -> {"init", "write", "close", "path", "unlink", "rename", "seek", "rewind", "stat", "isReg", "isSymlink"}
    [] a = AFileStat -> {"isReg", "isDir", "isSymlink"} [] OTHER -> {}
\* native static methods
StNatOf(a) ==
  CASE a = AThread -> {"current", "main", "schedule"}
    [] a = AProcess -> {"fork", "waitpid", "waitall", "WIFEXITED", "WEXITSTATUS", "pid"}
    [] a = AIO -> {"read", "write", "close", "pipe"} [] a = ADir -> {"mkdir", "pwd", "glob"}
    [] a = AFile -> {"create", "open", "exists", "read", "readLines", "isDir", "copy", "join", "extension", "expandPath", "stat"}
    [] a = AArray -> {"fill", "wrap"} [] a = AString -> {"parseInt"} [] OTHER -> {}

\* <<"clo", addr>>, <<"nat", class, name>> or <<"none">>
RECURSIVE Lookup(_, _, _, _)
Lookup(h, mro, fld, nm) ==
  IF mro = <<>> THEN <<"none">>
  ELSE LET c == h[Head(mro)]
           t == CASE fld = "me" -> c.me [] fld = "ge" -> c.ge [] fld = "se" -> c.se
       IN IF Has(t, nm) THEN <<"clo", t[nm]>>
          ELSE IF fld = "me" /\ Head(mro) <= NBuiltin /\ nm \in NatOf(Head(mro)) THEN <<"nat", Head(mro), nm>>
          ELSE Lookup(h, Tail(mro), fld, nm)
FindMeth(h, v, nm) == Lookup(h, MroOf(h, v), "me", nm)
FindGet(h, v, nm) == Lookup(h, MroOf(h, v), "ge", nm)
FindSet(h, v, nm) == Lookup(h, MroOf(h, v), "se", nm)
\* static methods: those of the class, its modules and its superclasses; then methods of Class
RECURSIVE LookupSt(_, _, _)
LookupSt(h, mro, nm) ==
  IF mro = <<>> THEN <<"none">>
  ELSE IF Has(h[Head(mro)].st, nm) THEN <<"clo", h[Head(mro)].st[nm]>>
  ELSE IF Head(mro) <= NBuiltin /\ nm \in StNatOf(Head(mro)) THEN <<"snat", Head(mro), nm>>
  ELSE LookupSt(h, Tail(mro), nm)
FindStatic(h, v, nm) ==
  LET s == LookupSt(h, IF h[v[2]].k = "mod" THEN <<v[2]>> \o Reverse(h[v[2]].mods) ELSE Mro(h, v[2]), nm)
  IN IF s[1] # "none" THEN s ELSE Lookup(h, Mro(h, IF h[v[2]].k = "mod" THEN AModule ELSE AClass), "me", nm)

(************************** pure observations ******************************)
RECURSIVE FullName(_, _)
FullName(h, a) == IF h[a].under = 0 THEN h[a].nm ELSE FullName(h, h[a].under) \o "::" \o h[a].nm

UserMeth(h, v, nm) == FindMeth(h, v, nm)[1] = "clo"

\* can the value be shown without running user code? (depth bounded)
RECURSIVE Pure(_, _, _, _)
Pure(h, v, nm, d) ==
  IF ~IsRef(v) THEN TRUE
  ELSE IF d = 0 THEN FALSE
  ELSE LET o == h[v[2]] IN
    CASE o.k = "inst" -> ~UserMeth(h, v, nm)
      [] o.k = "arr" -> \A i \in 1..Len(o.e) : Pure(h, o.e[i], nm, d - 1)
      [] o.k = "pid" -> FALSE
      [] o.k = "map" -> Ordered(o) /\ \A i \in 1..Len(o.e) : Pure(h, o.e[i][1], nm, d - 1) /\ Pure(h, o.e[i][2], nm, d - 1)
      [] OTHER -> TRUE

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

RECURSIVE Show(_, _)
Show(h, v) ==
  CASE v[1] = "nil" -> "nil" [] v[1] = "b" -> (IF v[2] = 1 THEN "true" ELSE "false") [] v[1] = "n" -> NumStr(v)
    [] v[1] = "nat" -> "<fn " \o v[2] \o " (native)>"
    [] OTHER -> LET o == h[v[2]] IN
       CASE o.k = "str" -> o.s
         [] o.k = "arr" -> "[" \o Join([i \in 1..Len(o.e) |-> Show(h, o.e[i])], ",") \o "]"
         [] o.k = "map" -> "{" \o Join([i \in 1..Len(o.e) |-> Show(h, o.e[i][1]) \o " => " \o Show(h, o.e[i][2])], ", ") \o "}"
         [] o.k = "inst" -> "<instance " \o FullName(h, o.c) \o ">"
         [] o.k = "cls" -> "<class " \o FullName(h, v[2]) \o ">"
         [] o.k = "mod" -> "<module " \o FullName(h, v[2]) \o ">"
         [] o.k = "fn" -> "<fun " \o o.nm \o ">"
         [] o.k = "blk" -> "<instance Block>"
         [] o.k = "iter" -> "<instance Iterator>"
         [] o.k = "bm" -> IF o.me[1] = "nat" THEN "<method " \o o.me[3] \o ">"
                          ELSE LET f == h[o.me[2]] IN
                               IF f.cls = 0 THEN "<method " \o f.nm \o ">" ELSE "<method " \o FullName(h, f.cls) \o (IF f.st THEN "." ELSE "#") \o f.nm \o ">"
         [] OTHER -> "?abort?"
\* what inspect() gives when no user code is involved
RECURSIVE Quote(_)
Quote(s) == IF s = "" THEN "" ELSE (IF Ch1(s) = "\n" THEN "\\n" ELSE IF Ch1(s) = "\t" THEN "\\t" ELSE IF Ch1(s) = "\"" THEN "\\\"" ELSE Ch1(s)) \o Quote(SubSeq(s, 2, Len(s)))
RECURSIVE Inspect(_, _)
Inspect(h, v) ==
  IF ~IsRef(v) THEN Show(h, v)
  ELSE LET o == h[v[2]] IN
       CASE o.k = "str" -> "\"" \o Quote(o.s) \o "\""
         [] o.k = "arr" -> "[" \o Join([i \in 1..Len(o.e) |-> Inspect(h, o.e[i])], ",") \o "]"
         [] o.k = "map" -> "%{" \o Join([i \in 1..Len(o.e) |-> Inspect(h, o.e[i][1]) \o ":" \o Inspect(h, o.e[i][2])], ",") \o "}"
         [] o.k \in {"cls", "mod"} -> FullName(h, v[2])
         [] o.k = "fn" -> Show(h, v)
         [] OTHER -> "?abort?"
HasAbort(s) == StrFind(s, "?abort?", 0) >= 0

\* equality without running user code: "t", "f" or "u" (user code needed)
RECURSIVE Eq(_, _, _, _)
RECURSIVE EqSeq(_, _, _, _)
EqSeq(h, a, b, d) ==
  IF a = <<>> THEN "t"
  ELSE LET x == Eq(h, Head(a), Head(b), d) IN IF x = "t" THEN EqSeq(h, Tail(a), Tail(b), d) ELSE x
\* what a map key is: its contents, or the object itself. Keys with their own opEquals or hashKey aren't modelled.
RECURSIVE DKey(_, _, _)
DKey(h, v, d) ==
  IF ~IsRef(v) THEN v
  ELSE LET o == h[v[2]] IN
       CASE o.k = "str" -> <<"s", o.s>> [] o.k = "arr" -> IF d = 0 THEN v ELSE <<"a", [i \in 1..Len(o.e) |-> DKey(h, o.e[i], d - 1)]>> [] OTHER -> v
RECURSIVE KeyOkH(_, _, _)
KeyOkH(h, v, d) ==
  IF ~IsRef(v) THEN v # NegZ /\ v[1] # "nat"
  ELSE LET o == h[v[2]] IN
       CASE o.k \in {"str", "cls", "mod", "fn"} -> TRUE
         [] o.k = "arr" -> d > 0 /\ \A i \in 1..Len(o.e) : KeyOkH(h, o.e[i], d - 1)
         [] o.k = "inst" -> ~UserMeth(h, v, "opEquals") /\ ~UserMeth(h, v, "hashKey")
         [] OTHER -> FALSE
\* a key was changed after it was put in: what the map finds isn't decided until rehash
Stale(h, e) == \E i \in 1..Len(e) : DKey(h, e[i][1], 3) # e[i][3]
MapFind(h, e, kv) ==
  LET S == {i \in 1..Len(e) : Eq(h, e[i][1], kv, 4) = "t"} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Eq(h, a, b, d) ==
  IF IsNum(a) THEN (IF IsNum(b) /\ NumCmp(a, b) = 0 THEN "t" ELSE "f")
  ELSE IF ~IsRef(a) THEN (IF ~IsRef(b) /\ a = b THEN "t" ELSE "f")
  ELSE IF d = 0 \/ h[a[2]].k = "arrU" \/ (IsRef(b) /\ h[b[2]].k = "arrU") THEN "u"
  ELSE LET o == h[a[2]] IN
    CASE o.k = "str" -> IF IsStr(h, b) /\ h[b[2]].s = o.s THEN "t" ELSE "f"
      [] o.k = "arr" -> IF ~IsArr(h, b) \/ Len(h[b[2]].e) # Len(o.e) THEN "f" ELSE EqSeq(h, o.e, h[b[2]].e, d - 1)
      [] o.k = "map" -> IF Kind(h, b) # "map" \/ Len(h[b[2]].e) # Len(o.e) THEN "f"
                        ELSE LET bb == h[b[2]].e
                                 R == IF Stale(h, bb) \/ Stale(h, o.e) THEN {"u"} ELSE {LET j == MapFind(h, bb, o.e[i][1])
                                       IN IF j = 0 THEN "f" ELSE Eq(h, o.e[i][2], bb[j][2], d - 1) : i \in 1..Len(o.e)}
                             IN IF "u" \in R THEN "u" ELSE IF "f" \in R THEN "f" ELSE "t"
      [] o.k = "inst" -> IF UserMeth(h, a, "opEquals") THEN "u" ELSE IF a = b THEN "t" ELSE "f"
      [] OTHER -> IF IsRef(b) /\ a[2] = b[2] THEN "t" ELSE "f"
=============================================================================
