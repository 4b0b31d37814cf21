------------------------------ MODULE Operators -------------------------------
(***************************************************************************)
(* Operators of wrapped classes: + - * / and their in-place forms, unary   *)
(* minus, the six comparisons and str(), as registered with the classes.   *)
(*                                                                         *)
(* Two Python variables x and y hold objects (or nothing): c, the class,   *)
(* sub, whether it is an instance of a Python subclass, v, the value of    *)
(* the C++ object, a number modulo Mod; same: both hold the same object.   *)
(* Other operands are Python values: what[k] says what they are.           *)
(*                                                                         *)
(* Python looks for an operator in the class of the left operand and in    *)
(* that of the right one, first where a subclass has one of its own        *)
(* (Binary, Compare).  In a class the registered operators are tried in    *)
(* order, the first whose operand types take both operands is called, once *)
(* (Entry); what no operator takes is a TypeError, for == and != whether   *)
(* both are the same object.                                               *)
(*                                                                         *)
(* Table (JSON): classes: up (bases), num (operators: op, res, l, r), inp  *)
(* (in place: op, r), neg (res, l), cmp (the set of comparisons), str;     *)
(* types are class numbers, 101 for int, 102 for double; sub: may be       *)
(* subclassed in Python; id: number of a C++ operator by op, l and r;      *)
(* what: k (int, float, other), v (value)                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

File == JsonDeserialize(IOEnv.TABLE)
C == File.classes
What == File.what
Mod == File.mod
Cls == DOMAIN C
AnInt == 101
ADouble == 102
Num == {"+", "-", "*", "/"}
Inp == {"+=", "-=", "*=", "/="}
Cmp == {"<", "<=", "==", "!=", ">", ">="}
Swapped == ("<" :> ">") @@ ("<=" :> ">=") @@ ("==" :> "==") @@ ("!=" :> "!=") @@ (">" :> "<") @@ (">=" :> "<=")
Plain == ("+=" :> "+") @@ ("-=" :> "-") @@ ("*=" :> "*") @@ ("/=" :> "/")

RECURSIVE Mro(_), Joined(_)
\* the class and its bases in the order names are looked up (no base is shared)
Joined(s) == IF s = <<>> THEN <<>> ELSE Mro(Head(s)) \o Joined(Tail(s))
Mro(c) == <<c>> \o Joined(C[c].up)
Is(c, b) == b \in ToSet(Mro(c))
\* the nearest class that has something (0: none)
Nearest(c, T) == LET hit == SelectSeq(Mro(c), LAMBDA b : b \in T) IN IF hit = <<>> THEN 0 ELSE hit[1]
Has(op) == {c \in Cls : \E i \in DOMAIN C[c].num : C[c].num[i].op = op}
HasIn(op) == {c \in Cls : \E i \in DOMAIN C[c].inp : C[c].inp[i].op = op}
HasNeg == {c \in Cls : C[c].neg # <<>>}
HasCmp == {c \in Cls : C[c].cmp # <<>>}
HasStr == {c \in Cls : C[c].str}
NumOf == [c \in Cls |-> [op \in Num |-> Nearest(c, Has(op))]]
InpOf == [c \in Cls |-> [op \in Inp |-> Nearest(c, HasIn(op))]]
NegOf == [c \in Cls |-> Nearest(c, HasNeg)]
CmpOf == [c \in Cls |-> Nearest(c, HasCmp)]
StrOf == [c \in Cls |-> Nearest(c, HasStr)]

VARIABLES x, y, same, n
vars == <<x, y, same, n>>
View == <<x, y, same>>
None == [c |-> 0, sub |-> FALSE, v |-> 0]
Init == x = None /\ y = None /\ same = FALSE /\ n = 0

(***************************************************************************)
(* Operands: an object, or value k of the table                            *)
(***************************************************************************)
Obj(o, id) == [c |-> o.c, sub |-> o.sub, v |-> o.v, k |-> "object", id |-> id]
Val(k) == [c |-> 0, sub |-> FALSE, v |-> What[k].v, k |-> What[k].k, id |-> 10 + k]
IsObj(o) == o.k = "object"
Takes(t, o) == IF t = AnInt THEN o.k = "int"
               ELSE IF t = ADouble THEN o.k \in {"int", "float"}
               ELSE IsObj(o) /\ Is(o.c, t)
\* whether the class of w is a subclass of that of v
Below(w, v) == /\ IsObj(v) /\ IsObj(w) /\ Is(w.c, v.c)
               /\ IF v.sub THEN w.sub /\ w.c = v.c ELSE TRUE
SameType(v, w) == IsObj(v) /\ IsObj(w) /\ v.c = w.c /\ v.sub = w.sub

\* what one call gives: ok, the C++ operator called (op, types, values), class and value of the result
Not == [ok |-> FALSE]
Value(id, a, b) == (id + a + 2 * b) % Mod
IdOf(op, l, r) == LET hit == SelectSeq(File.id, LAMBDA e : e.op = op /\ e.l = l /\ e.r = r) IN hit[1].id
Called(op, l, r, res, v, w) ==
  [ok |-> TRUE, c |-> res, v |-> Value(IdOf(op, l, r), v.v, w.v), seen |-> <<op, l, r, v.v, w.v>>]

\* the first entry that takes the operands
First(list, op, self, v, w) ==
  LET l(e) == IF "l" \in DOMAIN e THEN e.l ELSE self
      fit == SelectSeq(list, LAMBDA e : e.op = op /\ Takes(l(e), v) /\ Takes(e.r, w))
  IN IF fit = <<>> THEN Not
     ELSE Called(op, l(fit[1]), fit[1].r, IF "res" \in DOMAIN fit[1] THEN fit[1].res ELSE self, v, w)
InClass(op, c, v, w) == IF c = 0 THEN Not ELSE First(C[c].num, op, c, v, w)
Owner(op, o) == IF IsObj(o) THEN NumOf[o.c][op] ELSE 0

Binary(op, v, w) ==
  LET cv == Owner(op, v)
      cw == IF Owner(op, w) = cv THEN 0 ELSE Owner(op, w)
      rl == InClass(op, cw, v, w)
      lr == InClass(op, cv, v, w)
  IN IF cw # 0 /\ Below(w, v) /\ ~SameType(v, w) /\ rl.ok THEN rl
     ELSE IF lr.ok THEN lr ELSE rl

InPlace(op, v, w) ==
  LET c == InpOf[v.c][op]
      r == IF c = 0 THEN Not ELSE First(C[c].inp, op, c, v, w)
  IN IF r.ok THEN r ELSE Binary(Plain[op], v, w)

Negative(v) ==
  LET c == NegOf[v.c]
      fit == IF c = 0 THEN <<>> ELSE SelectSeq(C[c].neg, LAMBDA e : Takes(e.l, v))
  IN IF fit = <<>> THEN Not
     ELSE [ok |-> TRUE, c |-> fit[1].res, v |-> Value(IdOf("neg", fit[1].l, 0), v.v, 0), seen |-> <<"neg", fit[1].l, 0, v.v, 0>>]

\* the comparison that class c does, for v of that class
Holds(op, c, a, b) ==
  LET k == (a + c) % Mod IN
  CASE op = "<" -> k < b [] op = "<=" -> k <= b [] op = "==" -> k = b [] op = "!=" -> k # b [] op = ">" -> k > b [] op = ">=" -> k >= b
CmpIn(op, v, w) ==
  LET c == IF IsObj(v) THEN CmpOf[v.c] ELSE 0 IN
  IF c = 0 \/ ~(IsObj(w) /\ Is(w.c, c)) \/ op \notin ToSet(C[IF c = 0 THEN 1 ELSE c].cmp) THEN Not
  ELSE [ok |-> TRUE, truth |-> Holds(op, c, v.v, w.v), seen |-> <<op, c, c, v.v, w.v>>]
Compare(op, v, w) ==
  LET there == CmpIn(Swapped[op], w, v)
      here == CmpIn(op, v, w)
  IN IF Below(w, v) /\ ~SameType(v, w) /\ there.ok THEN there
     ELSE IF here.ok THEN here
     ELSE IF there.ok THEN there
     ELSE IF op \in {"==", "!="} THEN [ok |-> TRUE, truth |-> ((v.id = w.id) = (op = "==")), seen |-> <<>>]
     ELSE Not

(***************************************************************************)
(* Actions                                                                 *)
(***************************************************************************)
X == Obj(x, 1)
Y == Obj(y, IF same THEN 1 ELSE 2)
Right(r) == IF r = "x" THEN X ELSE IF r = "y" THEN Y ELSE Val(r)
Others == {"x", "y"}
ops ==
  {[op |-> "new", c |-> c, sub |-> s] : c \in Cls, s \in (IF File.sub THEN BOOLEAN ELSE {FALSE})}
  \cup {[op |-> o] : o \in {"swap", "alias", "drop", "neg", "str", "poke"}}
  \cup {[op |-> "num", f |-> f, l |-> "x", r |-> r] : f \in Num, r \in Others}
  \cup {[op |-> "num", f |-> f, l |-> "x", k |-> k] : f \in Num, k \in DOMAIN What}
  \cup {[op |-> "num", f |-> f, r |-> "x", k |-> k] : f \in Num, k \in DOMAIN What}
  \cup {[op |-> "inp", f |-> f, r |-> r] : f \in Inp, r \in Others}
  \cup {[op |-> "inp", f |-> f, k |-> k] : f \in Inp, k \in DOMAIN What}
  \cup {[op |-> "cmp", f |-> f, l |-> "x", r |-> r] : f \in Cmp, r \in Others}
  \cup {[op |-> "cmp", f |-> f, l |-> "x", k |-> k] : f \in Cmp, k \in DOMAIN What}
  \cup {[op |-> "cmp", f |-> f, r |-> "x", k |-> k] : f \in Cmp, k \in DOMAIN What}

Used(a) == {a[f] : f \in {"l", "r"} \cap DOMAIN a}
\* to keep the graph small: the other object is there when it is used, or is the same
Able(a) ==
  CASE a.op = "new" -> x.c = 0
    [] a.op = "swap" -> ~same /\ (x.c # 0 \/ y.c # 0)
    [] a.op = "alias" -> x.c # 0
    [] OTHER -> x.c # 0 /\ IF "y" \in Used(a) THEN y.c # 0 ELSE y.c = 0 \/ same
L(a) == IF "l" \in DOMAIN a THEN Right(a.l) ELSE Val(a.k)
R(a) == IF "r" \in DOMAIN a THEN Right(a.r) ELSE Val(a.k)
\* += of an instance of a Python subclass that its own operator does not take is left out: Python 3.12 then calls the operator
\* again, as that of a sequence, and takes what it returns as the result, also NotImplemented
Quirk(a) == a.op = "inp" /\ a.f = "+=" /\ x.sub /\ InpOf[x.c]["+="] # 0 /\ ~InPlace(a.f, X, R(a)).ok
What1(a) ==
  CASE a.op = "num" -> Binary(a.f, L(a), R(a))
    [] a.op = "inp" -> InPlace(a.f, X, R(a))
    [] a.op = "neg" -> Negative(X)
    [] a.op = "cmp" -> Compare(a.f, L(a), R(a))
    [] OTHER -> Not

Made(r) == IF r.c \in Cls THEN [c |-> r.c, sub |-> FALSE, v |-> r.v] ELSE None
Do(a, r) ==
  CASE a.op = "new" -> x' = [c |-> a.c, sub |-> a.sub, v |-> 1] /\ UNCHANGED <<y, same>>
    [] a.op = "swap" -> x' = y /\ y' = x /\ UNCHANGED same
    [] a.op = "alias" -> y' = x /\ same' = TRUE /\ UNCHANGED x
    [] a.op = "drop" -> x' = None /\ same' = FALSE /\ UNCHANGED y
    [] a.op = "poke" -> x' = [x EXCEPT !.v = (@ + 1) % Mod] /\ y' = (IF same THEN x' ELSE y) /\ UNCHANGED same
    [] a.op \in {"num", "neg"} /\ r.ok -> y' = Made(r) /\ same' = FALSE /\ UNCHANGED x
    [] a.op = "inp" /\ r.ok -> x' = Made(r) /\ same' = FALSE /\ UNCHANGED y
    [] OTHER -> UNCHANGED <<x, y, same>>

Seen(r) == IF r.ok THEN r.seen ELSE <<>>
Outcome(a, r) ==
  CASE a.op \in {"num", "inp", "neg"} -> IF r.ok THEN [c |-> r.c, v |-> r.v] ELSE [exc |-> "TypeError"]
    [] a.op = "cmp" -> IF r.ok THEN [truth |-> r.truth] ELSE [exc |-> "TypeError"]
    [] a.op = "str" -> [text |-> StrOf[x.c], v |-> IF StrOf[x.c] = 0 THEN 0 ELSE x.v]
    [] OTHER -> [c |-> 0]
Next == \E a \in ops : Able(a) /\ ~Quirk(a) /\ LET r == What1(a) IN Do(a, r) /\ n' = [a |-> a, r |-> Outcome(a, r), seen |-> Seen(r)]
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Objects == IF same THEN 1 ELSE (IF x.c # 0 THEN 1 ELSE 0) + (IF y.c # 0 THEN 1 ELSE 0)
TypeOK == /\ \A o \in {x, y} : o.c \in Cls \cup {0} /\ o.v \in 0..(Mod - 1) /\ (o.c = 0 => o = None) /\ (o.sub => File.sub)
          /\ same => x = y /\ x.c # 0
\* operators change no operand: what changes is the variable that is assigned
Operands == [][ /\ n'.a.op \in {"num", "neg", "cmp", "str"} => x' = x
                /\ n'.a.op \in {"inp", "cmp", "str"} => y' = y
                /\ "exc" \in DOMAIN n'.r => UNCHANGED View ]_vars
\* what is called takes the operands it is given
Fitting == [][ n'.seen # <<>> /\ n'.a.op \in {"num", "inp"} /\ n'.a.op = "num" =>
                 LET o == n'.seen IN Takes(o[2], L(n'.a)) /\ Takes(o[3], R(n'.a)) ]_vars
\* nothing that one of the two classes could do is refused
Complete == [][ n'.a.op = "num" /\ "exc" \in DOMAIN n'.r =>
                 \A o \in {L(n'.a), R(n'.a)} : IsObj(o) /\ NumOf[o.c][n'.a.f] # 0 =>
                    ~\E i \in DOMAIN C[NumOf[o.c][n'.a.f]].num : LET e == C[NumOf[o.c][n'.a.f]].num[i] IN
                        e.op = n'.a.f /\ Takes(e.l, L(n'.a)) /\ Takes(e.r, R(n'.a)) ]_vars

S(o) == <<o.c, o.sub, o.v>>
Emit == PrintT(ToJson([s |-> <<S(x), S(y), same>>, a |-> n'.a,
                       o |-> [r |-> n'.r, seen |-> n'.seen, x |-> S(x'), y |-> S(y'), same |-> same', live |-> Objects'],
                       t |-> <<S(x'), S(y'), same'>>]))
=============================================================================
