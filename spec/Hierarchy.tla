------------------------------ MODULE Hierarchy ------------------------------
(***************************************************************************)
(* Objects of a hierarchy of C++ classes as Python sees them.              *)
(*                                                                         *)
(* One Python variable x holds a wrapper: x.d is the class the C++ object  *)
(* really has, x.t the wrapped class of the Python object, x.sub: it is an *)
(* instance of a Python subclass of x.t, and x.tag one bit for the data    *)
(* that each of the classes of x.d contributes to the object.              *)
(*                                                                         *)
(* Table (JSON): classes: up (sequence of bases), hidden (not wrapped),    *)
(* pad (has an unwrapped base before its first one),                       *)
(* narrow ("yes", "no", "": as the first base), conv (classes to whose     *)
(* values it converts implicitly); rc: reference counted; sub: may be      *)
(* subclassed in Python                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

File == JsonDeserialize(IOEnv.TABLE)
C == File.classes
All == DOMAIN C
Wrapped == {k \in All : ~C[k].hidden}
RC == File.rc

RECURSIVE Bases(_)
\* the class and everything it derives from
Bases(k) == {k} \cup UNION {Bases(C[k].up[i]) : i \in DOMAIN C[k].up}
Derived(k) == {d \in All : k \in Bases(d)}

RECURSIVE Line(_)
\* the class and its first bases, nearest first, as far as a class has no other (unwrapped) base before it
Line(k) == <<k>> \o (IF C[k].up = <<>> \/ C[k].pad THEN <<>> ELSE Line(C[k].up[1]))

RECURSIVE Narrow(_)
Narrow(k) == IF C[k].narrow # "" THEN C[k].narrow = "yes" ELSE IF C[k].up = <<>> THEN FALSE ELSE Narrow(C[k].up[1])
RECURSIVE NRoot(_)
NRoot(k) == IF C[k].up # <<>> /\ Narrow(C[k].up[1]) THEN NRoot(C[k].up[1]) ELSE k

\* the Python class for an object of class d that is returned as a pointer to s
Seen(s, d) ==
  LET fit == SelectSeq(Line(d), LAMBDA k : k \in Wrapped /\ Narrow(k) /\ NRoot(k) = NRoot(s) /\ s \in Bases(k))
  IN  IF Narrow(s) /\ fit # <<>> THEN fit[1] ELSE s

VARIABLES x, n
vars == <<x, n>>
View == x

Empty == [d |-> 0, t |-> 0, sub |-> FALSE, tag |-> <<>>]
Tags(d) == [k \in Bases(d) |-> 0]
Obj(d, t, sub, tag) == [d |-> d, t |-> t, sub |-> sub, tag |-> tag]

Init == x = Empty /\ n = 0

Pairs(f, S) == [i \in 1..Cardinality(S) |-> LET k == SetToSortSeq(S, <)[i] IN <<k, f[k]>>]
\* what can be seen of x without changing it
Look(y) == IF y.d = 0 THEN [type |-> 0]
           ELSE [type |-> y.t, sub |-> y.sub, attrs |-> Pairs(y.tag, Bases(y.t)), meths |-> Pairs(y.tag, Bases(y.t)), who |-> y.d,
                 isa |-> SetToSortSeq(Bases(y.t) \cap Wrapped, <)]

New(d, sub) == x' = Obj(d, d, sub, Tags(d))
\* S* or S or const S& f() with an object of class d
Give(s, d, kind) ==
  IF kind \in {"own", "bor"}
  THEN x' = Obj(d, IF kind = "own" \/ RC THEN Seen(s, d) ELSE s, FALSE, Tags(d))
  ELSE x' = Obj(s, s, FALSE, Tags(s))

Is(t) == x.d # 0 /\ t \in Bases(x.t)
Converts(t) == x.d # 0 /\ ~Is(t) /\ \E k \in Bases(x.t) : \E i \in DOMAIN C[k].conv : C[k].conv[i] = t
\* the class whose conversion to t applies to x
Source(t) == CHOOSE k \in Bases(x.t) : \E i \in DOMAIN C[k].conv : C[k].conv[i] = t
Byvalue == {"val", "cref"}
Changing == {"ref", "ptr", "nptr"}
Flip(t) == [x EXCEPT !.tag[t] = 1 - @]
\* a function taking a T: the data of the T it receives (conversions add 10), or an exception
Got(t, kind) == IF Is(t) THEN x.tag[t]
                ELSE IF Converts(t) /\ kind \in Byvalue THEN 10 + x.tag[Source(t)] ELSE -1
After(t, kind) == IF Is(t) /\ kind \in Changing THEN Flip(t) ELSE x

ops == 
  {[op |-> "new", d |-> d, sub |-> s] : d \in Wrapped, s \in (IF File.sub THEN BOOLEAN ELSE {FALSE})}
  \cup {[op |-> "give", s |-> s, d |-> d, kind |-> k] : s \in Wrapped, d \in All, k \in {"own", "bor", "val", "cref"}}
  \cup {[op |-> "take", t |-> t, kind |-> k] : t \in Wrapped, k \in Byvalue \cup Changing \cup {"cptr"}}
  \cup {[op |-> "other", t |-> t, kind |-> k, v |-> v] : t \in Wrapped, k \in Byvalue \cup Changing \cup {"cptr"}, v \in {"None", "int", "type"}}
  \cup {[op |-> o, t |-> t] : o \in {"set", "bump", "boom", "gil"}, t \in Wrapped}
  \cup {[op |-> "copy"], [op |-> "drop"]}

Able(a) ==
  CASE a.op = "new" -> x.d = 0
    [] a.op = "give" -> x.d = 0 /\ a.s \in Bases(a.d) /\ (a.kind \in {"val", "cref"} => ~RC)
    [] a.op = "take" -> x.d # 0
    [] a.op = "other" -> x.d = 0
    [] a.op \in {"set", "bump", "boom", "gil"} -> x.d # 0 /\ Is(a.t)
    [] a.op = "copy" -> x.d # 0 /\ ~x.sub
    [] a.op = "drop" -> x.d # 0

Result(a) ==
  CASE a.op = "take" -> Got(a.t, a.kind)
    [] a.op = "other" -> IF a.v = "None" /\ a.kind = "nptr" THEN -2 ELSE -1
    [] a.op = "boom" -> 50 + a.t         \* a method of class t that throws
    [] a.op = "gil" -> 0                 \* a method of class t that runs without the interpreter lock
    [] OTHER -> 0

Do(a) ==
  CASE a.op = "new" -> New(a.d, a.sub)
    [] a.op = "give" -> Give(a.s, a.d, a.kind)
    [] a.op = "take" -> x' = After(a.t, a.kind)
    [] a.op \in {"other", "boom", "gil"} -> x' = x
    [] a.op \in {"set", "bump"} -> x' = Flip(a.t)
    [] a.op = "copy" -> x' = Obj(x.t, x.t, FALSE, Restrict(x.tag, Bases(x.t)))
    [] a.op = "drop" -> x' = Empty

Next == \E a \in ops : Able(a) /\ Do(a) /\ n' = [a |-> a, r |-> Result(a)]
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
\* a wrapper never promises more than its object has, and is of a class that Python knows
Sound == x.d # 0 => x.t \in Bases(x.d) /\ x.t \in Wrapped /\ DOMAIN x.tag = Bases(x.d)
\* the class seen is at least the one declared, and no wrapped class between it and the object's class in the line of first bases is passed over
Nearest == \A s \in Wrapped : \A d \in Derived(s) :
  LET t == Seen(s, d) IN /\ s \in Bases(t) /\ t \in Bases(d)
                         /\ Narrow(s) /\ d \in Wrapped /\ s \in ToSet(Line(d)) /\ Narrow(d) => t = d
\* an instance of a Python subclass has exactly its own class
Own == x.sub => x.d = x.t

Emit == PrintT(ToJson([s |-> x, a |-> n'.a, o |-> [r |-> n'.r] @@ Look(x'), t |-> x']))
=============================================================================
