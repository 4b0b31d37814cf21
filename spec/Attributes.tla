------------------------------ MODULE Attributes ------------------------------
(***************************************************************************)
(* Attributes of wrapped classes: data members of C++ objects and classes  *)
(* read, written and deleted in Python, and changed by C++ at any time.    *)
(*                                                                         *)
(* Two Python variables x and y hold objects (or nothing): d, the class,   *)
(* sub, whether it is an instance of a Python subclass, v, the value of    *)
(* each attribute that the object's classes declare, dict, whether a name  *)
(* C++ does not know was set in Python.  Static attributes have one value  *)
(* each.  Values are numbers: 0 is the one C++ sets, 1..vals[i] those that *)
(* Python sets; the tables of the conformance checks say what they are.    *)
(*                                                                         *)
(* Table (JSON): classes: up (bases); sub: may be subclassed in Python;    *)
(* attrs: cls, name, static, ro (cannot be written), wo (cannot be read),  *)
(* vals, bads (number of values that do not convert), parts (reading gives *)
(* a copy that can be modified)                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

File == JsonDeserialize(IOEnv.TABLE)
C == File.classes
Att == File.attrs
Cls == DOMAIN C
Inst == {i \in DOMAIN Att : ~Att[i].static}
Stat == {i \in DOMAIN Att : Att[i].static}
Names == {Att[i].name : i \in DOMAIN Att}

RECURSIVE Mro(_), Joined(_)
\* the class and its bases in the order names are looked up (no base is shared)
Joined(s) == IF s = <<>> THEN <<>> ELSE Mro(Head(s)) \o Joined(Tail(s))
Mro(c) == <<c>> \o Joined(C[c].up)
Bases(c) == ToSet(Mro(c))
RECURSIVE Line(_)
Line(c) == <<c>> \o (IF C[c].up = <<>> THEN <<>> ELSE Line(C[c].up[1]))

\* the attribute that name n means, among those in S, for the classes in the order given (0: none)
Find(order, n, S) ==
  LET has(c) == {i \in S : Att[i].cls = c /\ Att[i].name = n}
      hit == SelectSeq(order, LAMBDA c : has(c) # {})
  IN  IF hit = <<>> THEN 0 ELSE CHOOSE i \in has(hit[1]) : TRUE
IFind == [c \in Cls |-> [n \in Names |-> Find(Mro(c), n, Inst)]]
SFind == [c \in Cls |-> [n \in Names |-> Find(Line(c), n, Stat)]]
Own(c) == {i \in Inst : Att[i].cls \in Bases(c)}

VARIABLES x, y, st, n
vars == <<x, y, st, n>>
View == <<x, y, st>>

None == [d |-> 0, sub |-> FALSE, v |-> <<>>, dict |-> FALSE]
Init == x = None /\ y = None /\ st = [i \in Stat |-> 0] /\ n = 0

Attribute == -1      \* AttributeError
Refused == -2        \* the exception of the conversion

D == x.d
I(nm) == IF D = 0 THEN 0 ELSE IFind[D][nm]
S(c, nm) == SFind[c][nm]
MaxV == CHOOSE m \in 0..9 : \A i \in DOMAIN Att : Att[i].vals <= m /\ \E j \in DOMAIN Att : Att[j].vals = m
MaxB == CHOOSE m \in 0..9 : \A i \in DOMAIN Att : Att[i].bads <= m /\ \E j \in DOMAIN Att : Att[j].bads = m

ops ==
  {[op |-> "new", d |-> d, sub |-> s] : d \in Cls, s \in (IF File.sub THEN BOOLEAN ELSE {FALSE})}
  \cup {[op |-> o, name |-> m] : o \in {"get", "del", "xfer", "mutate", "orphan"}, m \in Names}
  \cup {[op |-> "set", name |-> m, k |-> k] : m \in Names, k \in 1..MaxV}
  \cup {[op |-> "bad", name |-> m, k |-> k] : m \in Names, k \in 1..MaxB}
  \cup {[op |-> "cset", i |-> i] : i \in DOMAIN Att}
  \cup {[op |-> o, c |-> c, name |-> m, sub |-> s] : o \in {"sget", "sdel"}, c \in Cls, m \in Names, s \in (IF File.sub THEN BOOLEAN ELSE {FALSE})}
  \cup {[op |-> "sset", c |-> c, name |-> m, k |-> k, sub |-> s] : c \in Cls, m \in Names, k \in 1..MaxV, s \in (IF File.sub THEN BOOLEAN ELSE {FALSE})}
  \cup {[op |-> "sbad", c |-> c, name |-> m, k |-> k] : c \in Cls, m \in Names, k \in 1..MaxB}
  \cup {[op |-> o] : o \in {"copy", "swap", "drop", "uget", "uset", "udel"}}

\* to keep the graph small: two objects only of the last class, without names of their own, and then nothing static;
\* an object with a name of its own only reads and loses it
Pair == y.d # 0
Able(a) ==
  CASE a.op = "new" -> D = 0 /\ (Pair => a.d = y.d /\ ~a.sub)
    [] Pair /\ (a.op \in {"uget", "uset", "udel"} \/ "c" \in DOMAIN a) -> FALSE
    [] x.dict /\ a.op \notin {"get", "uget", "udel", "uset", "drop"} -> FALSE
    [] a.op \in {"get", "orphan"} -> D # 0 /\ (I(a.name) = 0 => S(D, a.name) = 0)
    [] a.op = "del" -> I(a.name) # 0
    [] a.op = "mutate" -> I(a.name) # 0 /\ Att[I(a.name)].parts
    [] a.op = "xfer" -> I(a.name) # 0 /\ y.d # 0 /\ IFind[y.d][a.name] = I(a.name)
    [] a.op = "set" -> I(a.name) # 0 /\ a.k <= Att[I(a.name)].vals
    [] a.op = "bad" -> I(a.name) # 0 /\ a.k <= Att[I(a.name)].bads
    [] a.op = "cset" -> a.i \in Stat \/ (D # 0 /\ a.i \in Own(D))
    [] a.op \in {"sget", "sdel"} -> S(a.c, a.name) # 0
    [] a.op = "sset" -> S(a.c, a.name) # 0 /\ a.k <= Att[S(a.c, a.name)].vals
    [] a.op = "sbad" -> S(a.c, a.name) # 0 /\ a.k <= Att[S(a.c, a.name)].bads
    [] a.op = "copy" -> D = Len(C) /\ ~x.sub
    [] a.op = "swap" -> Pair
    [] a.op = "uset" -> D # 0 /\ \A i \in DOMAIN x.v : x.v[i] = 0
    [] a.op \in {"drop", "uget", "udel"} -> D # 0

Read(i, v) == IF i = 0 \/ Att[i].wo THEN Attribute ELSE v[i]
Written(i) == IF Att[i].ro THEN Attribute ELSE 0

Result(a) ==
  CASE a.op \in {"get", "orphan", "mutate"} -> Read(I(a.name), x.v)
    [] a.op = "del" -> Attribute
    [] a.op = "set" -> Written(I(a.name))
    [] a.op = "xfer" -> IF Att[I(a.name)].wo THEN Attribute ELSE Written(I(a.name))
    [] a.op = "bad" -> IF Att[I(a.name)].ro THEN Attribute ELSE Refused
    [] a.op = "sget" -> Read(S(a.c, a.name), st)
    [] a.op = "sdel" -> Attribute
    [] a.op = "sset" -> Written(S(a.c, a.name))
    [] a.op = "sbad" -> IF Att[S(a.c, a.name)].ro THEN Attribute ELSE Refused
    [] a.op \in {"uget", "udel"} -> IF x.dict THEN 0 ELSE Attribute
    [] a.op = "uset" -> IF File.sub THEN 0 ELSE Attribute
    [] OTHER -> 0

To(i, k) == x' = [x EXCEPT !.v[i] = k]
Do(a) ==
  CASE a.op = "new" -> x' = [d |-> a.d, sub |-> a.sub, v |-> [i \in Own(a.d) |-> 0], dict |-> FALSE] /\ UNCHANGED <<y, st>>
    [] a.op = "set" /\ Result(a) = 0 -> To(I(a.name), a.k) /\ UNCHANGED <<y, st>>
    [] a.op = "xfer" /\ Result(a) = 0 -> To(I(a.name), y.v[I(a.name)]) /\ UNCHANGED <<y, st>>
    [] a.op = "cset" -> IF a.i \in Stat THEN st' = [st EXCEPT ![a.i] = 0] /\ UNCHANGED <<x, y>>
                        ELSE To(a.i, 0) /\ UNCHANGED <<y, st>>
    [] a.op = "sset" /\ Result(a) = 0 -> st' = [st EXCEPT ![S(a.c, a.name)] = a.k] /\ UNCHANGED <<x, y>>
    [] a.op = "copy" -> y' = x /\ UNCHANGED <<x, st>>
    [] a.op = "swap" -> x' = y /\ y' = x /\ UNCHANGED st
    [] a.op \in {"drop", "orphan"} -> x' = None /\ UNCHANGED <<y, st>>
    [] a.op = "uset" -> x' = [x EXCEPT !.dict = File.sub] /\ UNCHANGED <<y, st>>
    [] a.op = "udel" -> x' = [x EXCEPT !.dict = FALSE] /\ UNCHANGED <<y, st>>
    [] OTHER -> UNCHANGED <<x, y, st>>

\* the attribute the action is about
Meant(a) == IF a.op \in {"sget", "sdel", "sset", "sbad"} THEN S(a.c, a.name)
            ELSE IF "name" \in DOMAIN a THEN I(a.name) ELSE 0
Next == \E a \in ops : Able(a) /\ Do(a) /\ n' = [a |-> [at |-> Meant(a)] @@ a, r |-> Result(a)]
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Typed == \A o \in {x, y} : o.d # 0 => /\ DOMAIN o.v = Own(o.d)
                                      /\ \A i \in Own(o.d) : o.v[i] \in 0..Att[i].vals
                                      /\ o.dict => File.sub
\* only C++ changes what Python may not write
Constant == \A o \in {x, y} : \A i \in DOMAIN o.v : Att[i].ro => o.v[i] = 0
StaticConstant == \A i \in Stat : Att[i].ro => st[i] = 0
\* what raises changes nothing, and what changes an object changes one attribute of one object, or all static ones stay
Kept == [][ /\ n'.r < 0 /\ n'.a.op # "orphan" => UNCHANGED View
            /\ n'.a.op \in {"set", "xfer", "cset"} => y' = y /\ Cardinality({i \in DOMAIN x.v : x'.v[i] # x.v[i]}) <= 1
            /\ n'.a.op \notin {"sset", "cset"} => st' = st ]_vars

Pairs(f) == [j \in 1..Cardinality(DOMAIN f) |-> LET i == SetToSortSeq(DOMAIN f, <)[j] IN <<i, f[i]>>]
See(o) == [d |-> o.d, v |-> Pairs(o.v)]
Emit == PrintT(ToJson([s |-> <<x.d, x.sub, x.dict, Pairs(x.v), y.d, y.sub, y.dict, Pairs(y.v), Pairs(st)>>, a |-> n'.a,
                       o |-> [r |-> n'.r, x |-> See(x'), y |-> See(y'), st |-> Pairs(st')],
                       t |-> <<x'.d, x'.sub, x'.dict, Pairs(x'.v), y'.d, y'.sub, y'.dict, Pairs(y'.v), Pairs(st')>>]))
=============================================================================
