------------------------------- MODULE Module -------------------------------
(***************************************************************************)
(* What a module has in it after a history of registrations.               *)
(*                                                                         *)
(* An item is registered in a scope (0: the module; a namespace; a class)  *)
(* under a C++ name and gets a Python name there: the one asked for, or    *)
(* the C++ one, without the prefix a function has that repeats the scope,  *)
(* or that the values of an enumeration are declared to have.  The Python  *)
(* scope then has that name, and it means that item and no other: the tree *)
(* of names is determined by the items, not by the order, the sections or  *)
(* by items that could not be wrapped.                                     *)
(*                                                                         *)
(* Table (JSON): module (name), nss, classes, fns, members, enums, others  *)
(* (names to use), max                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

T == JsonDeserialize(IOEnv.TABLE)
Range(s) == {s[i] : i \in DOMAIN s}

VARIABLES items, sect, n
vars == <<items, sect, n>>

Item(op) == [op |-> op, at |-> 0, n |-> "", py |-> "", x |-> 0, b |-> FALSE, doc |-> FALSE, sect |-> sect, via |-> 0]
Ids == DOMAIN items
Is(op) == {i \in Ids : items[i].op = op}
Spaces == {0} \cup Is("ns")
Classes == Is("class")
RECURSIVE Depth(_)
Depth(i) == IF i = 0 THEN 0 ELSE 1 + Depth(items[i].at)
Name(s) == IF s = 0 THEN T.module ELSE items[s].n
\* of a namespace: classes that may be bases
Outer(c) == items[c].at \in Spaces

Value(e, k) == items[e].n \o "_v" \o ToString(k)
PyValue(e, k) == IF items[e].b THEN "v" \o ToString(k) ELSE Value(e, k)

\* names in use in a scope
CNames(s) == {items[i].n : i \in {i \in Ids : items[i].at = s /\ items[i].op \notin {"over", "use", "alias", "cont", "bad"}}} \cup (IF s \in Classes THEN {items[s].n} ELSE {})
             \cup {items[i].py : i \in {i \in Ids : items[i].at = s /\ items[i].op = "alias"}}
PyNames(s) == {items[i].py : i \in {i \in Ids : items[i].at = s /\ items[i].op \notin {"over", "bad", "enum"}}}
              \cup {items[i].py \o "Iter" : i \in {i \in Is("cont") : items[i].at = s}}
              \cup UNION {{PyValue(i, k) : k \in 1..items[i].x} : i \in {i \in Is("enum") : items[i].at = s}}

Add(it) == /\ Len(items) < T.max
           /\ items' = Append(items, it)
           /\ n' = it
           /\ UNCHANGED sect
\* free names: c in C++ and py in Python
Free(s, c, py) == c \notin CNames(s) /\ py \notin PyNames(s)
Chosen(c) == {c} \cup Range(T.others)

Ns(s, c) == /\ Depth(s) < 3 /\ Free(s, c, c)
            /\ Add([Item("ns") EXCEPT !.at = s, !.n = c, !.py = c])
\* nc: without a copy constructor
Class(s, c, py, base, d, nc) == /\ Depth(s) < 4 /\ Free(s, c, py)
                            /\ (base # 0 => s \in Spaces /\ Outer(base))
                            /\ Add([Item("class") EXCEPT !.at = s, !.n = c, !.py = py, !.x = base, !.doc = d, !.b = nc])
\* functions lose the prefix that is the name of their scope, unless they have a name of their own
Strip(s, c) == LET p == Name(s) \o "_" IN IF Len(c) > Len(p) /\ SubSeq(c, 1, Len(p)) = p THEN SubSeq(c, Len(p) + 1, Len(c)) ELSE c
Fn(s, c, pre, own, d) == LET full == IF pre THEN Name(s) \o "_" \o c ELSE c
                             py == IF own = "" THEN Strip(s, full) ELSE own
                         IN  Free(s, full, py) /\ Add([Item("fn") EXCEPT !.at = s, !.n = full, !.py = py, !.b = (own = ""), !.doc = d])
Meth(c, m, py, st, d) == Free(c, m, py) /\ Add([Item("meth") EXCEPT !.at = c, !.n = m, !.py = py, !.b = st, !.doc = d])
Attr(c, m, py, st) == Free(c, m, py) /\ Add([Item("attr") EXCEPT !.at = c, !.n = m, !.py = py, !.b = st])
Overs(f) == Cardinality({i \in Is("over") : items[i].at = f})
\* another function under the same name, which may be called otherwise in C++
Over(f, own) == Overs(f) < 3 /\ Add([Item("over") EXCEPT !.at = f, !.n = IF own THEN "v" \o ToString(Len(items) + 1) ELSE "", !.x = 1 + Overs(f)])
Enum(s, c, k, pre) ==
  LET e == [Item("enum") EXCEPT !.at = s, !.n = c, !.x = k, !.b = pre]
      cs == {c} \cup {c \o "_v" \o ToString(j) : j \in 1..k}
      ps == IF pre THEN {"v" \o ToString(j) : j \in 1..k} ELSE {c \o "_v" \o ToString(j) : j \in 1..k}
  IN  cs \cap CNames(s) = {} /\ ps \cap PyNames(s) = {} /\ Add(e)
Alias(s, py, c) == Free(s, py, py) /\ Add([Item("alias") EXCEPT !.at = s, !.py = py, !.x = c])
Copied(c) == ~items[c].b
Exc(s, c, py, base) == (s \in Classes => base = 0) /\ Free(s, c, py) /\ Add([Item("exc") EXCEPT !.at = s, !.n = c, !.py = py, !.x = base])
\* a container also has the type of its iterators
Cont(s, py, c) == /\ Copied(c) /\ {py, py \o "Iter"} \cap PyNames(s) = {} /\ \A i \in Is("cont") : items[i].x # c
                  /\ Add([Item("cont") EXCEPT !.at = s, !.py = py, !.x = c])
\* functions that take and return objects of a class, called by its name or an alias
Use(s, how, c, v) == (how \in {"val", "ret"} => Copied(c)) /\ (how = "vec" => v = 0 /\ \E i \in Is("cont") : items[i].x = c) /\ Add([Item("use") EXCEPT !.at = s, !.n = how, !.py = "use" \o ToString(Len(items) + 1), !.x = c, !.via = v])
\* and of an enumeration
UseEnum(s, how, e) == Add([Item("use") EXCEPT !.at = s, !.n = how, !.py = "use" \o ToString(Len(items) + 1), !.x = e])
\* what cannot be wrapped: for types that nobody knows, or objects that cannot be copied (which shows late), alone or among the overloads of f
Bad(s, how, f, c) == /\ (how \in {"meth", "ctor", "virt"} => s \in Classes)
                     /\ (how \in {"fn", "ret"} => s \in Spaces)
                     /\ (how = "gen" => c # 0)
                     /\ (how \in {"over"} => f # 0)
                     /\ (f # 0 => items[f].at = s)
                     /\ Add([Item("bad") EXCEPT !.at = s, !.n = how, !.x = f, !.via = c])
Section(s) == /\ s # sect /\ sect' = s /\ n' = [Item("section") EXCEPT !.n = s] /\ Len(items) < T.max /\ items # <<>> /\ n.op # "section" /\ UNCHANGED items

Done == Len(items) = T.max /\ n.op # "done" /\ n' = [op |-> "done"] /\ UNCHANGED <<items, sect>>

Init == items = <<>> /\ sect = "" /\ n = [op |-> "init"]

Bool == BOOLEAN
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
\* one of many: the simulator picks a kind of item first
Next ==
  \/ \E s \in One(Spaces), c \in One(Range(T.nss)) : Ns(s, c)
  \/ \E k \in 1..4 : \E s \in One(Spaces \cup Classes), c \in One(Range(T.classes)), base \in One({0} \cup Classes), d \in One(Bool), nc \in One(1..4) : \E py \in One(Chosen(c)) : Class(s, c, py, IF k <= T.derived THEN base ELSE 0, d, nc = 1)
  \/ \E k \in 1..3 : \E s \in One(Spaces), c \in One(Range(T.fns)), pre, d \in One(Bool) : \E own \in One({""} \cup Range(T.others)) : Fn(s, c, pre /\ k = 1, own, d)
  \/ \E k \in 1..3 : \E c \in One(Classes), m \in One(Range(T.members)), st, d \in One(Bool) : \E py \in One(Chosen(m)) : Meth(c, m, py, st, d)
  \/ \E c \in One(Classes), st \in One(Bool) : \E m \in One(Range(IF st THEN T.statics ELSE T.members)) : \E py \in One(IF st THEN {m} ELSE Chosen(m)) : Attr(c, m, py, st)
  \/ \E f \in One(Is("fn") \cup Is("meth")), own \in One(Bool) : Over(f, own)
  \/ \E s \in One(Spaces \cup Classes), c \in One(Range(T.enums)), k \in One(1..3), pre \in One(Bool) : Enum(s, c, k, pre /\ s \in Spaces)
  \/ \E s \in One(Spaces), c \in One(Classes), py \in One(Range(T.others)) : Alias(s, py, c)
  \/ \E s \in One(Spaces \cup Classes), c \in One(Range(T.excs)), base \in One({0} \cup Is("exc")) : \E py \in One(Chosen(c)) : Exc(s, c, py, base)
  \/ \E s \in One(Spaces), c \in One(Classes), py \in One(Range(T.others)) : Cont(s, py, c)
  \/ \E s \in One(Spaces), c \in One(Classes), how \in {"val", "ref", "ptr", "ret", "vec"} : \E v \in One({0} \cup {i \in Is("alias") : items[i].x = c}) : Use(s, how, c, v)
  \/ \E s \in One(Spaces), e \in One(Is("enum")), how \in {"eval", "eret"} : UseEnum(s, how, e)
  \/ \E s \in One(Spaces \cup Classes), how \in {"fn", "ret", "meth", "ctor", "virt"} : Bad(s, how, 0, 0)
  \/ \E f \in One(Is("fn") \cup Is("meth")) : Bad(items[f].at, "over", f, 0)
  \/ \E s \in One(Spaces \cup Classes), c \in One({i \in Classes : ~Copied(i)}) : Bad(s, "gen", 0, c)
  \/ \E f \in One(Is("fn") \cup Is("meth")), c \in One({i \in Classes : ~Copied(i)}) : Bad(items[f].at, "gen", f, c)
  \/ \E s \in One(Range(T.sections)) : Section(s)
  \/ Done
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The tree of names                                                       *)
(***************************************************************************)
RECURSIVE Path(_)
Path(i) == IF i = 0 THEN <<>> ELSE Append(Path(items[i].at), items[i].py)
\* the functions called by 0, 1, ... arguments
Answers(i) == [k \in 0..3 |-> IF k = 0 THEN i ELSE LET o == {j \in Is("over") : items[j].at = i /\ items[j].x = k} IN IF o = {} THEN 0 ELSE CHOOSE j \in o : TRUE]
Entry(i) ==
  LET it == items[i]
  IN  [path |-> Path(i), kind |-> it.op, id |-> i, static |-> it.b /\ it.op # "class",
       of |-> IF it.op \in {"class", "alias", "cont", "use", "exc"} /\ it.x # 0 /\ items[it.x].op # "enum" THEN Path(it.x) ELSE <<>>,
       answers |-> IF it.op \in {"fn", "meth"} THEN [k \in 1..4 |-> Answers(i)[k-1]] ELSE IF it.op = "use" THEN <<it.x>> ELSE <<>>,
       how |-> IF it.op = "use" THEN it.n ELSE "", cxx |-> it.n, doc |-> it.doc]
Tree == {Entry(i) : i \in Ids \ (Is("over") \cup Is("bad") \cup Is("enum"))}
        \cup {[path |-> Append(Path(items[i].at), items[i].py \o "Iter"), kind |-> "iter", id |-> i, static |-> FALSE, of |-> Path(i), answers |-> <<>>, how |-> "", cxx |-> "", doc |-> FALSE] : i \in Is("cont")}
        \cup {[path |-> Append(Path(items[p[1]].at), PyValue(p[1], p[2])), kind |-> "value", id |-> p[1] * 10 + p[2], static |-> FALSE, of |-> <<>>, answers |-> <<>>, how |-> "", cxx |-> "", doc |-> FALSE]
              : p \in {q \in Is("enum") \X (1..3) : q[2] <= items[q[1]].x}}

\* a path leads to one item
NoClash == \A a, b \in Tree : a.path = b.path => a = b
\* and all of it leads somewhere
Connected == \A a \in Tree : Len(a.path) > 1 => \E b \in Tree : b.path = SubSeq(a.path, 1, Len(a.path) - 1) /\ b.kind \in {"ns", "class"}
\* registering more changes nothing
Kept == [][\A i \in Ids : items'[i] = items[i]]_vars

Emit == n'.op = "done" => PrintT(ToJson([items |-> items, tree |-> Tree]))
=============================================================================
