------------------------------- MODULE Sequence -------------------------------
(***************************************************************************)
(* Wrapped classes with the sequence protocol and calls: len(x), x[i],     *)
(* x[i] = v, del x[i], v in x, iteration, x + y, x * n, +=, *=, x(...).    *)
(*                                                                         *)
(* The Python variables x and y name one of two objects, or nothing (0).   *)
(* An object holds a sequence of elements (numbers).  fail is whether the  *)
(* C++ library throws from the methods of the class.                       *)
(*                                                                         *)
(* Table (JSON): has: the methods registered ("len", "get", "set", "in",   *)
(* "add", "mul", "iadd", "imul", "call"), vals: number of element values,  *)
(* bads: number of values that do not convert, starts: what constructors   *)
(* make, idx: indices to try, huge: indices no C++ index holds, times:     *)
(* numbers to repeat by, inplace: whether += and *= change the object      *)
(* before they return a copy of it, cap: length to stay under              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

T == JsonDeserialize(IOEnv.TABLE)
Has == ToSet(T.has)

VARIABLES o, x, y, fail, n
vars == <<o, x, y, fail, n>>
View == <<o, x, y, fail>>

Init == o = [i \in 1..2 |-> <<>>] /\ x = 0 /\ y = 0 /\ fail = FALSE /\ n = 0

V == o[x]
\* an object that no variable names but possibly x
Free == IF y = 1 THEN 2 ELSE 1

ops ==
  {[op |-> "new", k |-> k] : k \in DOMAIN T.starts}
  \cup {[op |-> "get", i |-> i] : i \in ToSet(T.idx)}
  \cup {[op |-> "set", i |-> i, v |-> v] : i \in ToSet(T.idx), v \in 1..T.vals}
  \cup {[op |-> "setbad", b |-> b] : b \in 1..T.bads}
  \cup {[op |-> "in", v |-> v] : v \in 1..T.vals}
  \cup {[op |-> "inbad", b |-> b] : b \in 1..T.bads}
  \cup {[op |-> m, k |-> k] : m \in {"huge", "hugeset"}, k \in 1..T.huge}
  \cup {[op |-> m, k |-> k] : m \in {"mul", "rmul", "imul"}, k \in ToSet(T.times)}
  \cup {[op |-> "call", i |-> i, v |-> v] : i \in 1..2, v \in 1..T.vals}
  \cup {[op |-> m] : m \in {"len", "del", "list", "rev", "slice", "bool", "add", "addbad", "iadd", "mulbad", "mulhuge", "swap", "alias", "drop", "break", "mend", "callbad"}}

\* the method an operation needs
Needs(a) == CASE a.op \in {"get", "huge", "list", "rev", "slice"} -> "get"
              [] a.op \in {"set", "setbad", "hugeset", "del"} -> "set"
              [] a.op \in {"in", "inbad"} -> "in"
              [] a.op \in {"mul", "rmul", "mulbad", "mulhuge"} -> "mul"
              [] a.op \in {"add", "addbad"} -> "add"
              [] a.op \in {"call", "callbad"} -> "call"
              [] OTHER -> a.op
Free1(a) == a.op \in {"new", "swap", "alias", "drop", "break", "mend", "bool"}
Size(a) == CASE a.op \in {"add", "iadd"} -> Len(V) + Len(o[y])
             [] a.op \in {"mul", "rmul", "imul"} -> Len(V) * a.k
             [] OTHER -> 0
\* an operation that falls back on another one Python knows
Able(a) ==
  CASE fail /\ a.op \in {"new", "swap", "alias", "drop", "break", "list", "rev", "bool"} -> FALSE
    [] a.op = "break" -> x # 0
    [] a.op = "mend" -> fail
    [] a.op = "new" -> TRUE
    [] a.op = "swap" -> x # 0 \/ y # 0
    [] a.op = "alias" -> x # 0
    [] a.op = "drop" -> x # 0
    [] x = 0 -> FALSE
    [] a.op \in {"in", "inbad"} -> "in" \in Has \/ ("get" \in Has /\ ~fail /\ a.op = "in")
    [] a.op = "rev" -> {"get", "len"} \subseteq Has
    [] a.op \in {"iadd", "add"} -> y # 0 /\ (a.op \in Has \/ "add" \in Has) /\ Size(a) <= T.cap
    [] a.op = "imul" -> (a.op \in Has \/ "mul" \in Has) /\ Size(a) <= T.cap
    [] a.op \in {"mul", "rmul"} -> "mul" \in Has /\ Size(a) <= T.cap
    [] a.op = "bool" -> TRUE
    [] OTHER -> Needs(a) \in Has

\* Python counts negative indices from the end of what has a length
At(i) == IF i < 0 /\ "len" \in Has THEN i + Len(V) ELSE i
Inside(i) == At(i) \in 0..Len(V) - 1
Rep(s, k) == IF k <= 0 THEN <<>> ELSE IF k = 1 THEN s ELSE IF k = 2 THEN s \o s ELSE s \o s \o s

\* results: <<"ok", value>>; <<"thrown">>: the exception C++ threw; <<"index">>: IndexError, <<"refused">>: any exception
Broken(a) == fail /\ a.op \notin {"mend", "del", "slice", "setbad", "inbad", "huge", "hugeset", "addbad", "mulbad", "mulhuge", "callbad"}
Result(a) ==
  CASE Broken(a) -> <<"thrown">>
    [] a.op \in {"del", "slice", "setbad", "inbad", "huge", "hugeset", "addbad", "mulbad", "mulhuge", "callbad"} -> <<"refused">>
    [] a.op = "len" -> <<"ok", Len(V)>>
    [] a.op = "get" -> IF Inside(a.i) THEN <<"ok", V[At(a.i) + 1]>> ELSE <<"index">>
    [] a.op = "set" -> IF Inside(a.i) THEN <<"ok">> ELSE <<"index">>
    [] a.op = "in" -> <<"ok", IF \E i \in DOMAIN V : V[i] = a.v THEN 1 ELSE 0>>
    [] a.op = "list" -> <<"ok", V>>
    [] a.op = "rev" -> <<"ok", Reverse(V)>>
    [] a.op = "bool" -> <<"ok", IF "len" \in Has /\ V = <<>> THEN 0 ELSE 1>>
    [] a.op = "call" -> <<"ok", 100 * Len(V) + 10 * a.i + a.v>>
    [] OTHER -> <<"ok">>

Put(v) == o' = [o EXCEPT ![Free] = v] /\ x' = Free /\ UNCHANGED <<y, fail>>
\* += and *= : what x named may change; x names a new object
Change(m, v) ==
  IF m \in Has /\ T.inplace
  THEN LET p == [o EXCEPT ![x] = v]
       IN  o' = [p EXCEPT ![Free] = v] /\ x' = Free /\ UNCHANGED <<y, fail>>
  ELSE Put(v)
Do(a) ==
  CASE Result(a)[1] # "ok" -> UNCHANGED <<o, x, y, fail>>
    [] a.op = "new" -> Put(T.starts[a.k])
    [] a.op = "set" -> o' = [o EXCEPT ![x][At(a.i) + 1] = a.v] /\ UNCHANGED <<x, y, fail>>
    [] a.op = "add" -> Put(V \o o[y])
    [] a.op = "iadd" -> Change("iadd", V \o o[y])
    [] a.op \in {"mul", "rmul"} -> Put(Rep(V, a.k))
    [] a.op = "imul" -> Change("imul", Rep(V, a.k))
    [] a.op = "swap" -> x' = y /\ y' = x /\ UNCHANGED <<o, fail>>
    [] a.op = "alias" -> y' = x /\ o' = [i \in 1..2 |-> IF i = x THEN o[i] ELSE <<>>] /\ UNCHANGED <<x, fail>>
    [] a.op = "drop" -> x' = 0 /\ o' = [i \in 1..2 |-> IF i = y THEN o[i] ELSE <<>>] /\ UNCHANGED <<y, fail>>
    [] a.op = "break" -> fail' = TRUE /\ UNCHANGED <<o, x, y>>
    [] a.op = "mend" -> fail' = FALSE /\ UNCHANGED <<o, x, y>>
    [] OTHER -> UNCHANGED <<o, x, y, fail>>

Next == \E a \in ops : Able(a) /\ Do(a) /\ n' = [a |-> a, r |-> Result(a)]
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Typed == x \in 0..2 /\ y \in 0..2 /\ \A i \in 1..2 : Len(o[i]) <= T.cap /\ (i \notin {x, y} => TRUE)
\* what is refused or only asks changes nothing; y's object changes only through an alias
Kept == [][ /\ n'.r[1] # "ok" => UNCHANGED View
            /\ n'.a.op \in {"get", "len", "in", "list", "rev", "bool", "call"} => UNCHANGED View
            /\ x # y /\ y # 0 /\ n'.a.op \notin {"swap", "alias"} => y' = y /\ o'[y] = o[y]
            /\ n'.a.op = "set" => Len(o'[x]) = Len(o[x]) ]_vars

See(i) == IF i = 0 THEN [on |-> FALSE, v |-> <<>>] ELSE [on |-> TRUE, v |-> o'[i]]
Emit == PrintT(ToJson([s |-> <<o, x, y, fail>>, a |-> n'.a, o |-> [r |-> n'.r, x |-> See(x'), y |-> See(y'), same |-> x' = y' /\ x' # 0],
                       t |-> <<o', x', y', fail'>>]))
=============================================================================
