------------------------------ MODULE Containers ------------------------------
(***************************************************************************)
(* Wrapped C++ containers as values: made from Python lists, copied,       *)
(* passed to and returned from C++ in every way, iterated.                 *)
(*                                                                         *)
(* g is what the C++ library holds; x, y and z are Python variables        *)
(* holding containers (on: whether they do, id: which object, v: what is   *)
(* in it); it is a Python iterator over the contents v, at position p.     *)
(* Elements are numbers, in the order C++ compares them; an element of a   *)
(* mapping is a pair of numbers.                                           *)
(*                                                                         *)
(* Table (JSON): kind ("seq", "set", "multi", "map", "hash"), lists: what  *)
(* Python lists hold (sequences of elements), bads: number of lists and    *)
(* other things that do not convert, odds: number of lists that change     *)
(* while they are converted (what comes of that is not said, but C++ does  *)
(* not see it), extra: the element C++ adds,                               *)
(* puts, gets, mods: numbers of C++ functions that take one, give one,     *)
(* take and give one (one that C++ throws from changes nothing); conv: whether a list converts to a parameter,        *)
(* parts: whether elements can be modified in Python, knot: whether        *)
(* containers can have attributes of their own                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

T == JsonDeserialize(IOEnv.TABLE)

Less(a, b) == IF T.kind \in {"map", "hash"} THEN a[1] < b[1] ELSE a < b
Same(a, b) == ~Less(a, b) /\ ~Less(b, a)
Add(s, e) ==
  IF T.kind = "seq" THEN Append(s, e)
  ELSE LET lo == SelectSeq(s, LAMBDA f : ~Less(e, f))
           hi == SelectSeq(s, LAMBDA f : Less(e, f))
       IN  IF T.kind # "multi" /\ (\E i \in DOMAIN s : Same(s[i], e)) THEN s ELSE lo \o <<e>> \o hi
RECURSIVE Built(_, _)
Built(s, l) == IF l = <<>> THEN s ELSE Built(Add(s, Head(l)), Tail(l))
Of(k) == Built(<<>>, T.lists[k])
All == [k \in DOMAIN T.lists |-> Of(k)]

VARIABLES g, x, y, it, n
vars == <<g, x, y, it, n>>
View == <<g, x, y, it>>

None == [on |-> FALSE, v |-> <<>>, tied |-> FALSE]
Still == [on |-> FALSE, v |-> <<>>, p |-> 0]
New(v) == [on |-> TRUE, v |-> v, tied |-> FALSE]
Init == g = <<>> /\ x = None /\ y = None /\ it = Still /\ n = 0

\* where an argument comes from: a list of the table, or the variable x or y
Srcs == {[l |-> k] : k \in DOMAIN T.lists} \cup {[l |-> 0], [l |-> -1]}
Val(s) == IF s.l > 0 THEN All[s.l] ELSE IF s.l = 0 THEN x.v ELSE y.v
Has(s) == IF s.l > 0 THEN TRUE ELSE IF s.l = 0 THEN x.on ELSE y.on

ops ==
  {[op |-> "make", l |-> s.l] : s \in Srcs}
  \cup {[op |-> "bad", b |-> b] : b \in 1..T.bads}
  \cup {[op |-> "put", f |-> f, l |-> s.l] : f \in 1..T.puts, s \in Srcs}
  \cup {[op |-> "putbad", f |-> f, b |-> b] : f \in 1..T.puts, b \in 1..T.bads}
  \cup {[op |-> "get", f |-> f] : f \in 1..T.gets}
  \cup {[op |-> "mod", f |-> f, l |-> s.l] : f \in 1..T.mods, s \in Srcs}
  \cup {[op |-> "modbad", f |-> f, b |-> b] : f \in 1..T.mods, b \in 1..T.bads}
  \cup {[op |-> "putthrow", f |-> f, l |-> s.l] : f \in 1..T.puts, s \in Srcs}
  \cup {[op |-> "getthrow", f |-> f] : f \in 1..T.gets}
  \cup {[op |-> "modthrow", f |-> f, l |-> s.l] : f \in 1..T.mods, s \in Srcs}
  \cup {[op |-> "cset", k |-> k] : k \in DOMAIN T.lists}
  \cup {[op |-> o] : o \in {"cadd", "cclear", "iter", "next", "self", "stop", "swap", "drop", "mutate", "tie"}}
  \cup {[op |-> "odd", b |-> b] : b \in 1..T.odds}

Conv(l) == l <= 0 \/ T.conv
\* to keep the graph small, an iterator is used while y is not, and C++ changes only once then
Able(a) ==
  CASE it.on /\ a.op \notin {"next", "self", "stop", "drop", "make", "tie", "mutate", "cclear"} -> FALSE
    [] y.on /\ a.op \in {"iter", "mutate", "bad", "odd", "putbad", "modbad", "putthrow", "modthrow", "tie"} -> FALSE
    [] a.op \in {"make", "put", "mod"} -> Has([l |-> a.l]) /\ (a.op = "mod" => Len(Val([l |-> a.l])) <= T.max)
    [] a.op \in {"putbad", "modbad"} -> T.conv
    [] a.op \in {"putthrow", "modthrow"} -> Has([l |-> a.l]) /\ Conv(a.l)
    [] a.op = "cadd" -> Len(g) < T.max
    [] a.op \in {"iter", "drop"} -> x.on
    [] a.op = "mutate" -> x.on /\ T.parts /\ x.v # <<>>
    [] a.op = "tie" -> x.on /\ T.knot /\ ~x.tied
    [] a.op = "swap" -> x.on \/ y.on
    [] a.op \in {"next", "self", "stop"} -> it.on
    [] OTHER -> TRUE

Result(a) ==
  CASE a.op \in {"put", "mod"} -> IF Conv(a.l) THEN <<"ok", Len(Val([l |-> a.l]))>> ELSE <<"refused">>
    [] a.op \in {"bad", "putbad", "modbad"} -> <<"refused">>
    [] a.op = "odd" -> <<"?">>
    [] a.op \in {"putthrow", "getthrow", "modthrow"} -> <<"thrown">>
    [] a.op = "next" -> IF it.p < Len(it.v) THEN <<"ok", it.v[it.p + 1]>> ELSE <<"end">>
    [] OTHER -> <<"ok">>

Do(a) ==
  CASE a.op = "make" -> x' = New(Val([l |-> a.l])) /\ UNCHANGED <<g, y, it>>
    [] a.op = "put" /\ Conv(a.l) -> g' = Val([l |-> a.l]) /\ UNCHANGED <<x, y, it>>
    [] a.op = "get" -> y' = New(g) /\ UNCHANGED <<g, x, it>>
    [] a.op = "mod" /\ Conv(a.l) -> g' = Val([l |-> a.l]) /\ y' = New(Add(Val([l |-> a.l]), T.extra)) /\ UNCHANGED <<x, it>>
    [] a.op = "cset" -> g' = All[a.k] /\ UNCHANGED <<x, y, it>>
    [] a.op = "cadd" -> g' = Add(g, T.extra) /\ UNCHANGED <<x, y, it>>
    [] a.op = "cclear" -> g' = <<>> /\ UNCHANGED <<x, y, it>>
    [] a.op = "iter" -> it' = [on |-> TRUE, v |-> x.v, p |-> 0] /\ UNCHANGED <<g, x, y>>
    [] a.op = "next" -> it' = [it EXCEPT !.p = IF @ < Len(it.v) THEN @ + 1 ELSE @] /\ UNCHANGED <<g, x, y>>
    [] a.op = "stop" -> it' = Still /\ UNCHANGED <<g, x, y>>
    [] a.op = "swap" -> x' = y /\ y' = x /\ UNCHANGED <<g, it>>
    [] a.op = "drop" -> x' = None /\ UNCHANGED <<g, y, it>>
    [] a.op = "tie" -> x' = [x EXCEPT !.tied = TRUE] /\ UNCHANGED <<g, y, it>>
    [] OTHER -> UNCHANGED <<g, x, y, it>>

Next == \E a \in ops : Able(a) /\ Do(a) /\ n' = [a |-> a, r |-> Result(a)]
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
\* what C++ says about each kind of container holds of every copy in Python
Sorted(v) == \A i, j \in DOMAIN v : i < j => /\ T.kind # "seq" => ~Less(v[j], v[i])
                                             /\ T.kind \in {"set", "map", "hash"} => Less(v[i], v[j])
Ordered == Sorted(g) /\ Sorted(x.v) /\ Sorted(y.v) /\ Sorted(it.v)
Typed == it.p \in 0..Len(it.v)
\* a container passed or returned is a copy: one step changes one side, or gives one to the other
Separate == [][ /\ n'.a.op \in {"cset", "cadd", "cclear"} => x' = x /\ y' = y
                /\ n'.a.op \notin {"put", "mod", "cset", "cadd", "cclear"} => g' = g
                /\ n'.a.op \notin {"swap", "make", "drop"} => x'.v = x.v
                /\ n'.a.op \notin {"swap", "get", "mod"} => y' = y
                /\ n'.r[1] \in {"refused", "thrown"} => UNCHANGED View ]_vars
\* an iterator gives what was in the container, in order, each once
Walks == [][ it.on /\ it'.on => (n'.a.op = "iter" \/ (it'.v = it.v /\ it'.p \in {it.p, it.p + 1})) ]_vars

See(o) == [on |-> o.on, v |-> o.v]
Emit == PrintT(ToJson([s |-> <<g, x, y, it>>, a |-> n'.a,
                       o |-> [r |-> n'.r, g |-> g', x |-> See(x'), y |-> See(y')],
                       t |-> <<g', x', y', it'>>]))
=============================================================================
