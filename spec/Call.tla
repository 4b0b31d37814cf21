-------------------------------- MODULE Call --------------------------------
(***************************************************************************)
(* One call of a wrapped function, method, static method or constructor    *)
(* from Python, as the wrapper performs it:                                *)
(*   Bind     positional and keyword arguments are matched with the        *)
(*            parameters that take input (IN and INOUT), in their order;   *)
(*            optional ones that got nothing keep their default            *)
(*   Convert  the arguments are converted, each may refuse its value       *)
(*   Invoke   the C++ function is called once with all parameters; it may  *)
(*            throw one of the exceptions it was declared to throw         *)
(*   Build    the result: the C++ return value followed by the OUT and     *)
(*            INOUT parameters; None, the value itself, or a tuple         *)
(* Whatever happens the call gives back what it acquired (held).           *)
(*                                                                         *)
(* Table (JSON) : the signatures.  A parameter has                         *)
(*   in, out : takes input / gives output       o : what it gives          *)
(*   g : the values it takes (as C++ sees them) b : the exceptions of the  *)
(*   values it refuses           opt, d : is optional, its default         *)
(* ret : sequence with what the function returns (empty: void)             *)
(* result: what a constructor gives     unblock: releases the GIL          *)
(* throws : the exceptions it is declared to throw, in this order          *)
(* Exceptions: cbase the C++ base class, py the Python exception it        *)
(* becomes, pbase that one's base class, msg what it says                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

File == JsonDeserialize(IOEnv.TABLE)
Table == File.sigs
Excs == File.excs
Sigs == DOMAIN Table

VARIABLES call, phase, k, bound, held, seen, exc, ret
vars == <<call, phase, k, bound, held, seen, exc, ret>>
View == vars

Params(s) == Table[s].params
Ins(s) == SelectSeq([i \in 1..Len(Params(s)) |-> i], LAMBDA i : Params(s)[i].in)
Outs(s) == SelectSeq([i \in 1..Len(Params(s)) |-> i], LAMBDA i : Params(s)[i].out)
N(s) == Len(Ins(s))
In(s, j) == Params(s)[Ins(s)[j]]

\* base classes of exception e and itself, in C++ and in Python (nearest first)
RECURSIVE CxxUp(_), PyUp(_)
CxxUp(e) == IF e = 0 THEN {} ELSE {e} \cup CxxUp(Excs[e].cbase)
PyUp(e) == IF e = 0 THEN <<>> ELSE <<Excs[e].py>> \o PyUp(Excs[e].pbase)
\* the catch clauses of s that match a thrown e
Clauses(s, e) == {i \in DOMAIN Table[s].throws : Table[s].throws[i] \in CxxUp(e)}
\* ways to give the arguments: npos by position, the set kw by keyword; unk: an unknown keyword too
Shapes(s) ==
  LET n == N(s) IN
  [npos : 0..n, kw : SUBSET (1..n), unk : {FALSE}]
  \cup [npos : {n, 0}, kw : {{}, 1..n}, unk : {TRUE}] \cup [npos : {n + 1}, kw : {{}}, unk : {FALSE}]
Plain(s) == [j \in 1..N(s) |-> 1]
\* value choices: i > 0 the i-th value it takes, i < 0 the i-th one it refuses
Single(s) == {[Plain(s) EXCEPT ![j] = i] : j \in 1..N(s), i \in (-6..6) \ {0}}
Vals(s) == {v \in Single(s) : \A j \in 1..N(s) : v[j] <= Len(In(s, j).g) /\ -v[j] <= Len(In(s, j).b)}
Full(s) == [npos |-> N(s), kw |-> {}, unk |-> FALSE]
Named(s) == [npos |-> 0, kw |-> 1..N(s), unk |-> FALSE]
Calls(s) ==
  [sig : {s}, how : Shapes(s), val : {Plain(s)}, throw : {0}]
  \cup [sig : {s}, how : {Full(s), Named(s)}, val : Vals(s), throw : {0}]
  \cup [sig : {s}, how : {Full(s)}, val : {Plain(s)}, throw : {e \in DOMAIN Excs : Clauses(s, e) # {}}]

Init == /\ \E s \in Sigs : \E c \in Calls(s) : call = c
        /\ phase = "bind" /\ k = 1 /\ bound = <<>> /\ held = {} /\ seen = <<>> /\ exc = "" /\ ret = <<>>

s0 == call.sig
Given(j) == j <= call.how.npos \/ j \in call.how.kw
Legal == /\ call.how.npos <= N(s0) /\ ~call.how.unk
         /\ \A j \in call.how.kw : j > call.how.npos
         /\ \A j \in 1..N(s0) : Given(j) \/ In(s0, j).opt

Fail(e) == exc' = e /\ phase' = "build" /\ held' = {}

Bind == /\ phase = "bind"
        /\ IF Legal THEN /\ bound' = [j \in 1..N(s0) |-> IF Given(j) THEN call.val[j] ELSE 0]
                         /\ phase' = "convert" /\ UNCHANGED <<exc, held>>
           ELSE Fail("TypeError") /\ UNCHANGED bound
        /\ UNCHANGED <<call, k, seen, ret>>
Convert == /\ phase = "convert"
           /\ IF k > N(s0) THEN phase' = "invoke" /\ UNCHANGED <<k, exc, held>>
              ELSE IF bound[k] < 0 THEN Fail(In(s0, k).b[-bound[k]]) /\ UNCHANGED k
              ELSE k' = k + 1 /\ held' = held \cup {k} /\ UNCHANGED <<phase, exc>>
           /\ UNCHANGED <<call, bound, seen, ret>>
Token(j) == IF bound[j] = 0 THEN In(s0, j).d ELSE In(s0, j).g[bound[j]]
\* the first clause that matches decides what the exception becomes; what it says it takes from the thrown object
Thrown(e) == LET i == CHOOSE i \in Clauses(s0, e) : \A j \in Clauses(s0, e) : i <= j
                 x == Table[s0].throws[i]
             IN FoldLeft(LAMBDA a, b : a \o " < " \o b, Head(PyUp(x)) \o "(" \o (IF Excs[x].msg = "" THEN "" ELSE Excs[e].msg) \o ")", Tail(PyUp(x)))
Invoke == /\ phase = "invoke"
          /\ seen' = <<Table[s0].name>> \o [j \in 1..N(s0) |-> Token(j)]
          /\ IF call.throw # 0 THEN Fail(Thrown(call.throw))
             ELSE phase' = "build" /\ UNCHANGED <<exc, held>>
          /\ UNCHANGED <<call, k, bound, ret>>
Results == Table[s0].ret \o [i \in 1..Len(Outs(s0)) |-> Params(s0)[Outs(s0)[i]].o]
Build == /\ phase = "build"
         /\ ret' = IF exc # "" THEN <<>>
                   ELSE IF Table[s0].result # "" THEN <<"one", Table[s0].result>>
                   ELSE IF Results = <<>> THEN <<"one", "None">>
                   ELSE IF Len(Results) = 1 THEN <<"one">> \o Results
                   ELSE <<"tuple">> \o Results
         /\ phase' = "done" /\ held' = {}
         /\ UNCHANGED <<call, k, bound, seen, exc>>
Next == Bind \/ Convert \/ Invoke \/ Build
Spec == Init /\ [][Next]_vars

\* C++ runs with or without the interpreter's lock, as the signature says
Gil == IF seen = <<>> THEN "" ELSE IF Table[s0].unblock THEN "released" ELSE "held"
Obs == [exc |-> exc, seen |-> seen, ret |-> ret, leak |-> 0, gil |-> Gil]
\* the call is printed when it is complete
Emit == phase' = "done" =>
  PrintT(ToJson([a |-> [op |-> "call", sig |-> call.sig, npos |-> call.how.npos, kw |-> SetToSortSeq(call.how.kw, <),
                        unk |-> call.how.unk, val |-> call.val, throw |-> call.throw], o |-> Obs']))

TypeOK == phase \in {"bind", "convert", "invoke", "build", "done"} /\ held \subseteq 1..N(s0)
\* C++ is entered at most once and only with everything bound and converted
Whole == seen # <<>> => /\ Len(seen) = N(s0) + 1
                        /\ \A j \in 1..N(s0) : (Given(j) /\ bound[j] > 0) \/ (~Given(j) /\ In(s0, j).opt)
Strict == exc # "" /\ call.throw = 0 => seen = <<>>
Balanced == phase = "done" => held = {}
Answer == phase = "done" => (exc = "") # (ret = <<>>)
=============================================================================
