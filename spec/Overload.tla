------------------------------- MODULE Overload -------------------------------
(***************************************************************************)
(* One call of an overloaded function: the overloads are tried in the      *)
(* order they were declared.                                               *)
(*   Try      the arguments are bound to the parameters of overload m and  *)
(*            converted; the first thing that does not fit ends the try    *)
(*   Invoke   everything fits: this overload is called, once, and no other *)
(*            one is tried, also when it throws                            *)
(*   Refuse   no overload takes the arguments: TypeError with the reason   *)
(*            of each                                                      *)
(* What a try acquired is given back when it fails (held).                 *)
(*                                                                         *)
(* Table (JSON): sequence of sets; members: params (in, out, opt, d as in  *)
(* Call.tla; tok[v]: what C++ sees of value v, "" when refused), name, ret,*)
(* result, throws (its exception), unblock; nvals: the values to call with *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Sets == JsonDeserialize(IOEnv.TABLE)

VARIABLES call, phase, m, k, held, seen, exc, ret, reasons
vars == <<call, phase, m, k, held, seen, exc, ret, reasons>>
View == vars

Mem(s) == Sets[s].members
Ins(o) == SelectSeq([i \in DOMAIN o.params |-> i], LAMBDA i : o.params[i].in)
Outs(o) == SelectSeq([i \in DOMAIN o.params |-> i], LAMBDA i : o.params[i].out)
MaxP(s) == CHOOSE n \in 0..9 : (\A i \in DOMAIN Mem(s) : Len(Mem(s)[i].params) <= n) /\ (\E i \in DOMAIN Mem(s) : Len(Mem(s)[i].params) = n)
MaxIn(s) == CHOOSE n \in 0..9 : (\A i \in DOMAIN Mem(s) : Len(Ins(Mem(s)[i])) <= n) /\ (\E i \in DOMAIN Mem(s) : Len(Ins(Mem(s)[i])) = n)

RECURSIVE Vectors(_, _)
Vectors(n, v) == IF n = 0 THEN {<<>>} ELSE {Append(x, i) : x \in Vectors(n - 1, v), i \in 1..v}
\* positional arguments, keyword arguments (parameter number -> value), whether overloads that may throw do
Calls(s) ==
  LET v == Sets[s].nvals IN
  [set : {s}, pos : UNION {Vectors(n, v) : n \in 0..MaxIn(s)}, kw : {<<>>}, throw : {FALSE}]
  \cup [set : {s}, pos : Vectors(1, v), kw : {<<>>}, throw : {TRUE}]
  \cup [set : {s}, pos : UNION {{[i \in 1..n |-> x] : x \in 1..v} : n \in {MaxIn(s) + 1}}, kw : {<<>>}, throw : {FALSE}]
  \cup [set : {s}, pos : UNION {Vectors(n, v) : n \in 0..1}, kw : {<<p>> \o <<x>> : p \in 1..MaxP(s), x \in 1..v}, throw : BOOLEAN]

Init == /\ \E s \in DOMAIN Sets : \E c \in Calls(s) : call = c
        /\ phase = "try" /\ m = 1 /\ k = 1 /\ held = {} /\ seen = <<>> /\ exc = "" /\ ret = <<>> /\ reasons = 0

O == Mem(call.set)[m]
NI == Len(Ins(O))
\* the value the j-th input parameter gets (0: none)
KwOf(j) == IF call.kw # <<>> /\ call.kw[1] = Ins(O)[j] THEN call.kw[2] ELSE 0
Arg(j) == IF j <= Len(call.pos) THEN call.pos[j] ELSE KwOf(j)
Legal == /\ Len(call.pos) <= NI
         /\ \A j \in 1..NI : Arg(j) # 0 \/ O.params[Ins(O)[j]].opt
         /\ call.kw # <<>> => \E j \in 1..NI : j > Len(call.pos) /\ KwOf(j) # 0
Fits(j) == Arg(j) = 0 \/ O.params[Ins(O)[j]].tok[Arg(j)] # ""
Token(j) == IF Arg(j) = 0 THEN O.params[Ins(O)[j]].d ELSE O.params[Ins(O)[j]].tok[Arg(j)]

Try == /\ phase = "try"
       /\ IF (k = 1 /\ ~Legal) \/ (k <= NI /\ ~Fits(k))
          THEN /\ held' = {} /\ reasons' = reasons + 1 /\ k' = 1
               /\ IF m = Len(Mem(call.set)) THEN phase' = "refuse" /\ UNCHANGED m
                  ELSE m' = m + 1 /\ UNCHANGED phase
          ELSE IF k > NI THEN phase' = "invoke" /\ UNCHANGED <<m, k, held, reasons>>
          ELSE k' = k + 1 /\ held' = held \cup {k} /\ UNCHANGED <<m, reasons, phase>>
       /\ UNCHANGED <<call, seen, exc, ret>>
Results == O.ret \o [i \in 1..Len(Outs(O)) |-> O.params[Outs(O)[i]].o]
Invoke == /\ phase = "invoke" /\ phase' = "done"
          /\ seen' = <<O.name>> \o [j \in 1..NI |-> Token(j)]
          /\ IF call.throw /\ O.throws THEN exc' = "Error" /\ UNCHANGED ret
             ELSE /\ UNCHANGED exc
                  /\ ret' = IF O.result # "" THEN <<"one", O.result>>
                            ELSE IF Results = <<>> THEN <<"one", "None">>
                            ELSE IF Len(Results) = 1 THEN <<"one">> \o Results
                            ELSE <<"tuple">> \o Results
          /\ held' = {} /\ UNCHANGED <<call, m, k, reasons>>
Refuse == /\ phase = "refuse" /\ phase' = "done" /\ exc' = "TypeError"
          /\ UNCHANGED <<call, m, k, held, seen, ret, reasons>>
Next == Try \/ Invoke \/ Refuse
Spec == Init /\ [][Next]_vars

Obs == [exc |-> exc, seen |-> seen, ret |-> ret, leak |-> 0, reasons |-> IF exc = "TypeError" THEN reasons ELSE 0,
        gil |-> IF seen = <<>> THEN "" ELSE IF O.unblock THEN "released" ELSE "held"]
Emit == phase' = "done" => PrintT(ToJson([a |-> [op |-> "call", set |-> call.set, pos |-> call.pos, kw |-> call.kw, throw |-> call.throw], o |-> Obs']))

\* (for the properties) does overload o take the arguments of this call?
Suits(o) ==
  LET ins == Ins(o)
      arg(j) == IF j <= Len(call.pos) THEN call.pos[j] ELSE IF call.kw # <<>> /\ call.kw[1] = ins[j] THEN call.kw[2] ELSE 0
  IN  /\ Len(call.pos) <= Len(ins)
      /\ call.kw # <<>> => \E j \in DOMAIN ins : j > Len(call.pos) /\ ins[j] = call.kw[1]
      /\ \A j \in DOMAIN ins : IF arg(j) = 0 THEN o.params[ins[j]].opt ELSE o.params[ins[j]].tok[arg(j)] # ""
TypeOK == phase \in {"try", "invoke", "refuse", "done"} /\ m \in DOMAIN Mem(call.set)
\* the first overload that suits is called, and only it
First == seen # <<>> => Suits(O) /\ \A i \in 1..m - 1 : ~Suits(Mem(call.set)[i])
NoneFits == phase = "done" => ((seen = <<>>) <=> \A i \in DOMAIN Mem(call.set) : ~Suits(Mem(call.set)[i]))
Balanced == phase \in {"refuse", "done"} => held = {}
Reasoned == exc = "TypeError" => reasons = Len(Mem(call.set))
=============================================================================
