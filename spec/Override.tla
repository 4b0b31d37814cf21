------------------------------ MODULE Override ------------------------------
(***************************************************************************)
(* One call by C++ of a virtual method that a Python class may override:   *)
(*   Enter    the values C++ has for the parameters that the override gets *)
(*            (IN, INOUT, and class references to change in place) are     *)
(*            converted, in their order; without an override the C++       *)
(*            implementation runs                                          *)
(*   Python   the override changes objects in place, and answers or raises *)
(*   Unpack   the answer stands for the return value and the OUT and INOUT *)
(*            parameters: None, the value itself, or a tuple of all        *)
(*   Convert  each value is converted, or refused                          *)
(*   Answer   C++ gets the result and the values of its parameters; after  *)
(*            an error (which is printed) a void method just returns,      *)
(*            others give what the C++ implementation gives, or when there *)
(*            is none, a newly constructed object where the declarations  *)
(*              say that there is one, or else the process ends             *)
(*                                                                         *)
(* Table (JSON): sigs: name, pure, params and ret.  A parameter has        *)
(*   arg : the override gets it     c : the values C++ has for it          *)
(*   mut : the override changes it in place, to m                          *)
(*   out : the override answers with it                                    *)
(*   g, b : the values it accepts, and exceptions for those it refuses     *)
(*   base : its value after the C++ implementation ran                     *)
(* ret: sequence (empty: void) of one record with g, b, base and err       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

File == JsonDeserialize(IOEnv.TABLE)
Sigs == DOMAIN File.sigs
T(s) == File.sigs[s]
Params(s) == T(s).params
Pick(s, P(_)) == SelectSeq([i \in 1..Len(Params(s)) |-> i], LAMBDA i : P(Params(s)[i]))
Args(s) == Pick(s, LAMBDA p : p.arg)
Outs(s) == Pick(s, LAMBDA p : p.out)
\* parameters C++ looks at when the call is over
After(s) == Pick(s, LAMBDA p : p.out \/ p.mut)
\* what the override answers with
Res(s) == T(s).ret \o [i \in 1..Len(Outs(s)) |-> Params(s)[Outs(s)[i]]]
N(s) == Len(Res(s))

VARIABLES call, phase, k, seen, exc, res, who
vars == <<call, phase, k, seen, exc, res, who>>
View == vars

PlainC(s) == [i \in 1..Len(Params(s)) |-> 1]
PlainV(s) == [j \in 1..N(s) |-> 1]
CVals(s) == {PlainC(s)} \cup {[PlainC(s) EXCEPT ![i] = v] : i \in 1..Len(Params(s)), v \in 1..6}
OkC(s) == {v \in CVals(s) : \A i \in 1..Len(Params(s)) : v[i] <= Len(Params(s)[i].c)}
Vals(s) == {PlainV(s)} \cup {[PlainV(s) EXCEPT ![j] = v] : j \in 1..N(s), v \in (-6..6) \ {0}}
OkV(s) == {v \in Vals(s) : \A j \in 1..N(s) : v[j] <= Len(Res(s)[j].g) /\ -v[j] <= Len(Res(s)[j].b)}
\* ways to answer: the value(s), perhaps keeping the arguments; raise; a tuple that is too short or too long; no tuple; something where None is due
Hows(s) == {"raise"} \cup (IF Args(s) # <<>> THEN {"keep"} \cup (IF T(s).ret = <<>> THEN {"keepraise"} ELSE {}) ELSE {}) \cup (IF N(s) = 0 THEN {"extra"} ELSE {}) \cup (IF N(s) >= 2 THEN {"short", "long", "scalar", "none"} ELSE {})
Calls(s) ==
  [sig : {s}, how : {"value"}, c : OkC(s), val : {PlainV(s)}]
  \cup [sig : {s}, how : {"value"}, c : {PlainC(s)}, val : OkV(s)]
  \cup [sig : {s}, how : Hows(s), c : {PlainC(s)}, val : {PlainV(s)}]
  \cup (IF T(s).pure THEN {} ELSE [sig : {s}, how : {"absent"}, c : {PlainC(s)}, val : {PlainV(s)}])

Init == /\ \E s \in Sigs : \E c \in Calls(s) : call = c
        /\ phase = "enter" /\ k = 1 /\ seen = <<>> /\ exc = "" /\ res = <<>> /\ who = ""

s0 == call.sig
Enter == /\ phase = "enter"
         /\ IF call.how = "absent" THEN phase' = "answer" /\ who' = "base" /\ UNCHANGED seen
            ELSE /\ phase' = "python" /\ who' = "override"
                 /\ seen' = [j \in 1..Len(Args(s0)) |-> Params(s0)[Args(s0)[j]].c[call.c[Args(s0)[j]]]]
         /\ UNCHANGED <<call, k, exc, res>>
Fail(e) == exc' = e /\ phase' = "answer" /\ who' = IF T(s0).ret = <<>> THEN "nobody" ELSE IF T(s0).pure THEN "null" ELSE "base"
Python == /\ phase = "python"
          /\ IF call.how \in {"raise", "keepraise"} THEN Fail("KeyError") ELSE phase' = "unpack" /\ UNCHANGED <<exc, who>>
          /\ UNCHANGED <<call, k, seen, res>>
Unpack == /\ phase = "unpack"
          /\ IF call.how \in {"value", "keep"} THEN phase' = "convert" /\ UNCHANGED <<exc, who>> ELSE Fail("TypeError")
          /\ UNCHANGED <<call, k, seen, res>>
Convert == /\ phase = "convert"
           /\ IF k > N(s0) THEN phase' = "answer" /\ UNCHANGED <<k, exc, who>>
              ELSE IF call.val[k] < 0 THEN Fail(Res(s0)[k].b[-call.val[k]]) /\ UNCHANGED k
              ELSE k' = k + 1 /\ UNCHANGED <<phase, exc, who>>
           /\ UNCHANGED <<call, seen, res>>
\* the position among the answered values of parameter i
Pos(i) == Len(T(s0).ret) + (CHOOSE j \in 1..Len(Outs(s0)) : Outs(s0)[j] = i)
Of(i) == LET p == Params(s0)[i] IN
         IF who = "base" THEN p.base
         ELSE IF p.mut THEN p.m
         ELSE IF who = "override" THEN p.g[call.val[Pos(i)]]
         ELSE "?"    \* after an error without C++ implementation it is not defined
Returned == IF T(s0).ret = <<>> THEN "void"
            ELSE LET r == T(s0).ret[1] IN
                 CASE who = "override" -> r.g[call.val[1]] [] who = "base" -> r.base [] OTHER -> r.err
Answer == /\ phase = "answer"
          /\ res' = IF Returned = "fatal" THEN <<"fatal">> ELSE <<Returned>> \o [j \in 1..Len(After(s0)) |-> Of(After(s0)[j])]
          /\ phase' = "done"
          /\ UNCHANGED <<call, k, seen, exc, who>>
Next == Enter \/ Python \/ Unpack \/ Convert \/ Answer
Spec == Init /\ [][Next]_vars

\* what the override kept of its arguments stays what it was at the end of the call
Kept == IF call.how \in {"keep", "keepraise"}
        THEN [j \in 1..Len(Args(s0)) |-> IF Params(s0)[Args(s0)[j]].mut THEN Params(s0)[Args(s0)[j]].m ELSE seen[j]] ELSE <<>>
Obs == [kept |-> Kept, seen |-> seen, exc |-> exc, res |-> res, ran |-> IF who = "base" THEN "base" ELSE "", leak |-> 0]
Emit == phase' = "done" => PrintT(ToJson([a |-> [op |-> "call", sig |-> call.sig, c |-> call.c, how |-> call.how, val |-> call.val], o |-> Obs']))

TypeOK == /\ phase \in {"enter", "python", "unpack", "convert", "answer", "done"}
          /\ who \in {"", "override", "base", "null", "nobody"}
Defined == phase = "done" => /\ (exc = "" => \A i \in DOMAIN res : res[i] # "?")
                             /\ (exc = "" <=> who = "override" \/ call.how = "absent")
                             /\ (res[1] = "void") = (T(s0).ret = <<>>)
=============================================================================
