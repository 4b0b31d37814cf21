------------------------------- MODULE Scalar -------------------------------
(***************************************************************************)
(* An integer that crosses the border between Python and C++ in some       *)
(* position (parameter by value, reference or pointer, result, attribute,  *)
(* container element, parameter or result of a Python override).           *)
(* Python integers are unbounded, C++ types have `bits` bits: a value in   *)
(* the range of the type crosses unchanged in either direction, any other  *)
(* is refused before C++ sees it - except that unsigned types, but for 8 and 16  *)
(* bits by value, may instead take it modulo 2^bits, as Python's own      *)
(* conversions of unsigned integers do (`wraps`).                          *)
(*                                                                         *)
(* A value is s * 2^e + o  (o small), which is all that a comparison with  *)
(* a range whose ends are powers of two needs; TLC's integers are small.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TABLE)
VARIABLES case, v, other, phase, cxx, py, exc
vars == <<case, v, other, phase, cxx, py, exc>>
View == vars
Exps == {7, 8, 15, 16, 31, 32, 63, 64, 65}
Offs == -2..2
Values == [s : {1, -1}, e : Exps, o : Offs] \cup [s : {0}, e : {0}, o : -2..2]
\* Python objects that are no plain integers; each may be an integer's stand-in
Others == {"", "True", "False", "float", "none", "str", "index", "subclass", "bigindex"}
None == [s |-> 0, e |-> 0, o |-> 0]
T == Cases[case]
\* v < 2^n and v >= -2^n, for n >= 7
Below(x, n) == x.s <= 0 \/ x.e < n \/ (x.e = n /\ x.o < 0)
From(x, n) == x.s >= 0 \/ x.e < n \/ (x.e = n /\ x.o >= 0)
NonNeg(x) == x.s > 0 \/ (x.s = 0 /\ x.o >= 0)
InRange(x, t) == IF t.signed THEN Below(x, t.bits - 1) /\ From(x, t.bits - 1) ELSE NonNeg(x) /\ Below(x, t.bits)
Init == /\ case \in DOMAIN Cases /\ v \in Values /\ other \in Others
        /\ other # "" => v = None /\ Cases[case].flow \notin {"out", "cxxboth"}
        /\ (other = "" /\ Cases[case].flow \in {"out", "cxxboth"}) => InRange(v, Cases[case])
        /\ phase = "given" /\ cxx = <<>> /\ py = <<>> /\ exc = ""
Plain == other \in {"", "True", "False", "subclass"}
Value == CASE other = "True" -> [s |-> 0, e |-> 0, o |-> 1] [] other = "False" -> None
           [] other \in {"subclass", "index"} -> [s |-> 0, e |-> 0, o |-> 2] [] OTHER -> v
\* from Python to C++
ToCxx == /\ phase = "given" /\ T.flow \notin {"out", "cxxboth"}
         /\ IF Plain THEN IF InRange(Value, T) THEN cxx' = <<Value>> /\ exc' = ""
                          ELSE cxx' = <<>> /\ exc' = IF T.wraps THEN "refused or modulo" ELSE "refused"
            ELSE cxx' = <<>> /\ exc' = CASE other = "index" -> "refused or converted"
                                          [] other = "bigindex" /\ T.wraps -> "refused or modulo" [] OTHER -> "refused"
         /\ phase' = IF T.flow = "both" /\ cxx' # <<>> THEN "back" ELSE "done"
         /\ UNCHANGED <<case, v, other, py>>
\* from C++ to Python
ToPy == /\ phase = "back" \/ (phase = "given" /\ T.flow \in {"out", "cxxboth"})
        /\ py' = IF phase = "back" THEN cxx ELSE <<v>>
        /\ phase' = "done"
        \* a reference that an override gets and gives back
        /\ cxx' = IF T.flow = "cxxboth" THEN py' ELSE cxx
        /\ UNCHANGED <<case, v, other, exc>>
Next == ToCxx \/ ToPy
Spec == Init /\ [][Next]_vars
Emit == phase' = "done" =>
   PrintT(ToJson([a |-> [op |-> T.pos, case |-> case, v |-> v, other |-> other], o |-> [cxx |-> cxx', py |-> py', exc |-> exc']]))
TypeOK == phase \in {"given", "back", "done"}
Exact == (cxx # <<>> => exc = "" /\ InRange(cxx[1], T)) /\ (py # <<>> => InRange(py[1], T) /\ (T.flow \in {"both", "cxxboth"} => py = cxx))
Strict == phase = "done" /\ other = "" /\ T.flow \notin {"out", "cxxboth"} /\ ~InRange(v, T) => cxx = <<>> /\ exc # ""
=============================================================================
