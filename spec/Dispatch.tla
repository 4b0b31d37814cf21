------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Virtual methods of wrapped classes and their Python subclasses.         *)
(*                                                                         *)
(* A chain of C++ classes (class k derives from Table.up[k]); each class   *)
(* implements some methods, and an implementation may call other virtual   *)
(* methods of the object, or be pure.  Python classes derive from one of   *)
(* them (levels 1..): each level overrides some methods with a script.     *)
(* Calls enter from C++ (through a base class pointer) or from Python; the *)
(* stack of frames is the state.                                           *)
(*   - C++ finds the override of the most derived Python class, else the   *)
(*     nearest C++ implementation                                          *)
(*   - Python finds the nearest Python override, else C++'s implementation *)
(*   - super() in an override finds the next Python override, else the     *)
(*     nearest C++ implementation, never the override itself again         *)
(*   - what goes wrong in an override called from C++ is printed, and the  *)
(*     C++ implementation answers instead (void methods just return);      *)
(*     what goes wrong in one called from Python goes to the caller        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Table == JsonDeserialize(IOEnv.TABLE)
\* Table.meths[j] = [name, void, vis]; Table.impl[k][j] = "" | "def" | "pure"; Table.calls[k][j] = methods called; Table.progs = programs
Progs == Table.progs
Fuel == Table.fuel
VARIABLES prog, stack, log, val, left
vars == <<prog, stack, log, val, left>>
View == vars
P == Progs[prog]
M(j) == Table.meths[j]
Levels == Len(P.levels)
NoVal == [kind |-> "none", v |-> 0]
\* nearest implementation from class k upwards (0: none)
RECURSIVE Impl(_, _)
Impl(k, j) == IF k = 0 THEN 0 ELSE IF Table.impl[k][j] = "def" THEN k ELSE Impl(Table.up[k], j)
\* highest Python level <= l that overrides j (0: none)
RECURSIVE Over(_, _)
Over(l, j) == IF l = 0 THEN 0 ELSE IF P.levels[l][j].over THEN l ELSE Over(l - 1, j)
Code(k, j) == 10 * k + j
PyCode(l, j) == 100 * l + j
Name(k, j) == Table.classes[k] \o "." \o M(j).name
PyName(l, j) == "P" \o ToString(l) \o "." \o M(j).name
Show(x) == CASE x.kind = "int" -> ToString(x.v) [] x.kind = "none" -> "None" [] x.kind = "bad" -> "bad" [] OTHER -> "!" \o x.kind

Cxx(k, j) == [who |-> "cxx", k |-> k, j |-> j, pc |-> 0]
Py(l, j) == [who |-> "py", k |-> l, j |-> j, pc |-> 0]
Proxy(j) == [who |-> "proxy", k |-> P.cls, j |-> j, pc |-> 0]
Entry == [who |-> "entry", k |-> 0, j |-> 0, pc |-> 0]

\* an implementation that the class generated for Python subclasses cannot call: pure virtual or private ones
Missing(j) == [who |-> "missing", k |-> 0, j |-> j, pc |-> 0]
Parent(j) == LET k == Impl(P.cls, j) IN IF k = 0 \/ (Levels > 0 /\ M(j).vis = "private") THEN Missing(j) ELSE Cxx(k, j)
\* frames that a call pushes (topmost last)
FromCxx(j) == LET l == Over(Levels, j) IN IF l > 0 THEN <<Proxy(j), Py(l, j)>> ELSE <<Parent(j)>>
FromPy(l, j) == LET h == Over(l, j) IN IF h > 0 THEN <<Py(h, j)>> ELSE <<Parent(j)>>

Init == /\ prog \in DOMAIN Progs
        /\ stack = <<Entry>> \o (IF Progs[prog].entry.from = "cxx" THEN FromCxx(Progs[prog].entry.j) ELSE FromPy(Len(Progs[prog].levels), Progs[prog].entry.j))
        /\ log = <<>> /\ val = NoVal /\ left = Fuel

Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Bump == [stack EXCEPT ![Len(stack)].pc = @ + 1]
Result(f) == IF M(f.j).void THEN NoVal ELSE [kind |-> "int", v |-> IF f.who = "cxx" THEN Code(f.k, f.j) ELSE PyCode(f.k, f.j)]
Script(f) == IF f.who = "cxx" THEN [i \in DOMAIN Table.calls[f.k][f.j] |-> [op |-> "self", j |-> Table.calls[f.k][f.j][i]]]
             ELSE P.levels[f.k][f.j].script
\* frame entered: logged, and with no fuel left it does not run its script
Enter == /\ Top.who \in {"cxx", "py"} /\ Top.pc = 0
         /\ log' = Append(log, IF Top.who = "cxx" THEN Name(Top.k, Top.j) ELSE PyName(Top.k, Top.j))
         /\ left' = left - 1
         /\ IF left <= 0 THEN stack' = Below /\ val' = Result(Top) ELSE stack' = Bump /\ val' = [kind |-> "go", v |-> 0]
         /\ UNCHANGED prog
\* the pc-th call of the script has returned (val), or the frame starts it
Run ==
  /\ Top.who \in {"cxx", "py"} /\ Top.pc > 0
  /\ LET f == Top
         sc == Script(f)
         fresh == val.kind = "go"
         log1 == IF fresh THEN log ELSE Append(log, "=" \o Show(val))
         \* an exception that a Python frame gets from its callee goes on to its caller
         raised == ~fresh /\ f.who = "py" /\ val.kind = "RuntimeError"
         i == IF fresh THEN f.pc ELSE f.pc + 1
     IN /\ log' = IF raised THEN log ELSE log1
        /\ IF raised THEN stack' = Below /\ val' = val
           ELSE IF i > Len(sc) THEN stack' = Below /\ val' = Result(f)
           ELSE LET a == sc[i]
                    st == [stack EXCEPT ![Len(stack)].pc = i]
                IN CASE a.op = "self" -> /\ stack' = st \o (IF f.who = "cxx" THEN FromCxx(a.j) ELSE FromPy(Levels, a.j))
                                         /\ val' = [kind |-> "go", v |-> 0]
                     [] a.op = "super" -> stack' = st \o FromPy(f.k - 1, f.j) /\ val' = [kind |-> "go", v |-> 0]
                     [] a.op = "cxx" -> stack' = st \o FromCxx(a.j) /\ val' = [kind |-> "go", v |-> 0]
                     [] a.op = "raise" -> stack' = Below /\ val' = [kind |-> "RuntimeError", v |-> 0]
                     [] a.op = "bad" -> stack' = Below /\ val' = [kind |-> "bad", v |-> 0]
  /\ UNCHANGED <<prog, left>>
\* the override has answered to C++
Answer ==
  /\ Top.who = "proxy"
  /\ LET j == Top.j
         ok == IF M(j).void THEN val.kind = "none" ELSE val.kind = "int"
         err == IF val.kind = "RuntimeError" THEN "RuntimeError" ELSE "TypeError"
     IN /\ log' = IF ok THEN log ELSE Append(log, "printed " \o err)
        /\ IF ok \/ M(j).void THEN stack' = Below /\ val' = IF ok THEN val ELSE NoVal
           ELSE stack' = Append(Below, Parent(j)) /\ val' = [kind |-> "go", v |-> 0]
  /\ UNCHANGED <<prog, left>>
\* nothing to call: void methods do nothing, the others have no value to give (the process is ended)
Nothing == /\ Top.who = "missing"
           /\ IF M(Top.j).void THEN stack' = Below /\ val' = NoVal ELSE stack' = <<Entry>> /\ val' = [kind |-> "fatal", v |-> 0]
           /\ UNCHANGED <<prog, log, left>>
Next == Enter \/ Run \/ Answer \/ Nothing
Spec == Init /\ [][Next]_vars
Done == Len(stack) = 1

Emit == Len(stack') = 1 =>
  PrintT(ToJson([a |-> [op |-> P.entry.from, prog |-> prog], o |-> [log |-> log', ret |-> Show(val')]]))
TypeOK == Len(stack) <= 3 * Fuel + 3 /\ left >= -8 * Fuel
\* super() never finds the override that called it, nor one more derived
SuperUp == \A i \in 1..Len(stack) - 1 :
  LET f == stack[i] g == stack[i + 1] IN
  (f.who = "py" /\ f.pc > 0 /\ f.pc <= Len(Script(f)) /\ Script(f)[f.pc].op = "super") => (g.who \in {"cxx", "missing"} \/ g.k < f.k)
\* C++ code runs the most derived override
Virtual == \A i \in 1..Len(stack) - 1 : stack[i].who = "proxy" => stack[i + 1].who = "py" /\ stack[i + 1].k = Over(Levels, stack[i].j)
\* nothing but integers and nothing of the wrong kind gets into C++
Typed == \A i \in 1..Len(stack) : stack[i].who = "cxx" /\ i = Len(stack) => val.kind \in {"go", "int", "none"}
=============================================================================
