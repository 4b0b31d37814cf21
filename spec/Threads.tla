------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Which thread runs what, and who holds the interpreter lock.             *)
(*                                                                         *)
(* A thread is a stack of activations: Python code and C++ code that call  *)
(* each other through the generated wrappers.  Python code that waits      *)
(* holds no lock, and needs it to go on.  C++ code entered from Python     *)
(* holds the lock exactly if the wrapper is not declared to let other      *)
(* threads run (unblock_threads); the C++ default of a virtual method runs *)
(* as its C++ caller does; on every way out the caller finds the lock as   *)
(* it left it.                                                             *)
(*                                                                         *)
(* Table (JSON): threads ("py" | "native"); fns, what Python can enter:    *)
(* name, unblock, throws, shown (what Python gets), refuse (a call on an   *)
(* object that may not is refused); virts, what C++ can call on an object  *)
(* of a Python class: name, ret ("void" | "int"), over (has an override),  *)
(* throws, pure, shown (default's value), said (override's value);         *)
(* depth; stock: how many objects of Python classes C++ may own; cap       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

File == JsonDeserialize(IOEnv.TABLE)
F == File.fns
V == File.virts
Threads == DOMAIN File.threads

VARIABLES stack, stock, n
vars == <<stack, stock, n>>
View == <<stack, stock>>
State == [stack |-> stack, stock |-> stock]

Base(t) == IF File.threads[t] = "py" THEN [k |-> "py", n |-> "base", lock |-> FALSE, f |-> 0, v |-> 0]
                                     ELSE [k |-> "cpp", n |-> "base", lock |-> FALSE, f |-> 0, v |-> 0]
Body(f) == [k |-> "cpp", n |-> F[f].name, lock |-> ~F[f].unblock, f |-> f, v |-> 0]
Default(v, l) == [k |-> "cpp", n |-> V[v].name, lock |-> l, f |-> 0, v |-> v]
Override(v) == [k |-> "py", n |-> V[v].name, lock |-> FALSE, f |-> 0, v |-> v]

Top(t) == stack[t][Len(stack[t])]
Below(t) == stack[t][Len(stack[t]) - 1]
Inner(t) == Len(stack[t]) > 1
Pop(t) == SubSeq(stack[t], 1, Len(stack[t]) - 1)
Room(t) == Len(stack[t]) < File.depth

Holds(t) == Top(t).k = "cpp" /\ Top(t).lock
\* t can have the interpreter lock now
Can(t) == \A u \in Threads \ {t} : ~Holds(u)

Init == stack = [t \in Threads |-> <<Base(t)>>] /\ stock = 0 /\ n = 0

\* what thread t does, its stack after it, what it is told
Do(t, op, x, s, note, printed) ==
  /\ stack' = [stack EXCEPT ![t] = s]
  /\ LET top == s[Len(s)]
     IN  n' = [a |-> [t |-> t, op |-> op, x |-> x],
               o |-> [top |-> top.k, name |-> top.n, depth |-> Len(s), lock |-> IF top.k = "py" THEN TRUE ELSE top.lock,
                      note |-> note, printed |-> printed]]

IsPy(t) == Top(t).k = "py" /\ Can(t)
Enter(t, f) == IsPy(t) /\ Room(t) /\ Do(t, "enter", f, Append(stack[t], Body(f)), "", "") /\ UNCHANGED stock
Refuse(t, f) == IsPy(t) /\ F[f].refuse /\ Do(t, "refuse", f, stack[t], "TypeError", "") /\ UNCHANGED stock
Give(t) == IsPy(t) /\ stock < File.stock /\ Do(t, "give", 0, stack[t], "given", "") /\ stock' = stock + 1

\* the override ends; C++ is told its answer, or nothing
PyRet(t) == /\ IsPy(t) /\ Inner(t)
            /\ LET v == V[Top(t).v] IN Do(t, "ret", 0, Pop(t), v.said, "")
            /\ UNCHANGED stock
\* the override fails: the error is printed, and the default takes over if C++ has to be told something
PyRaise(t) == /\ IsPy(t) /\ Inner(t)
              /\ LET v == Top(t).v
                 IN  IF V[v].ret = "void" THEN Do(t, "raise", 0, Pop(t), "void", "KeyError")
                     ELSE ~V[v].pure /\ Do(t, "raise", 0, Append(Pop(t), Default(v, Below(t).lock)), "", "KeyError")
              /\ UNCHANGED stock

IsCpp(t) == Top(t).k = "cpp"
CallV(t, v) == /\ IsCpp(t) /\ Can(t) /\ Room(t)
               /\ IF V[v].over THEN Do(t, "virt", v, Append(stack[t], Override(v)), "", "")
                  ELSE IF V[v].pure THEN V[v].ret = "void" /\ Do(t, "virt", v, stack[t], "void", "")
                  ELSE Do(t, "virt", v, Append(stack[t], Default(v, Top(t).lock)), "", "")
               /\ UNCHANGED stock
Back(t) == Inner(t) /\ (Below(t).k = "py" => Can(t))
Ret(t) == /\ IsCpp(t) /\ Back(t)
          /\ Do(t, "ret", 0, Pop(t), IF Top(t).f # 0 THEN F[Top(t).f].shown ELSE V[Top(t).v].shown, "")
          /\ UNCHANGED stock
Throw(t) == /\ IsCpp(t) /\ Back(t)
            /\ (IF Top(t).f # 0 THEN F[Top(t).f].throws ELSE V[Top(t).v].throws)
            /\ Do(t, "throw", 0, Pop(t), "Err", "")
            /\ UNCHANGED stock
\* C++ destroys an object of a Python class that it owns: its Python part goes with it
Destroy(t) == /\ IsCpp(t) /\ Can(t) /\ stock > 0
              /\ stock' = stock - 1
              /\ Do(t, "destroy", 0, stack[t], "gone", "")

Next == \E t \in Threads :
          \/ \E f \in DOMAIN F : Enter(t, f) \/ Refuse(t, f)
          \/ \E v \in DOMAIN V : CallV(t, v)
          \/ Give(t) \/ PyRet(t) \/ PyRaise(t) \/ Ret(t) \/ Throw(t) \/ Destroy(t)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
OneHolder == \A t, u \in Threads : Holds(t) /\ Holds(u) => t = u
\* somebody can always go on
Alive == \E t \in Threads : Can(t)
\* C++ entered from Python keeps the lock or not as declared; a default runs as its caller
AsDeclared == \A t \in Threads : \A i \in 2..Len(stack[t]) :
   LET x == stack[t][i] b == stack[t][i-1] IN
     /\ (x.k = "cpp" /\ x.f # 0 => b.k = "py" /\ x.lock = ~F[x.f].unblock)
     /\ (x.k = "cpp" /\ x.v # 0 => b.k = "cpp" /\ x.lock = b.lock)
     /\ (x.k = "py" => b.k = "cpp")
\* whoever waits, waits with the lock as it left it
Restored == [][\A t \in Threads : \A i \in DOMAIN stack[t] : i < Len(stack'[t]) => stack'[t][i] = stack[t][i]]_vars

Cap == TLCGet("distinct") <= File.cap
Emit == PrintT(ToJson([s |-> State, a |-> n'.a, o |-> n'.o, t |-> State']))
=============================================================================
