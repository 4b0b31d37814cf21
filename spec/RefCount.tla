------------------------------ MODULE RefCount ------------------------------
(***************************************************************************)
(* Life of reference counted C++ objects (reference counting methods or    *)
(* functions, std::shared_ptr) behind the wrappers pybindgen generates.    *)
(* Every wrapper that points to an object and every C++ variable holds one *)
(* reference; the object lives exactly as long as there is one.            *)
(*                                                                         *)
(* live, impl, held, wobj, var, slot: as in Ownership                      *)
(* Registry    : a wrapper registry (StdMapWrapperRegistry) is in use      *)
(* Sub         : the class allows Python subclasses                        *)
(* Collectable : the class tells its reference count, so that a Python     *)
(*               subclass instance nothing refers to can be recognised     *)
(* GiveKinds, BorrowKinds : the functions the class has for passing and    *)
(*               returning references                                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS N, V, S, Registry, Sub, Collectable, GiveKinds, BorrowKinds

Obj  == 1..N
Var  == 1..V
Slot == 1..S
Wrap == 1..(V + N)

VARIABLES live, impl, held, wobj, var, slot, act
vars == <<live, impl, held, wobj, var, slot>>
View == vars

Alive(w) == \/ \E v \in Var : var[v] = w
            \/ \E o \in Obj : held[o] = w
FreeWraps == {w \in Wrap : ~Alive(w)}
NextWrap == CHOOSE w \in FreeWraps : \A x \in FreeWraps : w <= x
Unborn == {o \in Obj : live[o] = "none"}
NextObj == CHOOSE o \in Unborn : \A x \in Unborn : o <= x

Known(o) == IF held[o] # 0 THEN held[o]
            ELSE IF Registry /\ \E w \in Wrap : Alive(w) /\ wobj[w] = o
                 THEN CHOOSE w \in Wrap : Alive(w) /\ wobj[w] = o
                 ELSE 0

Init == /\ live = [o \in Obj |-> "none"]
        /\ impl = [o \in Obj |-> FALSE]
        /\ held = [o \in Obj |-> 0]
        /\ wobj = [w \in Wrap |-> 0]
        /\ var  = [v \in Var |-> 0]
        /\ slot = [s \in Slot |-> 0]
        /\ act = [op |-> "reset"]

Refs(o, hd, wo, vr, sl) ==
  Cardinality({w \in Wrap : wo[w] = o /\ (\E v \in Var : vr[v] = w \/ hd[o] = w)})
  + Cardinality({s \in Slot : sl[s] = o})

(***************************************************************************)
(* What follows from the references that are left: an object without any   *)
(* dies.  A Python subclass instance and its wrapper refer to each other;  *)
(* when nothing else refers to either the garbage collector ends both.     *)
(***************************************************************************)
Settle(lv, im, hd, wo, vr, sl) ==
  LET Direct(w) == \E v \in Var : vr[v] = w
      Slotted(o) == \E s \in Slot : sl[s] = o
      \* Python-implemented objects that go away as a whole
      gone == {o \in Obj : lv[o] = "live" /\ hd[o] # 0 /\ ~Direct(hd[o]) /\ ~Slotted(o) /\ Collectable}
      hd2 == [o \in Obj |-> IF o \in gone THEN 0 ELSE hd[o]]
      keep == {w \in Wrap : Direct(w) \/ \E o \in Obj : hd2[o] = w}
      wo2 == [w \in Wrap |-> IF w \in keep THEN wo[w] ELSE 0]
      lv2 == [o \in Obj |-> IF lv[o] = "live" /\ Refs(o, hd2, wo2, vr, sl) = 0 THEN "dead" ELSE lv[o]]
  IN /\ live' = lv2 /\ impl' = im /\ held' = hd2 /\ wobj' = wo2 /\ var' = vr /\ slot' = sl

Bind(v, w) == [var EXCEPT ![v] = w]
Fresh(v, sub) ==
  LET o == NextObj  w == NextWrap IN
  Settle([live EXCEPT ![o] = "live"], [impl EXCEPT ![o] = sub], [held EXCEPT ![o] = IF sub THEN w ELSE 0],
         [wobj EXCEPT ![w] = o], Bind(v, w), slot)

New(v, sub) == /\ var[v] = 0 /\ Unborn # {} /\ (sub => Sub)
               /\ Fresh(v, sub)
               /\ act' = [op |-> IF sub THEN "newsub" ELSE "new", v |-> v]
Make(v) == /\ var[v] = 0 /\ Unborn # {} /\ Fresh(v, FALSE)
           /\ act' = [op |-> "make", v |-> v]
Alias(v, u) == /\ var[v] = 0 /\ var[u] # 0
               /\ Settle(live, impl, held, wobj, Bind(v, var[u]), slot)
               /\ act' = [op |-> "alias", v |-> v, u |-> u]
Del(v) == /\ var[v] # 0
          /\ Settle(live, impl, held, wobj, Bind(v, 0), slot)
          /\ act' = [op |-> "del", v |-> v]
\* passing a reference: C++ takes one of its own, the wrapper keeps its own
Give(v, s, kind) == /\ var[v] # 0 /\ slot[s] = 0
                    /\ Settle(live, impl, held, wobj, var, [slot EXCEPT ![s] = wobj[var[v]]])
                    /\ act' = [op |-> kind, v |-> v, s |-> s]
Got(v, o, sl) ==
  LET k == Known(o)  w == IF k # 0 THEN k ELSE NextWrap
  IN Settle(live, impl, held, [wobj EXCEPT ![w] = o], Bind(v, w), sl)
\* C++ hands its reference over
Take(v, s) == /\ var[v] = 0 /\ slot[s] # 0
              /\ Got(v, slot[s], [slot EXCEPT ![s] = 0])
              /\ act' = [op |-> "take", v |-> v, s |-> s]
\* C++ keeps its reference; the wrapper gets another one
Borrow(v, s, kind) == /\ var[v] = 0 /\ slot[s] # 0
                      /\ Got(v, slot[s], slot)
                      /\ act' = [op |-> kind, v |-> v, s |-> s]
\* a copy of the object
Copy(v, s) == /\ var[v] = 0 /\ slot[s] # 0 /\ Unborn # {} /\ Fresh(v, FALSE)
              /\ act' = [op |-> "copy", v |-> v, s |-> s, kind |-> "value"]
Dup(v, u, kind) == /\ var[v] = 0 /\ var[u] # 0 /\ Unborn # {} /\ Fresh(v, FALSE)
                   /\ act' = [op |-> "dup", v |-> v, u |-> u, kind |-> kind]
Use(v, kind) == /\ var[v] # 0
                /\ Settle(live, impl, held, wobj, var, slot)
                /\ act' = [op |-> "use", v |-> v, kind |-> kind]
Drop(s) == /\ slot[s] # 0
           /\ Settle(live, impl, held, wobj, var, [slot EXCEPT ![s] = 0])
           /\ act' = [op |-> "drop", s |-> s, own |-> TRUE]

UseKinds == {"byval", "byref", "bycref", "method", "wrongtype"}
Next ==
  \/ \E v \in Var : New(v, FALSE) \/ New(v, TRUE) \/ Make(v) \/ Del(v)
  \/ \E v, u \in Var : Alias(v, u)
  \/ \E v \in Var, s \in Slot : Take(v, s) \/ Copy(v, s)
  \/ \E v \in Var, s \in Slot, k \in GiveKinds : Give(v, s, k)
  \/ \E v \in Var, s \in Slot, k \in BorrowKinds : Borrow(v, s, k)
  \/ \E v, u \in Var, k \in {"copy", "cons"} : Dup(v, u, k)
  \/ \E v \in Var, k \in UseKinds : Use(v, k)
  \/ \E s \in Slot : Drop(s)
Spec == Init /\ [][Next]_<<vars, act>>

\* ------------------------------------------------------------ properties
TypeOK == /\ live \in [Obj -> {"none", "live", "dead"}]
          /\ var \in [Var -> 0..(V + N)] /\ slot \in [Slot -> 0..N]
RefsNow(o) == Refs(o, held, wobj, var, slot)
\* an object lives exactly as long as something refers to it
Balanced == \A o \in Obj : (live[o] = "live") <=> RefsNow(o) > 0
\* no wrapper and no C++ variable refers to a dead object
Safe == /\ \A v \in Var : var[v] # 0 => live[wobj[var[v]]] = "live"
        /\ \A s \in Slot : slot[s] # 0 => live[slot[s]] = "live"
Final == [][\A o \in Obj : (live[o] = "dead" => live'[o] = "dead") /\ (live[o] = "live" => live'[o] # "none")]_vars
Identity == Registry => \A o \in Obj : live[o] = "live" => Cardinality({w \in Wrap : Alive(w) /\ wobj[w] = o}) <= 1
Whole == \A o \in Obj : impl[o] /\ live[o] = "live" =>
            /\ held[o] # 0
            /\ \A w \in Wrap : Alive(w) /\ wobj[w] = o => w = held[o]
Cause == [][\A o \in Obj : live[o] = "live" /\ live'[o] = "dead" => act'.op \in {"del", "drop"}]_vars
\* what is out of reach of the program has gone
NoGarbage == Collectable => \A o \in Obj : live[o] = "live" =>
                (\E v \in Var : var[v] # 0 /\ wobj[var[v]] = o) \/ (\E s \in Slot : slot[s] = o)

\* ------------------------------------------------------------ observation
AliasOf(v) == IF var[v] = 0 THEN 0 ELSE CHOOSE u \in Var : var[u] = var[v] /\ \A x \in Var : var[x] = var[v] => u <= x
Obs == [var |-> [v \in Var |-> IF var[v] = 0 THEN -2 ELSE wobj[var[v]]],
        alias |-> [v \in Var |-> AliasOf(v)],
        live |-> [o \in Obj |-> live[o]], slot |-> [s \in Slot |-> slot[s]],
        virt |-> [s \in Slot |-> IF slot[s] = 0 THEN -1 ELSE IF impl[slot[s]] THEN 1 ELSE 0],
        state |-> [v \in Var |-> IF var[v] # 0 /\ impl[wobj[var[v]]] THEN wobj[var[v]] ELSE 0],
        refs |-> [o \in Obj |-> IF live[o] = "live" THEN RefsNow(o) ELSE 0],
        extra |-> 0, bad |-> 0]

St == [live |-> live, impl |-> impl, held |-> held, wobj |-> wobj, var |-> var, slot |-> slot]
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs']))
=============================================================================
