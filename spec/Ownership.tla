----------------------------- MODULE Ownership -----------------------------
(***************************************************************************)
(* Life of C++ objects with a single owner (no memory policy, or a free    *)
(* function) behind the wrappers pybindgen generates.                      *)
(*                                                                         *)
(* live[o]   : "none" (not created yet), "live", "dead"                    *)
(* impl[o]   : o was constructed by instantiating a Python subclass, i.e.  *)
(*             it is an instance of the generated helper class, which      *)
(*             keeps its wrapper alive                                     *)
(* held[o]   : the wrapper such an object keeps alive (0: none)            *)
(* wobj[w]   : object the wrapper w points to, 0 when it gave it away      *)
(* wown[w]   : the wrapper owns that object                                *)
(* var[v]    : wrapper a Python variable refers to (0: unbound)            *)
(* slot[s]   : object a C++ variable points to (0: null)                   *)
(* sown[s]   : that C++ variable owns its object                           *)
(*                                                                         *)
(* Registry  : a wrapper registry (StdMapWrapperRegistry) is in use        *)
(* Sub       : the class allows Python subclasses                          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS N, V, S, Registry, Sub

Obj  == 1..N
Var  == 1..V
Slot == 1..S
Wrap == 1..(V + N)

VARIABLES live, impl, held, wobj, wown, var, slot, sown, act
vars == <<live, impl, held, wobj, wown, var, slot, sown>>
View == vars

BorrowKinds == {"ptr", "ref", "cptr", "cref", "unmanaged"}
CopyKinds   == {"peek", "rcopy", "value", "cpeek", "crcopy"}

\* ------------------------------------------------------------ derived state
Alive(w) == \/ \E v \in Var : var[v] = w
            \/ \E o \in Obj : held[o] = w
FreeWraps == {w \in Wrap : ~Alive(w)}
NextWrap == CHOOSE w \in FreeWraps : \A x \in FreeWraps : w <= x
Unborn == {o \in Obj : live[o] = "none"}
NextObj == CHOOSE o \in Unborn : \A x \in Unborn : o <= x

\* the wrapper a function returning o without copying it must give, 0 when a new one is made
Known(o) == IF held[o] # 0 THEN held[o]
            ELSE IF Registry /\ \E w \in Wrap : Alive(w) /\ wobj[w] = o
                 THEN CHOOSE w \in Wrap : Alive(w) /\ wobj[w] = o
                 ELSE 0

Init == /\ live = [o \in Obj |-> "none"]
        /\ impl = [o \in Obj |-> FALSE]
        /\ held = [o \in Obj |-> 0]
        /\ wobj = [w \in Wrap |-> 0]
        /\ wown = [w \in Wrap |-> FALSE]
        /\ var  = [v \in Var |-> 0]
        /\ slot = [s \in Slot |-> 0]
        /\ sown = [s \in Slot |-> FALSE]
        /\ act = [op |-> "reset"]

(***************************************************************************)
(* Settle: what follows from the references that are left.  `lv', `hd' and *)
(* so on are the values the action proper has assigned.  A wrapper nobody  *)
(* refers to is deallocated, destroying the object it owns; a wrapper and  *)
(* the Python-implemented object it owns keep each other alive until the   *)
(* garbage collector, which runs after each action, finds that nothing     *)
(* else does.  Slots of dead wrappers are normalised.                      *)
(***************************************************************************)
Settle(lv, im, hd, wo, ow, vr) ==
  LET Direct(w) == \E v \in Var : vr[v] = w
      \* a Python-implemented object owned by C++ (not by its own wrapper) holds the wrapper for C++'s sake
      ByCpp(w) == \E o \in Obj : hd[o] = w /\ lv[o] = "live" /\ ~(ow[w] /\ wo[w] = o)
      keep == {w \in Wrap : Direct(w) \/ ByCpp(w)}
      die  == {o \in Obj : lv[o] = "live" /\ \E w \in Wrap \ keep : ow[w] /\ wo[w] = o}
      lv2  == [o \in Obj |-> IF o \in die THEN "dead" ELSE lv[o]]
  IN /\ live' = lv2
     /\ impl' = im
     /\ held' = [o \in Obj |-> IF lv2[o] = "live" THEN hd[o] ELSE 0]
     /\ wobj' = [w \in Wrap |-> IF w \in keep THEN wo[w] ELSE 0]
     /\ wown' = [w \in Wrap |-> IF w \in keep THEN ow[w] ELSE FALSE]
     /\ var'  = vr

\* a lent pointer is only valid while its object lives: C++ forgets it when the object goes
LentOk == \A s \in Slot : ~sown'[s] /\ slot'[s] # 0 => live'[slot'[s]] = "live"

Bind(v, w) == [var EXCEPT ![v] = w]

New(v, sub) ==
  /\ var[v] = 0 /\ Unborn # {}
  /\ sub => Sub
  /\ LET o == NextObj  w == NextWrap IN
     Settle([live EXCEPT ![o] = "live"], [impl EXCEPT ![o] = sub], [held EXCEPT ![o] = IF sub THEN w ELSE 0],
            [wobj EXCEPT ![w] = o], [wown EXCEPT ![w] = TRUE], Bind(v, w))
  /\ UNCHANGED <<slot, sown>>
  /\ act' = [op |-> IF sub THEN "newsub" ELSE "new", v |-> v]

Make(v) ==
  /\ var[v] = 0 /\ Unborn # {}
  /\ LET o == NextObj  w == NextWrap IN
     Settle([live EXCEPT ![o] = "live"], impl, held, [wobj EXCEPT ![w] = o], [wown EXCEPT ![w] = TRUE], Bind(v, w))
  /\ UNCHANGED <<slot, sown>>
  /\ act' = [op |-> "make", v |-> v]

Alias(v, u) ==
  /\ var[v] = 0 /\ var[u] # 0
  /\ Settle(live, impl, held, wobj, wown, Bind(v, var[u]))
  /\ UNCHANGED <<slot, sown>>
  /\ act' = [op |-> "alias", v |-> v, u |-> u]

Del(v) ==
  /\ var[v] # 0
  /\ Settle(live, impl, held, wobj, wown, Bind(v, 0))
  /\ UNCHANGED <<slot, sown>>
  /\ LentOk
  /\ act' = [op |-> "del", v |-> v]

Usable(v) == var[v] # 0 /\ wobj[var[v]] # 0 /\ live[wobj[var[v]]] = "live"
Owner(v)  == Usable(v) /\ wown[var[v]]

\* transfer_ownership=True: C++ becomes the owner and the wrapper lets go of the object
Give(v, s) ==
  /\ Owner(v) /\ slot[s] = 0
  /\ \A t \in Slot : slot[t] # wobj[var[v]]
  /\ LET w == var[v] IN
     /\ slot' = [slot EXCEPT ![s] = wobj[w]]
     /\ sown' = [sown EXCEPT ![s] = TRUE]
     /\ Settle(live, impl, held, [wobj EXCEPT ![w] = 0], [wown EXCEPT ![w] = FALSE], var)
  /\ act' = [op |-> "give", v |-> v, s |-> s]

\* transfer_ownership=False: C++ remembers the pointer but does not own the object
Lend(v, s) ==
  /\ Usable(v) /\ slot[s] = 0
  /\ slot' = [slot EXCEPT ![s] = wobj[var[v]]]
  /\ sown' = [sown EXCEPT ![s] = FALSE]
  /\ Settle(live, impl, held, wobj, wown, var)
  /\ act' = [op |-> "lend", v |-> v, s |-> s]

\* caller_owns_return=True
Take(v, s) ==
  /\ var[v] = 0 /\ slot[s] # 0 /\ sown[s]
  /\ \A t \in Slot \ {s} : slot[t] # slot[s]
  /\ LET o == slot[s]
         k == Known(o)
         w == IF k # 0 THEN k ELSE NextWrap
     IN Settle(live, impl, held, [wobj EXCEPT ![w] = o], [wown EXCEPT ![w] = TRUE], Bind(v, w))
  /\ slot' = [slot EXCEPT ![s] = 0]
  /\ sown' = [sown EXCEPT ![s] = FALSE]
  /\ act' = [op |-> "take", v |-> v, s |-> s]

\* reference_existing_object=True, or a value the caller does not manage: C++ keeps the ownership
BorrowTo(v, o) ==
  LET k == Known(o)
      w == IF k # 0 THEN k ELSE NextWrap
  IN Settle(live, impl, held, [wobj EXCEPT ![w] = o],
            [wown EXCEPT ![w] = IF k # 0 /\ wobj[k] = o THEN wown[k] ELSE FALSE], Bind(v, w))

Borrow(v, s, kind) ==
  /\ var[v] = 0 /\ slot[s] # 0
  /\ BorrowTo(v, slot[s])
  /\ UNCHANGED <<slot, sown>>
  /\ act' = [op |-> "borrow", v |-> v, s |-> s, kind |-> kind]

\* functions that return a copy, which Python owns
CopyOf(v) ==
  LET o == NextObj  w == NextWrap IN
  Settle([live EXCEPT ![o] = "live"], impl, held, [wobj EXCEPT ![w] = o], [wown EXCEPT ![w] = TRUE], Bind(v, w))

Copy(v, s, kind) ==
  /\ var[v] = 0 /\ slot[s] # 0
  /\ IF kind \in {"peek", "cpeek"} /\ Known(slot[s]) # 0
     THEN BorrowTo(v, slot[s])         \* the wrapper the object already has is returned, not a copy
     ELSE Unborn # {} /\ CopyOf(v)
  /\ UNCHANGED <<slot, sown>>
  /\ act' = [op |-> "copy", v |-> v, s |-> s, kind |-> kind]

\* copying by __copy__ ("copy") and by the copy constructor ("cons")
Dup(v, u, kind) ==
  /\ var[v] = 0 /\ Usable(u) /\ Unborn # {}
  /\ CopyOf(v)
  /\ UNCHANGED <<slot, sown>>
  /\ act' = [op |-> "dup", v |-> v, u |-> u, kind |-> kind]

\* calls that use an object without keeping it
Use(v, kind) ==
  /\ Usable(v)
  /\ Settle(live, impl, held, wobj, wown, var)
  /\ UNCHANGED <<slot, sown>>
  /\ act' = [op |-> "use", v |-> v, kind |-> kind]

\* C++ destroys the object it owns
Drop(s) ==
  /\ slot[s] # 0
  /\ slot' = [slot EXCEPT ![s] = 0]
  /\ sown' = [sown EXCEPT ![s] = FALSE]
  /\ IF sown[s]
     THEN /\ \A t \in Slot \ {s} : slot[t] # slot[s]
          /\ Settle([live EXCEPT ![slot[s]] = "dead"], impl, [held EXCEPT ![slot[s]] = 0], wobj, wown, var)
     ELSE Settle(live, impl, held, wobj, wown, var)
  /\ act' = [op |-> "drop", s |-> s, own |-> sown[s]]

UseKinds == {"byval", "byref", "bycref", "method", "wrongtype"}

Next ==
  \/ \E v \in Var : New(v, FALSE) \/ New(v, TRUE) \/ Make(v) \/ Del(v)
  \/ \E v, u \in Var : Alias(v, u)
  \/ \E v \in Var, s \in Slot : Give(v, s) \/ Lend(v, s) \/ Take(v, s)
  \/ \E v \in Var, s \in Slot, k \in BorrowKinds : Borrow(v, s, k)
  \/ \E v \in Var, s \in Slot, k \in CopyKinds : Copy(v, s, k)
  \/ \E v, u \in Var, k \in {"copy", "cons"} : Dup(v, u, k)
  \/ \E v \in Var, k \in UseKinds : Use(v, k)
  \/ \E s \in Slot : Drop(s)

Spec == Init /\ [][Next]_<<vars, act>>

\* ------------------------------------------------------------ properties
TypeOK == /\ live \in [Obj -> {"none", "live", "dead"}]
          /\ var \in [Var -> 0..(V + N)] /\ slot \in [Slot -> 0..N]

Owners(o) == {<<"w", w>> : w \in {x \in Wrap : Alive(x) /\ wown[x] /\ wobj[x] = o}}
             \cup {<<"s", s>> : s \in {x \in Slot : sown[x] /\ slot[x] = o}}

\* a live object has exactly one owner, a dead one none: nothing leaks, nothing is destroyed twice
OneOwner == \A o \in Obj : (live[o] = "live" => Cardinality(Owners(o)) = 1) /\ (live[o] # "live" => Owners(o) = {})
\* destruction is final
Final == [][\A o \in Obj : (live[o] = "dead" => live'[o] = "dead") /\ (live[o] = "live" => live'[o] # "none")]_vars
\* with a registry at most one wrapper per live object
Identity == Registry => \A o \in Obj : live[o] = "live" => Cardinality({w \in Wrap : Alive(w) /\ wobj[w] = o}) <= 1
\* a Python-implemented object never loses its Python half, and has one wrapper whatever the registry
Whole == \A o \in Obj : impl[o] /\ live[o] = "live" =>
            /\ held[o] # 0
            /\ \A w \in Wrap : Alive(w) /\ wobj[w] = o => w = held[o]
\* only the last reference to its owner (or its C++ owner) destroys an object
Cause == [][\A o \in Obj : live[o] = "live" /\ live'[o] = "dead" =>
              act'.op \in {"del", "drop"}]_vars

\* ------------------------------------------------------------ observation
AliasOf(v) == IF var[v] = 0 THEN 0 ELSE CHOOSE u \in Var : var[u] = var[v] /\ \A x \in Var : var[x] = var[v] => u <= x
Shows(v) == IF var[v] = 0 THEN -2 ELSE IF wobj[var[v]] = 0 THEN 0
            ELSE IF live[wobj[var[v]]] = "live" THEN wobj[var[v]] ELSE -1
\* Python state (an instance attribute) of the wrapper a variable refers to: kept with the Python-implemented object
State(v) == IF var[v] = 0 THEN 0 ELSE IF \E o \in Obj : held[o] = var[v] THEN CHOOSE o \in Obj : held[o] = var[v] ELSE 0
\* result of a C++ virtual call through a slot: 1 the override in Python, 0 the C++ method, -1 no object
Virt(s) == IF slot[s] = 0 THEN -1 ELSE IF impl[slot[s]] THEN 1 ELSE 0
Obs == [var |-> [v \in Var |-> Shows(v)], alias |-> [v \in Var |-> AliasOf(v)],
        live |-> [o \in Obj |-> live[o]], slot |-> [s \in Slot |-> slot[s]],
        virt |-> [s \in Slot |-> Virt(s)], state |-> [v \in Var |-> State(v)],
        extra |-> 0, bad |-> 0]

St == [live |-> live, impl |-> impl, held |-> held, wobj |-> wobj, wown |-> wown, var |-> var, slot |-> slot, sown |-> sown]
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs']))
=============================================================================
