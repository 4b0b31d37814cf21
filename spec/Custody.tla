------------------------------ MODULE Custody ------------------------------
(***************************************************************************)
(* Custodians and wards: which wrapped objects live as calls that declare  *)
(* "custodian keeps ward alive" are made and references are dropped.       *)
(*                                                                         *)
(* An object is one Python wrapper (with the C++ object it owns, unless it *)
(* is a part of another one).  It lives exactly as long as it can be       *)
(* reached from a variable through the objects kept (as wards, or as attributes); and the C++ object of *)
(* a custodian is destroyed before those of its wards.                     *)
(*                                                                         *)
(* Table (JSON): classes: up (bases)        , part (wraps a piece of        *)
(* another object), dict (can keep wards), subs (has Python subclasses);   *)
(* ops: cls (of self, 0: none), new (makes its self), params: cls, null;   *)
(* ret (class of the result, 0: none), rel: c, w (-1 result, 0 self, n     *)
(* parameter), over (has overloads); cap: how many states to go into       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

File == JsonDeserialize(IOEnv.TABLE)
C == File.classes
Ops == File.ops
Ids == 1..File.ids
Slots == 1..File.slots

VARIABLES obj, keep, slot, n
vars == <<obj, keep, slot, n>>
View == <<obj, keep, slot>>

None == [k |-> 0, sub |-> FALSE]
State == [obj |-> obj, keep |-> SetToSortSeq(keep, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])), slot |-> slot]

RECURSIVE Bases(_)
Bases(k) == {k} \cup UNION {Bases(C[k].up[i]) : i \in DOMAIN C[k].up}

RECURSIVE Reach(_, _)
Reach(S, e) == LET T == S \cup {p[2] : p \in {q \in e : q[1] \in S}} IN IF T = S THEN S ELSE Reach(T, e)
Held(s) == {s[i] : i \in Slots} \ {0}
Below(e, i) == Reach({p[2] : p \in {q \in e : q[1] = i}}, e)

Init == obj = [i \in Ids |-> None] /\ keep = {} /\ slot = [i \in Slots |-> 0] /\ n = 0

Live == {i \in Ids : obj[i].k # 0}
Unused == Ids \ Live
Fresh == CHOOSE i \in Unused : \A j \in Unused : i <= j
Free == {i \in Slots : slot[i] = 0}
FirstFree == CHOOSE i \in Free : \A j \in Free : i <= j

\* after o, e, s: what cannot be reached is gone
Settle(o, e, s) ==
  LET live == Reach(Held(s), e)
  IN  /\ obj' = [i \in Ids |-> IF i \in live THEN o[i] ELSE None]
      /\ keep' = {p \in e : p[1] \in live}
      /\ slot' = s

\* what dies keeps itself alive in a circle: the order of destruction is nobody's
Circle(o, e, s) == \E i \in {i \in Ids : o[i].k # 0} \ Reach(Held(s), e) : i \in Below(e, i)

Is(i, k) == i # 0 /\ k \in Bases(obj[i].k)
Takes(p, i) == (i = 0 /\ p.null) \/ Is(i, p.cls)

\* the object that an index of a relation means
Who(x, a, self, new) == IF x = -1 THEN new ELSE IF x = 0 THEN self ELSE IF x > Len(a) \/ a[x] = 0 THEN 0 ELSE slot[a[x]]

Arg(i) == IF i = 0 THEN 0 ELSE slot[i]
\* which calls are possible: the self slot, the parameter slots (0: None, one may be left out at the end if it has a default)
Fits(o, a) == \A i \in DOMAIN a : Takes(o.params[i], Arg(a[i]))

calls ==
  UNION { LET o == Ops[f] IN
     {[op |-> "call", f |-> f, self |-> s, args |-> a, dst |-> d, sub |-> b] :
        s \in (IF o.cls = 0 \/ o.new THEN {0} ELSE {i \in Slots : slot[i] # 0 /\ Is(slot[i], o.cls)}),
        a \in [DOMAIN o.params -> {i \in Slots : slot[i] # 0} \cup {0}],
        d \in (IF ~o.new /\ o.ret = 0 THEN {0} ELSE IF Free = {} THEN {0} ELSE {0, FirstFree}),
        b \in (IF o.new /\ C[o.cls].subs THEN BOOLEAN ELSE {FALSE})} : f \in DOMAIN Ops }

Makes(o) == o.new \/ o.ret # 0
Class(o) == IF o.new THEN o.cls ELSE o.ret

Call(a) ==
  LET o == Ops[a.f]
      id == IF Makes(o) THEN Fresh ELSE 0
      self == IF o.new THEN id ELSE Arg(a.self)
      ok == Fits(o, a.args)
      o2 == IF Makes(o) THEN [obj EXCEPT ![id] = [k |-> Class(o), sub |-> a.sub]] ELSE obj
      pairs == {p \in {<<Who(o.rel[i].c, a.args, self, id), Who(o.rel[i].w, a.args, self, id)>> : i \in DOMAIN o.rel} : p[1] # 0 /\ p[2] # 0}
      able == \A p \in pairs : C[o2[p[1]].k].dict
      s2 == IF Makes(o) /\ a.dst # 0 THEN [slot EXCEPT ![a.dst] = id] ELSE slot
      e2 == keep \cup pairs
  IN  /\ (Makes(o) => Unused # {})
      /\ (~ok => a.dst = 0)
      /\ (~able => a.dst = 0)
      /\ IF ok /\ able
         THEN Settle(o2, e2, s2) /\ n' = [a |-> a @@ [id |-> id], r |-> "ok", late |-> IF Circle(o2, e2, s2) THEN "?" ELSE <<>>]
         ELSE UNCHANGED <<obj, keep, slot>> /\ n' = [a |-> a @@ [id |-> 0], r |-> IF ok THEN "refused" ELSE "TypeError", late |-> "?"]

Drop(i) == /\ slot[i] # 0
           /\ LET s == [slot EXCEPT ![i] = 0]
              IN  Settle(obj, keep, s) /\ n' = [a |-> [op |-> "drop", slot |-> i], r |-> "ok", late |-> IF Circle(obj, keep, s) THEN "?" ELSE <<>>]

\* an attribute of the Python object
Tie(i, j) == /\ slot[i] # 0 /\ slot[j] # 0
             /\ C[obj[slot[i]].k].dict
             /\ keep' = keep \cup {<<slot[i], slot[j]>>}
             /\ n' = [a |-> [op |-> "tie", slot |-> i, to |-> j], r |-> "ok", late |-> <<>>]
             /\ UNCHANGED <<obj, slot>>

Next == (\E a \in calls : Call(a)) \/ (\E i \in Slots : Drop(i)) \/ (\E i, j \in Slots : Tie(i, j))
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
\* a ward lives as long as its custodian
Guarded == \A p \in keep : p[1] \in Live => p[2] \in Live
\* what is held lives, and what lives is held, directly or not
NoLeak == Live = Reach(Held(slot), keep)
\* a custodian that lives on keeps its wards
Kept == [][\A p \in keep : p[1] \in Live /\ obj'[p[1]].k # 0 => p \in keep']_vars

\* the first states, breadth first
Cap == TLCGet("distinct") <= File.cap

Owners == {i \in Ids : obj'[i].k # 0 /\ ~C[obj'[i].k].part}
Emit == PrintT(ToJson([s |-> State, a |-> n'.a, o |-> [r |-> n'.r, alive |-> SetToSortSeq(Owners, <), late |-> n'.late], t |-> State']))
=============================================================================
