---------------------------- MODULE RefCountTrace ----------------------------
(* Is a history recorded from the real code a behaviour of RefCount? *)
EXTENDS RefCount, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
CONSTANT HasRefs   \* FALSE: the history does not tell reference counts
Seen == IF HasRefs THEN Obs ELSE [Obs EXCEPT !.refs = <<>>]
tvars == <<vars, act, l>>

TraceInit == Init /\ l = 1
Reset == /\ live' = [o \in Obj |-> "none"] /\ impl' = [o \in Obj |-> FALSE] /\ held' = [o \in Obj |-> 0]
         /\ wobj' = [w \in Wrap |-> 0] /\ var' = [v \in Var |-> 0] /\ slot' = [s \in Slot |-> 0]
         /\ act' = [op |-> "reset"] 
\* the disjunct of Next a recorded action belongs to
Do(a) == CASE a.op = "new" -> New(a.v, FALSE) [] a.op = "newsub" -> New(a.v, TRUE) [] a.op = "make" -> Make(a.v)
           [] a.op = "alias" -> Alias(a.v, a.u) [] a.op = "del" -> Del(a.v) [] a.op = "take" -> Take(a.v, a.s)
           [] a.op \in GiveKinds -> Give(a.v, a.s, a.op)
           [] a.op \in BorrowKinds /\ "s" \in DOMAIN a -> Borrow(a.v, a.s, a.op) [] a.op = "copy" -> Copy(a.v, a.s)
           [] a.op = "dup" /\ "u" \in DOMAIN a -> Dup(a.v, a.u, a.kind) [] a.op = "use" -> Use(a.v, a.kind)
           [] a.op = "drop" -> Drop(a.s)
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ IF Trace[l].a.op = "reset" THEN Reset ELSE Do(Trace[l].a) /\ act' = Trace[l].a /\ Seen' = Trace[l].o
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
