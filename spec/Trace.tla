------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: replays the events recorded from the library, one     *)
(* step of the specification for each.  An event the specification does    *)
(* not allow is reported by the labels of the requirements it violates.    *)
(***************************************************************************)
EXTENDS Py

VARIABLES i, h      \* the next event, and the abstract objects alive
Ev == LoadTrace(Env("KDL_TRACE"))

Bad(heap, e) ==
    IF e.op \in {"reset", "end"} THEN {}
    ELSE IF e.op \in GeomOps \cup DualOps \cup InertiaOps \cup MechOps \cup ArrayOps \cup DynOps \cup IkOps \cup EstOps \cup ProfOps \cup PathOps \cup TextOps \cup DecompOps \cup LifeOps \cup PyOps /\ e.x # "" THEN {"*.raised"}
    ELSE IF e.op \in GeomOps THEN GeomOp(e.op, e.a, e.r)
    ELSE IF e.op \in DualOps THEN DualOp(e.op, e.a, e.r)
    ELSE IF e.op \in InertiaOps THEN InertiaOp(e.op, e.a, e.r)
    ELSE IF e.op \in MechOps THEN MechOp(heap, e.op, e.a, e.r)
    ELSE IF e.op \in ArrayOps THEN ArrayOp(e.op, e.a, e.r)
    ELSE IF e.op \in DynOps THEN DynOp(heap, e.op, e.a, e.r)
    ELSE IF e.op \in IkOps THEN IkOp(heap, e.op, e.a, e.r)
    ELSE IF e.op \in EstOps THEN EstOp(heap, e.op, e.a, e.r)
    ELSE IF e.op \in ProfOps THEN ProfOp(heap, e.op, e.a, e.r)
    ELSE IF e.op \in PathOps THEN PathOp(e.op, e.a, e.r)
    ELSE IF e.op \in TextOps THEN TextOp(e.op, e.a, e.r)
    ELSE IF e.op \in DecompOps THEN DecompOp(e.op, e.a, e.r)
    ELSE IF e.op \in LifeOps THEN LifeOp(heap, e.op, e.a, e.r)
    ELSE IF e.op \in PyOps THEN PyOp(heap, e.op, e.a, e.r)
    ELSE {"no-such-operation"}
Post(heap, e) == IF e.op = "reset" THEN <<>> ELSE IF e.op \in MechOps /\ e.x = "" THEN MechPost(heap, e)
                 ELSE IF e.op \in EstOps /\ e.x = "" THEN EstPost(heap, e)
                 ELSE IF e.op \in ProfOps /\ e.x = "" THEN ProfPost(heap, e)
                 ELSE IF e.op \in LifeOps /\ e.x = "" THEN LifePost(heap, e)
                 ELSE IF e.op \in PyOps /\ e.x = "" THEN PyPost(heap, e) ELSE heap

Init == i = 1 /\ h = <<>>
Next == /\ i <= Len(Ev)
        /\ LET b == Bad(h, Ev[i]) IN IF b = {} THEN TRUE ELSE PrintT(<<"REJECT", i, b>>)
        /\ h' = Post(h, Ev[i])
        /\ i' = i + 1
Consumed == TLCGet("stats").diameter - 1 = Len(Ev)
=============================================================================
