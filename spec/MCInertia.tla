----------------------------- MODULE MCInertia -----------------------------
(***************************************************************************)
(* A body seen from frames which move by quarter turns and unit steps.     *)
(* Energy, and the physical quantities read off the map, never change.     *)
(***************************************************************************)
EXTENDS Inertia

CONSTANT Depth
VARIABLES body, f, k
vars == <<body, f, k>>
Out == Env("KDL_EMIT")
O(name, args) == [op |-> name, a |-> args]
Emit(unit) == EmitLines(Out, <<[unit |-> unit]>>)

Bodies == <<[m |-> R2, c |-> <<R1, R0, R0>>, I |-> <<R1, R2, R(3), R0, R0, R0>>],
            [m |-> R1, c |-> <<R0, R(-1), R2>>, I |-> <<R(3), R(3), R(3), R1, R(-1), Half>>],
            [m |-> R0, c |-> <<R1, R1, R1>>, I |-> <<R1, R1, R1, R0, R0, R0>>],
            [m |-> R(3), c |-> Zero3, I |-> <<R0, R0, R0, R0, R0, R0>>]>>
ABody == [M |-> <<<<R2, R1, R0>>, <<R1, R(3), R0>>, <<R0, R0, R1>>>>, H |-> <<<<R1, R(-1), R0>>, <<R2, R0, R1>>, <<R0, R1, R(-2)>>>>,
          I |-> <<<<R(3), R0, R1>>, <<R0, R2, R(-1)>>, <<R1, R(-1), R(4)>>>>]
Turns == {I3, << <<R1,R0,R0>>, <<R0,R0,R(-1)>>, <<R0,R1,R0>> >>, << <<R0,R(-1),R0>>, <<R1,R0,R0>>, <<R0,R0,R1>> >>, RotX(R1)}
Steps == {Zero3, EX, <<R0, R(-2), R0>>, <<R1, R1, R(-1)>>}
T1 == Tw(<<R1, R(-1), R2>>, <<Half, R1, R(-2)>>)

Init == body \in 1..Len(Bodies) /\ f = FId /\ k = 0
Move(m, p) == /\ k < Depth /\ k' = k + 1 /\ body' = body
              /\ f' = FMul(f, Fr(m, p))
              /\ Emit(<<O("i.rb", <<Bodies[body], Bodies[1], R2, T1, f', m, p>>),
                        O("i.ab", <<ABody, ABody, R(-1), T1, f', m, p, Bodies[body]>>)>>)
Next == \E m \in Turns, p \in Steps : Move(m, p)
Spec == Init /\ [][Next]_vars

Here == Body(Bodies[body])
EnergyInvariant == Close(Energy(IFrame(f, Here), TwFrame(f, T1)), Energy(Here, T1), Tol)
ReferenceInvariant == Close(Energy(IRef(Here, f.p), TwRef(T1, f.p)), Energy(Here, T1), Tol)
\* the moved body is the body made from the moved centre of gravity and the turned inertia
Moved == LET b == Bodies[body]  c == FApp(f, b.c)  i == MM(f.M, MM(SymM(b.I), Tr(f.M))) IN
    Close(IFrame(f, Here), Body([m |-> b.m, c |-> c, I |-> <<i[1][1], i[2][2], i[3][3], i[1][2], i[1][3], i[2][3]>>]), Tol)
Symmetric == \A x, y \in 1..6 : Close(Power(UnitTwists[x], IFrame(f, Here)[y]), Power(UnitTwists[y], IFrame(f, Here)[x]), Tol)
Additive == Close(IFrame(f, IAdd(Here, Body(Bodies[2]))), IAdd(IFrame(f, Here), IFrame(f, Body(Bodies[2]))), Tol)
AntiFrame == Close(IFrame(FInv(f), IFrame(f, Blocks(ABody))), Blocks(ABody), Tol)
=============================================================================
