------------------------------ MODULE MCFrame ------------------------------
(***************************************************************************)
(* A rigid body moved step by step: translations by +-1 along and turns of *)
(* 90 degrees about its own axes, within a box.  A twist and a wrench seen *)
(* from the body are carried along; what holds of them in every state are  *)
(* the laws of C03, and every state is a script for the library.           *)
(***************************************************************************)
EXTENDS Geom

CONSTANT Box
VARIABLE f
Out == Env("KDL_EMIT")
O(name, args) == [op |-> name, a |-> args]
Emit(unit) == EmitLines(Out, <<[unit |-> unit]>>)

Sgn == {-1, 1}
Move(v) == Fr(I3, v)
TurnX(k) == Fr(<< <<R1,R0,R0>>, <<R0,R0,R(0-k)>>, <<R0,R(k),R0>> >>, Zero3)
TurnZ(k) == Fr(<< <<R0,R(0-k),R0>>, <<R(k),R0,R0>>, <<R0,R0,R1>> >>, Zero3)
Steps == {Move(<<R(k), R0, R0>>) : k \in Sgn} \cup {Move(<<R0, R(k), R0>>) : k \in Sgn} \cup {Move(<<R0, R0, R(k)>>) : k \in Sgn}
         \cup {TurnX(1), TurnZ(1)}
T1 == Tw(<<R1, R2, R(3)>>, <<R(-1), Half, R2>>)
W1 == Wr(<<R(2), R(-1), R(4)>>, <<R0, R1, R(-3)>>)
P1 == <<R(3), R(-1), R2>>
G1 == Fr(RotRPY(Half, R1, R(-2)), <<R1, Half, R(-2)>>)

Init == f = FId
Next == \E s \in Steps :
    /\ f' = FMul(f, s)
    /\ MaxAbs(f'.p) \preceq R(Box)
    /\ Emit(<<O("f.mul", <<f, s>>), O("f.mul", <<f', G1>>), O("f.selfmul", <<f'>>), O("f.inverse", <<f', P1, T1, W1>>), O("f.apply", <<f', P1, T1, W1>>),
              O("f.make", <<f'.M, f'.p>>), O("t.refpoint", <<T1, f'.p>>), O("w.refpoint", <<W1, f'.p>>)>>)
Spec == Init /\ [][Next]_f

----------------------------------------------------------------------------
Inverse == FMul(f, FInv(f)) = FId /\ FMul(FInv(f), f) = FId
Associative == Close(FMul(FMul(f, G1), G1), FMul(f, FMul(G1, G1)), Tol)
ActsOnPoints == Close(FApp(FMul(f, G1), P1), FApp(f, FApp(G1, P1)), Tol) /\ Close(FInvApp(f, FApp(f, P1)), P1, Tol)
ActsOnTwists == Close(TwFrame(FMul(f, G1), T1), TwFrame(f, TwFrame(G1, T1)), Tol) /\ Close(TwFrame(FInv(f), TwFrame(f, T1)), T1, Tol)
ActsOnWrenches == Close(WrFrame(FMul(f, G1), W1), WrFrame(f, WrFrame(G1, W1)), Tol)
PowerInvariant == /\ Close(Power(TwFrame(f, T1), WrFrame(f, W1)), Power(T1, W1), Tol)
                  /\ Close(Power(TwRef(T1, f.p), WrRef(W1, f.p)), Power(T1, W1), Tol)
\* the frame is the rotation and the change of reference point
FrameIsRotationAndShift == /\ Close(TwFrame(f, T1), TwRef(TwRot(f.M, T1), NegV(f.p)), Tol)
                           /\ Close(WrFrame(f, W1), WrRef(WrRot(f.M, W1), NegV(f.p)), Tol)
CrossIsDual == Close(Power(TwCross(T1, TwFrame(f, T1)), W1), Neg(Power(TwFrame(f, T1), TwCrossW(T1, W1))), Tol)
=============================================================================
