------------------------------- MODULE MCRot -------------------------------
(***************************************************************************)
(* The rotations of a grid of angles.  States: the 24 rotations which map  *)
(* the axes onto each other, reached by turns of +-90 degrees about the    *)
(* axes of the moving frame, and the rotations of a grid of Euler angles.  *)
(* The invariants are the laws the definitions of Geom must satisfy; every *)
(* state and transition becomes a script for the library.                  *)
(***************************************************************************)
EXTENDS Geom

CONSTANT Step       \* the grid of angles, in degrees
VARIABLES kind, m, ang
vars == <<kind, m, ang>>

Out == Env("KDL_EMIT")
Prop == Env("KDL_PROP")
O(name, args) == [op |-> name, a |-> args]
Emit(unit) == EmitLines(Out, <<[unit |-> unit]>>)

Exact(k) == \* the turn by k * 90 degrees about x, y, z, exactly
    [x |-> << <<R1,R0,R0>>, <<R0,R0,R(0-k)>>, <<R0,R(k),R0>> >>,
     y |-> << <<R0,R0,R(k)>>, <<R0,R1,R0>>, <<R(0-k),R0,R0>> >>,
     z |-> << <<R0,R(0-k),R0>>, <<R(k),R0,R0>>, <<R0,R0,R1>> >>]
Turns == {Exact(1).x, Exact(-1).x, Exact(1).y, Exact(-1).y, Exact(1).z, Exact(-1).z}
Deg(d) == (Pi \otimes R(d)) \oslash R(180)
Grid == {Step * k : k \in (0 - (180 \div Step))..(180 \div Step)}
SomeV == <<R1, R(-2), Dec(5, -1)>>
SomeT == Tw(<<R1, R2, R(3)>>, <<R(-1), Half, R2>>)
SomeW == Wr(<<R(2), R(-1), R(4)>>, <<R0, R1, R(-3)>>)

Gets(r) == <<O("m.getrpy", <<r>>), O("m.getzyx", <<r>>), O("m.getzyz", <<r>>), O("m.getquat", <<r>>), O("m.getrot", <<r>>),
             O("m.getrotangle", <<r, Eps6>>)>>

Init == kind = "cube" /\ m = I3 /\ ang = <<0, 0, 0>>
Turn(t) == /\ kind = "cube"
           /\ m' = MM(m, t) /\ kind' = kind /\ ang' = ang
           /\ Emit(IF Prop = "C01" THEN <<O("m.mul", <<m, t>>), O("m.mul", <<m', Tr(t)>>), O("m.selfmul", <<m'>>),
                        O("m.inverse", <<m', SomeV, SomeT, SomeW>>), O("m.apply", <<m', SomeV, SomeT, SomeW>>), O("m.columns", <<m'>>)>>
                   ELSE IF Prop = "C04" THEN <<O("diff.m", <<m, m', R1>>), O("diff.m", <<m', m, Half>>)>>
                   ELSE Gets(m'))
Euler(a, b, g) ==
    /\ kind = "cube" /\ m = I3
    /\ kind' = "grid" /\ ang' = <<a, b, g>>
    /\ LET x == Deg(a)  y == Deg(b)  z == Deg(g) IN
       /\ m' = RotRPY(x, y, z)
       /\ Emit(IF Prop = "C01" THEN <<O("m.mul", <<RotZ(z), RotY(y)>>), O("m.mul", <<RotX(x), m'>>), O("m.rotx", <<x>>), O("m.roty", <<y>>), O("m.rotz", <<z>>),
                        O("m.rot", <<<<R(a), R(b), R(g)>>, x>>), O("m.rotvec", <<<<x, y, z>>>>), O("m.dorot", <<m', x>>)>>
               ELSE IF Prop = "C04" THEN <<O("diff.m", <<RotX(x), m', R1>>), O("add.m", <<RotY(y), <<x, y, z>>, Half>>)>>
               ELSE <<O("m.rpy", <<x, y, z>>), O("m.zyx", <<x, y, z>>), O("m.zyz", <<x, y, z>>)>>
                    \o Gets(m') \o <<O("m.getzyz", <<RotZYZ(x, y, z)>>), O("m.getquat", <<RotZYZ(x, y, z)>>)>>)
Next == \/ \E t \in Turns : Turn(t)
        \/ \E a, b, g \in Grid : Euler(a, b, g)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* laws
Orthonormal == IsRotation(m, Tol)
ExactCube == kind = "cube" => MM(m, Tr(m)) = I3
Parameterisations == kind = "grid" =>
    LET x == Deg(ang[1])  y == Deg(ang[2])  z == Deg(ang[3]) IN
    /\ Close(RotRPY(x, y, z), RotZYX(z, y, x), Tol)
    /\ Close(RotRPY(x, y, z), RotRPY(x \oplus Pi, Pi \ominus y, z \oplus Pi), Tol)
    /\ Close(RotZYZ(x, y, z), RotZYZ(x \oplus Pi, Neg(y), z \ominus Pi), Tol)
    /\ Close(RotX(x), RotAbout(EX, x), Tol) /\ Close(RotY(y), RotAbout(EY, y), Tol) /\ Close(RotZ(z), RotAbout(EZ, z), Tol)
AxisAngle == kind = "grid" =>
    LET v == <<Deg(ang[1]), Deg(ang[2]), Deg(ang[3])>>  n == Norm(v)  e == RotExp(v)
        s == Sin(n \otimes Half)  c == Cos(n \otimes Half) IN
    (R0 \prec n) =>
        LET u == Div(v, n)
            q == AngleOf(e)
            reduced == RAbs(n \ominus (R2 \otimes Pi \otimes Floor((n \oslash (R2 \otimes Pi)) \oplus Half))) IN
        /\ IsRotation(e, Tol)
        /\ Close(MV(e, u), u, Tol)                                          \* the axis stays
        /\ Close(RotQuat(s \otimes u[1], s \otimes u[2], s \otimes u[3], c), e, Tol)
        /\ Close(q, reduced, Dec(1, -7))
        /\ Close(MM(e, RotExp(Scale(v, Half))), RotExp(Scale(v, Dec(15, -1))), Tol)
ActionIsLinear == Close(MV(m, Add(SomeV, EX)), Add(MV(m, SomeV), MV(m, EX)), Tol)
PreservesDot == Close(Dot(MV(m, SomeV), MV(m, <<R(3), R1, R(-2)>>)), Dot(SomeV, <<R(3), R1, R(-2)>>), Tol)
PreservesCross == Close(Cross(MV(m, SomeV), MV(m, EX)), MV(m, Cross(SomeV, EX)), Tol)
DiffInverse == Close(AddDeltaM(m, <<R1, Half, R(-1)>>, Half), MM(RotExp(<<Half, Dec(25, -2), Neg(Half)>>), m), Tol)
=============================================================================
