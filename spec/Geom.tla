-------------------------------- MODULE Geom -------------------------------
(***************************************************************************)
(* What each operation on vectors, rotations, frames, twists and wrenches  *)
(* must return.  GeomBad(op, a, r, x) is the set of labels of the          *)
(* requirements an observed call violates: op the operation, a its         *)
(* arguments, r its results, x the exception it raised, if any.            *)
(***************************************************************************)
EXTENDS Vec

Eps6 == Dec(1, -6)      \* the library's default epsilon
In(x, lo, hi) == lo \preceq x /\ x \preceq hi
PiTol == Dec(1, -12)
InPi(x) == In(x, Neg(Pi) \ominus PiTol, Pi \oplus PiTol)
InHalfPi(x) == In(x, Neg(Pi \otimes Half) \ominus PiTol, (Pi \otimes Half) \oplus PiTol)

RotRPY(r, p, y) == MM(RotZ(y), MM(RotY(p), RotX(r)))
RotZYX(a, b, g) == MM(RotZ(a), MM(RotY(b), RotX(g)))
RotZYZ(a, b, g) == MM(RotZ(a), MM(RotY(b), RotZ(g)))
\* the rotation p -> q p q* of the unit quaternion (x, y, z, w)
RotQuat(x, y, z, w) == LET v == <<x, y, z>>  s == Skew(v) IN
    MAdd(MAdd(MScale(I3, (w \otimes w) \ominus Dot(v, v)), MScale(Outer(v, v), R2)), MScale(s, R2 \otimes w))
\* about an axis of any length; an axis too short to have a direction gives the identity
RotAxis(v, q) == IF Norm(v) \prec Eps6 THEN I3 ELSE RotAbout(Unit(v), q)

DHStd(a, al, d, th) == FMul(Fr(RotZ(th), <<R0, R0, d>>), Fr(RotX(al), <<a, R0, R0>>))
DHCraig(a, al, d, th) == FMul(Fr(RotX(al), <<a, R0, R0>>), Fr(RotZ(th), <<R0, R0, d>>))

\* near the angles 0 and pi the library's epsilon is the accuracy of an axis
RotTol(m) == LET q == AngleOf(m) IN
    IF q \prec Dec(2, -6) THEN Dec(2, -6)
    ELSE IF q \prec (Pi \ominus Dec(4, -6)) THEN Dec(1, -8) ELSE Dec(1, -5)

\* diff and addDelta: a + da * dt, for rotations about the axis da in the base frame
AddDeltaM(m, w, dt) == MM(RotExp(Scale(w, dt)), m)
DiffOk(m, n, w, dt) == LET step == MM(n, Tr(m)) IN
    /\ Close(AddDeltaM(m, w, dt), n, RotTol(step))
    /\ (Norm(Scale(w, dt))) \preceq (Pi \oplus Dec(1, -6))

NormalizeOk(v, eps, n, u) == LET len == Norm(v) IN
    \/ /\ len \prec (Dec(1733, -3) \otimes eps)
       /\ n = R0 /\ u = EX
    \/ /\ eps \preceq (len \otimes Dec(1000001, -6))
       /\ Close(<<n, Scale(u, len), u>>, <<len, v, Unit(v)>>, Tol)
NormOk(v, eps, n) == LET len == Norm(v) IN
    \/ RAbs(n \ominus len) \preceq (len \otimes Dec(1, -12))
    \/ n = R0 /\ len \prec (Dec(1733, -3) \otimes eps)

\* equality up to eps: settled unless the largest difference is eps itself, up to rounding
MaxDiff(x, y) == MaxAbs(SubN(x, y))
EqOk(got, d, eps) == /\ (d \prec (eps \otimes Dec(999999, -6)) => got)
                     /\ ((eps \otimes Dec(1000001, -6)) \prec d => ~got)
FlatM(m) == m[1] \o m[2] \o m[3]
EqBad(label, d, same, eps, r) ==
    Chk(label \o ".within-eps", EqOk(r[1], d, eps) /\ EqOk(r[3], d, Eps6))
    \cup Chk(label \o ".symmetric", r[1] = r[2] /\ r[3] = r[4] /\ r[5] = r[6])
    \cup Chk(label \o ".negation", r[5] = ~r[3])
    \cup Chk(label \o ".hash", same => r[7])

(* the plane *)
P2Add(a, b) == <<a[1] \oplus b[1], a[2] \oplus b[2]>>
P2Sub(a, b) == <<a[1] \ominus b[1], a[2] \ominus b[2]>>
P2Scale(a, s) == <<a[1] \otimes s, a[2] \otimes s>>
P2Norm(a) == Sqrt((a[1] \otimes a[1]) \oplus (a[2] \otimes a[2]))
P2Rot(t) == << <<Cos(t), Neg(Sin(t))>>, <<Sin(t), Cos(t)>> >>
P2App(t, v) == << (Cos(t) \otimes v[1]) \ominus (Sin(t) \otimes v[2]), (Sin(t) \otimes v[1]) \oplus (Cos(t) \otimes v[2]) >>
P2Id == << <<R1, R0>>, <<R0, R1>> >>
F2(f) == [M |-> P2Rot(f.th), p |-> f.p]
F2Inv(f) == LET q == P2App(Neg(f.th), f.p) IN [M |-> P2Rot(Neg(f.th)), p |-> <<Neg(q[1]), Neg(q[2])>>]
F2Mat(f) == << <<Cos(f.th), Neg(Sin(f.th)), f.p[1]>>, <<Sin(f.th), Cos(f.th), f.p[2]>>, <<R0, R0, R1>> >>

GeomOp(op, a, r) ==
  CASE op = "v.add" -> Same("C03.vector-sum", r, <<Add(a[1], a[2])>>)
    [] op = "v.sub" -> Same("C03.vector-difference", r, <<Sub(a[1], a[2])>>)
    [] op = "v.muls" -> Same("C03.vector-scale", r, <<Scale(a[1], a[2]), Scale(a[1], a[2])>>)
    [] op = "v.divs" -> Same("C03.vector-divide", r, <<Div(a[1], a[2])>>)
    [] op = "v.neg" -> Same("C03.vector-negate", r, <<NegV(a[1]), NegV(a[1])>>)
    [] op = "v.cross" -> Same("C03.cross-product", r, <<Cross(a[1], a[2])>>)
    [] op = "v.dot" -> Same("C03.dot-product", r, <<Dot(a[1], a[2])>>)
    [] op = "v.iadd" -> Same("C03.vector-add-to", r, <<Add(a[1], a[2])>>)
    [] op = "v.isub" -> Same("C03.vector-subtract-from", r, <<Sub(a[1], a[2])>>)
    [] op = "v.selfops" -> Same("C03.vector-self-operand", r, <<Scale(a[1], R2), Zero3, Cross(a[1], a[2])>>)
    [] op = "v.norm" -> Chk("C03.norm", NormOk(a[1], Eps6, r[1]) /\ NormOk(a[1], a[2], r[2]))
    [] op = "v.normalize" -> Chk("C03.normalize", NormalizeOk(a[1], a[2], r[1], r[2]))
    [] op = "v.comp" -> Same("C03.components", r, <<a[1], a[1], Zero3, Zero3, Zero3>>)
    [] op = "v.from2d" -> Same("C05.plane-to-space", r,
            <<V3(a[1][1], a[1][2], R0), V3(R0, a[1][1], a[1][2]), V3(a[1][2], R0, a[1][1]), FApp(a[2], V3(a[1][1], a[1][2], R0))>>)

    [] op = "m.rotx" -> Same("C01.rotx", r, <<RotX(a[1])>>)
    [] op = "m.roty" -> Same("C01.roty", r, <<RotY(a[1])>>)
    [] op = "m.rotz" -> Same("C01.rotz", r, <<RotZ(a[1])>>)
    [] op = "m.rot" -> Same("C01.rot-axis-angle", r, <<RotAxis(a[1], a[2])>>)
    [] op = "m.rot2" -> Same("C01.rot-unit-axis", r, <<RotAbout(a[1], a[2])>>)
    [] op = "m.rotvec" -> Same("C01.rot-vector", r, <<RotExp(a[1])>>)
    [] op = "m.rpy" -> Same("C02.from-rpy", r, <<RotRPY(a[1], a[2], a[3])>>)
    [] op = "m.zyx" -> Same("C02.from-zyx", r, <<RotZYX(a[1], a[2], a[3])>>)
    [] op = "m.zyz" -> Same("C02.from-zyz", r, <<RotZYZ(a[1], a[2], a[3])>>)
    [] op = "m.quat" -> Same("C02.from-quaternion", r, <<RotQuat(a[1], a[2], a[3], a[4])>>)
    [] op = "m.dorot" -> Same("C01.do-rotation", r, <<MM(a[1], RotX(a[2])), MM(a[1], RotY(a[2])), MM(a[1], RotZ(a[2]))>>)
    [] op = "m.mul" -> Same("C01.composition", r, <<MM(a[1], a[2])>>)
    [] op = "m.selfmul" -> Same("C01.composition-self", r, <<MM(a[1], a[1])>>)
    [] op = "m.apply" -> Same("C01.action", r, <<MV(a[1], a[2]), TwRot(a[1], a[3]), WrRot(a[1], a[4])>>)
    [] op = "m.inverse" -> LET t == Tr(a[1]) IN
            Same("C01.inverse", r, <<t, t, MV(t, a[2]), TwRot(t, a[3]), WrRot(t, a[4])>>)
    [] op = "m.columns" -> LET t == Tr(a[1]) IN
            Same("C01.axes-are-columns", r, <<t[1], t[2], t[3], a[1], a[1], a[1], a[1], I3, I3>>)
    [] op = "m.getrpy" ->
            SameTol("C02.rpy-reproduces", RotRPY(r[1], r[2], r[3]), a[1], Dec(1, -7))
            \cup Chk("C02.rpy-ranges", InPi(r[1]) /\ InHalfPi(r[2]) /\ InPi(r[3]))
            \cup Chk("C02.rpy-singular-choice", Norm(<<a[1][1][1], a[1][2][1], R0>>) \prec Dec(1, -13) => r[1] = R0)
    [] op = "m.getzyx" ->
            SameTol("C02.zyx-reproduces", RotZYX(r[1], r[2], r[3]), a[1], Dec(1, -7))
            \cup Chk("C02.zyx-ranges", InPi(r[1]) /\ InHalfPi(r[2]) /\ InPi(r[3]))
            \cup Chk("C02.zyx-singular-choice", Norm(<<a[1][1][1], a[1][2][1], R0>>) \prec Dec(1, -13) => r[3] = R0)
    [] op = "m.getzyz" ->
            SameTol("C02.zyz-reproduces", RotZYZ(r[1], r[2], r[3]), a[1],
                    IF (R1 \ominus Dec(1, -11)) \prec RAbs(a[1][3][3]) THEN Dec(1, -5) ELSE Dec(1, -7))
            \cup Chk("C02.zyz-ranges", InPi(r[1]) /\ In(r[2], R0, Pi \oplus PiTol) /\ InPi(r[3]))
            \cup Chk("C02.zyz-singular-choice", (R1 \ominus Dec(1, -13)) \prec RAbs(a[1][3][3]) => r[3] = R0)
    [] op = "m.getquat" ->
            SameTol("C02.quaternion-reproduces", RotQuat(r[1], r[2], r[3], r[4]), a[1], Dec(1, -8))
            \cup SameTol("C02.quaternion-unit", DotN(r, r), R1, Dec(1, -8))
    [] op = "m.getrot" ->
            SameTol("C02.rotation-vector-reproduces", RotExp(r[1]), a[1], RotTol(a[1]))
            \cup Chk("C02.rotation-vector-range", Norm(r[1]) \preceq (Pi \oplus Dec(1, -6)))
    [] op = "m.getrotangle" ->
            SameTol("C02.axis-angle-reproduces", RotAbout(r[2], r[1]), a[1], RMax(RotTol(a[1]), a[2] \otimes R(20)))
            \cup Chk("C02.axis-angle-range", In(r[1], R0, Pi \oplus PiTol))
            \cup SameTol("C02.axis-unit", Norm(r[2]), R1, Dec(1, -5))
            \cup Chk("C02.axis-of-identity", a[1] = I3 => (r[1] = R0 /\ (r[2] = EZ \/ r[2] = NegV(EZ))))

    [] op = "f.make" -> LET f == Fr(a[1], a[2]) IN
            Same("C03.frame-parts", r, <<f, Fr(a[1], Zero3), Fr(I3, a[2]), f, f, FId, FId, Make4(f), Make4(f), Make4(f)>>)
    [] op = "f.mul" -> Same("C03.frame-composition", r, <<FMul(a[1], a[2])>>)
    [] op = "f.selfmul" -> Same("C03.frame-composition-self", r, <<FMul(a[1], a[1])>>)
    [] op = "f.apply" -> Same("C03.frame-action", r, <<FApp(a[1], a[2]), TwFrame(a[1], a[3]), WrFrame(a[1], a[4])>>)
    [] op = "f.inverse" -> LET g == FInv(a[1]) IN
            Same("C03.frame-inverse", r, <<g, FApp(g, a[2]), TwFrame(g, a[3]), WrFrame(g, a[4])>>)
    [] op = "f.dh" -> Same("C03.denavit-hartenberg", r, <<DHStd(a[1], a[2], a[3], a[4]), DHCraig(a[1], a[2], a[3], a[4])>>)
    [] op = "f.integrate" -> SameTol("C04.frame-integrate", r,
            <<FMul(a[1], Fr(RotExp(Div(a[2].rot, a[3])), Div(a[2].vel, a[3])))>>, IF Norm(Div(a[2].rot, a[3])) \prec Dec(3, -6) THEN Dec(5, -6) ELSE Tol)

    [] op = "t.lin" -> Same("C03.twist-vector-space", r, <<TwAdd(a[1], a[2]), TwSub(a[1], a[2]), TwAdd(a[1], a[2]), TwSub(a[1], a[2]),
            TwNeg(a[1]), TwNeg(a[1]), TwScale(a[1], a[3]), TwScale(a[1], a[3]), TwDiv(a[1], a[3]), TwZero, TwZero, TwScale(a[1], R2)>>)
    [] op = "w.lin" -> Same("C03.wrench-vector-space", r, <<WrAdd(a[1], a[2]), WrSub(a[1], a[2]), WrAdd(a[1], a[2]), WrSub(a[1], a[2]),
            WrNeg(a[1]), WrNeg(a[1]), WrScale(a[1], a[3]), WrScale(a[1], a[3]), WrDiv(a[1], a[3]), WrZero, WrZero, WrScale(a[1], R2)>>)
    [] op = "t.cross" -> Same("C03.twist-cross", r, <<TwCross(a[1], a[2])>>)
    [] op = "t.crossw" -> Same("C03.twist-cross-wrench", r, <<TwCrossW(a[1], a[2])>>)
    [] op = "t.dot" -> Same("C03.power", r, <<Power(a[1], a[2]), Power(a[1], a[2])>>)
    [] op = "t.refpoint" -> Same("C03.twist-reference-point", r, <<TwRef(a[1], a[2])>>)
    [] op = "w.refpoint" -> Same("C03.wrench-reference-point", r, <<WrRef(a[1], a[2])>>)
    [] op = "t.comp" -> Same("C03.twist-wrench-components", r, <<a[1], a[2], TwVec(a[1]), WrVec(a[2])>>)
    [] op = "stiff" -> LET w == MulElt(a[1], TwVec(a[3]))  t == Tup([i \in 1..6 |-> WrVec(a[4])[i] \oslash a[1][i]]) IN
            Same("C03.stiffness", r, <<VecWr(w), VecTw(t), AddN(a[1], a[2])>>)

    [] op = "random" ->
            Chk("C03.random", (\A i \in 1..Len(r[1]) : RAbs(r[1][i]) \preceq R1) /\ (\E i \in 1..Len(r[1]) : r[1][i] \prec R0))
            \cup Chk("C03.random-positive", \A i \in 1..Len(r[2]) : R0 \prec r[2][i] /\ r[2][i] \preceq R1)
            \cup Chk("C03.random-rotation", (\A i \in 1..Len(r[3]) : IsRotation(r[3][i], Tol))
                    /\ \A i \in 1..Len(r[3]) : i % 2 = 0 => ~Close(r[3][i], r[3][i - 1], Dec(1, -6)))

    [] op = "diff.v" -> Same("C04.diff-vector", r, <<Div(Sub(a[2], a[1]), a[3])>>)
    [] op = "diff.m" -> Chk("C04.diff-rotation", DiffOk(a[1], a[2], r[1], a[3]))
    [] op = "diff.f" -> Chk("C04.diff-frame", Close(r[1].vel, Div(Sub(a[2].p, a[1].p), a[3]), Tol) /\ DiffOk(a[1].M, a[2].M, r[1].rot, a[3]))
    [] op = "diff.t" -> Same("C04.diff-twist", r, <<TwDiv(TwSub(a[2], a[1]), a[3])>>)
    [] op = "diff.w" -> Same("C04.diff-wrench", r, <<WrDiv(WrSub(a[2], a[1]), a[3])>>)
    [] op = "add.v" -> Same("C04.add-vector", r, <<Add(a[1], Scale(a[2], a[3]))>>)
    [] op = "add.m" -> Same("C04.add-rotation", r, <<AddDeltaM(a[1], a[2], a[3])>>)
    [] op = "add.f" -> Same("C04.add-frame", r, <<Fr(AddDeltaM(a[1].M, a[2].rot, a[3]), Add(a[1].p, Scale(a[2].vel, a[3])))>>)
    [] op = "add.t" -> Same("C04.add-twist", r, <<TwAdd(a[1], TwScale(a[2], a[3]))>>)
    [] op = "add.w" -> Same("C04.add-wrench", r, <<WrAdd(a[1], WrScale(a[2], a[3]))>>)

    [] op = "eq.v" -> EqBad("C09.vector", MaxDiff(a[1], a[2]), a[1] = a[2], a[3], r)
    [] op = "eq.m" -> EqBad("C09.rotation", MaxDiff(FlatM(a[1]), FlatM(a[2])), a[1] = a[2], a[3], r)
    [] op = "eq.f" -> EqBad("C09.frame", MaxDiff(FlatM(a[1].M) \o a[1].p, FlatM(a[2].M) \o a[2].p), a[1] = a[2], a[3], r)
    [] op = "eq.t" -> EqBad("C09.twist", MaxDiff(TwVec(a[1]), TwVec(a[2])), a[1] = a[2], a[3], r)
    [] op = "eq.w" -> EqBad("C09.wrench", MaxDiff(WrVec(a[1]), WrVec(a[2])), a[1] = a[2], a[3], r)

    [] op = "p.vec" -> LET x == a[1]  y == a[2]  s == a[3]  n == P2Scale(x, R(-1)) IN
            Same("C05.vector-space", r, <<P2Add(x, y), P2Sub(x, y), P2Add(x, y), P2Sub(x, y), n, n,
                 P2Scale(x, s), P2Scale(x, s), P2Scale(x, R1 \oslash s), <<R0, R0>>, x>>)
    [] op = "p.norm" -> LET n == P2Norm(a[1]) IN
            IF n = R0 THEN Same("C05.norm", r, <<R0, R0, <<R1, R0>>>>) ELSE Same("C05.norm", r, <<n, n, P2Scale(a[1], R1 \oslash n)>>)
    [] op = "p.from3d" -> LET v == a[1]  w == FInvApp(a[2], v) IN
            Same("C05.space-to-plane", r, <<<<v[1], v[2]>>, <<v[2], v[3]>>, <<v[3], v[1]>>, <<w[1], w[2]>>>>)
    [] op = "p.rot" -> LET m == P2Rot(a[1])  n == P2Rot(Neg(a[1])) IN
            Same("C05.rotation", SubSeq(r, 1, 4), <<m, m, m, m>>)
            \cup Same("C05.rotation-elements", r[5], m)
            \cup Same("C05.rotation-inverse", SubSeq(r, 6, 9), <<n, n, P2Id, P2Id>>)
            \cup Same("C05.rotation-angle", <<Cos(r[10]), Sin(r[10])>>, <<Cos(a[1]), Sin(a[1])>>)
    [] op = "p.rotmul" -> Same("C05.rotation-action", r, <<P2Rot(a[1] \oplus a[2]), P2App(a[1], a[3]), P2App(Neg(a[1]), a[3])>>)
    [] op = "p.frame" -> LET f == a[1]  g == a[2]  v == a[3]  inv == F2Inv(f)  id == [M |-> P2Id, p |-> <<R0, R0>>] IN
            Same("C05.frame", SubSeq(r, 1, 7),
                 <<[M |-> P2Rot(f.th \oplus g.th), p |-> P2Add(P2App(f.th, g.p), f.p)], P2Add(P2App(f.th, v), f.p),
                   P2App(Neg(f.th), P2Sub(v, f.p)), inv, inv, id, id>>)
            \cup Same("C05.frame-elements", SubSeq(r, 8, 9), <<F2Mat(f), F2Mat(f)>>)
            \cup Same("C05.frame-parts", SubSeq(r, 10, 11), <<[M |-> P2Id, p |-> v], [M |-> P2Rot(f.th), p |-> <<R0, R0>>]>>)
    [] op = "p.eq" -> LET dv == MaxAbs(P2Sub(a[1], a[2]))
                         df == MaxAbs(P2Sub(a[4].p, a[5].p))
                         dr == RMax(RAbs(Cos(a[4].th) \ominus Cos(a[5].th)), RAbs(Sin(a[4].th) \ominus Sin(a[5].th))) IN
            Chk("C05.equality", /\ r[1] = r[2] /\ EqOk(r[1], dv, a[3]) /\ EqOk(r[3], dv, Eps6) /\ r[4] = ~r[3]
                                /\ r[5] = r[6] /\ EqOk(r[5], dr, a[3]) /\ r[7] = r[8] /\ EqOk(r[7], RMax(df, dr), a[3]))

GeomOps == {"v.add", "v.sub", "v.muls", "v.divs", "v.neg", "v.cross", "v.dot", "v.iadd", "v.isub", "v.selfops", "v.norm", "v.normalize",
    "v.comp", "v.from2d", "m.rotx", "m.roty", "m.rotz", "m.rot", "m.rot2", "m.rotvec", "m.rpy", "m.zyx", "m.zyz", "m.quat", "m.dorot",
    "m.mul", "m.selfmul", "m.apply", "m.inverse", "m.columns", "m.getrpy", "m.getzyx", "m.getzyz", "m.getquat", "m.getrot",
    "m.getrotangle", "f.make", "f.mul", "f.selfmul", "f.apply", "f.inverse", "f.dh", "f.integrate", "t.lin", "w.lin", "t.cross",
    "t.crossw", "t.dot", "t.refpoint", "w.refpoint", "t.comp", "stiff", "random", "diff.v", "diff.m", "diff.f", "diff.t", "diff.w", "add.v",
    "add.m", "add.f", "add.t", "add.w", "eq.v", "eq.m", "eq.f", "eq.t", "eq.w", "p.vec", "p.norm", "p.from3d", "p.rot", "p.rotmul",
    "p.frame", "p.eq"}
=============================================================================
