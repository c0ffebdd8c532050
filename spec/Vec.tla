-------------------------------- MODULE Vec --------------------------------
(***************************************************************************)
(* Linear algebra and the geometry of rigid motions, over the reals of     *)
(* Num.  Vectors are sequences of reals, matrices sequences of rows.       *)
(*   rotation  3x3 matrix           frame   [M |-> rotation, p |-> vector] *)
(*   twist     [vel, rot]           wrench  [f |-> force, t |-> torque]    *)
(***************************************************************************)
EXTENDS Num

----------------------------------------------------------------------------
(* sequences of reals *)
SumSeq(s) == FoldL(LAMBDA x, y : x \oplus y, R0, s)
MaxSeq(s) == FoldL(LAMBDA x, y : RMax(x, y), R0, s)
Map1(s, F(_)) == Tup([i \in 1..Len(s) |-> F(s[i])])
DotN(a, b) == SumSeq(Tup([i \in 1..Len(a) |-> a[i] \otimes b[i]]))
AddN(a, b) == Tup([i \in 1..Len(a) |-> a[i] \oplus b[i]])
SubN(a, b) == Tup([i \in 1..Len(a) |-> a[i] \ominus b[i]])
ScaleN(a, s) == Tup([i \in 1..Len(a) |-> a[i] \otimes s])
DivN(a, s) == Tup([i \in 1..Len(a) |-> a[i] \oslash s])
MulElt(a, b) == Tup([i \in 1..Len(a) |-> a[i] \otimes b[i]])
NormN(a) == Sqrt(DotN(a, a))
MaxAbs(a) == MaxSeq(Map1(a, RAbs))
ZeroN(n) == Tup([i \in 1..n |-> R0])

(* matrices of any size *)
Rows(m) == Len(m)
Cols(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
Col(m, j) == Tup([i \in 1..Len(m) |-> m[i][j]])
TrN(m) == Tup([j \in 1..Cols(m) |-> [i \in 1..Rows(m) |-> m[i][j]]])
MatVec(m, v) == Tup([i \in 1..Len(m) |-> DotN(m[i], v)])
MatMul(a, b) == LET bt == TrN(b) IN Tup([i \in 1..Len(a) |-> [j \in 1..Len(bt) |-> DotN(a[i], bt[j])]])
MatAdd(a, b) == Tup([i \in 1..Len(a) |-> AddN(a[i], b[i])])
MatSub(a, b) == Tup([i \in 1..Len(a) |-> SubN(a[i], b[i])])
MatScale(a, s) == Tup([i \in 1..Len(a) |-> ScaleN(a[i], s)])
IdN(n) == Tup([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R1 ELSE R0]])
ZeroM(n, m) == Tup([i \in 1..n |-> [j \in 1..m |-> R0]])
DiagM(d) == Tup([i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF i = j THEN d[i] ELSE R0]])
MaxAbsM(m) == MaxSeq(Map1(m, MaxAbs))

----------------------------------------------------------------------------
(* vectors of space *)
V3(x, y, z) == <<x, y, z>>
Zero3 == <<R0, R0, R0>>
EX == <<R1, R0, R0>>
EY == <<R0, R1, R0>>
EZ == <<R0, R0, R1>>
Add(a, b) == <<a[1] \oplus b[1], a[2] \oplus b[2], a[3] \oplus b[3]>>
Sub(a, b) == <<a[1] \ominus b[1], a[2] \ominus b[2], a[3] \ominus b[3]>>
NegV(a) == <<Neg(a[1]), Neg(a[2]), Neg(a[3])>>
Scale(a, s) == <<a[1] \otimes s, a[2] \otimes s, a[3] \otimes s>>
Div(a, s) == <<a[1] \oslash s, a[2] \oslash s, a[3] \oslash s>>
Dot(a, b) == ((a[1] \otimes b[1]) \oplus (a[2] \otimes b[2])) \oplus (a[3] \otimes b[3])
Cross(a, b) == << (a[2] \otimes b[3]) \ominus (a[3] \otimes b[2]),
                  (a[3] \otimes b[1]) \ominus (a[1] \otimes b[3]),
                  (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1]) >>
Norm(a) == Sqrt(Dot(a, a))
Unit(a) == Div(a, Norm(a))

(* 3x3 matrices *)
I3 == <<EX, EY, EZ>>
Tr(m) == << <<m[1][1], m[2][1], m[3][1]>>, <<m[1][2], m[2][2], m[3][2]>>, <<m[1][3], m[2][3], m[3][3]>> >>
MV(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
MM(a, b) == LET c == Tr(b) IN
    << <<Dot(a[1], c[1]), Dot(a[1], c[2]), Dot(a[1], c[3])>>,
       <<Dot(a[2], c[1]), Dot(a[2], c[2]), Dot(a[2], c[3])>>,
       <<Dot(a[3], c[1]), Dot(a[3], c[2]), Dot(a[3], c[3])>> >>
MAdd(a, b) == <<Add(a[1], b[1]), Add(a[2], b[2]), Add(a[3], b[3])>>
MSub(a, b) == <<Sub(a[1], b[1]), Sub(a[2], b[2]), Sub(a[3], b[3])>>
MScale(a, s) == <<Scale(a[1], s), Scale(a[2], s), Scale(a[3], s)>>
Outer(a, b) == <<Scale(b, a[1]), Scale(b, a[2]), Scale(b, a[3])>>
Skew(a) == << <<R0, Neg(a[3]), a[2]>>, <<a[3], R0, Neg(a[1])>>, <<Neg(a[2]), a[1], R0>> >>
Det(m) == Dot(m[1], Cross(m[2], m[3]))
Trace3(m) == (m[1][1] \oplus m[2][2]) \oplus m[3][3]
FromCols(x, y, z) == Tr(<<x, y, z>>)

(* rotations *)
RotX(q) == << <<R1, R0, R0>>, <<R0, Cos(q), Neg(Sin(q))>>, <<R0, Sin(q), Cos(q)>> >>
RotY(q) == << <<Cos(q), R0, Sin(q)>>, <<R0, R1, R0>>, <<Neg(Sin(q)), R0, Cos(q)>> >>
RotZ(q) == << <<Cos(q), Neg(Sin(q)), R0>>, <<Sin(q), Cos(q), R0>>, <<R0, R0, R1>> >>
\* about the unit vector u: what is along u stays, what is across turns by q
RotAbout(u, q) == LET uu == Outer(u, u) IN
    MAdd(MAdd(uu, MScale(MSub(I3, uu), Cos(q))), MScale(Skew(u), Sin(q)))
\* the rotation by the angle |v| about v
RotExp(v) == LET n == Norm(v) IN IF n = R0 THEN I3 ELSE RotAbout(Div(v, n), n)
IsRotation(m, tol) == Close(MM(m, Tr(m)), I3, tol) /\ Close(Det(m), R1, tol)
\* the angle of a rotation, between 0 and pi
AngleOf(m) == LET s == <<m[3][2] \ominus m[2][3], m[1][3] \ominus m[3][1], m[2][1] \ominus m[1][2]>>
              IN Atan2(Norm(s), Trace3(m) \ominus R1)

(* frames *)
FId == [M |-> I3, p |-> Zero3]
Fr(m, p) == [M |-> m, p |-> p]
FMul(f, g) == [M |-> MM(f.M, g.M), p |-> Add(MV(f.M, g.p), f.p)]
FApp(f, v) == Add(MV(f.M, v), f.p)
FInv(f) == LET t == Tr(f.M) IN [M |-> t, p |-> NegV(MV(t, f.p))]
FInvApp(f, v) == MV(Tr(f.M), Sub(v, f.p))
Make4(f) == << Append(f.M[1], f.p[1]), Append(f.M[2], f.p[2]), Append(f.M[3], f.p[3]), <<R0, R0, R0, R1>> >>

(* twists: vel is the velocity of the reference point *)
Tw(v, w) == [vel |-> v, rot |-> w]
TwZero == Tw(Zero3, Zero3)
TwAdd(a, b) == Tw(Add(a.vel, b.vel), Add(a.rot, b.rot))
TwSub(a, b) == Tw(Sub(a.vel, b.vel), Sub(a.rot, b.rot))
TwNeg(a) == Tw(NegV(a.vel), NegV(a.rot))
TwScale(a, s) == Tw(Scale(a.vel, s), Scale(a.rot, s))
TwDiv(a, s) == Tw(Div(a.vel, s), Div(a.rot, s))
TwRot(m, a) == Tw(MV(m, a.vel), MV(m, a.rot))                   \* other base
TwRef(a, v) == Tw(Add(a.vel, Cross(a.rot, v)), a.rot)           \* reference point moved by v
\* the same motion seen from the frame f: base and reference point change
TwFrame(f, a) == LET w == MV(f.M, a.rot) IN Tw(Add(MV(f.M, a.vel), Cross(f.p, w)), w)
TwVec(a) == a.vel \o a.rot
VecTw(s) == Tw(<<s[1], s[2], s[3]>>, <<s[4], s[5], s[6]>>)

(* wrenches *)
Wr(f, t) == [f |-> f, t |-> t]
WrZero == Wr(Zero3, Zero3)
WrAdd(a, b) == Wr(Add(a.f, b.f), Add(a.t, b.t))
WrSub(a, b) == Wr(Sub(a.f, b.f), Sub(a.t, b.t))
WrNeg(a) == Wr(NegV(a.f), NegV(a.t))
WrScale(a, s) == Wr(Scale(a.f, s), Scale(a.t, s))
WrDiv(a, s) == Wr(Div(a.f, s), Div(a.t, s))
WrRot(m, a) == Wr(MV(m, a.f), MV(m, a.t))
WrRef(a, v) == Wr(a.f, Add(a.t, Cross(a.f, v)))
WrFrame(f, a) == LET g == MV(f.M, a.f) IN Wr(g, Add(MV(f.M, a.t), Cross(f.p, g)))
WrVec(a) == a.f \o a.t
VecWr(s) == Wr(<<s[1], s[2], s[3]>>, <<s[4], s[5], s[6]>>)
Power(t, w) == Dot(t.vel, w.f) \oplus Dot(t.rot, w.t)
TwCross(a, b) == Tw(Add(Cross(a.rot, b.vel), Cross(a.vel, b.rot)), Cross(a.rot, b.rot))
TwCrossW(a, w) == Wr(Cross(a.rot, w.f), Add(Cross(a.rot, w.t), Cross(a.vel, w.f)))

----------------------------------------------------------------------------
(* verdicts: the labels of the requirements which do not hold *)
Tol == Dec(1, -9)
Chk(label, ok) == IF ok THEN {} ELSE {label}
Same(label, got, want) == Chk(label, Close(got, want, Tol))
SameTol(label, got, want, tol) == Chk(label, Close(got, want, tol))
=============================================================================
