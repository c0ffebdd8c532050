-------------------------------- MODULE Dyn --------------------------------
(***************************************************************************)
(* Dynamics by the principle of virtual power: the torque of a joint is    *)
(* the sum, over the bodies it moves, of the power of the force and moment *)
(* each body needs, on the motion of that body which a unit velocity of    *)
(* the joint makes.  No recursion from body to body: the motions are the   *)
(* columns of the Jacobians of Mech, their rates those of its jets.        *)
(* Gravity is an acceleration of the base in the opposite direction.       *)
(***************************************************************************)
EXTENDS Arrays

----------------------------------------------------------------------------
(* linear systems with a positive definite matrix *)
RECURSIVE SolvePD(_, _), PivotsPD(_)
Schur(A) == LET n == Len(A) IN Tup([i \in 1..(n - 1) |-> [j \in 1..(n - 1) |-> A[i + 1][j + 1] \ominus ((A[i + 1][1] \otimes A[1][j + 1]) \oslash A[1][1])]])
SolvePD(A, b) ==
    LET n == Len(A) IN
    IF n = 0 THEN <<>>
    ELSE LET x == SolvePD(Schur(A), Tup([i \in 1..(n - 1) |-> b[i + 1] \ominus ((A[i + 1][1] \otimes b[1]) \oslash A[1][1])])) IN
         <<(b[1] \ominus SumSeq(Tup([j \in 1..(n - 1) |-> A[1][j + 1] \otimes x[j]]))) \oslash A[1][1]>> \o x
PivotsPD(A) == IF Len(A) = 0 THEN <<>> ELSE <<A[1][1]>> \o PivotsPD(Schur(A))
\* positive definite, and by some margin: every pivot is that part of the element it came from
WellPosed(A, margin) == LET p == PivotsPD(A) IN \A i \in 1..Len(A) : R0 \prec A[i][i] /\ (margin \otimes A[i][i]) \preceq p[i]

----------------------------------------------------------------------------
(* chains; x are the jets of the poses *)
\* how segment n moves for a unit velocity of each joint before it, as jets
ColsAt(segs, x, n) == LET f == Free(segs, n, NoLock(segs)) IN Tup([k \in 1..Len(f) |-> ColumnJ(segs, x, f[k], n)])
\* the body in the orientation of the base, about the tip of its segment
World(body, M) == [m |-> body.m, h |-> MV(M, body.h), I |-> MM(MM(M, body.I), Tr(M))]
\* the wrench, at the tip, which gives it the angular velocity w and the acceleration acc of the tip
Needed(b, w, acc) == Wr(Add(Scale(acc.vel, b.m), Add(Cross(acc.rot, b.h), Cross(w, Cross(w, b.h)))),
                        Add(MV(b.I, acc.rot), Add(Cross(w, MV(b.I, w)), Cross(b.h, acc.vel))))
\* the acceleration of the tip of segment n, and what the acceleration of the base adds to it
AccAt(cols, qd, qdd) == TwAdd(TimesQ(Map1(cols, Value), qdd), TimesQ(Map1(cols, Rate), qd))
BaseAcc(root, p) == TwRef(root, p)
TorquesOf(cols, w, n) == Tup([k \in 1..n |-> IF k <= Len(cols) THEN Power(Value(cols[k]), w) ELSE R0])
\* the torques which the last of the segments needs, less those of the wrench ext at its tip
BodyTorques(segs, x, n, qd, qdd, root, ext) ==
    LET cols == ColsAt(segs, x, n)  t == x[n + 1]  v == TwistOf(t)
        acc == TwAdd(AccAt(cols, qd, qdd), BaseAcc(root, t.p[1])) IN
    TorquesOf(cols, WrSub(Needed(World(segs[n].in, t.M[1]), v.rot, acc), ext), Len(qd))
Rotors(segs, qdd) == LET f == Free(segs, Len(segs), NoLock(segs)) IN Tup([k \in 1..Len(f) |-> segs[f[k]].j.i \otimes qdd[k]])
\* ext: the wrenches at the tips, in the orientation of the base
TorquesFor(segs, q, qd, qdd, root, ext) ==
    LET x == PoseJets(segs, q, qd) IN
    FoldL(LAMBDA t, n : AddN(t, BodyTorques(segs, x, n, qd, qdd, root, ext[n])), Rotors(segs, qdd), Tup([n \in 1..Len(segs) |-> n]))
InBase(segs, q, ext) == LET x == Poses(segs, q) IN Tup([n \in 1..Len(segs) |-> WrRot(x[n + 1].M, ext[n])])
NoWrenches(segs) == Tup([n \in 1..Len(segs) |-> WrZero])
Gravity(g) == Tw(NegV(g), Zero3)
CoriolisOf(segs, q, qd) == TorquesFor(segs, q, qd, ZeroN(Len(q)), TwZero, NoWrenches(segs))
GravityOf(segs, q, g) == TorquesFor(segs, q, ZeroN(Len(q)), ZeroN(Len(q)), Gravity(g), NoWrenches(segs))
\* the matrix of the kinetic energy: the sum of J' I J
MassOf(segs, q) ==
    LET z == ZeroN(Len(q))  x == PoseJets(segs, q, z)  n == Len(q)
        part(m) == LET c == Map1(ColsAt(segs, x, m), Value)  b == World(segs[m].in, x[m + 1].M[1])  w == Map1(c, LAMBDA t : Needed(b, Zero3, t)) IN
                   Tup([i \in 1..n |-> [j \in 1..n |-> IF i <= Len(c) /\ j <= Len(c) THEN Power(c[i], w[j]) ELSE R0]]) IN
    FoldL(LAMBDA M, m : MatAdd(M, part(m)), DiagM(Rotors(segs, Tup([k \in 1..n |-> R1]))), Tup([m \in 1..Len(segs) |-> m]))
AccFor(segs, q, qd, tau, root, ext) ==
    SolvePD(MassOf(segs, q), SubN(tau, TorquesFor(segs, q, qd, ZeroN(Len(q)), root, ext)))
\* the energies
KineticEnergy(segs, q, qd) == Half \otimes DotN(qd, MatVec(MassOf(segs, q), qd))
PotentialEnergy(segs, q, g) ==
    LET x == Poses(segs, q) IN
    SumSeq(Tup([n \in 1..Len(segs) |-> Neg(Dot(g, Add(Scale(x[n + 1].p, segs[n].in.m), MV(x[n + 1].M, segs[n].in.h))))]))
\* the classical integrator of fourth order, ext fixed in the segments
Rk4(segs, q, v, tau, g, ext, dt) ==
    LET acc(p, w) == AccFor(segs, p, w, tau, Gravity(g), InBase(segs, p, ext))
        h == Half \otimes dt
        a1 == acc(q, v)
        v2 == AddN(v, ScaleN(a1, h))  a2 == acc(AddN(q, ScaleN(v, h)), v2)
        v3 == AddN(v, ScaleN(a2, h))  a3 == acc(AddN(q, ScaleN(v2, h)), v3)
        v4 == AddN(v, ScaleN(a3, dt)) a4 == acc(AddN(q, ScaleN(v3, dt)), v4)
        mean(w, x, y, z) == DivN(AddN(AddN(w, z), ScaleN(AddN(x, y), R2)), R(6)) IN
    <<AddN(q, ScaleN(mean(v, v2, v3, v4), dt)), AddN(v, ScaleN(mean(a1, a2, a3, a4), dt))>>
RECURSIVE Rk4Steps(_, _, _, _, _, _, _, _)
Rk4Steps(segs, q, v, tau, g, ext, dt, n) ==
    IF n = 0 THEN <<q, v>> ELSE LET s == Rk4(segs, q, v, tau, g, ext, dt) IN Rk4Steps(segs, s[1], s[2], tau, g, ext, dt, n - 1)

----------------------------------------------------------------------------
(* trees: every segment is the end of the branch from the root to it *)
\* the joints of the branch, as positions in the arrays of the tree
BranchJoints(t, n) == LET ns == BranchNames(t, n)  mv == SelectSeq(Tup([k \in 1..Len(ns) |-> k]), LAMBDA k : Moves(t.el[ns[k]].seg.j)) IN
    Tup([k \in 1..Len(mv) |-> t.el[ns[mv[k]]].q + 1])
Pick(s, at) == Tup([k \in 1..Len(at) |-> s[at[k]]])
TreeTorques(t, q, qd, qdd, root, ext(_)) ==
    LET part(n) ==
            LET segs == Branch(t, n)  at == BranchJoints(t, n)  m == Len(segs)
                x == PoseJets(segs, Pick(q, at), Pick(qd, at))
                w == WrRot(x[m + 1].M[1], ext(n))
                b == BodyTorques(segs, x, m, Pick(qd, at), Pick(qdd, at), root, w)
                r == IF Moves(segs[m].j) THEN segs[m].j.i \otimes qdd[at[Len(at)]] ELSE R0 IN
            Tup([c \in 1..t.nj |-> LET hit == {k \in 1..Len(at) : at[k] = c} IN
                 IF hit = {} THEN R0 ELSE LET k == CHOOSE k \in hit : TRUE IN b[k] \oplus (IF Moves(segs[m].j) /\ k = Len(at) THEN r ELSE R0)])
        RECURSIVE Sum(_)
        Sum(S) == IF S = {} THEN ZeroN(t.nj) ELSE LET n == CHOOSE n \in S : TRUE IN AddN(part(n), Sum(S \ {n})) IN
    Sum(Names(t))

----------------------------------------------------------------------------
DynTol == Dec(1, -8)
\* a - b is small, compared with a, b and what they were made from
SmallDiff(a, b, scale) == Close(<<a, scale>>, <<b, scale>>, DynTol)

InverseCheck(segs, a, r) ==
    LET g == a[2]  q == a[3]  qd == a[4]  qdd == a[5]  nj == NrMoving(segs)
        sizes == Len(q) = nj /\ Len(qd) = nj /\ Len(qdd) = nj /\ Len(a[6]) = Len(segs) /\ a[7] = nj IN
    Chk("C19.inputs-unchanged", r[6] = q /\ r[7] = qd /\ r[8] = qdd)
    \cup (IF ~sizes THEN Chk("C19.refuses-size", r[1] = -4 /\ r[2] = -4 /\ r[4] = -4)
          ELSE Chk("C19.accepts", r[1] = 0 /\ r[2] = 0 /\ r[4] = 0)
               \cup LET t == TorquesFor(segs, q, qd, qdd, Gravity(g), InBase(segs, q, a[6])) IN
                    SameTol("C19.inverse-dynamics", <<r[3], r[5]>>, <<t, t>>, DynTol))
ParamCheck(segs, a, r) ==
    LET g == a[2]  q == a[3]  qd == a[4]  nj == NrMoving(segs)  s1 == Len(q) = nj /\ a[5] = nj  s2 == s1 /\ Len(qd) = nj
        m == IF s1 THEN MassOf(segs, q) ELSE <<>>  gr == IF s1 THEN GravityOf(segs, q, g) ELSE <<>>
        co == IF s2 THEN CoriolisOf(segs, q, qd) ELSE <<>> IN
    UNION {LET x == r[k] IN
           (IF s1 THEN Chk("C19.accepts", x[1] = 0 /\ x[7] = 0 /\ x[8] = 0) \cup SameTol("C19.inertia-matrix", x[3], m, DynTol) \cup SameTol("C19.gravity", x[9], gr, DynTol)
                       \cup Chk("C19.inertia-matrix-symmetric", Close(x[3], TrN(x[3]), Dec(1, -12)))
            ELSE Chk("C19.refuses-size", x[1] = -4 /\ x[2] = -4 /\ x[7] = -4))
           \cup (IF s2 THEN Chk("C19.accepts", x[4] = 0) \cup SameTol("C19.coriolis", x[6], co, DynTol) ELSE Chk("C19.refuses-size", x[4] = -4))
           : k \in {1, 2}}
ForwardCheck(segs, a, r) ==
    LET g == a[2]  q == a[3]  qd == a[4]  tau == a[5]  nj == NrMoving(segs)
        sizes == Len(q) = nj /\ Len(qd) = nj /\ Len(tau) = nj /\ Len(a[6]) = Len(segs) /\ a[7] = nj IN
    IF ~sizes THEN Chk("C20.refuses-size", r[1] = -4 /\ r[2] = -4 /\ r[4] = -4)
    ELSE LET m == MassOf(segs, q)
             bias == TorquesFor(segs, q, qd, ZeroN(nj), Gravity(g), InBase(segs, q, a[6]))
             ok(acc) == SmallDiff(AddN(MatVec(m, acc), bias), tau, <<bias, MaxAbsM(m) \otimes MaxAbs(acc)>>) IN
         IF ~WellPosed(m, Dec(1, -7)) THEN {}
         ELSE Chk("C20.accepts", r[1] = 0 /\ r[2] = 0 /\ r[4] = 0) \cup Chk("C20.forward-dynamics", ok(r[3]) /\ ok(r[5]))
RkCheck(segs, a, r) ==
    LET g == a[2]  q == a[3]  qd == a[4] IN
    IF ~WellPosed(MassOf(segs, q), Dec(1, -4)) THEN {}
    ELSE SameTol("C20.integrator", r, Rk4Steps(segs, q, qd, a[5], g, a[6], a[7], a[8]), Dec(1, -7))
TreeDynCheck(t, a, r) ==
    LET q == a[3]  qd == a[4]  qdd == a[5]
        sizes == Len(q) = t.nj /\ Len(qd) = t.nj /\ Len(qdd) = t.nj /\ a[7] = t.nj
        ext(n) == LET hit == {k \in 1..Len(a[6]) : a[6][k][1] = n} IN IF hit = {} THEN WrZero ELSE a[6][CHOOSE k \in hit : TRUE][2] IN
    IF ~sizes THEN Chk("C21.refuses-size", r[1] = -4 /\ r[2] = -4 /\ r[4] = -4)
    ELSE Chk("C21.accepts", r[1] = 0 /\ r[2] = 0 /\ r[4] = 0)
         \cup LET w == TreeTorques(t, q, qd, qdd, Gravity(a[2]), ext) IN SameTol("C21.inverse-dynamics", <<r[3], r[5]>>, <<w, w>>, DynTol)

\* Constrained dynamics.  alfa: unit wrenches at the last tip; the constrained acceleration is that which counts from
\* an inertial frame (with the acceleration of the base), and not that of the point but that of the body (the
\* centripetal part of the point left out).
BodyAcc(cols, t, qd, qdd, root) ==
    LET v == TwistOf(t)  acc == TwAdd(AccAt(cols, qd, qdd), BaseAcc(root, t.p[1])) IN Tw(Sub(acc.vel, Cross(v.rot, v.vel)), acc.rot)
AlfaWrench(c) == Wr(c.vel, c.rot)
HybridCheck(segs, a, r) ==
    LET root == a[2]  q == a[3]  qd == a[4]  alfa == a[5]  beta == a[6]  ext == a[7]  ff == a[8]  nj == NrMoving(segs)  nc == a[10]
        sizes == Len(q) = nj /\ Len(qd) = nj /\ Len(ff) = nj /\ a[9] = nj /\ Len(ext) = Len(segs) /\ Len(alfa) = nc /\ Len(beta) = nc IN
    IF ~sizes THEN Chk("C22.refuses-size", r[1] = -4)
    ELSE IF r[1] # 0 THEN {"C22.accepts"}
    ELSE
    LET n == Len(segs)  x == PoseJets(segs, q, qd)  cols(k) == ColsAt(segs, x, k)  last == cols(n)
        m == MassOf(segs, q)  bias == TorquesFor(segs, q, qd, ZeroN(nj), root, ext)
        on == SelectSeq(Tup([c \in 1..nc |-> c]), LAMBDA c : alfa[c] # TwZero)
        jac == Tup([c \in 1..Len(on) |-> TorquesOf(last, AlfaWrench(alfa[on[c]]), nj)])      \* the torques of the active constraints
        gain == Tup([c \in 1..Len(on) |-> LET y == SolvePD(m, jac[c]) IN [d \in 1..Len(on) |-> DotN(jac[d], y)]])
        nu == r[9]
        force == MaxSeq(Tup([c \in 1..nc |-> RAbs(nu[c]) \otimes MaxAbs(TorquesOf(last, AlfaWrench(alfa[c]), nj))]))
        consistent(acc, ct) == SmallDiff(AddN(MatVec(m, acc), bias), AddN(ff, ct), <<bias, MaxAbsM(m) \otimes MaxAbs(acc), ct, force>>)
        got(acc) == LET t == BodyAcc(last, x[n + 1], qd, acc, root) IN Tup([c \in 1..Len(on) |-> Power(t, AlfaWrench(alfa[on[c]]))])
        want == Tup([c \in 1..Len(on) |-> beta[on[c]]])
        free == MaxAbs(got(ZeroN(nj)))
        wrench == FoldL(LAMBDA w, c : WrAdd(w, WrScale(AlfaWrench(alfa[c]), Neg(nu[c]))), WrZero, Tup([c \in 1..nc |-> c]))
        apparent == Tup([k \in 1..nj |-> LET sub == Tup([i \in 1..(nj - k) |-> [j \in 1..(nj - k) |-> m[k + i][k + j]]])
                                             col == Tup([i \in 1..(nj - k) |-> m[k + i][k]]) IN
                                         (m[k][k] \ominus DotN(col, SolvePD(sub, col))) \otimes r[5][k]])
        accs == Tup(<<root>> \o [k \in 1..n |-> BodyAcc(cols(k), x[k + 1], qd, r[5], root)]) IN
    IF ~WellPosed(m, Dec(1, -5)) THEN {}
    ELSE Chk("C22.repeatable", r[4] = 0 /\ r[2] = r[5] /\ r[3] = r[6])
         \cup Chk("C22.dynamics", consistent(r[5], r[6]))
         \cup (IF ~(WellPosed(gain, Dec(1, -5)) /\ \A c \in 1..Len(on) : Dec(1, -5) \preceq gain[c][c]) THEN {}
               ELSE Chk("C22.constraints", Close(<<got(r[5]), free>>, <<want, free>>, Dec(1, -7)))
                    \cup Chk("C22.constraint-torques", Close(<<r[6], force>>, <<TorquesOf(last, wrench, nj), force>>, Dec(1, -7))))
         \cup (IF Len(on) = 0 THEN Chk("C22.unconstrained", Close(r[6], ZeroN(nj), Dec(1, -9))) ELSE {})
         \cup SameTol("C22.link-accelerations", r[7], accs, Dec(1, -7))
         \cup SameTol("C22.total-torque", r[8], apparent, Dec(1, -7))

DynOp(h, op, a, r) ==
  CASE op = "c.id" -> InverseCheck(h[a[1]], a, r)
    [] op = "c.dynpar" -> ParamCheck(h[a[1]], a, r)
    [] op = "c.fd" -> ForwardCheck(h[a[1]], a, r)
    [] op = "c.rk4" -> RkCheck(h[a[1]], a, r)
    [] op = "t.id" -> TreeDynCheck(h[a[1]], a, r)
    [] op = "c.hd" -> HybridCheck(h[a[1]], a, r)
DynOps == {"c.id", "c.dynpar", "c.fd", "c.rk4", "t.id", "c.hd"}
=============================================================================
