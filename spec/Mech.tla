-------------------------------- MODULE Mech -------------------------------
(***************************************************************************)
(* Joints, segments, chains and trees: what they are and how they move.    *)
(* A joint is described by [n, k, o, a, s, f, i, d, t]: name, kind,        *)
(* origin, axis, scale, offset, inertia, damping, stiffness; a segment by  *)
(* [n, j, tip, in]: name, joint, pose of the tip when the joint is at      *)
(* zero, inertia (mass, first moment, inertia about the tip).              *)
(* A chain is a sequence of segments, a tree [root, nj, el] with el the    *)
(* map from the names of its segments to [par, q, seg].                    *)
(***************************************************************************)
EXTENDS Inertia

----------------------------------------------------------------------------
(* joints *)
Revolute == {"RotAxis", "RotX", "RotY", "RotZ"}
Prismatic == {"TransAxis", "TransX", "TransY", "TransZ"}
General == {"RotAxis", "TransAxis"}
JointKinds == Revolute \cup Prismatic \cup {"Fixed"}
Moves(j) == j.k # "Fixed"
AxisOf(k) == IF k \in {"RotX", "TransX"} THEN EX ELSE IF k \in {"RotY", "TransY"} THEN EY
             ELSE IF k \in {"RotZ", "TransZ"} THEN EZ ELSE Zero3
\* the joint a constructor makes: only the general kinds take an origin and an axis, of any length
JointOf(g) == IF g.k \in General THEN [g EXCEPT !.a = Unit(@)] ELSE [g EXCEPT !.o = Zero3, !.a = AxisOf(g.k)]
\* scale times position plus offset: the angle turned or the distance moved
Travel(j, q) == (j.s \otimes q) \oplus j.f
JPose(j, q) == IF j.k \in Revolute THEN Fr(RotAbout(j.a, Travel(j, q)), j.o)
               ELSE IF j.k \in Prismatic THEN Fr(I3, Add(j.o, Scale(j.a, Travel(j, q))))
               ELSE FId
\* with its time derivative
JPoseJ(j, q, qd) == LET x == JPose(j, q)  v == Scale(j.a, j.s \otimes qd) IN
    [M |-> IF j.k \in Revolute THEN MJ([R |-> x.M, w |-> v]) ELSE MC(x.M, 2),
     p |-> IF j.k \in Prismatic THEN <<x.p, v>> ELSE VC(x.p, 2)]
Vee(s) == <<s[3][2], s[1][3], s[2][1]>>
\* the twist of a moving frame, at its origin
TwistOf(x) == Tw(x.p[2], Vee(MM(x.M[2], Tr(x.M[1]))))
PoseOf(x) == Fr(x.M[1], x.p[1])

(* segments *)
InOf(b) == [m |-> b.m, h |-> Scale(b.c, b.m),
            I |-> MAdd(SymM(b.I), MScale(MSub(MScale(I3, Dot(b.c, b.c)), Outer(b.c, b.c)), b.m))]
SegOf(g) == [n |-> g.n, j |-> JointOf(g.j), tip |-> g.tip, in |-> InOf(g.in)]
SegsOf(s) == Tup([k \in 1..Len(s) |-> SegOf(s[k])])
BehindJoint(s) == FMul(FInv(JPose(s.j, R0)), s.tip)
SegPose(s, q) == FMul(JPose(s.j, q), BehindJoint(s))
SegPoseJ(s, q, qd) == FMulJ(JPoseJ(s.j, q, qd), FC(BehindJoint(s), 2))

(* chains *)
NrMoving(segs) == Cardinality({k \in 1..Len(segs) : Moves(segs[k].j)})
\* the number of the joint of segment k among those that move
Nr(segs, k) == NrMoving(SubSeq(segs, 1, k))
At(segs, q, k) == IF Moves(segs[k].j) THEN q[Nr(segs, k)] ELSE R0
RECURSIVE PosesFrom(_, _, _, _), JetsFrom(_, _, _, _, _)
PosesFrom(segs, q, acc, k) == IF k > Len(segs) THEN acc
    ELSE PosesFrom(segs, q, Append(acc, FMul(acc[Len(acc)], SegPose(segs[k], At(segs, q, k)))), k + 1)
JetsFrom(segs, q, qd, acc, k) == IF k > Len(segs) THEN acc
    ELSE JetsFrom(segs, q, qd, Append(acc, FMulJ(acc[Len(acc)], SegPoseJ(segs[k], At(segs, q, k), At(segs, qd, k)))), k + 1)
\* [k + 1] the pose of the tip of segment k, [1] the base
Poses(segs, q) == PosesFrom(segs, q, <<FId>>, 1)
PoseJets(segs, q, qd) == JetsFrom(segs, q, qd, <<FC(FId, 2)>>, 1)

\* The column of the joint of segment k in the Jacobian of segment n, moving with the rest of the chain: its axis
\* z and a point c on it, in the base; the point p of segment n turns about it, or moves along it.
ColumnJ(segs, x, k, n) ==
    LET j == segs[k].j
        z == VScale(MApp(x[k].M, VC(j.a, 2)), JC(j.s, 2))
        c == FAppJ(x[k], VC(j.o, 2)) IN
    IF j.k \in Revolute THEN [vel |-> VCross(z, VSub(x[n + 1].p, c)), rot |-> z] ELSE [vel |-> z, rot |-> VC(Zero3, 2)]
\* the segments, up to n, whose joints move and are not locked
Free(segs, n, lock) == SelectSeq(Tup([k \in 1..n |-> k]), LAMBDA k : Moves(segs[k].j) /\ ~lock[Nr(segs, k)])
Unlocked(qd, lock) == Tup([k \in 1..Len(qd) |-> IF lock[k] THEN R0 ELSE qd[k]])
Repr(rep, x, col) ==
    CASE rep = "hybrid" -> col
      [] rep = "body" -> TRotJ(MTr(x.M), col)
      [] rep = "inertial" -> TRef(col, VNeg(x.p))
JacobianJ(segs, q, qd, n, lock, rep) ==
    LET x == PoseJets(segs, q, qd)  f == Free(segs, n, lock) IN
    Tup([k \in 1..Len(f) |-> Repr(rep, x[n + 1], ColumnJ(segs, x, f[k], n))])
Value(t) == Tw(t.vel[1], t.rot[1])
Rate(t) == Tw(t.vel[2], t.rot[2])
PadTw(s, n) == Tup(s \o [k \in 1..(n - Len(s)) |-> TwZero])
NoLock(segs) == Tup([k \in 1..NrMoving(segs) |-> FALSE])
JacobianOf(segs, q, n) == LET j == JacobianJ(segs, q, ZeroN(Len(q)), n, NoLock(segs), "hybrid") IN Map1(j, Value)
TimesQ(cols, qd) == FoldL(LAMBDA t, k : TwAdd(t, TwScale(cols[k], qd[k])), TwZero, Tup([k \in 1..Len(cols) |-> k]))

(* trees *)
NoEl == [n \in {} |-> 0]
Names(t) == DOMAIN t.el
Known(t, n) == n = t.root \/ n \in Names(t)
RECURSIVE Ancestors(_, _)
\* from the segment up to the root
Ancestors(t, n) == IF n = t.root THEN <<n>> ELSE <<n>> \o Ancestors(t, t.el[n].par)
Range(s) == {s[k] : k \in 1..Len(s)}
Reverse(s) == Tup([k \in 1..Len(s) |-> s[Len(s) + 1 - k]])
\* the steps from segment a to segment b: <<segment arrived at, segment whose joint is crossed, upwards?>>
Steps(t, a, b) ==
    LET x == Ancestors(t, a)  y == Ancestors(t, b)
        nx == Cardinality({k \in 1..Len(x) : x[k] \notin Range(y)})
        ny == Cardinality({k \in 1..Len(y) : y[k] \notin Range(x)}) IN
    Tup([k \in 1..nx |-> <<x[k + 1], x[k], TRUE>>]) \o Reverse(Tup([k \in 1..ny |-> <<y[k], y[k], FALSE>>]))
TreeAt(t, q, n) == IF Moves(t.el[n].seg.j) THEN q[t.el[n].q + 1] ELSE R0
\* the chain of segments from the root to n, and the positions of their joints
Branch(t, n) == LET b == Reverse(Ancestors(t, n)) IN Tup([k \in 1..(Len(b) - 1) |-> t.el[b[k + 1]].seg])
BranchNames(t, n) == LET b == Reverse(Ancestors(t, n)) IN Tup([k \in 1..(Len(b) - 1) |-> b[k + 1]])
RECURSIVE TreePose(_, _, _)
TreePose(t, q, n) == IF n = t.root THEN FId ELSE FMul(TreePose(t, q, t.el[n].par), SegPose(t.el[n].seg, TreeAt(t, q, n)))
TreeColumns(t, q, n) ==
    LET ns == BranchNames(t, n)  segs == Branch(t, n)
        moving == SelectSeq(Tup([k \in 1..Len(ns) |-> k]), LAMBDA k : Moves(segs[k].j))
        bq == Tup([k \in 1..Len(moving) |-> q[t.el[ns[moving[k]]].q + 1]])
        cols == JacobianOf(segs, bq, Len(segs)) IN
    Tup([c \in 1..t.nj |-> LET hit == {k \in 1..Len(moving) : t.el[ns[moving[k]]].q + 1 = c} IN
         IF hit = {} THEN TwZero ELSE cols[CHOOSE k \in hit : TRUE]])

\* how the library shows a tree; the root is an element of it
ElOf(o) == [n \in DOMAIN o.el \ {o.root} |-> [par |-> o.el[n].par, q |-> o.el[n].q, seg |-> o.el[n].seg]]
TreeOf(o) == [root |-> o.root, nj |-> o.nj, el |-> ElOf(o)]
MovingNames(el) == {n \in DOMAIN el : Moves(el[n].seg.j)}
Gapless(el, nj) == /\ nj = Cardinality(MovingNames(el))
                   /\ {el[n].q : n \in MovingNames(el)} = 0..(nj - 1)
WellFormed(o) ==
    /\ o.sane
    /\ o.root \in DOMAIN o.el
    /\ o.ns = Cardinality(DOMAIN o.el) - 1
    /\ Gapless(ElOf(o), o.nj)
    /\ \A n \in DOMAIN o.el : LET kids == o.el[n].kids IN
        /\ Range(kids) = {m \in DOMAIN o.el \ {o.root} : o.el[m].par = n} /\ Len(kids) = Cardinality(Range(kids))
\* the element as the specification has it, up to its number when numbers is FALSE
SameEl(x, y, numbers) == /\ x.par = y.par /\ Close(x.seg, y.seg, Tol)
                         /\ (numbers /\ Moves(y.seg.j)) => x.q = y.q
ShowsTree(label, o, t) ==
    Chk(label \o ".structure", WellFormed(o) /\ o.root = t.root)
    \cup Chk(label \o ".segments", DOMAIN o.el = Names(t) \cup {t.root} /\ \A n \in Names(t) : n \in DOMAIN o.el => SameEl(o.el[n], t.el[n], FALSE))
    \cup Chk(label \o ".numbers", o.nj = t.nj /\ \A n \in Names(t) : n \in DOMAIN o.el => SameEl(o.el[n], t.el[n], TRUE) \/ ~SameEl(o.el[n], t.el[n], FALSE))
AddedTo(t, seg, hook) ==
    [t EXCEPT !.nj = @ + (IF Moves(seg.j) THEN 1 ELSE 0),
              !.el = (seg.n :> [par |-> hook, q |-> IF Moves(seg.j) THEN t.nj ELSE 0, seg |-> seg]) @@ @]
CanAdd(t, seg, hook) == Known(t, hook) /\ ~Known(t, seg.n)
RECURSIVE ChainAddedTo(_, _, _, _)
\* as many segments of the chain as can be added
ChainAddedTo(t, segs, hook, k) ==
    IF k > Len(segs) \/ ~CanAdd(t, segs[k], hook) THEN <<t, k - 1>>
    ELSE ChainAddedTo(AddedTo(t, segs[k], hook), segs, segs[k].n, k + 1)
\* the elements of the tree s, hung at the hook
Hung(s, hook) == [n \in Names(s) |-> [s.el[n] EXCEPT !.par = IF @ = s.root THEN hook ELSE @]]
Below(t, n) == {m \in Names(t) \ {n} : n \in Range(Ancestors(t, m))}
\* no element of the old tree changed; the new ones are some or all of more
Grown(label, o, t, more, all) ==
    Chk(label \o ".structure", WellFormed(o) /\ o.root = t.root)
    \cup Chk(label \o ".old-unchanged", \A n \in Names(t) : n \in DOMAIN o.el /\ SameEl(o.el[n], t.el[n], TRUE))
    \cup Chk(label \o ".new-segments", LET new == DOMAIN o.el \ (Names(t) \cup {t.root}) IN
             /\ new \subseteq DOMAIN more /\ (all => new = DOMAIN more)
             /\ \A n \in new : n \in DOMAIN more => SameEl(o.el[n], more[n], FALSE))

SomeQ == <<R0, R1, Dec(-7, -1), Dec(23, -1)>>
\* a chain taken from a tree
ShowsPath(o, t, a, b) ==
    LET st == Steps(t, a, b)  segs == o.segs IN
    IF Len(segs) # Len(st) THEN {"C13.chain.segments"}
    ELSE Chk("C13.chain.counts", o.ns = Len(st) /\ o.size = Len(st) /\ o.nj = NrMoving(segs))
         \cup UNION {LET from == t.el[st[k][2]].seg  sg == segs[k] IN
              Chk("C13.chain.names", sg.n = st[k][1])
              \cup Chk("C13.chain.joints", Moves(sg.j) = Moves(from.j) /\ sg.j.n = from.j.n
                       /\ (Moves(from.j) => Close(<<sg.j.i, sg.j.d, sg.j.t>>, <<from.j.i, from.j.d, from.j.t>>, Tol)))
              \cup Chk("C13.chain.inertias", st[k][1] # t.root => Close(sg.in, t.el[st[k][1]].seg.in, Tol))
              \cup Chk("C13.chain.poses", \A m \in 1..Len(SomeQ) :
                       Close(SegPose(sg, SomeQ[m]), IF st[k][3] THEN FInv(SegPose(from, SomeQ[m])) ELSE SegPose(from, SomeQ[m]), Tol))
              : k \in 1..Len(st)}

----------------------------------------------------------------------------
ChainView(segs) == [nj |-> NrMoving(segs), ns |-> Len(segs), size |-> Len(segs), segs |-> segs]
Put(h, name, obj) == (name :> obj) @@ h
Del(h, name) == [n \in DOMAIN h \ {name} |-> h[n]]

\* the heap after an operation; what is left open by the specification is taken from the observation
MechPost(h, e) ==
  LET op == e.op  a == e.a  r == e.r IN
  CASE op = "c.new" -> Put(h, a[1], SegsOf(a[2]))
    [] op = "c.add" -> Put(h, a[1], Append(h[a[1]], SegOf(a[2])))
    [] op = "c.addown" -> Put(h, a[1], Append(h[a[1]], h[a[1]][a[2] + 1]))
    [] op = "c.addchain" -> Put(h, a[1], h[a[1]] \o h[a[2]])
    [] op \in {"c.copy", "c.assign"} -> Put(h, a[1], h[a[2]])
    [] op = "c.seti" -> Put(h, a[1], [h[a[1]] EXCEPT ![a[2] + 1].in = InOf(a[3])])
    [] op = "c.settip" -> Put(h, a[1], [h[a[1]] EXCEPT ![a[2] + 1].tip = a[3]])
    [] op \in {"c.drop", "t.drop"} -> Del(h, a[1])
    [] op = "t.new" -> Put(h, a[1], [root |-> a[2], nj |-> 0, el |-> NoEl])
    [] op = "t.add" -> LET t == h[a[1]]  s == SegOf(a[2]) IN IF CanAdd(t, s, a[3]) THEN Put(h, a[1], AddedTo(t, s, a[3])) ELSE h
    [] op \in {"t.addchain", "t.addtree"} -> Put(h, a[1], TreeOf(r[2]))
    [] op \in {"t.copy", "t.assign"} -> Put(h, a[1], h[a[2]])
    [] op = "t.sub" -> Put(h, a[1], TreeOf(r[2]))
    [] op = "t.chain" -> Put(h, a[1], r[2].segs)
    [] OTHER -> h

\* the frames asked for, and the verdict on a kinematics solver's answer <<rc, error, answer>>
FkBad(label, segs, sizeok, nr, rc, err, ok(_)) ==
    LET n == IF nr < 0 THEN Len(segs) ELSE nr IN
    IF ~sizeok THEN Chk(label \o ".refuses-size", rc = -4 /\ err = rc)
    ELSE IF n > Len(segs) THEN Chk(label \o ".refuses-segment", rc = -6 /\ err = rc)
    ELSE Chk(label \o ".accepts", rc = 0 /\ err = 0) \cup (IF rc = 0 THEN Chk(label \o ".value", ok(n)) ELSE {})
FkAllBad(label, segs, sizeok, nr, len, rc, err, ok(_)) ==
    LET n == IF nr < 0 THEN Len(segs) ELSE nr IN
    IF ~sizeok \/ n > Len(segs) \/ len # n \/ n = 0 THEN Chk(label \o ".refuses", rc \in {-4, -6} /\ err = rc)
    ELSE Chk(label \o ".accepts", rc = 0 /\ err = 0) \cup (IF rc = 0 THEN Chk(label \o ".value", ok(n)) ELSE {})
FkCheck(segs, a, r) ==
    LET q == a[2]  qd == a[3]  nr == a[4]  nj == NrMoving(segs)
        s1 == Len(q) = nj  s2 == s1 /\ Len(qd) = nj
        x == IF s1 THEN Poses(segs, q) ELSE <<>>
        y == IF s2 THEN PoseJets(segs, q, qd) ELSE <<>>
        FV(k) == [F |-> PoseOf(y[k + 1]), T |-> TwistOf(y[k + 1])] IN
    FkBad("C14.pose", segs, s1, nr, r[1], r[2], LAMBDA n : Close(r[3], x[n + 1], Tol))
    \cup FkAllBad("C14.poses", segs, s1, nr, a[5], r[4], r[5], LAMBDA n : Close(r[6], Tup([k \in 1..n |-> x[k + 1]]), Tol))
    \cup FkBad("C14.velocity", segs, s2, nr, r[7], r[8], LAMBDA n : Close(r[9], FV(n), Tol))
    \cup FkAllBad("C14.velocities", segs, s2, nr, a[5], r[10], r[11], LAMBDA n : Close(r[12], Tup([k \in 1..n |-> FV(k)]), Tol))
JacCheck(segs, a, r) ==
    LET q == a[2]  nr == a[3]  nj == NrMoving(segs)  lock == IF Len(a[4]) = nj THEN a[4] ELSE NoLock(segs) IN
    Chk("C16.locks-accepted", (Len(a[4]) = nj) = (r[1] = 0) /\ r[2] = r[1] /\ (r[1] = 0 \/ r[1] = -4))
    \cup FkBad("C16.jacobian", segs, Len(q) = nj /\ a[5] = nj, nr, r[3], r[4],
           LAMBDA n : Close(r[5], PadTw(Map1(JacobianJ(segs, q, ZeroN(nj), n, lock, "hybrid"), Value), nj), Tol))
    \cup Chk("C16.repeatable", r[6] = r[3] /\ (r[3] = 0 => r[7] = r[5]))
JDotCheck(segs, a, r) ==
    LET q == a[2]  qd == a[3]  nr == a[4]  nj == NrMoving(segs)
        lock == IF Len(a[5]) = nj THEN a[5] ELSE NoLock(segs)
        rep == IF a[6] = "default" THEN "hybrid" ELSE IF a[6] = "nonsense" THEN "body" ELSE a[6]
        sizeok == Len(q) = nj /\ Len(qd) = nj
        free == Cardinality({k \in 1..nj : ~lock[k]})
        u == IF sizeok THEN Unlocked(qd, lock) ELSE <<>>
        cols(n) == Map1(JacobianJ(segs, q, u, n, lock, rep), Rate)
        uq == IF sizeok THEN LET w == SelectSeq(Tup([k \in 1..nj |-> k]), LAMBDA k : ~lock[k]) IN Tup([k \in 1..Len(w) |-> qd[w[k]]]) ELSE <<>> IN
    Chk("C17.locks-accepted", (Len(a[5]) = nj) = (r[1] = 0) /\ r[2] = r[1] /\ (r[1] = 0 \/ r[1] = -4))
    \cup FkBad("C17.jacdot", segs, sizeok /\ a[7] = free, nr, r[3], r[4], LAMBDA n : Close(r[5], PadTw(cols(n), free), Tol))
    \cup FkBad("C17.jacdot-qdot", segs, sizeok, nr, r[6], r[7], LAMBDA n : Close(r[8], TimesQ(cols(n), uq), Tol))

EqMat(got, d, eps) == EqOk(got, d, eps)
JacOps(a, r) ==
    LET m == a[1]  n == Len(m)
        base == Tup([k \in 1..n |-> TwRot(a[2], m[k])])
        ref == Tup([k \in 1..n |-> TwRef(m[k], a[3])])
        fr == Tup([k \in 1..n |-> TwFrame(a[4], m[k])])
        flat(x) == FoldL(LAMBDA s, t : s \o TwVec(t), <<>>, x)
        same == Len(a[6]) = n
        d == IF same THEN MaxDiff(flat(m), flat(a[6])) ELSE R0 IN
    Same("C16.change-base", <<r[1], r[4], r[7]>>, <<base, base, base>>)
    \cup Same("C16.change-reference-point", <<r[2], r[5], r[8]>>, <<ref, ref, ref>>)
    \cup Same("C16.change-frame", <<r[3], r[6], r[9]>>, <<fr, fr, fr>>)
    \cup Chk("C16.change-sizes", r[10] /\ ~r[11])
    \cup Same("C16.times-velocities", r[12], TimesQ(m, a[5]))
    \cup Chk("C16.size", r[13] = 6 /\ r[14] = n /\ r[23] = n + 2)
    \cup Chk("C16.equality", (IF same THEN EqOk(r[15], d, a[7]) /\ EqOk(r[17], d, Eps6) ELSE ~r[15] /\ ~r[17]) /\ r[16] = r[15] /\ r[18] = ~r[17] /\ ~r[19])
    \cup Same("C16.zero", r[20], PadTw(<<>>, n))
    \cup Same("C16.assigned", r[24], m)
    \cup Chk("C16.columns", r[21] /\ Close(r[22], Map1(m, LAMBDA t : TwScale(t, R2)), Tol))

\* a tree as text: every element on a line of its own, one level below its parent
Labels13(t, r) ==
    LET l == r[1]  w == r[2]  all == Names(t) \cup {t.root}
        number(n, q) == n = t.root \/ ~Moves(t.el[n].seg.j) \/ q = t.el[n].q
        under(k) == \E j \in 1..(k - 1) : /\ l[j][2] = t.el[l[k][2]].par /\ l[j][1] = l[k][1] - 1
                                          /\ \A i \in (j + 1)..(k - 1) : l[i][1] >= l[k][1] IN
    Chk("C13.text", /\ Len(l) = Cardinality(all) /\ {l[k][2] : k \in 1..Len(l)} = all
                    /\ l[1][1] = 0 /\ l[1][2] = t.root
                    /\ (\A k \in 2..Len(l) : under(k))
                    /\ \A k \in 1..Len(l) : number(l[k][2], l[k][3]))
    \cup Chk("C13.written", /\ Len(w) = Cardinality(all) /\ {w[k][1] : k \in 1..Len(w)} = all
                    /\ (\A k \in 1..Len(w) : w[k][1] # t.root => \E j \in 1..(k - 1) : w[j][1] = t.el[w[k][1]].par)
                    /\ \A k \in 1..Len(w) : number(w[k][1], w[k][2]))
\* a segment as text
AsText(s) == <<s.n, s.j.n, s.j.k, s.j.a, s.j.o, s.tip>>

MechOp(h, op, a, r) ==
  CASE op = "jnt.make" ->
        LET k == a[1]
            g == [n |-> IF a[3] THEN "joint" ELSE "NoName", k |-> k, o |-> a[4], a |-> a[5], s |-> a[6], f |-> a[7], i |-> a[8], d |-> a[9], t |-> a[10]] IN
        IF (k \in General) = a[2] THEN Same("C11.joint", r, <<JointOf(g)>>) ELSE Chk("C11.refuses-kind", r = <<"refused">>)
    [] op = "jnt.motion" ->
        LET j == JointOf(a[1])  q == a[2]  qd == a[3]  p == JPose(j, q)  t == TwistOf(JPoseJ(j, q, qd)) IN
        Same("C11.joint", r[1], j) \cup Same("C11.joint-pose", <<r[2], r[4], r[5], r[6]>>, <<p, p, p, p>>) \cup Same("C11.joint-twist", <<r[3], r[7]>>, <<t, t>>)
    [] op = "seg.motion" ->
        LET s == SegOf(a[1])  q == a[2]  qd == a[3]  o == [s EXCEPT !.tip = a[4], !.in = InOf(a[5])] IN
        Same("C11.segment", SubSeq(r, 1, 6), <<s, SegPose(s, q), TwistOf(SegPoseJ(s, q, qd)), s.tip, s.tip, BehindJoint(s)>>)
        \cup Same("C11.segment-changed", SubSeq(r, 7, 10), <<o, SegPose(o, q), TwistOf(SegPoseJ(o, q, qd)), s>>)
        \cup Same("C11.segment-unnamed", r[11], [o EXCEPT !.n = "NoName", !.in = InOf([m |-> R0, c |-> Zero3, I |-> ZeroN(6)])])
    [] op \in {"c.new", "c.add", "c.addown", "c.addchain", "c.copy", "c.assign", "c.seti", "c.settip", "c.look"} ->
        Same("C12.chain", r, <<ChainView(MechPost(h, [op |-> op, a |-> a, r |-> r])[a[1]])>>)
    [] op \in {"c.drop", "t.drop"} -> {}
    [] op = "c.fk" -> FkCheck(h[a[1]], a, r)
    [] op = "c.jac" -> JacCheck(h[a[1]], a, r)
    [] op = "c.jdot" -> JDotCheck(h[a[1]], a, r)
    [] op = "jac.ops" -> JacOps(a, r)
    [] op \in {"t.new", "t.copy", "t.assign", "t.look"} ->
        ShowsTree("C13." \o op, r[1], MechPost(h, [op |-> op, a |-> a, r |-> r])[a[1]])
    [] op = "t.add" ->
        Chk("C13.t.add.answer", r[1] = CanAdd(h[a[1]], SegOf(a[2]), a[3]))
        \cup ShowsTree("C13.t.add", r[2], MechPost(h, [op |-> op, a |-> a, r |-> r])[a[1]])
    [] op = "t.addchain" ->
        LET t == h[a[1]]  segs == h[a[2]]  x == ChainAddedTo(t, segs, a[3], 1)  all == x[2] = Len(segs) IN
        Chk("C13.t.addchain.answer", r[1] = all \/ (Len(segs) = 0 /\ ~Known(t, a[3])))
        \cup (IF all THEN ShowsTree("C13.t.addchain", r[2], x[1])
              ELSE Grown("C13.t.addchain", r[2], t, [n \in Names(x[1]) \ Names(t) |-> x[1].el[n]], FALSE))
    [] op = "t.addtree" ->
        LET t == h[a[1]]  s == h[a[2]]  more == Hung(s, a[3])
            can == Known(t, a[3]) /\ \A n \in Names(s) : ~Known(t, n) IN
        Chk("C13.t.addtree.answer", r[1] = can \/ (Names(s) = {} /\ ~Known(t, a[3])))
        \cup Grown("C13.t.addtree", r[2], t, [n \in Names(s) \ (Names(t) \cup {t.root}) |-> more[n]], can)
    [] op = "t.sub" ->
        LET t == h[a[2]]  n == a[3] IN
        IF ~Known(t, n) THEN Chk("C13.t.sub.answer", ~r[1])
        ELSE Chk("C13.t.sub.answer", r[1])
             \cup Grown("C13.t.sub", r[2], [root |-> n, nj |-> 0, el |-> NoEl], [m \in IF n = t.root THEN Names(t) ELSE Below(t, n) |-> t.el[m]], TRUE)
    [] op = "t.chain" ->
        LET t == h[a[2]]  can == Known(t, a[3]) /\ Known(t, a[4]) IN
        Chk("C13.t.chain.answer", r[1] = can) \cup (IF can /\ r[1] THEN ShowsPath(r[2], t, a[3], a[4]) ELSE {})
    [] op = "t.text" -> Labels13(h[a[1]], r)
    [] op = "c.text" -> Same("C12.text", r, <<Map1(h[a[1]], AsText), TRUE>>)
    [] op = "t.fk" ->
        LET t == h[a[1]] IN
        IF Len(a[2]) # t.nj \/ ~Known(t, a[3]) THEN Chk("C15.pose.refuses", r[1] < 0)
        ELSE Chk("C15.pose.accepts", r[1] = 0) \cup Same("C15.pose", r[2], TreePose(t, a[2], a[3]))
    [] op = "t.jac" ->
        LET t == h[a[1]] IN
        IF Len(a[2]) # t.nj \/ a[4] # t.nj \/ ~Known(t, a[3]) THEN Chk("C15.jacobian.refuses", r[1] < 0)
        ELSE Chk("C15.jacobian.accepts", r[1] = 0) \cup Same("C15.jacobian", r[2], TreeColumns(t, a[2], a[3]))
MechOps == {"jnt.make", "jnt.motion", "seg.motion", "c.new", "c.add", "c.addown", "c.addchain", "c.copy", "c.assign", "c.seti", "c.settip", "c.look",
    "c.drop", "c.fk", "c.jac", "c.jdot", "jac.ops", "t.new", "t.add", "t.addchain", "t.addtree", "t.copy", "t.assign", "t.sub", "t.chain", "t.look",
    "t.drop", "t.text", "c.text", "t.fk", "t.jac"}
=============================================================================
