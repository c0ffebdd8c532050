------------------------------- MODULE MCDyn -------------------------------
(***************************************************************************)
(* Mechanisms grown segment by segment, under the last segment or under    *)
(* the root.  The invariants are the laws of mechanics the definitions of  *)
(* Dyn must obey: Lagrange's equations, the balance of energy, gravity as  *)
(* the slope of the potential, forward as the inverse of inverse dynamics. *)
(* Every state becomes a script.                                           *)
(***************************************************************************)
EXTENDS Dyn

CONSTANTS Depth, Branches       \* Branches: new segments may also go under the root
VARIABLES parts, hooks, pose    \* the segments, as indices; what each hangs on; the state of motion used
vars == <<parts, hooks, pose>>
Out == Env("KDL_EMIT")
Prop == Env("KDL_PROP")
O(name, args) == [op |-> name, a |-> args]

J(k, o, a, s, f, i) == [n |-> k, k |-> k, o |-> o, a |-> a, s |-> s, f |-> f, i |-> i, d |-> R1, t |-> R1]
B(m, c, i) == [m |-> m, c |-> c, I |-> i]
S(j, tip, in) == [n |-> "s", j |-> j, tip |-> tip, in |-> in]
Turn == << <<R0, R0, R1>>, <<R1, R0, R0>>, <<R0, R1, R0>> >>
Tilt == << <<Dec(6, -1), Dec(-8, -1), R0>>, <<Dec(8, -1), Dec(6, -1), R0>>, <<R0, R0, R1>> >>
Heavy == B(R2, <<Half, R(-1), Dec(3, -1)>>, <<R1, R2, Dec(15, -1), Dec(1, -1), Dec(-2, -1), Dec(3, -1)>>)
Rod == B(R1, <<R1, R0, R0>>, <<Dec(2, -1), R1, R1, R0, R0, R0>>)
Library == <<
    S(J("RotZ", Zero3, EZ, R1, R0, R0), Fr(I3, <<R1, R0, R0>>), Rod),
    S(J("RotAxis", <<R0, R1, R(-1)>>, <<R1, R2, R2>>, R(-2), Dec(3, -1), Half), Fr(Tilt, <<R0, R1, Half>>), Heavy),
    S(J("TransAxis", <<R1, R0, R0>>, <<R0, R(3), R(-4)>>, Half, R1, R1), Fr(Turn, <<R0, R0, R1>>), Heavy),
    S(J("Fixed", Zero3, Zero3, R1, R0, R0), Fr(Turn, <<R1, R(-1), R0>>), Heavy),
    S(J("RotY", Zero3, EY, R1, Half, R2), Fr(Turn, <<R0, R0, R2>>), Rod) >>
Qs == << ZeroN(5), <<R1, Dec(-7, -1), Dec(3, -1), R2, Half>>, <<Dec(-25, -1), R1, R(-1), Dec(4, -1), R(3)>> >>
Qds == << <<R1, Half, R(-1), Dec(3, -1), R2>>, <<R(-1), R2, Dec(7, -1), R1, R0>>, <<R0, R1, R1, R(-2), Half>> >>
Qdds == << <<R2, R(-1), Half, R1, R1>>, ZeroN(5), <<R1, Dec(-3, -1), R2, Half, R(-1)>> >>
Gs == << <<R0, R0, Dec(-98, -1)>>, Zero3, <<R(3), R(-4), R(5)>> >>
AWrench == Wr(<<R1, R(-2), R(3)>>, <<Half, R1, R(-1)>>)

Name(k) == <<"a", "b", "c", "d", "e">>[k]
RawOf(ps) == Tup([k \in 1..Len(ps) |-> [Library[ps[k]] EXCEPT !.n = Name(k)]])
Segs == SegsOf(RawOf(parts))
NJ == NrMoving(Segs)
N == Len(parts)
Cut(s) == SubSeq(s, 1, NJ)
Q == Cut(Qs[pose])
Qd == Cut(Qds[pose])
Qdd == Cut(Qdds[pose])
G == Gs[pose]
Line(hs) == \A k \in 1..Len(hs) : hs[k] = k - 1
Hook(k) == IF k = 0 THEN "root" ELSE Name(k)

Ext(n, p) == Tup([k \in 1..n |-> IF k = n \/ p = 3 THEN AWrench ELSE WrZero])
None(n) == Tup([k \in 1..n |-> WrZero])
Chained(raw, q, qd, qdd, g, nj, ns) ==
    <<O("c.new", <<"c", raw>>)>> \o
    (CASE Prop = "C19" -> <<O("c.id", <<"c", g, q, qd, qdd, Ext(ns, pose), nj>>), O("c.id", <<"c", g, q, qd, qdd, None(ns), nj>>), O("c.dynpar", <<"c", g, q, qd, nj>>)>>
       [] Prop = "C20" -> <<O("c.fd", <<"c", g, q, qd, qdd, Ext(ns, pose), nj>>), O("c.fd", <<"c", g, q, qd, qdd, None(ns), nj>>),
                            O("c.rk4", <<"c", g, q, qd, qdd, Ext(ns, pose), Dec(1, -2), 1>>)>>
       [] Prop = "C22" -> Tup([c \in 1..3 |-> O("c.hd", <<"c", Tw(NegV(g), Zero3), q, qd, SubSeq(<<Tw(EX, Zero3), TwZero, Tw(Zero3, EY)>>, c, c), <<IF c = 2 THEN R0 ELSE Half>>, Ext(ns, pose), qdd, nj, 1>>)])
                          \o <<O("c.hd", <<"c", Tw(NegV(g), Zero3), q, qd, <<Tw(EZ, Zero3), Tw(EX, Zero3)>>, <<R1, R(-1)>>, Ext(ns, pose), qdd, nj, 2>>)>>
       [] OTHER -> <<>>)
Planted(raw, hs, q, qd, qdd, g, nj) ==
    <<O("t.new", <<"t", "root">>)>> \o Tup([k \in 1..Len(raw) |-> O("t.add", <<"t", raw[k], Hook(hs[k])>>)])
    \o <<O("t.id", <<"t", g, q, qd, qdd, <<>>, nj>>), O("t.id", <<"t", g, q, qd, qdd, Tup([k \in 1..Len(raw) |-> <<Name(k), AWrench>>]), nj>>)>>

Init == parts = <<>> /\ hooks = <<>> /\ pose \in 1..Len(Qs)
Grow(k, at) ==
    /\ Len(parts) < Depth
    /\ parts' = Append(parts, k) /\ hooks' = Append(hooks, at) /\ pose' = pose
    /\ \E raw \in {RawOf(Append(parts, k))} : \E nj \in {NrMoving(raw)} :
       LET c(s) == SubSeq(s, 1, nj)  hs == Append(hooks, at) IN
       IF Prop = "C21" THEN EmitLines(Out, <<[unit |-> Planted(raw, hs, c(Qs[pose]), c(Qds[pose]), c(Qdds[pose]), Gs[pose], nj)]>>)
       ELSE IF Line(hs) /\ (Prop # "C22" \/ nj = Len(raw))
            THEN EmitLines(Out, <<[unit |-> Chained(raw, c(Qs[pose]), c(Qds[pose]), c(Qdds[pose]), Gs[pose], nj, Len(raw))]>>) ELSE TRUE
Next == \E k \in 1..Len(Library), at \in 0..Len(parts) : (at = Len(parts) \/ (Branches /\ at = 0)) /\ Grow(k, at)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Near == Dec(1, -6)
H == Dec(1, -4)
Bump(s, k, d) == [s EXCEPT ![k] = @ \oplus d]
\* the central difference of F in the k-th coordinate
Slope(F(_), s, k) == (F(Bump(s, k, H)) \ominus F(Bump(s, k, Neg(H)))) \oslash (R2 \otimes H)
Moving == NJ > 0 /\ Line(hooks)
\* the inertia matrix is symmetric and that of the kinetic energy, the sum over the bodies
TwistAtTip(x, n) == TwistOf(x[n + 1])
Kinetic(q, qd) == LET x == PoseJets(Segs, q, qd)
                      rotors == Rotors(Segs, qd)
                      part(n) == LET t == TwistAtTip(x, n) IN Half \otimes Power(t, Needed(World(Segs[n].in, x[n + 1].M[1]), Zero3, t)) IN
    (Half \otimes DotN(qd, rotors)) \oplus SumSeq(Tup([n \in 1..N |-> part(n)]))
InertiaIsKinetic == Moving => LET m == MassOf(Segs, Q) IN
    /\ Close(m, TrN(m), Tol)
    /\ Close(KineticEnergy(Segs, Q, Qd), Kinetic(Q, Qd), Tol)
    /\ \A k \in 1..NJ : R0 \prec KineticEnergy(Segs, Q, IdN(NJ)[k]) \/ Close(m[k], ZeroN(NJ), Tol)
\* inverse dynamics is affine in the accelerations, gravity and velocity parts
SumOfParts == Moving =>
    Close(TorquesFor(Segs, Q, Qd, Qdd, Gravity(G), NoWrenches(Segs)),
          AddN(MatVec(MassOf(Segs, Q), Qdd), AddN(CoriolisOf(Segs, Q, Qd), GravityOf(Segs, Q, G))), Tol)
\* Lagrange: the velocity part is the rate of the momentum less the slope of the kinetic energy
Lagrange == Moving =>
    LET q2 == AddN(Q, ScaleN(Qd, H))  q1 == AddN(Q, ScaleN(Qd, Neg(H)))
        rate == DivN(SubN(MatVec(MassOf(Segs, q2), Qd), MatVec(MassOf(Segs, q1), Qd)), R2 \otimes H)
        slope == Tup([k \in 1..NJ |-> Slope(LAMBDA q : KineticEnergy(Segs, q, Qd), Q, k)]) IN
    Close(CoriolisOf(Segs, Q, Qd), SubN(rate, slope), Near)
GravityIsSlope == Moving => Close(GravityOf(Segs, Q, G), Tup([k \in 1..NJ |-> Slope(LAMBDA q : PotentialEnergy(Segs, q, G), Q, k)]), Near)
\* the torques do the work which changes the energy
EnergyBalance == Moving =>
    LET e(h) == LET q == AddN(AddN(Q, ScaleN(Qd, h)), ScaleN(Qdd, Half \otimes Sqr(h)))  v == AddN(Qd, ScaleN(Qdd, h)) IN
                KineticEnergy(Segs, q, v) \oplus PotentialEnergy(Segs, q, G)
        tau == TorquesFor(Segs, Q, Qd, Qdd, Gravity(G), NoWrenches(Segs)) IN
    Close(DotN(tau, Qd), (e(H) \ominus e(Neg(H))) \oslash (R2 \otimes H), Dec(1, -5))
\* an external wrench does work on the motion of its point
WrenchWork == Moving => \A n \in 1..N :
    LET ext == [NoWrenches(Segs) EXCEPT ![n] = AWrench]
        d == SubN(TorquesFor(Segs, Q, Qd, Qdd, Gravity(G), NoWrenches(Segs)), TorquesFor(Segs, Q, Qd, Qdd, Gravity(G), ext)) IN
    Close(DotN(d, Qd), Power(TwistOf(PoseJets(Segs, Q, Qd)[n + 1]), AWrench), Tol)
ForwardInvertsInverse == Moving => (WellPosed(MassOf(Segs, Q), Near) =>
    Close(AccFor(Segs, Q, Qd, TorquesFor(Segs, Q, Qd, Qdd, Gravity(G), NoWrenches(Segs)), Gravity(G), NoWrenches(Segs)), Qdd, Tol))
\* free motion keeps the energy, up to the order of the integrator
FreeMotion == Moving => (WellPosed(MassOf(Segs, Q), Dec(1, -3)) =>
    LET s == Rk4(Segs, Q, Qd, ZeroN(NJ), G, NoWrenches(Segs), Dec(1, -3))
        e(q, v) == KineticEnergy(Segs, q, v) \oplus PotentialEnergy(Segs, q, G) IN
    Close(e(s[1], s[2]), e(Q, Qd), Dec(1, -8)))
\* a tree: a chain is one; branches at the root do not feel each other
TheTree == [root |-> "root", nj |-> NJ,
            el |-> [n \in {Name(k) : k \in 1..N} |-> LET k == CHOOSE k \in 1..N : Name(k) = n IN
                    [par |-> Hook(hooks[k]), q |-> IF Moves(Segs[k].j) THEN Nr(Segs, k) - 1 ELSE 0, seg |-> Segs[k]]]]
Starts == {k \in 1..N : hooks[k] = 0}
EndOf(k) == LET later == {j \in Starts : j > k} IN IF later = {} THEN N ELSE (CHOOSE j \in later : \A i \in later : j <= i) - 1
TreeIsBranches == N > 0 =>
    LET ext(n) == AWrench  all == TreeTorques(TheTree, Q, Qd, Qdd, Gravity(G), ext) IN
    \A k \in Starts :
        LET segs == SubSeq(Segs, k, EndOf(k))
            at == SelectSeq(Tup([j \in 1..N |-> j]), LAMBDA j : j >= k /\ j <= EndOf(k) /\ Moves(Segs[j].j))
            js == Tup([i \in 1..Len(at) |-> Nr(Segs, at[i])]) IN
        Close(Pick(all, js), TorquesFor(segs, Pick(Q, js), Pick(Qd, js), Pick(Qdd, js), Gravity(G), InBase(segs, Pick(Q, js), Tup([i \in 1..Len(segs) |-> AWrench]))), Tol)
=============================================================================
