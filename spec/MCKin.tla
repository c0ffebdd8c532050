------------------------------- MODULE MCKin -------------------------------
(***************************************************************************)
(* Chains grown segment by segment from a small set of segments which      *)
(* covers every kind of joint, and moved by small steps.  The invariants   *)
(* say that the Jacobian, its derivative and the velocities are the        *)
(* derivatives they are meant to be: by exact linear relations and by      *)
(* differences over a short time.  Every state becomes a script.           *)
(***************************************************************************)
EXTENDS Mech

CONSTANT Depth
VARIABLES parts, pose       \* the segments added, as indices, and which of the joint positions is used
vars == <<parts, pose>>
Out == Env("KDL_EMIT")
Prop == Env("KDL_PROP")
O(name, args) == [op |-> name, a |-> args]

NoBody == [m |-> R0, c |-> Zero3, I |-> ZeroN(6)]
J(k, o, a, s, f) == [n |-> k, k |-> k, o |-> o, a |-> a, s |-> s, f |-> f, i |-> R0, d |-> R0, t |-> R0]
S(j, tip) == [n |-> "s", j |-> j, tip |-> tip, in |-> NoBody]
Tilt == << <<Dec(6, -1), Dec(-8, -1), R0>>, <<Dec(8, -1), Dec(6, -1), R0>>, <<R0, R0, R1>> >>
Turn == << <<R0, R0, R1>>, <<R1, R0, R0>>, <<R0, R1, R0>> >>
Library == <<
    S(J("RotZ", Zero3, EZ, R1, R0), Fr(I3, <<R1, R0, R0>>)),
    S(J("RotAxis", <<R0, R1, R(-1)>>, <<R1, R2, R2>>, R(-2), Dec(3, -1)), Fr(Tilt, <<R0, R1, Half>>)),
    S(J("TransAxis", <<R1, R0, R0>>, <<R0, R(3), R(-4)>>, Half, R1), Fr(Turn, <<R0, R0, R1>>)),
    S(J("Fixed", Zero3, Zero3, R1, R0), Fr(Turn, <<R1, R(-1), R0>>)),
    S(J("RotX", Zero3, EX, R1, Half), Fr(Tilt, <<R0, R0, R2>>)),
    S(J("TransY", Zero3, EY, R(-1), R0), FId),
    S(J("RotY", Zero3, EY, R2, R0), Fr(I3, Zero3)) >>
\* positions, velocities and locks for up to five joints
Qs == << ZeroN(5), <<R1, Dec(-7, -1), Dec(3, -1), R2, Half>>, <<Dec(-25, -1), R1, R(-1), Dec(4, -1), R(3)>> >>
Qds == << <<R1, Half, R(-1), Dec(3, -1), R2>>, <<R(-1), R2, Dec(7, -1), R1, R0>>, <<R0, R1, R1, R(-2), Half>> >>
Locks == << <<FALSE, FALSE, FALSE, FALSE, FALSE>>, <<TRUE, FALSE, FALSE, TRUE, FALSE>>, <<FALSE, TRUE, FALSE, FALSE, TRUE>> >>

RawOf(ps) == Tup([k \in 1..Len(ps) |-> Library[ps[k]]])
Segs == SegsOf(RawOf(parts))
NJ == NrMoving(Segs)
Q == SubSeq(Qs[pose], 1, NJ)
Qd == SubSeq(Qds[pose], 1, NJ)
Lock == SubSeq(Locks[pose], 1, NJ)
N == Len(parts)

Script(segs, nj, ns, q, qd, lock, free) ==
    <<O("c.new", <<"c", segs>>)>> \o
    (CASE Prop = "C14" -> Tup([k \in 1..(ns + 2) |-> O("c.fk", <<"c", q, qd, k - 1, k - 1>>)]) \o <<O("c.fk", <<"c", q, qd, -1, ns>>)>>
       [] Prop = "C16" -> Tup([k \in 1..(ns + 2) |-> O("c.jac", <<"c", q, k - 1, lock, nj>>)]) \o <<O("c.jac", <<"c", q, -1, lock, nj>>)>>
       [] Prop = "C17" -> LET reps == <<"hybrid", "body", "inertial">> IN
            Tup([k \in 1..3 |-> O("c.jdot", <<"c", q, qd, -1, lock, reps[k], free>>)]) \o Tup([k \in 1..3 |-> O("c.jdot", <<"c", q, qd, ns - 1, lock, reps[k], free>>)])
       [] OTHER -> Tup([k \in 1..ns |-> O("seg.motion", <<segs[k], IF nj = 0 THEN R1 ELSE q[nj], R2, segs[1].tip, [m |-> R1, c |-> EX, I |-> ZeroN(6)]>>)])
                   \o Tup([k \in 1..ns |-> O("jnt.motion", <<segs[k].j, IF nj = 0 THEN R1 ELSE q[1], R(-1)>>)]))

Init == parts = <<>> /\ pose \in 1..Len(Qs)
Grow(k) == /\ Len(parts) < Depth
           /\ parts' = Append(parts, k) /\ pose' = pose
           /\ \E raw \in {RawOf(Append(parts, k))} : \E nj \in {NrMoving(raw)} : \E lock \in {SubSeq(Locks[pose], 1, nj)} :
              EmitLines(Out, <<[unit |-> Script(raw, nj, Len(raw), SubSeq(Qs[pose], 1, nj), SubSeq(Qds[pose], 1, nj), lock,
                                                Cardinality({i \in 1..nj : ~lock[i]}))]>>)
Next == \E k \in 1..Len(Library) : Grow(k)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Loose == Dec(1, -5)
Dt == Dec(1, -6)
Later == AddN(Q, ScaleN(Qd, Dt))
Twists(x) == TwistOf(x[N + 1])
\* the Jacobian times the velocities is the twist; and its columns are the twists for unit velocities
JacobianIsVelocity == N > 0 =>
    LET x == PoseJets(Segs, Q, Qd)  j == JacobianOf(Segs, Q, N) IN
    /\ Close(TimesQ(j, Qd), TwistOf(x[N + 1]), Tol)
    /\ Close(PoseOf(x[N + 1]), Poses(Segs, Q)[N + 1], Tol)
    /\ \A k \in 1..NJ : Close(j[k], TwistOf(PoseJets(Segs, Q, IdN(NJ)[k])[N + 1]), Tol)
\* a short time later the chain is where its velocity takes it
VelocityIsRate == N > 0 =>
    LET x == PoseJets(Segs, Q, Qd)[N + 1]  y == Poses(Segs, Later)[N + 1] IN
    Close([M |-> MAdd(x.M[1], MScale(x.M[2], Dt)), p |-> Add(x.p[1], Scale(x.p[2], Dt))], y, Dec(1, -10))
\* and the Jacobian, in every representation and with locks, what its derivative makes of it
JacDotIsRate == N > 0 => \A rep \in {"hybrid", "body", "inertial"} :
    LET u == Unlocked(Qd, Lock)
        now == JacobianJ(Segs, Q, u, N, Lock, rep)
        then == JacobianJ(Segs, AddN(Q, ScaleN(u, Dt)), u, N, Lock, rep) IN
    \A k \in 1..Len(now) : Close(TwAdd(Value(now[k]), TwScale(Rate(now[k]), Dt)), Value(then[k]), Dec(1, -10))
\* the twist changes at the rate of the Jacobian's derivative times the velocities, if these are constant
BiasAcceleration == N > 0 =>
    LET now == JacobianJ(Segs, Q, Qd, N, NoLock(Segs), "hybrid")
        t1 == TwistOf(PoseJets(Segs, Q, Qd)[N + 1])  t2 == TwistOf(PoseJets(Segs, Later, Qd)[N + 1]) IN
    Close(TwAdd(t1, TwScale(TimesQ(Map1(now, Rate), Qd), Dt)), t2, Dec(1, -10))
\* at zero a segment is at its tip
TipAtZero == \A k \in 1..N : Close(SegPose(Segs[k], R0), Segs[k].tip, Tol)
=============================================================================
