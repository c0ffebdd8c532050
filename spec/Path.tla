-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* Paths and trajectories.  A path is described by an expression, which is *)
(* also what the driver builds it from.  A line or circle is traversed     *)
(* evenly: at the parameter s, the fraction s / length of its displacement *)
(* and of its rotation about one axis has been made.  MCPath and MCTraj    *)
(* check that velocities are derivatives and rounded corners are smooth.   *)
(***************************************************************************)
EXTENDS Prof

\* ---- the paths
Turn(from, to) == RotVec(MM(Tr(from), to))
PointPath(f) == [k |-> "point", f |-> f, len |-> R0]
LinePath(f, p, m, eq) == LET w == Turn(f.M, m)  d == Norm(Sub(p, f.p)) IN
    [k |-> "line", f |-> f, to |-> p, w |-> w, lin |-> d, len |-> RMax(d, eq \otimes Norm(w))]
CirclePath(f, c, p, m, alpha, eq) ==
    LET rad == Norm(Sub(f.p, c))  ex == Unit(Sub(f.p, c))  n == Cross(ex, Unit(Sub(p, c)))  ey == Cross(Unit(n), ex)  w == Turn(f.M, m)  d == alpha \otimes rad IN
    IF rad \prec Dec(1, -6) THEN [k |-> "error", error |-> 3001]
    ELSE IF Norm(n) \prec Dec(1, -6) THEN [k |-> "error", error |-> 3002]
    ELSE [k |-> "circle", f |-> f, c |-> c, ex |-> ex, ey |-> ey, rad |-> rad, alpha |-> alpha, w |-> w, lin |-> d, len |-> RMax(d, eq \otimes Norm(w))]
LengthOf(parts) == FoldL(LAMBDA y, x : y \oplus x.len, R0, parts)
CompPath(parts) == [k |-> "comp", parts |-> Tup(parts), len |-> LengthOf(parts)]
StartOf(parts, k) == LengthOf(SubSeq(parts, 1, k - 1))

\* what of a leaf is passed at the fraction x, whose derivatives are xd and xdd
LeafAt(p, x, xd, xdd) ==
    LET m == MM(p.f.M, RotExp(Scale(p.w, x)))  rot(y) == MV(p.f.M, Scale(p.w, y)) IN
    IF p.k = "line" THEN LET d == Sub(p.to, p.f.p) IN
        <<Fr(m, Add(p.f.p, Scale(d, x))), Tw(Scale(d, xd), rot(xd)), Tw(Scale(d, xdd), rot(xdd))>>
    ELSE LET q == p.alpha \otimes x  qd == p.alpha \otimes xd  qdd == p.alpha \otimes xdd
             out == Add(Scale(p.ex, Cos(q)), Scale(p.ey, Sin(q)))
             on == Add(Scale(p.ex, Neg(Sin(q))), Scale(p.ey, Cos(q))) IN
        <<Fr(m, Add(p.c, Scale(out, p.rad))), Tw(Scale(on, p.rad \otimes qd), rot(xd)),
          Tw(Scale(Sub(Scale(on, qdd), Scale(out, Sqr(qd))), p.rad), rot(xdd))>>
\* the parts which may decide about the parameter s: both at a joint
Joint9 == Dec(1, -9)
PartsAt(parts, s) == LET e == Joint9 \otimes (R1 \oplus LengthOf(parts)) IN
    {k \in 1..Len(parts) : LET b == StartOf(parts, k) IN (b \ominus e) \preceq s /\ s \preceq ((b \oplus parts[k].len) \oplus e)}
Clip(x, hi) == RMax(R0, RMin(x, hi))
\* nothing moves along a path without length
Anything == <<>>
Fits(got, want, tol) == want = Anything \/ Close(got, want, tol)
\* the poses, velocities and accelerations a path may have at s
RECURSIVE PathAt(_, _, _, _)
PathAt(p, s, sd, sdd) ==
    CASE p.k = "point" -> {<<p.f, TwZero, TwZero>>}
      [] p.k \in {"line", "circle"} ->
             IF p.len = R0 THEN LET x == LeafAt(p, R0, R0, R0) IN {IF sd = R0 /\ sdd = R0 THEN x ELSE <<x[1], Anything, Anything>>} ELSE {LeafAt(p, s \oslash p.len, sd \oslash p.len, sdd \oslash p.len)}
      [] p.k = "comp" -> UNION {PathAt(p.parts[k], Clip(s \ominus StartOf(p.parts, k), p.parts[k].len), sd, sdd) : k \in PartsAt(p.parts, s)}
      [] p.k = "cyc" -> UNION {LET in == s \ominus (R(j) \otimes p.part.len)  e == Joint9 \otimes (R1 \oplus p.len) IN
                               IF in \preceq (p.part.len \oplus e) /\ Neg(e) \preceq in THEN PathAt(p.part, Clip(in, p.part.len), sd, sdd) ELSE {} : j \in 0..p.n}

\* ---- rounded corners: lines between points, with circles where they meet
NoRound == [n |-> 0, start |-> FId, via |-> FId, parts |-> <<>>, clear |-> TRUE]
\* the pose at a distance along a line
AlongLine(p, d) == LeafAt(p, d \oslash p.lin, R0, R0)[1]
\* clear: no length or angle was close to where something else is to be done
Corner(st0, f, rad, eq) ==      \* 0 or the number of the error, and the new state
    LET ab == Sub(st0.via.p, st0.start.p)  bc == Sub(f.p, st0.via.p)
        small == Dec(1, -7)
        turn == Atan2(Norm(Cross(ab, bc)), Dot(ab, bc))
        d == rad \otimes (Sin(turn) \oslash (R1 \oplus Cos(turn)))        \* the tangent of half the angle
        tiny == Dec(2, -6)
        far(x) == \/ x \prec Neg(tiny) \/ tiny \prec x
        st == [st0 EXCEPT !.clear = /\ st0.clear
                                    /\ (Norm(ab) \prec Dec(1, -8) \/ tiny \prec Norm(ab)) /\ (Norm(bc) \prec Dec(1, -8) \/ tiny \prec Norm(bc))
                                    /\ (turn \prec Dec(5, -8) \/ tiny \prec turn) /\ ((Pi \ominus turn) \prec Dec(5, -8) \/ tiny \prec (Pi \ominus turn))
                                    /\ (Dec(5, -8) \prec turn /\ tiny \prec (Pi \ominus turn) => far(d) /\ far(Norm(ab) \ominus d) /\ far(Norm(bc) \ominus d))]
        line1 == LinePath(st.start, st.via.p, st.via.M, eq)
        line2 == LinePath(st.via, f.p, f.M, eq)
        cs == AlongLine(line1, line1.lin \ominus d)
        ce == AlongLine(line2, d)
        in == Unit(Sub(Unit(bc), Scale(Unit(ab), Dot(Unit(ab), Unit(bc)))))       \* to the side it turns to
    IN
    IF Norm(ab) \prec small THEN <<3102, st>>
    ELSE IF Norm(bc) \prec small THEN <<3103, st>>
    ELSE IF (Pi \ominus turn) \prec small THEN <<3104, st>>
    ELSE IF turn \prec small THEN <<0, [n |-> st.n + 1, start |-> st.via, via |-> f, parts |-> Append(st.parts, line1), clear |-> st.clear]>>
    ELSE IF Norm(ab) \preceq d THEN <<3105, st>>
    ELSE IF Norm(bc) \preceq d THEN <<3106, st>>
    ELSE <<0, [n |-> st.n + 1, start |-> ce, via |-> f,
               parts |-> st.parts \o <<LinePath(st.start, cs.p, cs.M, eq), CirclePath(cs, Add(cs.p, Scale(in, rad)), ce.p, ce.M, turn, eq)>>, clear |-> st.clear]>>
AddPoint(st, f, rad, eq) ==
    IF st.n = 0 THEN <<0, [st EXCEPT !.n = 1, !.start = f]>>
    ELSE IF st.n = 1 THEN <<0, [st EXCEPT !.n = 2, !.via = f]>>
    ELSE Corner(st, f, rad, eq)
RoundedFrom(pts, rad, eq) == FoldL(LAMBDA y, f : LET x == AddPoint(y[2], f, rad, eq) IN <<Append(y[1], x[1]), x[2]>>, <<<<>>, NoRound>>, pts)
Finished(st, eq) == CompPath(IF st.n = 1 THEN <<PointPath(st.start)>> ELSE IF st.n = 0 THEN <<>> ELSE Append(st.parts, LinePath(st.start, st.via.p, st.via.M, eq)))

\* ---- the path an expression stands for; x.k: its kind
IsError(p) == p.k = "error"
RECURSIVE PathOf(_)
PathOf(x) ==
    CASE x.k = "point" -> PointPath(x.f)
      [] x.k = "line" -> LinePath(x.f, x.to.p, x.to.M, x.eq)
      [] x.k = "twist" -> LinePath(x.f, Add(x.f.p, x.t.vel), MM(x.f.M, RotExp(x.t.rot)), x.eq)
      [] x.k = "circle" -> CirclePath(x.f, x.c, x.p, x.m, x.alpha, x.eq)
      [] x.k = "comp" -> LET ps == [k \in 1..Len(x.parts) |-> PathOf(x.parts[k])]  bad == {k \in 1..Len(ps) : IsError(ps[k])} IN
                         IF bad = {} THEN CompPath(ps) ELSE ps[CHOOSE k \in bad : \A j \in bad : k <= j]
      [] x.k = "round" -> IF x.eq \preceq R0 THEN [k |-> "error", error |-> 3101] ELSE Finished(RoundedFrom(x.pts, x.rad, x.eq)[2], x.eq)
      [] x.k = "cyc" -> LET p == PathOf(x.part) IN IF IsError(p) THEN p ELSE [k |-> "cyc", part |-> p, n |-> x.n, len |-> R(x.n) \otimes p.len]
RECURSIVE IsClear(_)
IsClear(x) == CASE x.k = "round" -> x.eq \preceq R0 \/ RoundedFrom(x.pts, x.rad, x.eq)[2].clear
                [] x.k = "comp" -> \A k \in 1..Len(x.parts) : IsClear(x.parts[k])
                [] x.k = "cyc" -> IsClear(x.part)
                [] OTHER -> TRUE
Identity(x) == CASE x.k \in {"line", "twist"} -> 1 [] x.k = "circle" -> 2 [] x.k = "comp" -> 3 [] x.k = "round" -> 4 [] x.k = "point" -> 5 [] x.k = "cyc" -> 6

\* ---- what is seen of a path.  r: [error, errors of the points, identifier, length, rows, segments, length to parameter]
PoseTol == Dec(1, -8)
PathRow(p, sd, sdd, row) ==     \* row: [s, pose, velocity, acceleration, segment, inner parameter]
    LET all == PathAt(p, row[1], sd, sdd)
        poses == {x \in all : Close(row[2], x[1], PoseTol)} IN
    Chk("pose", poses # {})
    \cup (IF poses = {} THEN {} ELSE Chk("velocity", \E x \in poses : Fits(row[3], x[2], PoseTol)) \cup Chk("acceleration", \E x \in poses : Fits(row[4], x[3], PoseTol)))
    \cup (IF p.k # "comp" THEN {}
          ELSE LET k == row[5] + 1 IN
               Chk("segment", k \in 1..Len(p.parts) /\ (k \in 1..Len(p.parts) => Close(row[6], row[1] \ominus StartOf(p.parts, k), Joint9) /\ k \in PartsAt(p.parts, row[1]))))
SeenSegments(p, segs) ==        \* [number, where each ends, the length of each]
    IF p.k # "comp" THEN {}
    ELSE Chk("segments", segs[1] = Len(p.parts) /\ (segs[1] = Len(p.parts) =>
             \A k \in 1..Len(p.parts) : Close(segs[2][k], StartOf(p.parts, k) \oplus p.parts[k].len, PoseTol) /\ Close(segs[3][k], p.parts[k].len, PoseTol)))
LengthToS(p, got, x) ==         \* got: [error, parameter]
    CASE p.k \in {"line", "circle"} -> IF p.lin = R0 THEN {} ELSE Chk("length-to-s", got[1] = 0 /\ Close(got[2] \otimes (p.lin \oslash p.len), x, PoseTol))
      [] p.k \in {"comp", "cyc"} -> Chk("length-to-s", got[1] = 3004)
      [] p.k = "point" -> {}
SeenPath(x, fr, sd, sdd, dist, r) ==
    IF ~IsClear(x) THEN {} ELSE
    LET p == PathOf(x) IN
    Chk("error", r[1] = IF IsError(p) THEN p.error ELSE 0)
    \cup (IF r[1] # 0 \/ IsError(p) THEN {}
          ELSE (IF x.k = "round" THEN Chk("refuses", r[2] = RoundedFrom(x.pts, x.rad, x.eq)[1]) ELSE {})
               \cup Chk("identifier", r[3] = Identity(x)) \cup Chk("length", Close(r[4], p.len, Joint9))
               \cup Chk("rows", Len(r[5]) = Len(fr))
               \cup UNION {PathRow(p, sd, sdd, r[5][k]) : k \in 1..Len(r[5])}
               \cup SeenSegments(p, r[6]) \cup LengthToS(p, r[7], dist))

\* ---- trajectories
\* the positions, velocities and accelerations a profile may have at time t
ProfileAt(f, t) ==
    LET m == f.m  before == t \prec R0  after == m.dur \prec t
        inside == \/ (before /\ Off(t, R0, Fine \otimes m.dur)) \/ (after /\ Off(t, m.dur, Fine \otimes m.dur)) \/ (~before /\ ~after)
        in(k) == LET c == m.pieces[k].c  u == t \ominus m.pieces[k].t0 IN <<PolyAt(c, u), PolyAt(Derive(c), u), PolyAt(Derive(Derive(c)), u)>> IN
    (IF before \/ (Off(t, R0, Fine \otimes m.dur) /\ f.kind = "Dirac") \/ (m.pieces = <<>> /\ t \preceq R0) THEN {<<m.from, R0, R0>>} ELSE {})
    \cup (IF after \/ (Off(t, m.dur, Fine \otimes m.dur) /\ f.kind = "Dirac" /\ m.dur # R0) THEN {<<m.to, R0, R0>>} ELSE {})
    \cup (IF inside THEN {in(k) : k \in PiecesAt(m, t)} ELSE {})
\* y: [kind, limits, how, fraction of the length from, to, ...]
PlannedFor(y, len) ==
    LET f == NewProfile(y.kind, y.lim)  from == y.from \otimes len  to == y.to \otimes len IN
    CASE y.how = "set" -> [f EXCEPT !.m = SetOf(f, from, to)]
      [] y.how \in {"setdur", "ctor"} -> [f EXCEPT !.m = SetForOf(f, from, to, y.dur)]
      [] y.how = "setat" -> [f EXCEPT !.m = SetAtOf(f, from, to, y.dur)]
      [] y.how = "spline" -> [f EXCEPT !.m = Spline5(from, R0, R0, to, R0, R0, y.dur)]
RECURSIVE TrajOf(_)
TrajOf(x) ==
    CASE x.k = "seg" -> LET p == PathOf(x.path)  f == PlannedFor(x.prof, p.len) IN [k |-> "seg", path |-> p, f |-> f, dur |-> f.m.dur]
      [] x.k = "still" -> [k |-> "still", pos |-> x.pos, dur |-> x.dur]
      [] x.k = "comp" -> LET ps == Tup([k \in 1..Len(x.parts) |-> TrajOf(x.parts[k])]) IN
                         [k |-> "comp", parts |-> ps, dur |-> FoldL(LAMBDA y, p : y \oplus p.dur, R0, ps)]
TimeOf(parts, k) == FoldL(LAMBDA y, p : y \oplus p.dur, R0, SubSeq(parts, 1, k - 1))
\* <<pose, 0 or error, velocity, 0 or error, acceleration>>
RECURSIVE TrajAt(_, _)
TrajAt(y, t) ==
    CASE y.k = "still" -> {<<y.pos, 0, TwZero, 0, TwZero>>}
      [] y.k = "seg" -> UNION {{<<x[1], IF HasVel(y.f) THEN 0 ELSE Refusal, x[2], IF HasAcc(y.f.kind) THEN 0 ELSE Refusal, IF t = R0 /\ y.dur = R0 THEN Anything ELSE x[3]>> : x \in PathAt(y.path, s[1], s[2], s[3])} : s \in ProfileAt(y.f, t)}
      [] y.k = "comp" ->
             LET n == Len(y.parts)  e == Fine \otimes (R1 \oplus y.dur)
                 rest(z) == {<<x[1], 0, TwZero, 0, TwZero>> : x \in z}
                 here(k) == LET b == TimeOf(y.parts, k)  d == y.parts[k].dur  u == t \ominus b IN
                            IF (b \ominus e) \preceq t /\ t \preceq ((b \oplus d) \oplus e) THEN TrajAt(y.parts[k], RMin(RMax(u, R0), d)) ELSE {} IN
             (IF t \prec R0 THEN rest(TrajAt(y.parts[1], R0)) ELSE {})
             \cup (IF y.dur \prec t THEN rest(TrajAt(y.parts[n], y.parts[n].dur)) ELSE {})
             \cup (IF (t \prec Neg(e)) \/ (y.dur \oplus e) \prec t THEN {} ELSE UNION {here(k) : k \in 1..n})
\* how fast things may change, for the rounding errors
TrajRow(y, row) ==
    LET all == TrajAt(y, row[1])
        poses == {x \in all : Close(row[2], x[1], PoseTol)}
        vels == {x \in poses : x[2] = row[3] /\ (x[2] = 0 => Fits(row[4], x[3], Dec(1, -7)))} IN
    Chk("pose", poses # {}) \cup (IF poses = {} THEN {} ELSE Chk("velocity", vels # {}))
    \cup (IF poses = {} THEN {} ELSE Chk("acceleration", \E x \in poses : x[4] = row[5] /\ (x[4] = 0 => Fits(row[6], x[5], Dec(1, -6)))))
RECURSIVE ClearTraj(_)
ClearTraj(x) == CASE x.k = "seg" -> IsClear(x.path) [] x.k = "comp" -> \A k \in 1..Len(x.parts) : ClearTraj(x.parts[k]) [] OTHER -> TRUE
SeenTraj(x, r) == IF ~ClearTraj(x) THEN {} ELSE LET y == TrajOf(x) IN
    Chk("duration", Close(r[1], y.dur, Joint9)) \cup UNION {TrajRow(y, r[2][k]) : k \in 1..Len(r[2])}

\* ---- a rotation about one axis.  a: start, end, ...; r: [angle, rows of the original, of its clone]
TurnRow(m, w, td, tdd, row) ==      \* row: [angle, rotation, velocity, acceleration]
    LET u == Unit(w) IN
    Chk("rotation", Close(row[2], MM(m, RotExp(Scale(u, row[1]))), PoseTol))
    \cup Chk("velocity", Close(row[3], MV(m, Scale(u, td)), PoseTol)) \cup Chk("acceleration", Close(row[4], MV(m, Scale(u, tdd)), PoseTol))
SeenTurn(a, angle, rows) ==
    LET w == Turn(a[1], a[2]) IN
    Chk("angle", Close(angle, Norm(w), Dec(1, -7)))
    \cup (IF Norm(w) \prec Dec(1, -5) THEN {} ELSE UNION {TurnRow(a[1], w, a[4], a[5], rows[k]) : k \in 1..Len(rows)})

Labelled(p, names) == {p \o "." \o x : x \in names}
PathOps == {"o.look", "p.look", "p.life", "j.look", "j.life"}
\* a life: what was seen of the original and of its clones, and how many bytes were left behind
PathOp(op, a, r) ==
    CASE op = "o.look" -> Labelled("C29", SeenTurn(a, r[1], r[2])) \cup Labelled("C30", SeenTurn(a, r[1], r[3]))
      [] op = "p.look" -> Labelled("C29", SeenPath(a[1], a[2], a[3], a[4], a[5], r))
      [] op = "p.life" -> Labelled("C30", UNION {SeenPath(a[1], a[2], a[3], a[4], a[5], r[1][k]) : k \in 1..Len(r[1])} \cup Chk("leak", r[2] = 0))
      [] op = "j.look" -> Labelled("C31", SeenTraj(a[1], r))
      [] op = "j.life" -> Labelled("C30", UNION {SeenTraj(a[1], r[1][k]) : k \in 1..Len(r[1])} \cup Chk("leak", r[2] = 0))
=============================================================================
