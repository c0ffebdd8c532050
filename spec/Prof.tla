-------------------------------- MODULE Prof --------------------------------
(***************************************************************************)
(* Velocity profiles.  A motion is a list of pieces, each a polynomial in  *)
(* the time since its beginning.  A profile is its limits and the motion   *)
(* it was last given.  The shapes are defined by what they are for: the    *)
(* fastest motion from rest to rest, the fastest to or from full speed,    *)
(* one at constant velocity, one through given velocities and              *)
(* accelerations.  MCProf checks that they are.                            *)
(***************************************************************************)
EXTENDS Est

\* ---- polynomials: the coefficients of 1, t, t^2, ...
RECURSIVE PolyAt(_, _)
PolyAt(c, t) == IF c = <<>> THEN R0 ELSE Head(c) \oplus (t \otimes PolyAt(Tail(c), t))
RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN R1 ELSE x \otimes RPow(x, n - 1)
Derive(c) == IF Len(c) < 2 THEN <<R0>> ELSE [k \in 1..(Len(c) - 1) |-> R(k) \otimes c[k + 1]]

\* as a function of t / k
Slower(c, k) == [j \in 1..Len(c) |-> c[j] \oslash RPow(k, j - 1)]
\* as a function of h - t, for a polynomial of degree 2 at most
Mirrored(c, h) == LET c3 == IF Len(c) > 2 THEN c[3] ELSE R0 IN <<PolyAt(c, h), Neg(PolyAt(Derive(c), h)), c3>>

\* ---- motions
Piece(t0, t1, c) == [t0 |-> t0, t1 |-> t1, c |-> c]
Motion(from, to, dur, pieces) == [from |-> from, to |-> to, dur |-> dur, pieces |-> Tup(pieces)]
Still(p, dur) == Motion(p, p, dur, <<Piece(R0, dur, <<p>>)>>)
Jump(from, to) == Motion(from, to, R0, <<>>)
Stretched(m, k) == Motion(m.from, m.to, m.dur \otimes k, [j \in 1..Len(m.pieces) |-> LET x == m.pieces[j] IN Piece(x.t0 \otimes k, x.t1 \otimes k, Slower(x.c, k))])
\* the same run backwards
Reversed(m) == LET n == Len(m.pieces) IN
    Motion(m.to, m.from, m.dur, [j \in 1..n |-> LET x == m.pieces[n + 1 - j] IN Piece(m.dur \ominus x.t1, m.dur \ominus x.t0, Mirrored(x.c, x.t1 \ominus x.t0))])

SignOf(x) == IF x \prec R0 THEN Neg(R1) ELSE R1
\* from rest to rest: accelerate up to a speed, keep it, and slow down
RestToRest(lim, from, to) ==
    LET d == RAbs(to \ominus from)  s == SignOf(to \ominus from)  a == lim[2]
        top == RMin(lim[1], Sqrt(d \otimes a))
        up == top \oslash a
        dur == (d \oslash top) \oplus up
        s1 == s \otimes ((Half \otimes top) \otimes up)
        acc == Half \otimes (s \otimes a) IN
    IF d = R0 THEN Still(from, R0)
    ELSE Motion(from, to, dur, <<Piece(R0, up, <<from, R0, acc>>), Piece(up, dur \ominus up, <<from \oplus s1, s \otimes top>>),
                                 Piece(dur \ominus up, dur, <<to \ominus s1, s \otimes top, Neg(acc)>>)>>)
\* from rest to a speed of top, with an acceleration of a, after waiting for a while, and at that speed from then on
RunUp(from, to, top, a, wait) ==
    LET d == RAbs(to \ominus from)  s == SignOf(to \ominus from)  up == top \oslash a
        s1 == Half \otimes (top \otimes up)
        at == wait \oplus up
        dur == at \oplus ((d \ominus s1) \oslash top) IN
    Motion(from, to, dur, <<Piece(R0, wait, <<from>>), Piece(wait, at, <<from, R0, Half \otimes (s \otimes a)>>), Piece(at, dur, <<from \oplus (s \otimes s1), s \otimes top>>)>>)
TopSpeed(lim, from, to) == RMin(lim[1], Sqrt(R2 \otimes (RAbs(to \ominus from) \otimes lim[2])))
StartHalf(lim, from, to) == IF to = from THEN Still(from, R0) ELSE RunUp(from, to, TopSpeed(lim, from, to), lim[2], R0)
\* taking longer, the same speed is reached with less acceleration; taking longer than without any time at that speed, it waits
StartHalfFor(lim, from, to, dur) ==
    LET m == StartHalf(lim, from, to)  d == RAbs(to \ominus from)  top == TopSpeed(lim, from, to) IN
    IF to = from THEN Still(from, RMax(R0, dur))
    ELSE IF dur \preceq m.dur THEN m
    ELSE IF (top \otimes dur) \preceq (R2 \otimes d) THEN RunUp(from, to, top, Sqr(top) \oslash (R2 \otimes ((top \otimes dur) \ominus d)), R0)
    ELSE RunUp(from, to, top, Sqr(top) \oslash (R2 \otimes d), dur \ominus (R2 \otimes (d \oslash top)))
Straight(from, to, dur) == IF dur = R0 THEN Jump(from, to) ELSE Motion(from, to, dur, <<Piece(R0, dur, <<from, (to \ominus from) \oslash dur>>)>>)

\* ---- the polynomials through given positions, velocities and accelerations, as weights of these; x: the fraction of the duration
Pos5 == <<R1, R0, R0, R(-10), R(15), R(-6)>>
Vel5 == <<R0, R1, R0, R(-6), R(8), R(-3)>>
Acc5 == <<R0, R0, Half, Dec(-15, -1), Dec(15, -1), Dec(-5, -1)>>
Pos3 == <<R1, R0, R(-3), R2>>
Vel3 == <<R0, R1, R(-2), R1>>
\* c(1 - x)
OtherEnd(c) == LET n == Len(c)
                   choose(a, b) == CASE b = 0 -> 1 [] b = 1 -> a [] b = 2 -> (a * (a - 1)) \div 2 [] b = 3 -> (a * (a - 1) * (a - 2)) \div 6
                                     [] b = 4 -> (a * (a - 1) * (a - 2) * (a - 3)) \div 24 [] OTHER -> 1
                   sgn(k) == IF k % 2 = 0 THEN 1 ELSE -1 IN
    Tup([k \in 1..n |-> FoldL(LAMBDA y, j : y \oplus (IF j < k THEN R0 ELSE R(sgn(k - 1) * choose(j - 1, k - 1)) \otimes c[j]), R0, Tup([j \in 1..n |-> j]))])
Through(dur, parts) ==     \* parts: a tuple of <<weight, polynomial in the fraction>>
    LET n == Len(parts[1][2]) IN
    Slower([k \in 1..n |-> FoldL(LAMBDA y, p : y \oplus (p[1] \otimes p[2][k]), R0, parts)], dur)
Spline3(p1, v1, p2, v2, dur) ==
    Motion(p1, p2, dur, <<Piece(R0, dur, Through(dur, <<<<p1, Pos3>>, <<v1 \otimes dur, Vel3>>, <<p2, OtherEnd(Pos3)>>, <<Neg(v2 \otimes dur), OtherEnd(Vel3)>>>>))>>)
Spline5(p1, v1, a1, p2, v2, a2, dur) == LET d2 == Sqr(dur) IN
    Motion(p1, p2, dur, <<Piece(R0, dur, Through(dur, <<<<p1, Pos5>>, <<v1 \otimes dur, Vel5>>, <<a1 \otimes d2, Acc5>>,
                                                        <<p2, OtherEnd(Pos5)>>, <<Neg(v2 \otimes dur), OtherEnd(Vel5)>>, <<a2 \otimes d2, OtherEnd(Acc5)>>>>))>>)

\* ---- profiles: kind, limits (Trap: speed, acceleration; TrapHalf: and whether it starts; Rect: speed), motion, and how it came about
NewProfile(kind, lim) == [kind |-> kind, lim |-> lim, m |-> Still(R0, R0), by |-> "new"]
SetOf(f, from, to) ==
    CASE f.kind = "Trap" -> RestToRest(f.lim, from, to)
      [] f.kind = "TrapHalf" -> IF f.lim[3] THEN StartHalf(f.lim, from, to) ELSE Reversed(StartHalf(f.lim, to, from))
      [] f.kind = "Rect" -> IF from = to THEN Still(from, R0) ELSE Straight(from, to, RAbs(to \ominus from) \oslash f.lim[1])
      [] f.kind = "Dirac" -> Jump(from, to)
      [] f.kind = "Spline" -> f.m
SetForOf(f, from, to, dur) ==
    CASE f.kind = "Trap" -> LET m == SetOf(f, from, to) IN IF dur \preceq m.dur THEN m ELSE IF from = to THEN Still(from, dur) ELSE Stretched(m, dur \oslash m.dur)
      [] f.kind = "TrapHalf" -> IF f.lim[3] THEN StartHalfFor(f.lim, from, to, dur) ELSE Reversed(StartHalfFor(f.lim, to, from, dur))
      [] f.kind = "Rect" -> IF from = to THEN Still(from, dur) ELSE LET m == SetOf(f, from, to) IN IF dur \preceq m.dur THEN m ELSE Straight(from, to, dur)
      [] f.kind \in {"Dirac", "Spline"} -> Straight(from, to, dur)
\* at a fraction of the full speed
SetAtOf(f, from, to, part) == LET m == SetOf(f, from, to)  k == RMin(R1, RMax(part, Dec(1, -6))) IN IF from = to THEN m ELSE Stretched(m, R1 \oslash k)

\* ---- what is seen of a motion
\* how large the quantities involved are, for the rounding errors
Effort(m) == FoldL(LAMBDA y, x : y \oplus FoldL(LAMBDA z, k : z \oplus (RAbs(x.c[k]) \otimes RPow(m.dur, k - 1)), R0, Tup([k \in 1..(Len(x.c) - 1) |-> k + 1])), RAbs(m.to \ominus m.from), m.pieces)
Off(x, y, tol) == RAbs(x \ominus y) \preceq tol
Fine == Dec(1, -9)
\* the pieces which may decide about time t: both at the border of two
PiecesAt(m, t) == LET e == Fine \otimes m.dur  n == Len(m.pieces) IN
    {k \in 1..n : (m.pieces[k].t0 \ominus e) \preceq t /\ t \preceq (m.pieces[k].t1 \oplus e)}
\* row: [time, position, error or 0, velocity, error or 0, acceleration]; the kinds without an acceleration refuse to give one
Refusal == 3003
HasAcc(kind) == kind \notin {"Rect", "Dirac"}
HasVel(f) == ~(f.kind = "Dirac" /\ f.m.dur = R0)
\* a spline without a duration is at one of its ends at time zero, with any speed, and stays where it was then
AtOnce(f, row) ==
    LET near(p) == Off(row[2], p, Fine \otimes (RAbs(f.m.from) \oplus RAbs(f.m.to))) IN
    Chk("position", near(f.m.from) \/ near(f.m.to)) \cup Chk("velocity", row[3] = 0 /\ (row[4] = R0 \/ (row[1] = R0 /\ IsFinite(row[4]))))
    \cup Chk("acceleration", row[5] = 0 /\ (row[6] = R0 \/ (row[1] = R0 /\ IsFinite(row[6]))))
SeenRow(f, row) ==
    IF f.kind = "Spline" /\ f.m.dur = R0 THEN AtOnce(f, row) ELSE
    LET m == f.m  t == row[1]  w == Effort(m)
        wp == w \oplus (RAbs(m.from) \oplus RAbs(m.to))
        wv == IF m.dur = R0 THEN R0 ELSE Dec(1, -8) \otimes (w \oslash m.dur)
        wa == IF m.dur = R0 THEN R0 ELSE Dec(1, -7) \otimes (w \oslash Sqr(m.dur))
        before == t \prec R0  after == m.dur \prec t
        inside == \/ (before /\ Off(t, R0, Fine \otimes m.dur)) \/ (after /\ Off(t, m.dur, Fine \otimes m.dur)) \/ (~before /\ ~after)
        ks == PiecesAt(m, t)
        pos == IF m.pieces = <<>> THEN {IF t \preceq R0 THEN m.from ELSE m.to}
               ELSE (IF before THEN {m.from} ELSE IF after THEN {m.to} ELSE {PolyAt(m.pieces[k].c, t \ominus m.pieces[k].t0) : k \in ks})
        rest == IF before \/ after \/ (f.kind = "Dirac" /\ (t = R0 \/ t = m.dur)) THEN {R0} ELSE {}
        vel == rest \cup (IF inside THEN {PolyAt(Derive(m.pieces[k].c), t \ominus m.pieces[k].t0) : k \in ks} ELSE {})
        acc == rest \cup (IF inside THEN {PolyAt(Derive(Derive(m.pieces[k].c)), t \ominus m.pieces[k].t0) : k \in ks} ELSE {}) IN
    Chk("position", \E p \in pos : Off(row[2], p, Fine \otimes wp))
    \cup (IF HasVel(f) THEN Chk("velocity", row[3] = 0 /\ \E v \in vel : Off(row[4], v, wv)) ELSE Chk("no-velocity", row[3] = Refusal))
    \cup (IF HasAcc(f.kind) THEN Chk("acceleration", row[5] = 0 /\ IF t = R0 /\ m.dur = R0 THEN IsFinite(row[6]) ELSE \E v \in acc : Off(row[6], v, wa)) ELSE Chk("no-acceleration", row[5] = Refusal))
\* which property what is seen belongs to
ProfileLabels(f, names) == {"C27." \o x : x \in names} \cup (IF f.by \in {"new", "set"} THEN {} ELSE {"C28." \o x : x \in names})
SeenProfile(f, r) ==
    ProfileLabels(f, Chk("duration", Off(r[1], f.m.dur, Fine \otimes f.m.dur)) \cup UNION {SeenRow(f, r[2][k]) : k \in 1..Len(r[2])})

ProfOps == {"m.new", "m.set", "m.setdur", "m.setat", "m.spline", "m.max", "m.clone", "m.drop", "m.look"}
ProfOp(h, op, a, r) == IF op = "m.look" THEN SeenProfile(h[a[1]], r) ELSE {}
ProfPost(h, e) ==
  LET op == e.op  a == e.a IN
  IF op \in {"m.look"} THEN h
  ELSE IF op = "m.new" THEN Put(h, a[1], NewProfile(a[2], a[3]))
  ELSE IF op = "m.clone" THEN Put(h, a[1], [h[a[2]] EXCEPT !.by = "clone"])
  ELSE IF op = "m.drop" THEN Del(h, a[1])
  ELSE LET f == h[a[1]] IN
       Put(h, a[1],
       CASE op = "m.set" -> IF f.kind = "Spline" THEN f ELSE [f EXCEPT !.m = SetOf(f, a[2], a[3]), !.by = "set"]
         [] op = "m.setdur" -> [f EXCEPT !.m = SetForOf(f, a[2], a[3], a[4]), !.by = "setdur"]
         [] op = "m.setat" -> [f EXCEPT !.m = SetAtOf(f, a[2], a[3], a[4]), !.by = "setat"]
         [] op = "m.spline" -> [f EXCEPT !.m = IF a[Len(a)] = R0 THEN Jump(a[2], a[IF Len(a) = 6 THEN 4 ELSE 5]) ELSE IF Len(a) = 6 THEN Spline3(a[2], a[3], a[4], a[5], a[6]) ELSE Spline5(a[2], a[3], a[4], a[5], a[6], a[7], a[8]), !.by = "spline"]
         [] op = "m.max" -> [f EXCEPT !.lim = a[2]])
=============================================================================
