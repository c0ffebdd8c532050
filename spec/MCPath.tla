------------------------------- MODULE MCPath -------------------------------
(***************************************************************************)
(* Paths grown part by part from a few lines, circles and corners, put     *)
(* into composites, repeated, rounded, and travelled by every kind of      *)
(* profile.  Checks what Path says of them by other means: velocities are  *)
(* the differences of poses, accelerations those of velocities, parts meet *)
(* where the next begins, corners are smooth and stay within their radius, *)
(* lengths are what the equivalent radius makes of translation and         *)
(* rotation.  Every path and trajectory becomes a script.                  *)
(***************************************************************************)
EXTENDS Path

CONSTANTS Depth, Wide
VARIABLES x, at         \* the expression, and where the next part starts
vars == <<x, at>>
Out == Env("KDL_EMIT")
Prop == Env("KDL_PROP")
O(name, args) == [op |-> name, a |-> args]

Offs == {<<R1, R0, R0>>, Zero3} \cup (IF Wide THEN {<<R0, Dec(15, -1), Neg(R1)>>} ELSE {})
Turns == {I3, RotAbout(Unit(<<R1, R2, Neg(R1)>>), Dec(12, -1))} \cup (IF Wide THEN {RotZ(Dec(-25, -1))} ELSE {})
Start == Fr(RotAbout(Unit(<<R1, R1, R0>>), Dec(4, -1)), <<R1, Dec(-5, -1), R2>>)
Next1(f, d, m) == Fr(MM(f.M, m), Add(f.p, d))
Eqs == {R2} \cup (IF Wide THEN {Dec(1, -1)} ELSE {})
Angles == {R0, R(4)} \cup (IF Wide THEN {Half} ELSE {})
Lines(f) == {[k |-> "line", f |-> f, to |-> Next1(f, d, m), eq |-> e, own |-> TRUE] : d \in Offs, m \in Turns, e \in Eqs}
Circles(f) == {[k |-> "circle", f |-> f, c |-> Add(f.p, <<R0, R1, R0>>), p |-> Add(f.p, <<R1, R1, Half>>), m |-> MM(f.M, m), alpha |-> q, eq |-> e, own |-> TRUE] :
                   m \in Turns, q \in Angles, e \in Eqs}
Last(p) == LET ends == PathAt(p, p.len, R0, R0) IN (CHOOSE e \in ends : TRUE)[1]
Comp(parts) == [k |-> "comp", parts |-> Tup(parts), mine |-> Tup([k \in 1..Len(parts) |-> TRUE])]
\* the corners of a rounded path, relative to the one before
Steps3 == {<<R2, R0, R0>>, <<R0, R2, R0>>, <<R1, R1, Neg(R1)>>, <<Neg(R1), R0, R0>>}
Round(pts) == [k |-> "round", pts |-> pts, rad |-> Dec(3, -1), eq |-> Half, own |-> TRUE]

Fractions == <<R1, R0, Dec(37, -2), Dec(81, -2), Half>>
Look(y) == <<[unit |-> <<O(IF Prop = "C30" THEN "p.life" ELSE "p.look", <<y, Fractions, Dec(7, -1), Dec(-4, -1), Dec(3, -1)>>)>>]>>
\* travelling: every kind of profile
Profiles == {[kind |-> "Trap", lim |-> <<R1, R2>>, how |-> "set", from |-> R0, to |-> R1, dur |-> R0],
             [kind |-> "Trap", lim |-> <<R1, R2>>, how |-> "setat", from |-> R1, to |-> R0, dur |-> Half],
             [kind |-> "TrapHalf", lim |-> <<R1, R2, TRUE>>, how |-> "setdur", from |-> R0, to |-> R1, dur |-> R(5)],
             [kind |-> "TrapHalf", lim |-> <<R1, R2, FALSE>>, how |-> "ctor", from |-> R0, to |-> R1, dur |-> R(5)],
             [kind |-> "Rect", lim |-> <<R2>>, how |-> "set", from |-> R0, to |-> R1, dur |-> R0],
             [kind |-> "Dirac", lim |-> <<>>, how |-> "ctor", from |-> R0, to |-> R1, dur |-> R2],
             [kind |-> "Spline", lim |-> <<>>, how |-> "spline", from |-> R0, to |-> R1, dur |-> R2]}
Seg(y, v) == [k |-> "seg", path |-> y, prof |-> v, own |-> TRUE]
Trajectories(y) == {Seg(y, v) : v \in Profiles}
                   \cup {[k |-> "comp", before |-> FALSE, parts |-> <<Seg(y, v), [k |-> "still", dur |-> Half, pos |-> at], Seg(y, w)>>] : v \in {u \in Profiles : u.how = "set"}, w \in {u \in Profiles : u.how = "ctor"}}
RECURSIVE SetToTuple(_)
SetToTuple(s) == IF s = {} THEN <<>> ELSE LET e == CHOOSE e \in s : TRUE IN <<e>> \o SetToTuple(s \ {e})
Travelled(y) == LET ts == Trajectories(y) IN
    SetToTuple({[unit |-> <<O(IF Prop = "C30" THEN "j.life" ELSE "j.look", <<t, Fractions \o <<Dec(-2, -1), Dec(13, -1)>>, <<Dec(4, -1), Dec(-1, 0)>>>>)>>] : t \in ts})
Emitted(y) == EmitLines(Out, IF Prop = "C31" THEN Travelled(y) ELSE Look(y))

Init == x = [k |-> "none"] /\ at = Start
Short(y) == PathOf(y).len = R0
Size == IF x.k = "none" THEN 0 ELSE CASE x.k \in {"comp", "round"} -> (IF x.k = "comp" THEN Len(x.parts) ELSE Len(x.pts) - 1) [] x.k = "cyc" -> 99 [] OTHER -> 1
First == /\ x.k = "none"
         /\ \E y \in Lines(Start) \cup Circles(Start) \cup {[k |-> "point", f |-> Start]} : x' = y /\ at' = Last(PathOf(y)) /\ Emitted(y)
Grow == /\ x.k # "none" /\ x.k \in {"line", "circle", "point", "comp"} /\ Size < Depth
        /\ \E y \in Lines(at) \cup Circles(at) :
              /\ x' = Comp(IF x.k = "comp" THEN Append(x.parts, y) ELSE <<x, y>>)
              /\ at' = Last(PathOf(y)) /\ Emitted(x')
Repeat == /\ x.k # "none" /\ x.k \in {"line", "circle", "comp"} /\ ~Short(x)
          /\ x' = [k |-> "cyc", part |-> x, n |-> 2, mine |-> TRUE] /\ UNCHANGED at /\ Emitted(x')
Corners == /\ x.k = "none" \/ (x.k # "none" /\ x.k = "round" /\ Len(x.pts) <= Depth + 1)
           /\ \E d \in Steps3, m \in Turns : LET f == Next1(at, d, m) IN
                 /\ x' = Round(IF x.k = "none" THEN <<Start, f>> ELSE Append(x.pts, f))
                 /\ at' = (IF IsError(PathOf(x')) THEN at ELSE LET s == RoundedFrom(x'.pts, x'.rad, x'.eq)[2] IN IF s.n = 1 THEN s.start ELSE s.via)
                 /\ Emitted(x')
Next == First \/ Grow \/ Repeat \/ Corners
Spec == Init /\ [][Next]_vars

\* ---- the criteria
P == PathOf(x)
Given == x.k # "none" /\ ~IsError(P)
Step == Dec(1, -5)
Inside == {s \in {P.len \otimes y : y \in {Dec(13, -2), Dec(29, -2), Dec(52, -2), Dec(77, -2)}} :
              \A e \in {Step, Neg(Step), R0} : Cardinality(PathAt(P, s \oplus e, R1, R0)) = 1}
One(s, v, a) == CHOOSE y \in PathAt(P, s, v, a) : TRUE
\* the twist from pose f to g, in the time 2 Step
RateOf(f, g) == LET h == R2 \otimes Step IN Tw(Div(Sub(g.p, f.p), h), Div(RotVec(MM(g.M, Tr(f.M))), h))
DiffTw(a, b) == TwDiv(TwSub(b, a), R2 \otimes Step)
\* passing s at time 0 with speed 0.8 and acceleration 0.6
MotionAt(s, t) == One(s \oplus ((Dec(8, -1) \otimes t) \oplus (Dec(3, -1) \otimes Sqr(t))), Dec(8, -1) \oplus (Dec(6, -1) \otimes t), Dec(6, -1))
Derivatives == (Given /\ P.len # R0) =>
    \A s \in Inside : LET m == MotionAt(s, R0)  b == MotionAt(s, Neg(Step))  n == MotionAt(s, Step) IN
        Close(RateOf(b[1], n[1]), m[2], Dec(1, -6)) /\ Close(DiffTw(b[2], n[2]), m[3], Dec(1, -6))
\* every part begins where the one before ends
Leaves == IF P.k = "comp" THEN P.parts ELSE <<P>>
Connected == Given => \A k \in 1..(Len(Leaves) - 1) :
    \E e \in PathAt(Leaves[k], Leaves[k].len, R0, R0), b \in PathAt(Leaves[k + 1], R0, R0, R0) : Close(e[1], b[1], Dec(1, -8))
\* a rounded path keeps its direction at every joint, goes from the first point to the last, and is never further from
\* a corner than the tangents are long
Linear(p, s) == (CHOOSE e \in PathAt(p, s, R1, R0) : TRUE)[2].vel
Smooth == (Given /\ x.k = "round") => \A k \in 1..(Len(P.parts) - 1) :
    LET a == P.parts[k]  b == P.parts[k + 1] IN (a.lin # R0 /\ b.lin # R0) => Close(Unit(Linear(a, a.len)), Unit(Linear(b, R0)), Dec(1, -7))
RoundEnds == (Given /\ x.k = "round" /\ P.parts # <<>>) =>
    LET s == RoundedFrom(x.pts, x.rad, x.eq) IN
    /\ Close((CHOOSE e \in PathAt(P.parts[1], R0, R0, R0) : TRUE)[1], x.pts[1], Dec(1, -8))
    /\ Close((CHOOSE e \in PathAt(P.parts[Len(P.parts)], P.parts[Len(P.parts)].len, R0, R0) : TRUE)[1], IF s[2].n = 1 THEN s[2].start ELSE s[2].via, Dec(1, -8))
RoundRadius == (Given /\ x.k = "round") => \A k \in 1..Len(P.parts) : P.parts[k].k = "circle" => Close(P.parts[k].rad, x.rad, Dec(1, -8))
\* neither the point nor a point at the equivalent radius moves faster than the parameter, and one of them as fast
Balanced == (Given /\ x.k \in {"line", "circle"} /\ P.len # R0) => \A s \in Inside :
    LET v == One(s, R1, R0)[2]  a == Norm(v.vel)  b == x.eq \otimes Norm(v.rot) IN Close(RMax(a, b), R1, Dec(1, -8))
\* of trajectories: the same by time
TrajGood(t) == LET y == TrajOf(t)
                   at1(u) == {z \in TrajAt(y, u) : TRUE} IN
    y.dur # R0 => \A u \in {y.dur \otimes w : w \in {Dec(17, -2), Dec(41, -2), Dec(68, -2), Dec(91, -2)}} :
        (\A e \in {Step, Neg(Step), R0} : Cardinality(at1(u \oplus e)) = 1) =>
            LET m == CHOOSE z \in at1(u) : TRUE  b == CHOOSE z \in at1(u \ominus Step) : TRUE  n == CHOOSE z \in at1(u \oplus Step) : TRUE IN
            /\ (m[2] = 0 => Close(RateOf(b[1], n[1]), m[3], Dec(1, -5)))
            /\ (m[4] = 0 => Close(DiffTw(b[3], n[3]), m[5], Dec(1, -4)))
TrajSane == (Given /\ Prop = "C31" /\ Leaves # <<>>) => \A t \in Trajectories(x) : TrajGood(t)
=============================================================================
