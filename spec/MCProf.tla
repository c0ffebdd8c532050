------------------------------- MODULE MCProf -------------------------------
(***************************************************************************)
(* Histories of a velocity profile: planned in every way, its limits       *)
(* changed, cloned, the original planned again.  Checks that the motions   *)
(* of Prof are what they are for, by criteria their construction does not  *)
(* use: continuity, ends, limits, and that nothing could be faster.  Every *)
(* complete history becomes a script.                                      *)
(***************************************************************************)
EXTENDS Prof

CONSTANT Depth
VARIABLES f, copy, done     \* the profile, its clone (or <<>>), the operations so far
vars == <<f, copy, done>>
Out == Env("KDL_EMIT")
Prop == Env("KDL_PROP")
O(name, args) == [op |-> name, a |-> args]

Two == {<<R1, R2>>, <<Dec(5, -1), Dec(1, -1)>>}
Limits(kind) == CASE kind = "Trap" -> Two
                  [] kind = "TrapHalf" -> {Append(l, b) : l \in Two, b \in BOOLEAN}
                  [] kind = "Rect" -> {<<R1>>, <<Dec(25, -2)>>}
                  [] OTHER -> {<<>>}
Ends == {<<R1, R1>>, <<R0, R(3)>>, <<R1, Dec(9, -1)>>, <<Dec(-2, 0), Dec(-7, 0)>>}
Durations == {Dec(1, -1), R(4), R(40)}
Parts == {Dec(5, -1), R0, R(2)}
Looks == <<Dec(-1, -1), R0, Dec(1, -2), Dec(1, -1), Dec(3, -1), Half, Dec(65, -2), Dec(95, -2), R1, Dec(11, -1)>>
Times == <<Dec(-1, 0), Dec(2, -1), Dec(17, -1), R(1000)>>
Look(name) == O("m.look", <<name, Looks, Times>>)

Init == \E kind \in {"Trap", "TrapHalf", "Rect", "Dirac", "Spline"} : \E l \in Limits(kind) :
            /\ f = NewProfile(kind, l) /\ copy = <<>> /\ done = <<O("m.new", <<"p", kind, l>>), Look("p")>>
Args(name, kind) ==
    CASE name = "m.set" -> IF kind = "Spline" THEN {} ELSE Ends
      [] name = "m.setdur" -> {<<e[1], e[2], d>> : e \in Ends, d \in Durations}
      [] name = "m.setat" -> IF kind = "Trap" THEN {<<e[1], e[2], d>> : e \in Ends, d \in Parts} ELSE {}
      [] name = "m.spline" -> IF kind # "Spline" THEN {}
                              ELSE UNION {{<<e[1], R1, e[2], Dec(-3, -1), d>>, <<e[1], R1, R2, e[2], Dec(-3, -1), Half, d>>} : e \in Ends, d \in Durations}
      [] name = "m.max" -> IF kind \in {"Trap", "TrapHalf", "Rect"} THEN {<<l>> : l \in Limits(kind) \ {f.lim}} ELSE {}
After2(name, args) == ProfPost([p |-> f], [op |-> name, a |-> args]).p
NrSteps == Cardinality({k \in 1..Len(done) : done[k].op \notin {"m.new", "m.look"}})
Act == \E name \in {"m.set", "m.setdur", "m.setat", "m.spline", "m.max"} : \E args \in Args(name, f.kind) :
          /\ f' = After2(name, <<"p">> \o args)
          /\ done' = done \o <<O(name, <<"p">> \o args), Look("p")>> \o (IF copy = <<>> THEN <<>> ELSE <<Look("c")>>)
          /\ UNCHANGED copy
Copy == /\ copy = <<>> /\ copy' = <<f>> /\ UNCHANGED f
        /\ done' = done \o <<O("m.clone", <<"c", "p">>), Look("c"), Look("p")>>
Next == /\ NrSteps < Depth
        /\ (Act \/ Copy)
        /\ (NrSteps = Depth - 1 => EmitLines(Out, <<[unit |-> done']>>))
Spec == Init /\ [][Next]_vars

\* ---- the criteria
M == f.m
NP == Len(M.pieces)
From(k, c) == PolyAt(c, R0)
UpTo(k, c) == PolyAt(c, M.pieces[k].t1 \ominus M.pieces[k].t0)
Vel(k) == Derive(M.pieces[k].c)
AccOf(k) == Derive(Vel(k))
Lasts(k) == M.pieces[k].t1 \ominus M.pieces[k].t0
Eps == Dec(1, -9) \otimes (R1 \oplus Effort(M))
Near(x, y) == Off(x, y, Eps)
Pieced == NP > 0 => /\ M.pieces[1].t0 = R0 /\ Near(M.pieces[NP].t1, M.dur)
                    /\ \A k \in 1..NP : M.pieces[k].t0 \preceq (M.pieces[k].t1 \oplus Eps)
                    /\ \A k \in 1..(NP - 1) : M.pieces[k].t1 = M.pieces[k + 1].t0
Reaches == NP > 0 => Near(From(1, M.pieces[1].c), M.from) /\ Near(UpTo(NP, M.pieces[NP].c), M.to)
Continuous == \A k \in 1..(NP - 1) : Near(UpTo(k, M.pieces[k].c), From(k + 1, M.pieces[k + 1].c)) /\ Near(UpTo(k, Vel(k)), From(k + 1, Vel(k + 1)))
LastOp == LET ks == {k \in 1..Len(done) : done[k].op \notin {"m.look", "m.clone"}} IN done[CHOOSE k \in ks : \A j \in ks : j <= k]
Planned == LastOp.op \in {"m.set", "m.setdur", "m.setat"}
Limited == (Planned /\ f.kind \in {"Trap", "TrapHalf"}) =>
    \A k \in 1..NP : /\ RAbs(AccOf(k)[1]) \preceq (f.lim[2] \oplus Eps)
                     /\ RAbs(From(k, Vel(k))) \preceq (f.lim[1] \oplus Eps) /\ RAbs(UpTo(k, Vel(k))) \preceq (f.lim[1] \oplus Eps)
RectLimited == (Planned /\ f.kind = "Rect") => \A k \in 1..NP : RAbs(From(k, Vel(k))) \preceq (f.lim[1] \oplus Eps)
\* at every moment the motion is at full speed or speeds up or slows down as hard as it may
AtTheLimit == \A k \in 1..NP : Lasts(k) \preceq Eps \/ Near(RAbs(AccOf(k)[1]), f.lim[2]) \/ (Near(AccOf(k)[1], R0) /\ Near(RAbs(From(k, Vel(k))), f.lim[1]))
Fastest == (LastOp.op = "m.set" /\ f.kind \in {"Trap", "TrapHalf"} /\ M.from # M.to) => AtTheLimit
RestEnds == (Planned /\ f.kind = "Trap" /\ NP > 0) => Near(From(1, Vel(1)), R0) /\ Near(UpTo(NP, Vel(NP)), R0)
\* a half profile is at rest at one end, and at the other at full speed or as fast as the distance allows
HalfEnds == (Planned /\ f.kind = "TrapHalf" /\ M.from # M.to) =>
    LET v1 == RAbs(From(1, Vel(1)))  v2 == RAbs(UpTo(NP, Vel(NP)))  top == TopSpeed(f.lim, M.from, M.to) IN
    IF f.lim[3] THEN Near(v1, R0) /\ Near(v2, top) ELSE Near(v2, R0) /\ Near(v1, top)
\* as long as asked, unless that is too short
AsLong == LastOp.op = "m.setdur" =>
    LET asked == LastOp.a[4]  least == IF f.kind \in {"Trap", "TrapHalf", "Rect"} THEN SetOf(f, M.from, M.to).dur ELSE R0 IN
    Near(M.dur, RMax(asked, least))
\* at the fraction of the speed, in reverse proportion of the time
AtPart == LastOp.op = "m.setat" => LET k == RMin(R1, RMax(LastOp.a[4], Dec(1, -6))) IN Near(k \otimes M.dur, SetOf(f, M.from, M.to).dur)
SplineEnds == LastOp.op = "m.spline" =>
    LET a == LastOp.a  five == Len(a) = 8  v2 == IF five THEN a[6] ELSE a[5] IN
    /\ Near(From(1, Vel(1)), a[3]) /\ Near(UpTo(1, Vel(1)), v2) /\ Near(M.dur, a[Len(a)])
    /\ (five => Off(From(1, AccOf(1)), a[4], Eps \oslash RMin(R1, Sqr(M.dur))) /\ Off(UpTo(1, AccOf(1)), a[7], Eps \oslash RMin(R1, Sqr(M.dur))))
=============================================================================
