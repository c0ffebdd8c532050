-------------------------------- MODULE MCIk --------------------------------
(***************************************************************************)
(* Inverse kinematics on arms grown segment by segment, and the iteration  *)
(* of Newton and Raphson on them.  The invariants say that what Ik asks    *)
(* for are the minimisers it claims: normal equations, least norm, nothing *)
(* of the task lost in the null space; that the iteration stays within     *)
(* limits, stays at a goal and finds one which is near; and that the       *)
(* verdicts of Ik on velocities accept these and refuse others.            *)
(***************************************************************************)
EXTENDS Ik

CONSTANTS Arms,         \* how many of the arms to begin with
          Depth,        \* segments added
          Rounds         \* of the iteration
VARIABLES parts, grown, \* the segments, as indices, and how many of them were added
          pose,         \* which start, goal, twist and weights
          q, steps      \* where the iteration is
vars == <<parts, grown, pose, q, steps>>
Out == Env("KDL_EMIT")
Prop == Env("KDL_PROP")
O(name, args) == [op |-> name, a |-> args]

NoBody == [m |-> R0, c |-> Zero3, I |-> ZeroN(6)]
J(k, o, a, s, f) == [n |-> k, k |-> k, o |-> o, a |-> a, s |-> s, f |-> f, i |-> R0, d |-> R0, t |-> R0]
S(j, tip) == [n |-> "s", j |-> j, tip |-> tip, in |-> NoBody]
Tilt == << <<Dec(6, -1), Dec(-8, -1), R0>>, <<Dec(8, -1), Dec(6, -1), R0>>, <<R0, R0, R1>> >>
Turn == << <<R0, R0, R1>>, <<R1, R0, R0>>, <<R0, R1, R0>> >>
Library == <<
    S(J("RotZ", Zero3, EZ, R1, R0), Fr(I3, <<R1, R0, R0>>)),
    S(J("RotAxis", <<R0, R1, R(-1)>>, <<R1, R2, R2>>, R(-2), Dec(3, -1)), Fr(Tilt, <<R0, R1, Half>>)),
    S(J("TransAxis", <<R1, R0, R0>>, <<R0, R(3), R(-4)>>, Half, R1), Fr(Turn, <<R0, R0, R1>>)),
    S(J("RotY", Zero3, EY, R1, R0), Fr(I3, <<Half, R0, R1>>)),
    S(J("Fixed", Zero3, Zero3, R1, R0), Fr(Turn, <<R1, R(-1), R0>>)),
    S(J("TransX", Zero3, EX, R1, R0), FId) >>
Starts == << <<>>, <<1, 1, 1>>, <<1, 4, 2>>, <<6, 3, 1, 2>>, <<1, 4, 4, 2, 1>> >>
Qs == << ZeroN(8), <<R1, Dec(-7, -1), Dec(3, -1), R2, Half, Dec(-12, -1), R1, Dec(2, -1)>>, <<Dec(-25, -1), R1, R(-1), Dec(4, -1), R(3), Half, Dec(-4, -1), R0>> >>
Away8 == << <<Dec(1, -2), Dec(-2, -2), R0, Dec(1, -2), Dec(1, -2), R0, Dec(-1, -2), R0>>, <<Dec(-1, -3), Dec(2, -3), Dec(1, -3), R0, Dec(-1, -3), Dec(1, -3), R0, Dec(1, -3)>>, ZeroN(8) >>
Vs == << Tw(<<R1, R0, Half>>, <<R0, R(-1), R0>>), Tw(<<Dec(-3, -1), R2, R1>>, <<R1, Half, R(-2)>>), Tw(Zero3, EZ) >>
Lambdas == <<R0, Dec(1, -1), Half>>
Epss == <<Dec(1, -5), Dec(1, -5), Dec(2, -1)>>
\* weights of n: none, some zeros, one which is not diagonal
Weights(n) == CASE pose = 1 -> IdN(n)
                [] pose = 2 -> Tup([i \in 1..n |-> Tup([k \in 1..n |-> IF i # k \/ i = 2 THEN R0 ELSE Dec(3 + i, -1)])])
                [] OTHER -> Tup([i \in 1..n |-> Tup([k \in 1..n |-> IF i = k THEN R2 ELSE IF i - k \in {1, -1} THEN Dec(3, -1) ELSE R0])])

NamesOf == <<"e", "b", "h", "a", "g", "c", "f", "d", "i", "j">>
RawOf(ps) == Tup([k \in 1..Len(ps) |-> [Library[ps[k]] EXCEPT !.n = NamesOf[k], !.j.n = NamesOf[k]]])
Segs == SegsOf(RawOf(parts))
N == Len(parts)
NJ == NrMoving(Segs)
From == SubSeq(Qs[pose], 1, NJ)
GoalQ == AddN(From, SubSeq(Away8[pose], 1, NJ))
TipAt(x) == Poses(Segs, x)[N + 1]
GoalF == TipAt(GoalQ)
Mat(x) == JacMat(JacobianOf(Segs, x, N))
Lo == Tup([k \in 1..NJ |-> R(-4)])
Hi == Tup([k \in 1..NJ |-> R(4)])

(* the same segments as a tree: the last hangs beside the one before it *)
Hook(ps, k) == IF k = 1 THEN "root" ELSE IF k = Len(ps) /\ k > 2 THEN NamesOf[k - 2] ELSE NamesOf[k - 1]
EndsOf(ps) == IF Len(ps) > 2 THEN <<NamesOf[Len(ps) - 1], NamesOf[Len(ps)]>> ELSE IF Len(ps) = 0 THEN <<"root">> ELSE <<NamesOf[Len(ps)]>>
Alphabet == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j">>
Rank(n) == CHOOSE k \in 1..10 : Alphabet[k] = n
Sorted(e) == IF Len(e) = 2 /\ Rank(e[2]) < Rank(e[1]) THEN <<e[2], e[1]>> ELSE e
TheTree == LET segs == Segs IN
    [root |-> "root", nj |-> NJ,
     el |-> [n \in {NamesOf[k] : k \in 1..N} |-> LET k == CHOOSE i \in 1..N : NamesOf[i] = n IN
             [par |-> Hook(parts, k), q |-> IF Moves(segs[k].j) THEN NrMoving(SubSeq(segs, 1, k - 1)) ELSE 0, seg |-> segs[k]]]]
Ends == Sorted(EndsOf(parts))

(* scripts *)
Vels == <<"pinv", "givens", "wdls", "nso">>
ScriptOf(raw, nj, ends, from, goalq, wq, wx6, wx) ==
    LET t == Tup([k \in 1..3 |-> [vel |-> Vs[k].vel, rot |-> Vs[k].rot]])
        calls == Tup([k \in 1..3 |-> <<IF k = 3 THEN goalq ELSE from, t[k]>>])
        lam == Lambdas[pose]  eps == Epss[pose]
        lo == Tup([k \in 1..nj |-> R(-4)])  hi == Tup([k \in 1..nj |-> R(4)])
        goals == << <<from, goalq, FId, nj>>, <<goalq, goalq, FId, nj>>, <<from, <<>>, Fr(Turn, <<R1, R1, R0>>), nj>>, <<goalq, from, FId, nj + 1>>, <<from \o <<R0>>, goalq, FId, nj>> >>
        Many(f) == Tup([k \in 1..Len(ends) |-> <<ends[k], f>>])
        tgoals == Tup([k \in 1..Len(goals) |-> [goals[k] EXCEPT ![3] = Many(@)]]) IN
    CASE Prop = "C23" ->
            <<O("c.new", <<"c", raw>>), O("c.pinv", <<"c", eps, nj, calls>>), O("c.givens", <<"c", nj, calls>>),
              O("c.nso", <<"c", eps, Dec(25, -2), Tup([k \in 1..nj |-> Half]), Tup([k \in 1..nj |-> Dec(k, -1)]), FALSE, nj, calls>>),
              O("c.wdls", <<"c", eps, lam, wq, wx6, nj, calls>>)>>
      [] Prop = "C24" ->
            <<O("c.new", <<"c", raw>>)>>
            \o Tup([k \in 1..4 |-> O("c.ikp", <<"c", "nr", Vels[k], <<>>, 60, Dec(1, -5), goals>>)])
            \o Tup([k \in 1..4 |-> O("c.ikp", <<"c", IF k = 1 THEN "nr_jl_set" ELSE "nr_jl", Vels[k], <<lo, hi>>, 60, Dec(1, -5), goals>>)])
            \o (IF nj = 0 THEN <<>> ELSE <<O("c.ikp", <<"c", "lma", "pinv", <<>>, 100, Dec(1, -5), goals>>)>>)
      [] OTHER ->
            <<O("t.new", <<"t", "root">>)>> \o Tup([k \in 1..Len(raw) |-> O("t.add", <<"t", raw[k], IF k = 1 THEN "root" ELSE IF k = Len(raw) /\ k > 2 THEN NamesOf[k - 2] ELSE NamesOf[k - 1]>>)])
            \o <<O("t.wdls", <<"t", ends, lam, wq, wx, nj, Tup([k \in 1..3 |-> <<calls[k][1], Tup([i \in 1..Len(ends) |-> <<ends[i], t[1 + ((k + i) % 3)]>>])>>])>>),
                 O("t.ikp", <<"t", ends, lo, hi, 60, Dec(1, -5), R0, tgoals>>),
                 O("t.online", <<"t", ends, lo, hi, Tup([k \in 1..nj |-> Dec(k, -3)]), Half, R1, lam, tgoals>>)>>
Emit(ps) ==
    \E raw \in {RawOf(ps)} : \E nj \in {NrMoving(raw)} : \E ends \in {Sorted(EndsOf(ps))} :
    \E from \in {SubSeq(Qs[pose], 1, nj)} : \E goalq \in {AddN(from, SubSeq(Away8[pose], 1, nj))} :
        EmitLines(Out, <<[unit |-> ScriptOf(raw, nj, ends, from, goalq, Weights(nj), Weights(6), Weights(6 * Len(ends)))]>>)

Init == /\ pose \in 1..Len(Qs) /\ \E k \in 1..Arms : parts = Starts[k]
        /\ grown = 0 /\ steps = 0 /\ q = SubSeq(Qs[pose], 1, NrMoving(RawOf(parts)))
Grow == /\ grown < Depth /\ steps = 0
        /\ \E k \in 1..Len(Library) :
              /\ parts' = Append(parts, k)
              /\ q' = SubSeq(Qs[pose], 1, NrMoving(RawOf(parts')))
              /\ Emit(parts')
        /\ grown' = grown + 1 /\ UNCHANGED <<pose, steps>>
\* one step towards the goal, not beyond the limits
Iterate == /\ steps < Rounds /\ NJ > 0
           /\ q' = Clamped(AddN(q, PseudoInverse(Svd(Mat(q)), TwVec(Away(TipAt(q), GoalF)), Dec(1, -5), NJ)), Lo, Hi)
           /\ steps' = steps + 1 /\ UNCHANGED <<parts, grown, pose>>
Next == Grow \/ Iterate
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
SvdAt == Svd(Mat(q))
Clear(s) == \A k \in 1..Len(s) : s[k] \prec Dec(1, -12) \/ Dec(1, -3) \prec s[k]
Size(v) == R1 \oplus MaxAbs(v)
\* A x is as near to v as it can be: what is left over is across everything A can give
Normal(A, x, v, lambda) == LET At0 == TrN(A)  e == SubN(MatVec(A, x), v) IN
    Close(AddN(MatVec(At0, e), ScaleN(x, Sqr(lambda))), ZeroN(Len(x)), Dec(1, -8) \otimes Size(x))
\* and x the shortest which gives that: nothing of it is in the null space
Shortest(d, x) == Close(x, FoldL(LAMBDA y, k : IF d[2][k] \prec Dec(1, -9) THEN y ELSE AddN(y, ScaleN(d[3][k], DotN(d[3][k], x))), ZeroN(Len(x)), Tup([k \in 1..Len(d[2]) |-> k])), Dec(1, -8) \otimes Size(x))
V == TwVec(Vs[pose])
PseudoInverseIsLeast == (NJ > 0 /\ Clear(SvdAt[2])) =>
    LET x == PseudoInverse(SvdAt, V, Dec(1, -9), NJ) IN Normal(Mat(q), x, V, R0) /\ Shortest(SvdAt, x)
\* with weights: of the weighted task, the least in the weighted joints
WeightedIsLeast == (NJ > 0) =>
    LET wq == Weights(NJ)  wx == Weights(6)  A == WithWeights(wx, Mat(q), wq)  d == Svd(A)  b == MatVec(wx, V) IN
    Clear(d[2]) => LET z == PseudoInverse(d, b, Dec(1, -9), NJ) IN
        Normal(A, z, b, R0) /\ Shortest(d, z)
\* damped: the least sum of the error and of the velocity, damped
DampedIsLeast == (NJ > 0) =>
    LET names == Ends  A == WithWeights(Weights(6 * Len(names)), Stacked(TheTree, q, names), Weights(NJ))  d == Svd(A)
        b == MatVec(Weights(6 * Len(names)), StackedTw(names, LAMBDA n : Vs[pose])) IN
    Clear(d[2]) => Normal(A, DampedInverse(d, b, Lambdas[pose], NJ), b, Lambdas[pose])
\* the second task moves nothing of the first, and its goal comes nearer
SecondaryIsFree == (NJ > 0 /\ Clear(SvdAt[2])) =>
    LET opt == Tup([k \in 1..NJ |-> Half])  w == Tup([k \in 1..NJ |-> Dec(k, -1)])
        x == Secondary(SvdAt, Dec(1, -9), q, opt, w, Dec(25, -2), NJ) IN
    /\ Close(MatVec(Mat(q), x), ZeroN(6), Dec(1, -7) \otimes Size(x))
    /\ DotN(MulElt(w, SubN(q, opt)), x) \preceq (Dec(1, -8) \otimes Size(x))
\* the Jacobian of the tree is those of its branches
StackedIsBranches == (NJ > 0) =>
    \A k \in 1..Len(Ends) : LET n == Ends[k]  m == Stacked(TheTree, q, Ends) IN
        \A i \in 1..6 : m[6 * (k - 1) + i] = JacMat(TreeColumns(TheTree, q, n))[i]

(* the verdicts *)
Bumped(x) == [x EXCEPT ![1] = @ \oplus Dec(1, -1)]
Freed(d, x) == AddN(x, SubN(ScaleN(Tup([k \in 1..Len(x) |-> R1]), Half), FoldL(LAMBDA y, k : IF d[2][k] \prec Dec(1, -9) THEN y ELSE AddN(y, ScaleN(d[3][k], Half \otimes SumSeq(d[3][k]))), ZeroN(Len(x)), Tup([k \in 1..Len(d[2]) |-> k]))))
Fine(d, x) == Clear(d[2]) /\ MaxAbs(x) \prec R(1000)
VerdictOnPinv == (NJ > 0 /\ steps = 0) =>
    LET eps == Epss[pose]  d == SvdAt  s == d[2]  x == PseudoInverse(d, V, eps, NJ)  a == <<"c", eps, NJ, <<>>>>  call == <<q, Vs[pose]>>
        z == NrBelow(s, eps)
        E(y) == <<IF z > 0 THEN Singular ELSE 0, IF z > 0 THEN Singular ELSE 0, y, <<z + NJ - Len(s), 0>>, q>> IN
    (Decided(s, eps) /\ Fine(d, x)) =>
        /\ PinvCheck(Segs, a, call, E(x)) = {}
        /\ PinvCheck(Segs, a, call, E(Bumped(x))) = {"C23.pinv"}
        /\ PinvCheck(Segs, a, call, [E(x) EXCEPT ![5] = Bumped(q)]) = {"C23.inputs-unchanged"}
        /\ PinvCheck(Segs, a, call, [E(x) EXCEPT ![1] = IF z > 0 THEN 0 ELSE Singular]) = {"C23.code", "C23.error"}
        /\ PinvCheck(Segs, a, call, [E(x) EXCEPT ![1] = -4, ![2] = -4]) = {"C23.refuses-size"}
        /\ LET y == Freed(d, x) IN (Dec(1, -3) \prec MaxAbs(SubN(y, x))) => PinvCheck(Segs, a, call, E(y)) = {"C23.pinv"}
VerdictOnSizes == (NJ > 0 /\ steps = 0) =>
    LET a == <<"c", Dec(1, -5), NJ + 1, <<>>>>  call == <<q, Vs[pose]>> IN
    /\ PinvCheck(Segs, a, call, <<-4, -4, <<>>, <<0, 0>>, q>>) = {}
    /\ "C23.refuses-size" \in PinvCheck(Segs, a, call, <<0, 0, q, <<0, 0>>, q>>)
    /\ GivensCheck(Segs, <<"c", NJ + 1, <<>>>>, call, <<-4, -4, <<>>, <<>>, q>>) = {}
VerdictOnGivens == (NJ > 0 /\ steps = 0 /\ R0 \prec SvdAt[2][1] /\ ~Vague(SvdAt[2])) =>
    LET x == PseudoInverse(SvdAt, V, Dec(1, -10) \otimes SvdAt[2][1], NJ)  a == <<"c", NJ, <<>>>>  call == <<q, Vs[pose]>> IN
    Fine(SvdAt, x) => /\ GivensCheck(Segs, a, call, <<0, 0, x, <<>>, q>>) = {}
                      /\ (Slack(SvdAt[2], MaxAbs(V), Dec(1, -10)) \prec Dec(1, -9)) => GivensCheck(Segs, a, call, <<0, 0, Bumped(x), <<>>, q>>) = {"C23.givens"}
VerdictOnTree == (NJ > 0 /\ steps = 0) =>
    LET t == TheTree  names == Ends  n == 6 * Len(names)  wq == Weights(NJ)  wx == Weights(n)  lam == Lambdas[pose]
        a == <<"t", names, lam, wq, wx, NJ, <<>>>>
        call == <<q, Tup([k \in 1..Len(names) |-> <<names[k], Vs[k]>>])>>
        b == MatVec(wx, StackedTw(names, LAMBDA x : Named(call[2], x)))
        d == Svd(WithWeights(wx, Stacked(t, q, names), wq))  x == MatVec(wq, DampedInverse(d, b, lam, NJ)) IN
    (Fine(d, x) /\ ~Unclear(d[2], lam)) =>
        /\ TreeWdlsCheck(t, a, call, <<NormN(b), x>>) = {}
        /\ TreeWdlsCheck(t, a, call, <<NormN(b) \oplus Dec(1, -3), x>>) = {"C25.residual"}
        /\ TreeWdlsCheck(t, a, call, <<NormN(b), Bumped(x)>>) = {"C25.velocities"}
        /\ TreeWdlsCheck(t, a, call, <<R(-1), x>>) = {"C25.refuses"}
        /\ "C25.refuses" \in TreeWdlsCheck(t, a, <<q, Tail(call[2])>>, <<NormN(b), x>>)

(* the iteration *)
IterationKeepsLimits == Within(q, Lo, Hi)
Err == TwVec(Away(TipAt(q), GoalF))
StartsNear == NJ > 0 /\ NearGoal(Svd(Mat(From))[2], SubN(GoalQ, From))
FindsNear == (StartsNear /\ steps >= 6) => MaxAbs(Err) \prec Dec(1, -9)
\* every step halves the error at least, until there is nothing left of it
EveryStepHelps == StartsNear => NormN(Err) \preceq ((NormN(TwVec(Away(TipAt(From), GoalF))) ) \oslash R(CASE steps = 0 -> 1 [] steps = 1 -> 2 [] steps = 2 -> 4 [] OTHER -> 8)) \oplus Dec(1, -12)
StaysAtGoal == GoalQ = From => Close(q, From, Dec(1, -9))
\* what it gives is accepted at the goal, and refused as a success anywhere else
VerdictOnPositions == (NJ > 0 /\ StartsNear /\ ~(RAbs(ApartNR(TipAt(q), GoalF) \ominus Dec(1, -5)) \prec Dec(1, -6))) =>
    LET a == <<"c", "nr", "pinv", <<>>, 60, Dec(1, -5), <<>>>>  call == <<From, GoalQ, FId, NJ>>
        there == ApartNR(TipAt(q), GoalF) \prec Dec(9, -6) IN
    /\ IkPosCheck(Segs, a, call, <<0, 0, q, From>>) = IF there THEN {} ELSE IF GoalQ = From THEN {"C24.success-is-there", "C24.stays"} ELSE {"C24.success-is-there"}
    /\ "C24.finds-near" \in IkPosCheck(Segs, a, call, <<-5, -5, q, From>>)
    /\ "C24.limits" \in IkPosCheck(Segs, <<"c", "nr_jl", "pinv", <<Lo, Lo>>, 60, Dec(1, -5), <<>>>>, call, <<-5, -5, q, From>>)
=============================================================================
