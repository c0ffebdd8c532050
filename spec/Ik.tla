--------------------------------- MODULE Ik --------------------------------
(***************************************************************************)
(* Inverse kinematics.  The velocities asked for are those of the          *)
(* pseudo-inverse of a weighted Jacobian: of all joint velocities with the *)
(* least error the least one, where singular values below a limit count as *)
(* zero or are damped (MCIk checks that these are the minimisers).         *)
(* Positions are judged by forward kinematics only.                        *)
(***************************************************************************)
EXTENDS Dyn

----------------------------------------------------------------------------
\* the matrix with these twists as its columns
JacMat(cols) == IF Len(cols) = 0 THEN Tup([i \in 1..6 |-> <<>>]) ELSE TrN(Map1(cols, TwVec))
WithWeights(mx, j, mq) == MatMul(MatMul(mx, j), mq)
\* the sum over the singular values s of D(s) (U.v) V
Inverted(svd, v, D(_), n) ==
    FoldL(LAMBDA q, k : IF svd[2][k] = R0 THEN q ELSE AddN(q, ScaleN(svd[3][k], D(svd[2][k]) \otimes DotN(svd[1][k], v))),
          ZeroN(n), Tup([k \in 1..Len(svd[2]) |-> k]))
PseudoInverse(svd, v, eps, n) == Inverted(svd, v, LAMBDA s : IF s \prec eps THEN R0 ELSE R1 \oslash s, n)
NrBelow(s, eps) == Cardinality({k \in 1..Len(s) : s[k] \prec eps})
\* no singular value so near to the limit that rounding may take it across
Decided(s, eps) == \A k \in 1..Len(s) : ~(RAbs(s[k] \ominus eps) \preceq ((Dec(1, -5) \otimes eps) \oplus (Dec(1, -13) \otimes s[1])))
Smallest(s, eps) == FoldL(LAMBDA m, x : IF x \prec eps THEN m ELSE RMin(m, x), IF Len(s) = 0 THEN R1 ELSE RMax(s[1], eps), s)
Largest(s) == IF Len(s) = 0 THEN R0 ELSE s[1]
\* what rounding may make of a velocity of size v
Slack(s, v, eps) == LET m == Smallest(s, eps) IN Dec(1, -6) \otimes ((RMax(Largest(s), R1) \otimes v) \oslash (m \otimes m))
GoodVel(label, got, want, slack) == Chk(label, Close(<<got, slack>>, <<want, slack>>, DynTol))
SizeChk(ok, r) == Chk("C23.refuses-size", (r[1] = -4) = ~ok) \cup Chk("C23.error", r[2] = r[1])
Singular == 100

\* too few iterations were allowed for the decomposition, as the argument k tells: no velocities
Failing(a, k, result) == Len(a) = k /\ a[k] # 0 /\ result # 0
FailureCheck(r, n) == Chk("C23.svd-failed", r[1] = -8 /\ r[3] = ZeroN(n))
\* r: [rc, error, velocity, more]
PinvCheck(segs, a, call, r) ==
    LET nj == NrMoving(segs)  q == call[1]  v == TwVec(call[2])  eps == a[2]  ok == Len(q) = nj /\ a[3] = nj IN
    SizeChk(ok, r) \cup Chk("C23.inputs-unchanged", r[5] = q)
    \cup (IF ~ok \/ r[1] = -4 THEN {} ELSE IF Failing(a, 5, r[4][2]) THEN FailureCheck(r, nj)
          ELSE LET d == Svd(JacMat(JacobianOf(segs, q, Len(segs))))  s == d[2] IN
               IF ~Decided(s, eps) THEN {}
               ELSE Chk("C23.code", r[1] = IF NrBelow(s, eps) > 0 THEN Singular ELSE 0)
                    \cup Chk("C23.zero-singular-values", r[4] = <<NrBelow(s, eps) + nj - Len(s), 0>>)
                    \cup GoodVel("C23.pinv", r[3], PseudoInverse(d, v, eps, nj), Slack(s, MaxAbs(v), eps)))
\* found with singular vectors orthogonal to some 3e-8 only; without a limit: what is zero up to rounding counts as zero
Vague(s) == \E k \in 1..Len(s) : s[k] \prec (Dec(1, -6) \otimes s[1]) /\ (Dec(3, -16) \otimes s[1]) \prec s[k]
GivensCheck(segs, a, call, r) ==
    LET nj == NrMoving(segs)  q == call[1]  v == TwVec(call[2])  ok == Len(q) = nj /\ a[2] = nj IN
    SizeChk(ok, r) \cup Chk("C23.inputs-unchanged", r[5] = q)
    \cup (IF ~ok \/ r[1] = -4 THEN {}
          ELSE LET d == Svd(JacMat(JacobianOf(segs, q, Len(segs))))  s == d[2]  eps == IF Len(s) = 0 \/ s[1] = R0 THEN R1 ELSE Dec(1, -10) \otimes s[1] IN
               Chk("C23.code", r[1] = 0)
               \cup (IF Vague(s) THEN {} ELSE GoodVel("C23.givens", r[3], PseudoInverse(d, v, eps, nj), Dec(1, 7) \otimes Slack(s, MaxAbs(v), eps))))
\* the way down the gradient of the half sum of w (q - opt)^2, as far as alpha says, without what moves the task
Secondary(d, eps, q, opt, w, alpha, n) ==
    LET e == SubN(q, opt)
        g == Half \otimes SumSeq(MulElt(w, MulElt(e, e)))
        we == MulElt(w, e)
        A == DotN(we, we)
        z == DivN(we, A)
        along == FoldL(LAMBDA y, k : IF d[2][k] \prec eps THEN y ELSE AddN(y, ScaleN(d[3][k], DotN(d[3][k], z))), ZeroN(n), Tup([k \in 1..Len(d[2]) |-> k])) IN
    IF A \preceq Dec(1, -9) THEN ZeroN(n) ELSE ScaleN(SubN(z, along), Neg(R2 \otimes alpha \otimes g))
NsoCheck(segs, a, call, r) ==
    LET nj == NrMoving(segs)  q == call[1]  v == TwVec(call[2])  eps == a[2]  ok == Len(q) = nj /\ a[7] = nj /\ ((nj = 0 /\ ~a[6]) \/ (Len(a[4]) = nj /\ Len(a[5]) = nj)) IN
    SizeChk(ok, r) \cup Chk("C23.inputs-unchanged", r[5] = q)
    \cup (IF ~ok \/ r[1] = -4 THEN {} ELSE IF Failing(a, 9, r[4][1]) THEN FailureCheck(r, nj)
          ELSE LET d == Svd(JacMat(JacobianOf(segs, q, Len(segs))))  s == d[2]  sec == Secondary(d, eps, q, a[4], a[5], a[3], nj) IN
               IF ~Decided(s, eps) THEN {}
               ELSE Chk("C23.code", r[1] = 0)
                    \cup GoodVel("C23.nullspace", r[3], AddN(PseudoInverse(d, v, eps, nj), sec), Slack(s, MaxAbs(v), eps) \oplus (Dec(1, -4) \otimes MaxAbs(q))))
SquareOf(m, n) == Len(m) = n /\ \A k \in 1..n : Len(m[k]) = n
WdlsCheck(segs, a, call, r) ==
    LET nj == NrMoving(segs)  q == call[1]  v == TwVec(call[2])  eps == a[2]  lambda == a[3]  ok == Len(q) = nj /\ a[6] = nj
        mq == IF SquareOf(a[4], nj) THEN a[4] ELSE IdN(nj)  mx == IF SquareOf(a[5], 6) THEN a[5] ELSE IdN(6) IN
    SizeChk(ok, r) \cup Chk("C23.inputs-unchanged", r[5] = q)
    \cup (IF ~ok \/ r[1] = -4 THEN {} ELSE IF Failing(a, 8, r[4][8]) THEN FailureCheck(r, nj)
          ELSE LET j == JacMat(JacobianOf(segs, q, Len(segs)))
                   d == IF nj = 0 THEN <<<<>>, <<>>, <<>>>> ELSE Svd(WithWeights(mx, j, mq))  s == d[2]
                   smin == IF nj >= 6 THEN s[6] ELSE R0
                   scaled == IF smin \prec eps THEN lambda \otimes Sqrt(R1 \ominus Sqr(smin \oslash eps)) ELSE R0
                   D(x) == IF ~(x \prec eps) THEN R1 \oslash x ELSE IF lambda = R0 \/ scaled = R0 THEN R0 ELSE x \oslash (Sqr(x) \oplus Sqr(scaled))
                   u == MatVec(mx, v)
                   want == MatVec(mq, Inverted(d, u, D, nj))
                   more == r[4] IN
               IF ~Decided(s, eps) THEN {}
               ELSE Chk("C23.code", r[1] = IF NrBelow(s, eps) > 0 THEN Singular ELSE 0)
                    \cup Chk("C23.singular-values", more[1] = 0 /\ Close(SubSeq(more[2], 1, Len(s)), s, Tol) /\ Close(more[3], smin, Tol) /\ more[6] = NrBelow(s, eps) + nj - Len(s))
                    \cup Chk("C23.damping", more[4] = lambda /\ (nj = 0 \/ Close(more[5], scaled, Dec(1, -5))) /\ more[7] = eps /\ more[8] = 0)
                    \cup GoodVel("C23.wdls", r[3], want, (R1 \oplus MaxAbsM(mq)) \otimes Slack(s, MaxAbs(u), IF lambda = R0 THEN eps ELSE RMax(Dec(1, -9), RMin(eps, lambda)))))

EachOf(p, calls, rs, F(_, _)) == Chk(p \o ".malformed", Len(calls) = Len(rs)) \cup UNION {F(calls[k], rs[k]) : k \in 1..Len(calls)}
AllOf(calls, rs, F(_, _)) == Chk("C23.malformed", Len(calls) = Len(rs)) \cup UNION {F(calls[k], rs[k]) : k \in 1..Len(calls)}
NsoBad(segs, a, r) ==
    LET nj == NrMoving(segs)  opt == Len(a[4]) = nj  w == Len(a[5]) = nj IN
    (IF a[6] THEN Chk("C23.nso-settings", r[3] = a[4] /\ r[4] = a[5] /\ r[5] = a[3])
     ELSE Chk("C23.refuses-size", (r[1][1] = 0) = opt /\ (r[1][2] = 0) = w /\ r[1][1] \in {0, -4} /\ r[1][2] \in {0, -4})
          \cup Chk("C23.nso-settings", (opt => r[3] = a[4]) /\ (w => r[4] = a[5]) /\ r[5] = a[3]))
    \cup AllOf(a[8], r[2], LAMBDA c, x : NsoCheck(segs, a, c, x))
WdlsBad(segs, a, r) ==
    LET nj == NrMoving(segs) IN
    Chk("C23.refuses-weights", (r[1] = 0) = SquareOf(a[4], nj) /\ (r[2] = 0) = SquareOf(a[5], 6) /\ r[1] \in {0, -4} /\ r[2] \in {0, -4})
    \cup AllOf(a[7], r[3], LAMBDA c, x : WdlsCheck(segs, a, c, x))

(* positions *)
\* the rotation vector of a rotation; by pi, one of that length
RotVec(m) ==
    LET s == <<m[3][2] \ominus m[2][3], m[1][3] \ominus m[3][1], m[2][1] \ominus m[1][2]>>  n == Norm(s) IN
    IF n \prec Dec(1, -9) THEN IF R0 \prec Trace3(m) THEN Scale(s, Half) ELSE <<Pi, R0, R0>> ELSE Scale(s, AngleOf(m) \oslash n)
\* the motion from f to g, and whether its direction is certain
Away(f, g) == Tw(Sub(g.p, f.p), RotVec(MM(g.M, Tr(f.M))))
Certain(f, g) == AngleOf(MM(g.M, Tr(f.M))) \prec Dec(3141, -3)
\* the library takes rotations by less than some 1e-6 for none
RotZeroTol == Dec(2, -6)
ApartNR(f, g) == LET d == Away(f, g) IN RMax(MaxAbs(d.vel), MaxAbs(d.rot) \ominus RotZeroTol)
WeighTw(l, t) == MulElt(l, TwVec(t))
\* and so may say of a frame that it is there
WithoutLittle(d) == IF Norm(d.rot) \prec RotZeroTol THEN Tw(d.vel, TwZero.rot) ELSE d
ApartAtLeast(kind, l, f, g) == IF kind \in {"lma", "lma_w"} THEN NormN(WeighTw(l, WithoutLittle(Away(f, g)))) ELSE ApartNR(f, g)
Apart(kind, l, f, g) == IF kind \in {"lma", "lma_w"} THEN NormN(WeighTw(l, Away(f, g))) ELSE ApartNR(f, g)
LmaWeights == <<R1, R1, R1, Dec(1, -2), Dec(1, -2), Dec(1, -2)>>
Within(q, lo, hi) == \A k \in 1..Len(q) : lo[k] \preceq q[k] /\ q[k] \preceq hi[k]
Goal(segs, call) == IF Len(call[2]) = 0 THEN call[3] ELSE FMul(Poses(segs, call[2])[Len(segs) + 1], call[3])
\* so near to the goal that the step to it is good: the second order is little against the first
NearGoal(s, d) == /\ Len(s) > 0 /\ Dec(2, -1) \preceq s[Len(s)]
                  /\ (NormN(d) \otimes Sqr(RMax(s[1], R1))) \preceq (Dec(5, -2) \otimes s[Len(s)])
IkPosCheck(segs, a, call, r) ==
    LET nj == NrMoving(segs)  kind == a[2]  q == call[1]  lim == a[4]
        limited == kind \in {"nr_jl", "nr_jl_set"} /\ Len(lim) = 2
        limok == limited => Len(lim[1]) = nj /\ Len(lim[2]) = nj
        strict == limited /\ limok
        ok == Len(q) = nj /\ call[4] = nj /\ (kind = "nr_jl" => limok)
        rc == r[1]  out == r[3]  eps == a[6]
        l == IF kind = "lma_w" THEN lim ELSE LmaWeights
        g == Goal(segs, call)
        Last(x) == Poses(segs, x)[Len(segs) + 1]
        inside == ~strict \/ Within(q, lim[1], lim[2])
        stays == inside /\ Apart(kind, l, Last(q), g) \prec (Dec(9, -1) \otimes eps) /\ MaxAbs(Away(Last(q), g).rot) \prec eps
        s == Svd(JacMat(JacobianOf(segs, q, Len(segs))))[2]
        room == ~strict \/ \A k \in 1..nj : (lim[1][k] \oplus R1) \preceq RMin(q[k], call[2][k]) /\ RMax(q[k], call[2][k]) \preceq (lim[2][k] \ominus R1)
        found == /\ a[3] # "pinv1" /\ call[3] = FId /\ Len(call[2]) = nj /\ nj > 0 /\ 50 <= a[5] /\ room
                 /\ NearGoal(s, SubN(call[2], q)) IN
    Chk("C24.refuses-size", (rc = -4) = ~ok) \cup Chk("C24.error", r[2] = rc) \cup Chk("C24.inputs-unchanged", r[4] = q)
    \cup (IF ~ok \/ rc = -4 THEN {}
          ELSE LET f == Last(out) IN
               Chk("C24.code", rc \in {0, 1, -5} \cup (IF kind \in {"lma", "lma_w"} THEN {-100, -101} ELSE IF a[3] = "pinv1" THEN {-100} ELSE {}))
               \cup (IF rc < 0 THEN {} ELSE Chk("C24.success-is-there", ApartAtLeast(kind, l, f, g) \preceq ((eps \otimes Dec(1000001, -6)) \oplus Dec(1, -9))))
               \cup Chk("C24.limits", ~strict \/ Within(out, lim[1], lim[2]))
               \cup Chk("C24.stays", (stays /\ a[3] # "pinv1" /\ 1 <= a[5]) => rc >= 0 /\ Close(out, q, Dec(1, -2)))
               \cup Chk("C24.finds-near", found => rc >= 0))
\* what the solver of Levenberg and Marquardt says of its last step
LmaReport(segs, a, call, r) ==
    LET nj == NrMoving(segs)  q == call[1]  eps == a[6]
        l == IF a[2] = "lma_w" THEN a[4] ELSE LmaWeights
        g == Goal(segs, call)
        Last(x) == Poses(segs, x)[Len(segs) + 1]
        stays == Apart(a[2], l, Last(q), g) \prec (Dec(9, -1) \otimes eps) /\ MaxAbs(Away(Last(q), g).rot) \prec eps IN
    IF a[2] \notin {"lma", "lma_w"} \/ Len(q) # nj \/ call[4] # nj \/ r[1] = -4 THEN {}
    ELSE LET f == Last(r[3]) IN
         (IF ~Certain(f, g) THEN {}
          ELSE LET d == Away(f, g) IN
               Chk("C24.lma-report", Close(<<r[5][2], r[5][3], r[5][4]>>, <<Norm(d.vel), Norm(d.rot), NormN(WeighTw(l, d))>>, Dec(5, -6))))
         \cup (IF stays THEN Chk("C24.lma-singular-values", r[5][5] = 0 /\ Close(r[5][1], Svd(Tup([k \in 1..6 |-> ScaleN(JacMat(JacobianOf(segs, q, Len(segs)))[k], l[k])]))[2], Dec(1, -6))) ELSE {})
SetBad(segs, a, r) == LET ok == Len(a[4][1]) = NrMoving(segs) /\ Len(a[4][2]) = NrMoving(segs) IN
    IF a[2] # "nr_jl_set" THEN {} ELSE Chk("C24.refuses-limits", r = IF ok THEN <<0, 0>> ELSE <<-4, -4>>)

(* trees: endpoints have names, tasks are of all of them *)
Stacked(t, q, names) == FoldL(LAMBDA m, n : m \o JacMat(TreeColumns(t, q, n)), <<>>, names)
StackedTw(names, tw(_)) == FoldL(LAMBDA v, n : v \o TwVec(tw(n)), <<>>, names)
NamesIn(list) == {list[k][1] : k \in 1..Len(list)}
Named(list, n) == list[CHOOSE k \in 1..Len(list) : list[k][1] = n][2]
DampedInverse(d, u, lambda, n) ==
    Inverted(d, u, LAMBDA x : IF x \preceq (Dec(1, -14) \otimes d[2][1]) THEN R0 ELSE x \oslash (Sqr(x) \oplus Sqr(lambda)), n)
Unclear(s, lambda) == \E k \in 1..Len(s) : s[k] \prec (Dec(1, -5) \otimes s[1]) /\ (Dec(1, -16) \otimes s[1]) \prec s[k] /\ lambda \prec Dec(1, -4)
\* rounding before the weights took most away is not little against what they left
Buried(s, j, wx, wq, lambda) ==
    LET scale == IF Len(j) = 0 \/ Len(j[1]) = 0 THEN R0 ELSE MaxAbsM(wx) \otimes (MaxAbsM(j) \otimes MaxAbsM(wq)) IN
    /\ lambda \prec Dec(1, -4) /\ Len(s) > 0 /\ s[1] \prec (Dec(3, -1) \otimes scale)
    /\ \E k \in 1..Len(s) : s[k] \preceq (Dec(1, -5) \otimes scale)
LeastGain(s, lambda) == FoldL(LAMBDA m, x : IF x \preceq (Dec(1, -6) \otimes s[1]) THEN m ELSE RMin(m, RMax(x, lambda)), RMax(Largest(s), Dec(1, -4)), s)
TreeSlack(s, v, lambda) == LET m == LeastGain(s, lambda) IN Dec(1, -5) \otimes ((RMax(Largest(s), R1) \otimes v) \oslash (m \otimes m))
TreeSvd(t, m) == IF t.nj = 0 \/ Len(m) = 0 THEN <<<<>>, <<>>, <<>>>> ELSE Svd(m)
TreeWdlsCheck(t, a, call, r) ==
    LET names == a[2]  q == call[1]  n == t.nj
        ok == Len(q) = n /\ NamesIn(call[2]) = Range(names) /\ \A k \in 1..Len(names) : Known(t, names[k]) IN
    Chk("C25.refuses", (r[1] \prec R0) = ~ok)
    \cup (IF ~ok \/ r[1] \prec R0 THEN {}
          ELSE LET j == Stacked(t, q, names)
                   wq == IF Len(a[4]) = 0 THEN IdN(n) ELSE a[4]  wx == IF Len(a[5]) = 0 THEN IdN(6 * Len(names)) ELSE a[5]
                   v == MatVec(wx, StackedTw(names, LAMBDA x : Named(call[2], x)))
                   d == TreeSvd(t, WithWeights(wx, j, wq))  s == d[2] IN
               Chk("C25.residual", Close(r[1], NormN(v), Tol))
               \cup (IF Unclear(s, a[3]) \/ Buried(s, j, wx, wq, a[3]) THEN {}
                     ELSE GoodVel("C25.velocities", r[2], MatVec(wq, DampedInverse(d, v, a[3], n)), (R1 \oplus MaxAbsM(wq)) \otimes TreeSlack(s, MaxAbs(v), a[3]))))
TreeGoal(t, call, n) == IF Len(call[2]) = 0 THEN Named(call[3], n) ELSE FMul(TreePose(t, call[2], n), Named(call[3], n))
Sized(t, a, call, k) == Len(call[1]) = t.nj /\ \A m \in k : Len(a[m]) = t.nj
TreePosCheck(t, a, call, r) ==
    LET names == a[2]  q == call[1]  out == r[2]
        ok == Sized(t, a, call, {3, 4}) /\ NamesIn(call[3]) \subseteq Range(names) /\ \A k \in 1..Len(names) : Known(t, names[k])
        asked == SelectSeq(names, LAMBDA n : n \in NamesIn(call[3]))
        Off(x) == StackedTw(asked, LAMBDA n : Away(TreePose(t, x, n), TreeGoal(t, call, n)))
        slack == RotZeroTol \otimes R(Len(asked) + 1) IN
    Chk("C25.refuses", ~ok => r[1] \prec R0)
    \cup (IF ~ok THEN {}
          ELSE Chk("C25.limits", Within(out, a[3], a[4]))
               \cup (IF r[1] \prec R0 THEN {}
                     ELSE Chk("C25.success-is-there", NormN(Off(out)) \preceq (a[6] \oplus slack))
                          \cup Chk("C25.residual", RAbs(r[1] \ominus NormN(Off(out))) \preceq slack))
               \cup Chk("C25.stays", (1 <= a[5] /\ Within(q, a[3], a[4]) /\ NormN(Off(q)) \prec (Dec(9, -1) \otimes a[6])) => ~(r[1] \prec R0) /\ Close(out, q, Tol))
               \cup Chk("C25.finds-near", (/\ 50 <= a[5] /\ a[7] = R0 /\ Len(asked) = Len(names) /\ Len(call[2]) = t.nj /\ t.nj > 0
                                           /\ \A k \in 1..Len(call[3]) : call[3][k][2] = FId
                                           /\ \A k \in 1..t.nj : (a[3][k] \oplus R1) \preceq RMin(q[k], call[2][k]) /\ RMax(q[k], call[2][k]) \preceq (a[4][k] \ominus R1)
                                           /\ NearGoal(TreeSvd(t, Stacked(t, q, names))[2], SubN(call[2], q))) => ~(r[1] \prec R0)))
Over(x, limit) == RMax(R1, x \oslash limit)
Clamped(q, lo, hi) == Tup([k \in 1..Len(q) |-> IF q[k] \prec lo[k] THEN lo[k] ELSE IF hi[k] \prec q[k] THEN hi[k] ELSE q[k]])
OnlineCheck(t, a, call, r) ==
    LET names == a[2]  q == call[1]  out == r[2]  lambda == a[8]
        ok == Sized(t, a, call, {3, 4, 5}) /\ NamesIn(call[3]) \subseteq Range(names) /\ \A k \in 1..Len(names) : Known(t, names[k])
        Asked(n) == n \in NamesIn(call[3])
        Slow(x) == TwDiv(x, RMax(Over(Norm(x.vel), a[6]), Over(Norm(x.rot), a[7])))
        Want(n) == IF Asked(n) THEN Slow(Away(TreePose(t, q, n), TreeGoal(t, call, n))) ELSE TwZero
        certain == \A k \in 1..Len(names) : Asked(names[k]) => Certain(TreePose(t, q, names[k]), TreeGoal(t, call, names[k])) IN
    Chk("C25.refuses", ~ok => r[1] \prec R0)
    \cup (IF ~ok THEN {}
          ELSE Chk("C25.accepts", ~(r[1] \prec R0))
               \cup Chk("C25.online.limits", Within(out, a[3], a[4]))
               \cup Chk("C25.online.velocity", Within(q, a[3], a[4]) => \A k \in 1..t.nj : RAbs(out[k] \ominus q[k]) \preceq (a[5][k] \oplus Dec(1, -9)))
               \cup (IF ~certain THEN {}
                     ELSE LET v == StackedTw(names, Want)  d == TreeSvd(t, Stacked(t, q, names))  s == d[2]
                              free == DampedInverse(d, v, lambda, t.nj)
                              over == FoldL(LAMBDA m, k : RMax(m, RAbs(free[k]) \oslash a[5][k]), R1, Tup([k \in 1..t.nj |-> k])) IN
                          Chk("C25.online.residual", RAbs(r[1] \ominus NormN(v)) \preceq (RotZeroTol \otimes R(Len(names) + 1)))
                          \cup (IF Unclear(s, lambda) THEN {}
                                ELSE LET step == Clamped(AddN(q, DivN(free, over)), a[3], a[4])
                                         slack == TreeSlack(s, MaxAbs(v), lambda) \oplus (Dec(1, 3) \oslash LeastGain(s, lambda)) IN
                                     GoodVel("C25.online.step", out, step, slack))))

IkOp(h, op, a, r) ==
  CASE op = "c.pinv" -> AllOf(a[4], r, LAMBDA c, x : PinvCheck(h[a[1]], a, c, x))
    [] op = "c.givens" -> AllOf(a[3], r, LAMBDA c, x : GivensCheck(h[a[1]], a, c, x))
    [] op = "c.nso" -> NsoBad(h[a[1]], a, r)
    [] op = "c.wdls" -> WdlsBad(h[a[1]], a, r)
    [] op = "c.ikp" -> SetBad(h[a[1]], a, r[1]) \cup EachOf("C24", a[7], r[2], LAMBDA c, x : IkPosCheck(h[a[1]], a, c, x) \cup LmaReport(h[a[1]], a, c, x))
    [] op = "t.wdls" -> EachOf("C25", a[7], r, LAMBDA c, x : TreeWdlsCheck(h[a[1]], a, c, x))
    [] op = "t.wdlsset" -> LET t == h[a[1]]  q == IdN(t.nj)  x == IdN(6 * Len(a[2])) IN
            Chk("C25.settings", r = <<R0, q, x, a[3], IF Len(a[4]) = 0 THEN q ELSE a[4], IF Len(a[5]) = 0 THEN x ELSE a[5]>>)
    [] op = "t.ikp" -> EachOf("C25", a[8], r, LAMBDA c, x : TreePosCheck(h[a[1]], a, c, x))
    [] op = "t.online" -> EachOf("C25", a[9], r, LAMBDA c, x : OnlineCheck(h[a[1]], a, c, x))
IkOps == {"c.pinv", "c.givens", "c.nso", "c.wdls", "c.ikp", "t.wdls", "t.wdlsset", "t.ikp", "t.online"}
=============================================================================
