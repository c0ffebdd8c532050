--------------------------------- MODULE Est --------------------------------
(***************************************************************************)
(* The external wrench estimator: an observer of the generalized momentum. *)
(* Its state is the sum of what is known to change the momentum, and the   *)
(* filtered estimate of the rest.  What changes the momentum M qd is       *)
(*    tau - gravity - Coriolis + (rate of M) qd + external torques.        *)
(* MCEst checks that the estimate of this observer converges.              *)
(***************************************************************************)
EXTENDS Ik

\* a: chain, gravity, frequency, gain, filter constant, eps
NewEst(segs, a) ==
    LET n == NrMoving(segs) IN
    [segs |-> segs, its |-> a[8], g |-> a[3], dt |-> R1 \oslash a[4], gain |-> a[5], keep |-> a[6], eps |-> a[7], known |-> TRUE,
     mass |-> ZeroM(n, n), p0 |-> ZeroN(n), sum |-> ZeroN(n), est |-> ZeroN(n)]
StartEst(e, q, qd) == LET m == MassOf(e.segs, q)  n == Len(q) IN
    [e EXCEPT !.mass = m, !.p0 = MatVec(m, qd), !.sum = ZeroN(n), !.est = ZeroN(n), !.known = TRUE]
StepEst(e, row) ==
    LET q == row[1]  qd == row[2]  tau == row[3]
        m == MassOf(e.segs, q)
        p == MatVec(m, qd)
        rate == DivN(SubN(p, MatVec(e.mass, qd)), e.dt)
        known == AddN(SubN(tau, AddN(GravityOf(e.segs, q, e.g), CoriolisOf(e.segs, q, qd))), rate)
        sum == AddN(e.sum, ScaleN(AddN(known, e.est), e.dt))
        raw == ScaleN(SubN(SubN(p, sum), e.p0), e.gain) IN
    [e EXCEPT !.mass = m, !.sum = sum, !.est = AddN(ScaleN(e.est, e.keep), ScaleN(raw, R1 \ominus e.keep))]
RowFits(e, row) == LET n == NrMoving(e.segs) IN Len(row[1]) = n /\ Len(row[2]) = n /\ Len(row[3]) = n
\* the wrench on the last segment, in its frame, which gives these torques
BodyCols(segs, q) == LET M == Poses(segs, q)[Len(segs) + 1].M IN Map1(JacobianOf(segs, q, Len(segs)), LAMBDA t : TwRot(Tr(M), t))
FeltSvd(segs, q) == Svd(TrN(JacMat(BodyCols(segs, q))))
WrenchFor(d, eps, torques) == PseudoInverse(d, torques, eps, 6)

\* how far an error of 1 in the estimate or in the sum is still felt after n steps at rest
RestGain(e, n) ==
    LET next(x) == LET s == x[2] \oplus (x[1] \otimes e.dt) IN <<(e.keep \otimes x[1]) \ominus ((R1 \ominus e.keep) \otimes (e.gain \otimes s)), s>>
        run(x) == FoldL(LAMBDA y, k : next(y), x, Tup([k \in 1..n |-> k])) IN
    RMax(MaxAbs(run(<<R1, R0>>)), MaxAbs(run(<<R0, R1>>)))

Scaled(label, got, want, scale, tol) == Chk(label, Close(<<got, scale>>, <<want, scale>>, tol))
\* the decomposition may fail for want of iterations; the observer has gone on all the same
EnoughIts == 30
SvdFails == -8
\* x: [rc, error, wrench, estimated torques]
WrenchCheck(e, q, x) ==
    LET d == FeltSvd(e.segs, q) IN
    IF ~Decided(d[2], e.eps) THEN {}
    ELSE Scaled("C34.wrench", TwVec(Tw(x[3].f, x[3].t)), WrenchFor(d, e.eps, x[4]), Slack(d[2], MaxAbs(x[4]), e.eps), DynTol)
RowCheck(e, e2, row, x) ==
    Chk("C34.refuses-size", (x[1] = -4) = ~RowFits(e, row)) \cup Chk("C34.error", x[2] = x[1])
    \cup (IF ~RowFits(e, row) THEN Chk("C34.keeps-state", e.known => Scaled("", x[4], e.est, R1 \oplus (e.gain \otimes (MaxAbs(e.sum) \oplus MaxAbs(e.p0))), Dec(1, -7)) = {})
          ELSE IF x[1] # 0 /\ ~(x[1] = SvdFails /\ e.its < EnoughIts) THEN {"C34.accepts"}
          ELSE (IF e.known THEN Scaled("C34.observer", x[4], e2.est, RMax(R1, e.gain) \otimes (R1 \oplus MaxAbs(e2.sum) \oplus MaxAbs(e2.p0)), Dec(1, -7)) ELSE {})
               \cup (IF x[1] = 0 THEN WrenchCheck(e2, row[1], x) ELSE {}))
After(e, row) == IF RowFits(e, row) /\ e.known THEN StepEst(e, row) ELSE e
RECURSIVE RowsCheck(_, _, _, _)
RowsCheck(e, rows, xs, k) ==
    IF k > Len(rows) THEN {} ELSE LET e2 == After(e, rows[k]) IN RowCheck(e, e2, rows[k], xs[k]) \cup RowsCheck(e2, rows, xs, k + 1)

\* a: estimator, positions, torques, number of steps
RestCheck(e, a, x) ==
    LET n == NrMoving(e.segs)
        away == SubN(GravityOf(e.segs, a[2], e.g), a[3])
        far == RestGain(e, a[4]) \otimes (R1 \oplus MaxAbs(away) \oplus (RMax(R1, e.gain) \otimes (R1 \oplus MaxAbs(e.sum) \oplus MaxAbs(e.p0)))) IN
    Chk("C34.accepts", x[1] = 0 /\ x[2] = 0)
    \cup (IF x[1] # 0 THEN {}
          ELSE (IF e.known /\ far \prec Dec(1, -7) THEN Scaled("C34.converges", x[4], away, R1 \oplus MaxAbs(a[3]) \oplus MaxAbs(away), Dec(1, -6)) ELSE {})
               \cup WrenchCheck(e, a[2], x))

EstOp(h, op, a, r) ==
  CASE op \in {"e.new", "e.eps", "e.its"} -> {}
    [] op = "e.start" -> LET n == NrMoving(h[a[1]].segs)  ok == Len(a[2]) = n /\ Len(a[3]) = n IN
                         Chk("C34.refuses-size", r[1] = IF ok THEN 0 ELSE -4) \cup Chk("C34.error", r[2] = r[1])
    [] op = "e.run" -> Chk("C34.malformed", Len(a[2]) = Len(r)) \cup RowsCheck(h[a[1]], a[2], r, 1)
    [] op = "e.rest" -> RestCheck(h[a[1]], a, r)
EstOps == {"e.new", "e.start", "e.run", "e.rest", "e.eps", "e.its"}
EstPost(h, e) ==
  LET op == e.op  a == e.a  r == e.r IN
  CASE op = "e.new" -> Put(h, a[1], NewEst(h[a[2]], a))
    [] op = "e.start" -> IF r[1] = 0 THEN Put(h, a[1], StartEst(h[a[1]], a[2], a[3])) ELSE h
    [] op = "e.run" -> Put(h, a[1], FoldL(After, h[a[1]], a[2]))
    [] op = "e.its" -> Put(h, a[1], [h[a[1]] EXCEPT !.its = a[2]])
    [] op = "e.eps" -> Put(h, a[1], [h[a[1]] EXCEPT !.eps = a[2]])
    [] op = "e.rest" -> Put(h, a[1], [h[a[1]] EXCEPT !.known = FALSE])
=============================================================================
