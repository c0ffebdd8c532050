------------------------------- MODULE Decomp -------------------------------
(***************************************************************************)
(* Matrices and their factors.  A singular value decomposition is any      *)
(* three factors which multiply back and are as orthogonal as they should  *)
(* be; Ldl says what the factors of a symmetric matrix are.                *)
(***************************************************************************)
EXTENDS Text

\* the largest entry differs by no more than a fraction of the largest entry
Tiny == Dec(1, -280)
Near(x, y, scale, tol) == MaxAbsM(MatSub(x, y)) \preceq RMax(tol \otimes scale, Tiny)
\* U diag(s) V'
Product(u, s, v) == LET vt == TrN(v) IN
    Tup([i \in 1..Len(u) |-> [j \in 1..Len(v) |-> SumSeq(Tup([k \in 1..Len(s) |-> (u[i][k] \otimes s[k]) \otimes v[j][k]]))]])
Orthogonal(v, tol) == Close(MatMul(TrN(v), v), IdN(Cols(v)), tol)
\* the columns of u which belong to singular values which are not negligible
Counting(s, cut) == {k \in 1..Len(s) : cut \otimes MaxSeq(s) \prec s[k]}
OrthogonalColumns(u, ks, tol) == \A j, k \in ks : Close(DotN(Col(u, j), Col(u, k)), IF j = k THEN R1 ELSE R0, tol)
Decreasing(s) == \A k \in 1..(Len(s) - 1) : s[k + 1] \preceq s[k]
SvdTol == Dec(1, -11)
Factors(m, cols, u, s, v, tol) ==
    Chk("shape", Len(s) = cols /\ Len(u) = Len(m) /\ Len(v) = cols)
    \cup (IF ~(Len(s) = cols /\ Len(u) = Len(m) /\ Len(v) = cols) THEN {} ELSE
    LET a == MaxAbsM(m) IN
    Chk("finite", AllFinite(<<u, s, v>>))
    \cup (IF ~AllFinite(<<u, s, v>>) THEN {} ELSE
    Chk("negative", \A k \in 1..cols : R0 \preceq s[k])
    \cup Chk("product", Near(Product(u, s, v), m, a, tol))
    \cup Chk("right", cols = 0 \/ Orthogonal(v, tol))
    \cup Chk("left", OrthogonalColumns(u, Counting(s, Dec(1, -10)), tol))))
\* enough iterations for any matrix
Enough == 100
SvdSeen(m, cols, maxiter, r, sorted) ==
    Chk("argument", r[5])
    \cup (IF r[1] = 0
          THEN Factors(m, cols, r[2], r[3], r[4], SvdTol) \cup Chk("order", ~sorted \/ Decreasing(r[3]))
          ELSE Chk("gives-up", maxiter \in 0..(Enough - 1) /\ r[1] = -2 /\ cols > 0))
    \cup Chk("no-iterations", maxiter # 0 \/ cols = 0 \/ r[1] = -2)

\* with right factors orthogonal as the columns turned until they are orthogonal: as far as the threshold asks.
\* Left or right vectors of zero singular values are zero
ZeroOr(u, ks, tol) == \A k \in (1..Cols(u)) \ ks : MaxAbs(Col(u, k)) = R0 \/ Close(NormN(Col(u, k)), R1, tol)
MacieSeen(m, cols, threshold, fromright, r) ==
    LET u == r[2]  s == r[3]  v == r[4]  a == MaxAbsM(m)
        loose == Dec(1, -10) \oplus (R2 \otimes Sqrt(threshold))
        ks == {k \in 1..cols : s[k] # R0} IN
    Chk("argument", r[5])
    \cup (IF ~AllFinite(<<u, s, v>>) THEN {"macie-finite"} ELSE
    Chk("macie-sweeps", 0 <= r[1])
    \cup Chk("negative", \A k \in 1..cols : R0 \preceq s[k])
    \cup Chk("macie-product", Near(Product(u, s, v), m, a, Dec(1, -10)))
    \cup Chk("macie-turning", IF fromright THEN Orthogonal(v, Dec(1, -10)) ELSE Orthogonal(u, Dec(1, -10)))
    \cup Chk("macie-turned", OrthogonalColumns(IF fromright THEN u ELSE v, ks, loose))
    \cup Chk("macie-zero", \A k \in (1..Cols(IF fromright THEN u ELSE v)) \ ks : MaxAbs(Col(IF fromright THEN u ELSE v, k)) = R0))

\* A = L diag(d) L' with ones on the diagonal of L: one column after the other, of what remains
RECURSIVE LdlFrom(_, _, _)
LdlFrom(m, k, found) ==      \* found: pairs <<d, column>>
    IF k > Len(m) THEN found
    ELSE LET d == m[k][k]
             c == Tup([i \in 1..Len(m) |-> IF i < k THEN R0 ELSE m[i][k] \oslash d])
             rest == Tup([i \in 1..Len(m) |-> [j \in 1..Len(m) |-> m[i][j] \ominus ((d \otimes c[i]) \otimes c[j])]]) IN
         LdlFrom(rest, k + 1, Append(found, <<d, c>>))
Ldl(m) == LET f == LdlFrom(m, 1, <<>>) IN [d |-> Map1(f, LAMBDA x : x[1]), l |-> TrN(Map1(f, LAMBDA x : x[2]))]
PositiveDefinite(m) == LET s == Svd(m)[2]  d == Ldl(m).d IN
    Len(m) > 0 => \A k \in 1..Len(d) : Dec(1, -9) \otimes s[1] \prec d[k]
LdlSeen(m, v, sizes, r) ==
    LET n == Len(m) IN
    Chk("argument", r[5])
    \cup (IF (n > 0 /\ Len(m[1]) # n) \/ Len(v) # n \/ \E k \in 1..5 : sizes[k] # n THEN Chk("ldl-size", r[1] = -4)
    ELSE Chk("ldl-code", r[1] = 0)
    \cup (IF n = 0 \/ ~PositiveDefinite(m) THEN {} ELSE
          LET l == r[2]  d == r[3]  a == MaxAbsM(m)  s == Svd(m)[2]  cond == s[1] \oslash s[n] IN
          Chk("ldl-finite", AllFinite(<<l, d, r[4]>>))
          \cup (IF ~AllFinite(<<l, d, r[4]>>) THEN {} ELSE
                Chk("ldl-triangular", \A i, j \in 1..n : IF i = j THEN l[i][j] = R1 ELSE j > i => l[i][j] = R0)
                \cup Chk("ldl-positive", \A k \in 1..n : R0 \prec d[k])
                \cup Chk("ldl-product", Near(Product(l, d, l), m, a, Dec(1, -12)))
                \cup Chk("ldl-solves", Near(<<MatVec(m, r[4])>>, <<v>>, RMax(MaxAbs(v), a \otimes MaxAbs(r[4])), Dec(1, -11))))))

DecompOps == {"d.svd", "d.svdjac", "d.macie", "d.ldl"}
EachSeen(ms, r, Seen(_, _)) == UNION {Seen(ms[k], r[k]) : k \in 1..Len(ms)}
DecompOp(op, a, r) == Labelled("C33",
    CASE op = "d.svd" -> EachSeen(a[1], r, LAMBDA m, x : SvdSeen(m, a[2], IF a[3] < 0 THEN 150 ELSE a[3], x, TRUE))
      [] op = "d.svdjac" -> EachSeen(a[1], r, LAMBDA m, x : SvdSeen(m, a[2], a[3], x, FALSE))
      [] op = "d.macie" -> EachSeen(a[1], r, LAMBDA m, x : MacieSeen(m, a[2], a[5], a[6], x))
      [] op = "d.ldl" -> LdlSeen(a[1], a[2], a[3], r))
=============================================================================
