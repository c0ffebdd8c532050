------------------------------- MODULE Arrays -------------------------------
(***************************************************************************)
(* Joint arrays: a sequence of reals, or the jet of one, <<q, q', ..>>.    *)
(* Operations are those on jets of Dual, for the elementwise products; the *)
(* answers do not depend on where they are put.                            *)
(***************************************************************************)
EXTENDS Mech

PadJ(x, zero, n) == Tup([k \in 1..n |-> IF k <= Len(x) THEN x[k] ELSE zero])
ArrSum(x, y) == BothJ(x, PadJ(y, ZeroN(Len(x[1])), Len(x)), AddN)
ArrDiff(x, y) == BothJ(x, PadJ(y, ZeroN(Len(x[1])), Len(x)), SubN)
ArrTimes(x, s) == LET u == PadJ(s, R0, Len(x)) IN IF Len(x) = 1 THEN <<ScaleN(x[1], u[1])>> ELSE Leibniz(ScaleN, AddN, x, u)
Inverse(s, n) == LET u == PadJ(s, R0, n) IN IF n = 1 THEN <<R1 \oslash u[1]>> ELSE JInv(u)
ArrOver(x, s) == ArrTimes(x, Inverse(s, Len(x)))
ArrZero(x) == EachJ(x, LAMBDA q : ZeroN(Len(q)))
Kept(x, y, n) ==    \* y is x resized to n: what is new is zero, what is old is kept, or zero as documented
    /\ Len(y) = Len(x)
    /\ \A k \in 1..Len(x) : Len(y[k]) = n /\ \A i \in 1..n : y[k][i] = R0 \/ (i <= Len(x[k]) /\ y[k][i] = x[k][i])

ArrayOp(op, a, r) ==
  CASE op = "q.sum" ->
        LET x == a[1]  y == a[2]  p == ArrSum(x, y)  m == ArrDiff(x, y) IN
        Same("C18.sum", <<r[1], r[2]>>, <<p, p>>) \cup Same("C18.difference", <<r[3], r[4]>>, <<m, m>>) \cup Same("C18.operands", <<r[5], r[6]>>, <<x, y>>)
        \cup (IF Len(r) = 6 THEN {} ELSE Same("C18.into-the-second", <<r[7], r[8]>>, <<p, m>>) \cup Same("C18.with-itself", <<r[9], r[10]>>, <<ArrSum(x, x), ArrZero(x)>>))
    [] op = "q.prod" ->
        LET x == a[1]  p == ArrTimes(x, a[2])  d == ArrOver(x, a[2]) IN
        Same("C18.product", <<r[1], r[2]>>, <<p, p>>) \cup Same("C18.quotient", <<r[3], r[4]>>, <<d, d>>) \cup Same("C18.operands", r[5], x)
    [] op = "q.copy" -> LET x == a[1]  z == ArrZero(x) IN Same("C18.copies", r, <<z, x, x, x, x, z>>)
    [] op = "q.size" -> LET n == a[2]  z == Tup([k \in 1..Len(a[1]) |-> ZeroN(n)]) IN Chk("C18.resize", Kept(a[1], r[1], n) /\ Close(<<r[2], r[3]>>, <<z, z>>, Tol))
    [] op = "q.eq" ->
        LET x == a[1]  y == a[2]  same == Len(x[1]) = Len(y[1])  d == IF same THEN MaxDiff(FlatJ(x), FlatJ(y)) ELSE R0 IN
        Chk("C18.equality", (IF same THEN EqOk(r[1], d, a[3]) /\ EqOk(r[3], d, Eps6) ELSE ~r[1] /\ ~r[3]) /\ r[1] = r[2] /\ r[3] = r[4] /\ r[5])
        \cup (IF Len(r) = 5 THEN {} ELSE Chk("C18.equality-operator", r[6] = r[3] /\ r[7] = r[3]))
    [] op = "q.get" ->
        LET x == a[1]  v == a[2]  w == a[3]  z == ZeroN(Len(v[1])) IN
        Same("C18.elements", SubSeq(r, 1, 4), <<x, ScaleN(x, R2), Len(x), 1>>)
        \cup Same("C18.parts", SubSeq(r, 5, 9), <<v[1], v[2], w[1], w[2], w[3]>>)
        \cup Same("C18.from-parts", SubSeq(r, 10, 12), << <<v[1], z>>, <<v[1], v[2], z>>, <<v[1], z, z>> >>)
    [] op = "q.jac" -> Same("C18.jacobian", r, <<TimesQ(a[1], a[2]), a[2]>>)
    [] op = "q.mat" ->
        LET x == a[1]  y == a[2]  v == a[3]  s == a[4]  n == Len(x)
            p == MatAdd(x, y)  m == MatSub(x, y)  t == MatScale(x, s)  d == MatScale(x, R1 \oslash s)  u == MatVec(x, v)
            diff == MaxAbsM(m) IN
        Same("C18.matrix-sum", SubSeq(r, 1, 4), <<p, p, p, MatAdd(x, x)>>)
        \cup Same("C18.matrix-difference", SubSeq(r, 5, 7), <<m, m, m>>)
        \cup Same("C18.matrix-product", SubSeq(r, 8, 9), <<t, t>>)
        \cup Same("C18.matrix-quotient", SubSeq(r, 10, 11), <<d, d>>)
        \cup Same("C18.matrix-times-array", SubSeq(r, 12, 13), <<u, u>>)
        \cup Same("C18.matrix-operands", SubSeq(r, 14, 19), <<x, y, n, n, ZeroM(n, n), x>>)
        \cup Chk("C18.matrix-equality", EqOk(r[20], diff, a[5]) /\ r[20] = r[21] /\ EqOk(r[22], diff, Eps6) /\ r[22] = r[23])
        \cup Same("C18.matrix-size", SubSeq(r, 24, 26), <<a[6], a[6], ZeroM(a[6], a[6])>>)
        \cup Chk("C18.matrix-equality", (a[6] # n => ~r[27] /\ ~r[28]) /\ (a[6] = n => r[27]))
ArrayOps == {"q.sum", "q.prod", "q.copy", "q.size", "q.eq", "q.get", "q.jac", "q.mat"}
=============================================================================
