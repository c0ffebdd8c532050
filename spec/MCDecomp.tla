------------------------------ MODULE MCDecomp ------------------------------
(***************************************************************************)
(* Singular values by turning columns: any two columns which are not       *)
(* orthogonal may be turned until they are, in any order.  Checks that     *)
(* the product is kept, that every step makes the columns more orthogonal, *)
(* and that what is reached when none is left is what Decomp asks for, and *)
(* nothing else nearby is.  Also the factors of the symmetric matrices.    *)
(* Every matrix becomes a script.                                          *)
(***************************************************************************)
EXTENDS Decomp

CONSTANTS M, K, Entries, AnyOrder     \* rows, columns, entries, how many turns may be in any order
VARIABLES a, b, v, turns, drop    \* the matrix, the turned one, what turns it, how often, and how much less there was to turn
vars == <<a, b, v, turns, drop>>
Out == Env("KDL_EMIT")
O(name, args) == [op |-> name, a |-> args]

Thr == Dec(1, -15)
Negligible == Dec(1, -30)
Weight(x) == SumSeq(Map1(x, LAMBDA row : DotN(row, row)))
Unturned(x) == LET c == TrN(x) IN SumSeq(Tup([i \in 1..K |-> SumSeq(Tup([j \in 1..(i - 1) |-> Sqr(DotN(c[i], c[j]))]))]))
Must(x, i, j) == LET ci == Col(x, i)  cj == Col(x, j)  p == DotN(ci, cj)  zero == Negligible \otimes Weight(x) IN
    /\ zero \prec DotN(cj, cj)
    /\ DotN(ci, ci) \preceq zero \/ (Thr \otimes (DotN(ci, ci) \otimes DotN(cj, cj))) \preceq Sqr(p)
Pairs == {<<i, j>> \in (1..K) \X (1..K) : i < j}
Left(x) == {ij \in Pairs : Must(x, ij[1], ij[2])}
\* the turn: half the angle of the point (difference of the squares, twice the product)
TurnCols(x, i, j, t) == LET c == Cos(t)  s == Sin(t) IN
    Tup([r \in 1..Len(x) |-> [k \in 1..K |->
        IF k = i THEN (c \otimes x[r][i]) \oplus (s \otimes x[r][j])
        ELSE IF k = j THEN (c \otimes x[r][j]) \ominus (s \otimes x[r][i]) ELSE x[r][k]]])
AngleFor(x, i, j) == LET ci == Col(x, i)  cj == Col(x, j) IN
    Half \otimes Atan2(R2 \otimes DotN(ci, cj), DotN(ci, ci) \ominus DotN(cj, cj))

Full == Len(a) = M
Gram == MatAdd(MatMul(TrN(a), a), IdN(K))
Ones(n) == Tup([k \in 1..n |-> R1])
Padded == Tup([i \in 1..6 |-> IF i <= M THEN a[i] ELSE ZeroN(K)])
Tall == IF M >= K THEN a ELSE TrN(a)
Emitted == LET n == IF M >= K THEN K ELSE M  m == IF M >= K THEN M ELSE K IN
    EmitLines(Out, <<[unit |-> <<O("d.svd", <<<<a, a>>, K, -1, R0>>), O("d.svd", <<<<a>>, K, 1, R2>>), O("d.svd", <<<<TrN(a)>>, M, -1, R1>>),
        O("d.svdjac", <<<<Padded>>, K, 150, R1>>),
        O("d.macie", <<<<Tall>>, n, IdN(m), IdN(n), Thr, TRUE>>), O("d.macie", <<<<Tall>>, n, IdN(m), IdN(n), Thr, FALSE>>),
        O("d.ldl", <<Gram, Ones(K), <<K, K, K, K, K>>, R1>>)>>]>>)

Init == a = <<>> /\ b = <<>> /\ v = IdN(K) /\ turns = 0 /\ drop = R0
RowSet == {Tup(f) : f \in [1..K -> {R(n) : n \in Entries}]}
Fill == /\ ~Full
        /\ \E row \in RowSet : a' = Append(a, row) /\ b' = a'
        /\ UNCHANGED <<v, turns, drop>>
        /\ (Len(a') = M => Emitted')
First(s) == CHOOSE x \in s : \A y \in s : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Turn2 == /\ Full
         /\ \E l \in {Left(b)} : \E ij \in (IF l = {} THEN {} ELSE IF turns < AnyOrder THEN l ELSE {First(l)}) :
            \E t \in {AngleFor(b, ij[1], ij[2])} :
              /\ b' = TurnCols(b, ij[1], ij[2], t) /\ v' = TurnCols(v, ij[1], ij[2], t)
              /\ drop' = Unturned(b) \ominus Unturned(b')
         /\ turns' = turns + 1 /\ UNCHANGED a
Next == Fill \/ Turn2
Spec == Init /\ [][Next]_vars

ProductKept == Full => Close(MatMul(a, v), b, Dec(1, -12)) /\ Orthogonal(v, Dec(1, -12))
Better == Full => Neg(Dec(1, -12)) \preceq drop
Soon == turns <= 12 * K
Done == Full /\ Left(b) = {}
Sing == Tup([k \in 1..K |-> LET x == NormN(Col(b, k)) IN IF Sqr(x) \preceq (Negligible \otimes Weight(b)) THEN R0 ELSE x])
LeftOf(x) == TrN(Tup([k \in 1..K |-> IF Sing[k] = R0 THEN ZeroN(M) ELSE DivN(Col(x, k), Sing[k])]))
FactorsFit(u, s, w) == Factors(a, K, u, s, w, Dec(2, -7)) = {}
MacieFits(u, s, w) == MacieSeen(a, K, Thr, TRUE, <<0, u, s, w, TRUE>>) = {}
Reached == Done => FactorsFit(LeftOf(b), Sing, v) /\ MacieFits(LeftOf(b), Sing, v)
\* the largest singular value, and how many are not zero, are those of Svd
Rank(s) == Cardinality({k \in 1..Len(s) : Dec(1, -12) \prec s[k]})
Values == Done => Close(MaxSeq(Sing), MaxSeq(Svd(a)[2]), Dec(1, -12)) /\ Rank(Sing) = Rank(Svd(a)[2])
\* one value changed, one vector turned around, or a wrong order of the columns does not pass
Strict == Done => \A k \in 1..K :
    /\ ~FactorsFit(LeftOf(b), [Sing EXCEPT ![k] = @ \oplus Dec(1, -5)], v) \/ MaxAbs(Col(LeftOf(b), k)) = R0
    /\ Sing[k] # R0 => /\ ~FactorsFit(LeftOf(b), [Sing EXCEPT ![k] = Neg(@)], v)
                       /\ ~FactorsFit(LeftOf(b), Sing, TrN([TrN(v) EXCEPT ![k] = ScaleN(@, R(-1))]))
                       /\ ~FactorsFit(LeftOf(b), [Sing EXCEPT ![k] = Neg(@)], TrN([TrN(v) EXCEPT ![k] = ScaleN(@, R(-1))]))
                       /\ ~FactorsFit(TrN([TrN(LeftOf(b)) EXCEPT ![k] = ScaleN(@, Half)]), [Sing EXCEPT ![k] = R2 \otimes @], v)
    /\ ~FactorsFit(LeftOf(b), Sing, TrN([TrN(v) EXCEPT ![k] = ScaleN(@, R2)]))
LdlFits(m, x, l, d) == LET n == Len(m) IN LdlSeen(m, MatVec(m, x), <<n, n, n, n, n>>, <<0, l, d, x, TRUE>>) = {}
Symmetric == Full /\ turns = 0 => LET f == Ldl(Gram) IN
    /\ PositiveDefinite(Gram) /\ LdlFits(Gram, Ones(K), f.l, f.d)
    /\ \A k \in 1..K : ~LdlFits(Gram, Ones(K), f.l, [f.d EXCEPT ![k] = @ \oplus Dec(1, -6)])
    /\ \A i \in 2..K : ~LdlFits(Gram, Ones(K), [f.l EXCEPT ![i][i - 1] = @ \oplus Dec(1, -6)], f.d)
    /\ \A k \in 1..K : ~PositiveDefinite([IdN(K) EXCEPT ![k][k] = Neg(@)])
    /\ ~PositiveDefinite(MatScale(Gram, R(-1))) /\ ~PositiveDefinite(MatAdd(Gram, MatScale(IdN(K), Neg(Svd(Gram)[2][1]))))
=============================================================================
