-------------------------------- MODULE Dual -------------------------------
(***************************************************************************)
(* Jets: a quantity with its first, or first and second, time derivatives. *)
(* <<x, x'>> or <<x, x', x''>>, of numbers, vectors or matrices.  Every    *)
(* bilinear product follows from the rule of Leibniz, every function from  *)
(* the chain rule.  A rotation which turns with angular velocity w (and    *)
(* acceleration dw) is the jet of its matrix: R' = [w]R, R'' = ([dw]+      *)
(* [w][w])R.  Nothing here knows how the library stores them.              *)
(***************************************************************************)
EXTENDS Geom

----------------------------------------------------------------------------
(* bilinear products of jets: B the product, P the sum, T twice *)
Leibniz(B(_, _), P(_, _), x, y) ==
    IF Len(x) = 2 THEN <<B(x[1], y[1]), P(B(x[2], y[1]), B(x[1], y[2]))>>
    ELSE LET c == B(x[2], y[2]) IN
         <<B(x[1], y[1]), P(B(x[2], y[1]), B(x[1], y[2])), P(P(B(x[3], y[1]), P(c, c)), B(x[1], y[3]))>>
EachJ(x, F(_)) == Tup([k \in 1..Len(x) |-> F(x[k])])
BothJ(x, y, F(_, _)) == Tup([k \in 1..Len(x) |-> F(x[k], y[k])])
ConstJ(x, zero, n) == Tup([k \in 1..n |-> IF k = 1 THEN x ELSE zero])

JMul(x, y) == Leibniz(LAMBDA a, b : a \otimes b, LAMBDA a, b : a \oplus b, x, y)
JAdd(x, y) == BothJ(x, y, LAMBDA a, b : a \oplus b)
JSub(x, y) == BothJ(x, y, LAMBDA a, b : a \ominus b)
JNeg(x) == EachJ(x, Neg)
JC(s, n) == ConstJ(s, R0, n)
\* the function whose value and derivatives at x are f[1], f[2], f[3]
Chain(f, x) == IF Len(x) = 2 THEN <<f[1], f[2] \otimes x[2]>>
               ELSE <<f[1], f[2] \otimes x[2], (f[3] \otimes Sqr(x[2])) \oplus (f[2] \otimes x[3])>>
Fn(name, t, m) ==
  CASE name = "exp" -> <<Exp(t), Exp(t), Exp(t)>>
    [] name = "log" -> <<Log(t), R1 \oslash t, Neg(R1 \oslash Sqr(t))>>
    [] name = "sin" -> <<Sin(t), Cos(t), Neg(Sin(t))>>
    [] name = "cos" -> <<Cos(t), Neg(Sin(t)), Neg(Cos(t))>>
    [] name = "tan" -> LET u == Sin(t) \oslash Cos(t)  d == R1 \oplus Sqr(u) IN <<u, d, R2 \otimes (u \otimes d)>>
    [] name = "sinh" -> LET a == Exp(t)  b == Exp(Neg(t)) IN <<Half \otimes (a \ominus b), Half \otimes (a \oplus b), Half \otimes (a \ominus b)>>
    [] name = "cosh" -> LET a == Exp(t)  b == Exp(Neg(t)) IN <<Half \otimes (a \oplus b), Half \otimes (a \ominus b), Half \otimes (a \oplus b)>>
    [] name = "tanh" -> LET a == Exp(t)  b == Exp(Neg(t))  u == (a \ominus b) \oslash (a \oplus b)  d == R1 \ominus Sqr(u) IN
                        <<u, d, Neg(R2 \otimes (u \otimes d))>>
    [] name = "sqr" -> <<Sqr(t), R2 \otimes t, R2>>
    [] name = "pow" -> <<Pow(t, m), m \otimes Pow(t, m \ominus R1), (m \otimes (m \ominus R1)) \otimes Pow(t, m \ominus R2)>>
    [] name = "sqrt" -> LET s == Sqrt(t) IN <<s, Half \oslash s, Neg(Dec(25, -2) \oslash (t \otimes s))>>
    [] name = "asin" -> LET c == Sqrt(R1 \ominus Sqr(t)) IN <<Atan2(t, c), R1 \oslash c, t \oslash (c \otimes Sqr(c))>>
    [] name = "acos" -> LET c == Sqrt(R1 \ominus Sqr(t)) IN <<Acos(t), Neg(R1 \oslash c), Neg(t \oslash (c \otimes Sqr(c)))>>
    [] name = "atan" -> LET d == R1 \oplus Sqr(t) IN <<Atan2(t, R1), R1 \oslash d, Neg((R2 \otimes t) \oslash Sqr(d))>>
    [] name = "inverse" -> <<R1 \oslash t, Neg(R1 \oslash Sqr(t)), R2 \oslash (t \otimes Sqr(t))>>
JFn(name, x, m) == Chain(Fn(name, x[1], m), x)
JInv(x) == JFn("inverse", x, R0)
JSqrt(x) == JFn("sqrt", x, R0)
JDiv(x, y) == JMul(x, JInv(y))
\* the angle of the point (x, y): its derivative is (x y' - y x') / (x^2 + y^2)
JAtan2(y, x) == LET num == (y[2] \otimes x[1]) \ominus (y[1] \otimes x[2])  den == Sqr(x[1]) \oplus Sqr(y[1]) IN
    IF Len(x) = 2 THEN <<Atan2(y[1], x[1]), num \oslash den>>
    ELSE LET q == JDiv(<<num, (y[3] \otimes x[1]) \ominus (y[1] \otimes x[3])>>,
                       <<den, R2 \otimes ((x[1] \otimes x[2]) \oplus (y[1] \otimes y[2]))>>) IN <<Atan2(y[1], x[1]), q[1], q[2]>>

(* vectors *)
VC(v, n) == ConstJ(v, Zero3, n)
VAdd(x, y) == BothJ(x, y, Add)
VSub(x, y) == BothJ(x, y, Sub)
VNeg(x) == EachJ(x, NegV)
VCross(x, y) == Leibniz(Cross, Add, x, y)
VDot(x, y) == Leibniz(Dot, LAMBDA a, b : a \oplus b, x, y)
VScale(x, s) == Leibniz(Scale, Add, x, s)
VDiv(x, s) == VScale(x, JInv(s))

(* rotations, as jets of matrices; r is how they are written down: [R, w(, dw)] *)
MJ(r) == LET w == Skew(r.w) IN
    IF "dw" \in DOMAIN r THEN <<r.R, MM(w, r.R), MM(MAdd(Skew(r.dw), MM(w, w)), r.R)>> ELSE <<r.R, MM(w, r.R)>>
ZM == MScale(I3, R0)
MC(m, n) == ConstJ(m, ZM, n)
MMul(x, y) == Leibniz(MM, MAdd, x, y)
MTr(x) == EachJ(x, Tr)
MApp(x, v) == Leibniz(MV, Add, x, v)

(* frames and twists *)
FJ(f) == [M |-> MJ(f.M), p |-> f.p]
FC(f, n) == [M |-> MC(f.M, n), p |-> VC(f.p, n)]
FMulJ(f, g) == [M |-> MMul(f.M, g.M), p |-> VAdd(MApp(f.M, g.p), f.p)]
FAppJ(f, v) == VAdd(MApp(f.M, v), f.p)
FInvJ(f) == [M |-> MTr(f.M), p |-> VNeg(MApp(MTr(f.M), f.p))]
TC(t, n) == [vel |-> VC(t.vel, n), rot |-> VC(t.rot, n)]
TAdd(x, y) == [vel |-> VAdd(x.vel, y.vel), rot |-> VAdd(x.rot, y.rot)]
TSub(x, y) == [vel |-> VSub(x.vel, y.vel), rot |-> VSub(x.rot, y.rot)]
TNeg(x) == [vel |-> VNeg(x.vel), rot |-> VNeg(x.rot)]
TScale(x, s) == [vel |-> VScale(x.vel, s), rot |-> VScale(x.rot, s)]
TRef(x, v) == [vel |-> VAdd(x.vel, VCross(x.rot, v)), rot |-> x.rot]
TRotJ(m, x) == [vel |-> MApp(m, x.vel), rot |-> MApp(m, x.rot)]
TFrameJ(f, x) == LET w == MApp(f.M, x.rot) IN [vel |-> VAdd(MApp(f.M, x.vel), VCross(f.p, w)), rot |-> w]

----------------------------------------------------------------------------
NumResults(x, y, s) ==
    LET n == Len(x)  c == JC(s, n) IN
    <<JAdd(x, y), JSub(x, y), JMul(x, y), JDiv(x, y), JNeg(x), JMul(c, x), JMul(x, c), JAdd(c, x), JAdd(x, c), JSub(c, x), JSub(x, c),
      JDiv(c, x), JDiv(x, c),
      JAdd(x, y), JSub(x, y), JMul(x, y), JDiv(x, y), JAdd(x, c), JSub(x, c), JMul(x, c), JDiv(x, c), c, JC(R0, n), JC(R1, n), c,
      JAtan2(x, y), JSqrt(JAdd(JMul(x, x), JMul(y, y))),
      JAdd(JMul(c, x), JMul(JC(Dec(25, -1), n), y)), JAdd(JMul(c, x), JMul(JC(Dec(25, -1), n), y)), JAdd(x, x), JMul(x, x)>>
NumNames == <<"sum", "difference", "product", "quotient", "negative", "scalar-times", "times-scalar", "scalar-plus", "plus-scalar",
    "scalar-minus", "minus-scalar", "scalar-over", "over-scalar", "add-to", "subtract-from", "multiply-by", "divide-by",
    "add-scalar-to", "subtract-scalar-from", "multiply-by-scalar", "divide-by-scalar", "assign-scalar", "zero", "identity",
    "constant", "atan2", "hypot", "linear-combination", "linear-combination", "add-to-itself", "multiply-by-itself">>
VecResults(x, y, v, s, d) ==
    LET n == Len(x)  c == VC(v, n)  k == JC(s, n)  z == VC(Zero3, n) IN
    <<VAdd(x, y), VSub(x, y), VAdd(c, x), VSub(c, x), VAdd(x, c), VSub(x, c), VNeg(x), VCross(x, y), VCross(x, c), VCross(c, x),
      VScale(x, k), VScale(x, k), VScale(x, d), VScale(x, d), VDiv(x, k), VDiv(x, d), VAdd(x, y), VSub(x, y), VNeg(x), c, z, c, z,
      VDot(x, y), VDot(x, c), VDot(x, c), JSqrt(VDot(x, x))>>
RotWant(a, n) ==
    LET x == MJ(a[1])  y == MJ(a[2])  m == MC(a[3], n)  v == a[4]  w == VC(a[5], n)  t == a[6]  u == TC(a[7], n)  i == MC(I3, n) IN
    <<MMul(x, y), MMul(m, x), MMul(x, m), MTr(x), m, m, i, i, MApp(x, v), MApp(x, w), MApp(MTr(x), v), MApp(MTr(x), w), MApp(m, v),
      TRotJ(x, t), TRotJ(x, u), TRotJ(MTr(x), t), TRotJ(MTr(x), u)>>
FrameWant(a, n) ==
    LET x == FJ(a[1])  y == FJ(a[2])  m == FC(a[3], n)  v == a[4]  w == VC(a[5], n)  t == a[6]  u == TC(a[7], n)  xi == FInvJ(x) IN
    <<FMulJ(x, y), FMulJ(m, x), FMulJ(x, m), xi, m, x, m, FC(FId, n), FAppJ(x, v), FAppJ(x, w), FAppJ(xi, v), FAppJ(xi, w),
      TFrameJ(x, t), TFrameJ(x, u), TFrameJ(xi, t), TFrameJ(xi, u)>>
TwistWant(a, n) ==
    LET x == a[1]  y == a[2]  k == JC(a[3], n)  d == a[4]  v == a[5] IN
    <<TAdd(x, y), TSub(x, y), TNeg(x), TAdd(x, y), TSub(x, y), TNeg(x), TScale(x, k), TScale(x, k), TScale(x, JInv(k)),
      TScale(x, d), TScale(x, d), TScale(x, JInv(d)), TC(TwZero, n), TRef(x, v),
      Tw(x.vel[1], x.rot[1]), Tw(x.vel[2], x.rot[2])>>
\* the results of a call with the rotations in them turned into jets of matrices
Jets(r, k) == Tup([j \in 1..Len(r) |-> IF j \in k THEN MJ(r[j]) ELSE r[j]])
FJets(r, k) == Tup([j \in 1..Len(r) |-> IF j \in k THEN FJ(r[j]) ELSE r[j]])

----------------------------------------------------------------------------
(* Derivatives of any order: <<x, x', x'', ...>>.  Products by the rule of Leibniz; a function is its value followed by *)
(* the series of f'(x) x', with f' itself such a series, one shorter.                                                  *)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
SMul(x, y) == Tup([n \in 1..(IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)) |->
    FoldL(LAMBDA s, k : s \oplus (R(Choose(n - 1, k - 1)) \otimes (x[k] \otimes y[n + 1 - k])), R0, [k \in 1..n |-> k])])
SConst(s, x) == [k \in 1..Len(x) |-> IF k = 1 THEN s ELSE R0]
SAll(s, x) == EachJ(x, LAMBDA e : s \otimes e)
SFront(x) == SubSeq(x, 1, Len(x) - 1)
\* v the value, d the derivative of the function at x without its last member
SBy(v, d, x) == <<v>> \o SMul(d, Tail(x))
RECURSIVE SInv(_)
SInv(x) == IF Len(x) = 1 THEN <<R1 \oslash x[1]>> ELSE LET q == SInv(SFront(x)) IN SBy(R1 \oslash x[1], JNeg(SMul(q, q)), x)
SDiv(x, y) == SMul(x, SInv(y))
RECURSIVE SPow(_, _)
SPow(x, m) == IF Len(x) = 1 THEN <<Pow(x[1], m)>> ELSE LET f == SFront(x) IN SBy(Pow(x[1], m), SAll(m, SMul(SPow(f, m), SInv(f))), x)
RECURSIVE SFn(_, _, _)
SFn(name, x, m) ==
    IF name = "pow" THEN SPow(x, m)
    ELSE IF name = "sqrt" THEN <<Sqrt(x[1])>> \o Tail(SPow(x, Half))
    ELSE IF name = "sqr" THEN SMul(x, x)
    ELSE IF Len(x) = 1 THEN <<Fn(name, x[1], m)[1]>>
    ELSE LET f == SFront(x)  v == Fn(name, x[1], m)[1]  one == SConst(R1, f) IN
    SBy(v, CASE name = "exp" -> SFn("exp", f, m)
             [] name = "log" -> SInv(f)
             [] name = "sin" -> SFn("cos", f, m)
             [] name = "cos" -> JNeg(SFn("sin", f, m))
             [] name = "tan" -> LET u == SFn("tan", f, m) IN JAdd(one, SMul(u, u))
             [] name = "sinh" -> SFn("cosh", f, m)
             [] name = "cosh" -> SFn("sinh", f, m)
             [] name = "tanh" -> LET u == SFn("tanh", f, m) IN JSub(one, SMul(u, u))
             [] name = "atan" -> SInv(JAdd(one, SMul(f, f)))
             [] name = "asin" -> SPow(JSub(one, SMul(f, f)), Neg(Half))
             [] name = "acos" -> JNeg(SPow(JSub(one, SMul(f, f)), Neg(Half))), x)
SAtan2(y, x) == LET d == JAdd(SMul(x, x), SMul(y, y))  f == SFront(x)  g == SFront(y) IN
    <<Atan2(y[1], x[1])>> \o SDiv(JSub(SMul(f, Tail(y)), SMul(g, Tail(x))), SFront(d))
NestResults(x, y, s) ==
    LET c == SConst(s, x) IN
    <<JAdd(x, y), JSub(x, y), SMul(x, y), SDiv(x, y), JNeg(x), SAll(s, x), SAll(s, x), JAdd(c, x), JAdd(x, c), JSub(c, x), JSub(x, c),
      SDiv(c, x), SAll(R1 \oslash s, x), SAtan2(x, y), SFn("sqrt", JAdd(SMul(x, x), SMul(y, y)), R0),
      JAdd(x, y), JSub(x, y), SAll(s, x), SAll(R1 \oslash s, x), JAdd(x, x), SMul(x, y), SDiv(x, y), SMul(x, x)>>
NestNames == <<"sum", "difference", "product", "quotient", "negative", "scalar-times", "times-scalar", "scalar-plus", "plus-scalar",
    "scalar-minus", "minus-scalar", "scalar-over", "over-scalar", "atan2", "hypot", "add-to", "subtract-from", "multiply-by-scalar",
    "divide-by-scalar", "add-to-itself", "multiply-by", "divide-by", "multiply-by-itself">>
\* higher derivatives grow, and with them what rounding leaves of them
NestOk(label, got, want) ==
    LET big == R1 \oplus MaxAbs(want) IN
    SameTol(label, got[1], want, Dec(1, -8) \otimes big) \cup SameTol(label, got[2], want, Dec(1, -8) \otimes big)

AddJ(w, dt) == Tup([k \in 1..Len(w) |-> Scale(w[k], dt)])
Each(prop, name, names, r, want) == UNION {Same(prop \o "." \o name \o names[k], r[k], want[k]) : k \in 1..Len(want)}
Nth == <<"01","02","03","04","05","06","07","08","09","10","11","12","13","14","15","16","17","18","19","20","21","22","23","24","25","26","27">>
P1(n) == IF n = 2 THEN "C07" ELSE "C08"

FlatJ(x) == FoldL(LAMBDA s, v : s \o v, <<>>, x)
\* the reals of a jet of a frame or rotation, as the library stores them
FlatR(r) == FlatM(r.R) \o r.w \o (IF "dw" \in DOMAIN r THEN r.dw ELSE <<>>)
FlatF(f) == FlatR(f.M) \o FlatJ(f.p)
FlatT(t) == FlatJ(t.vel) \o FlatJ(t.rot)
HeadF(f) == FlatM(f.M.R) \o f.p[1]
HeadT(t) == t.vel[1] \o t.rot[1]
\* d: the difference of the jets; d1, d2: of each plain value, carried along with zero derivatives, to the other jet
EqJ(label, d, d1, d2, same, eps, r) ==
    Chk(label \o ".within-eps", EqOk(r[1], d, eps)) \cup Chk(label \o ".symmetric", r[1] = r[2])
    \cup Chk(label \o ".with-constant", EqOk(r[3], d1, eps) /\ EqOk(r[4], d2, eps))
    \cup Chk(label \o ".hash", same => r[5])
    \cup (IF Len(r) = 5 THEN {} ELSE Chk(label \o ".operators", EqOk(r[6], d, Eps6) /\ r[6] = r[7] /\ r[8] = ~r[6] /\ r[9] = ~r[7]))
Pad(s, len) == s \o ZeroN(len - Len(s))
ZeroW(r) == [k \in DOMAIN r |-> IF k = "R" THEN r.R ELSE Zero3]
EqFlat(label, a, F(_), C(_), r) ==
    LET x == F(a[1])  y == F(a[2]) IN
    EqJ(label, MaxDiff(x, y), MaxDiff(F(C(a[1])), y), MaxDiff(x, F(C(a[2]))), a[1] = a[2], a[3], r)
ConstV(x) == VC(x[1], Len(x))
ConstF(f) == [M |-> ZeroW(f.M), p |-> ConstV(f.p)]
ConstT(t) == [vel |-> ConstV(t.vel), rot |-> ConstV(t.rot)]

DualOp(op, a, r) ==
  CASE op \in {"j1.num", "j2.num"} -> LET want == NumResults(a[1], a[2], a[3]) IN Each("C06", "", NumNames, r, want)
    [] op \in {"j1.fn", "j2.fn"} -> Same("C06.function-" \o a[1], r, <<JFn(a[1], a[2], a[3])>>)
    [] op = "nd.num" -> LET want == NestResults(a[2], a[3], a[4]) IN
        UNION {NestOk("C06.nested-" \o NestNames[k], r[k], want[k]) : k \in 1..Len(r)}
    [] op = "nd.fn" -> NestOk("C06.nested-function-" \o a[2], r, SFn(a[2], a[3], a[4]))
    [] op = "nd.given" -> Chk("C06.nested-given", r = <<a[2], a[2]>>)
    [] op \in {"j1.vec", "j2.vec"} -> LET n == Len(a[1]) IN Each(P1(n), "vector-", Nth, r, VecResults(a[1], a[2], a[3], a[4], a[5]))
    [] op \in {"j1.rot", "j2.rot"} -> LET n == Len(a[4]) IN Each(P1(n), "rotation-", Nth, Jets(r, 1..8), RotWant(a, n))
    [] op \in {"j1.frame", "j2.frame"} -> LET n == Len(a[4]) IN Each(P1(n), "frame-", Nth, FJets(r, 1..8), FrameWant(a, n))
    [] op \in {"j1.twist", "j2.twist"} -> LET n == Len(a[5]) IN Each(P1(n), "twist-", Nth, r, TwistWant(a, n))
    [] op = "j1.get" ->
        LET f == a[1]  t == a[2]  v == a[3]  pose == Fr(f.M.R, f.p[1])  mot == Tw(f.p[2], f.M.w)  c == MTr(MJ(f.M)) IN
        Same("C07.value-and-derivative", SubSeq(r, 1, 10),
             <<pose, mot, pose, mot, Tw(t.vel[1], t.rot[1]), Tw(t.vel[2], t.rot[2]), v[1], v[2], f.M.R, f.M.w>>)
        \cup Same("C07.from-parts", SubSeq(r, 11, 13), <<f, [vel |-> <<a[4].vel, a[5].vel>>, rot |-> <<a[4].rot, a[5].rot>>], TC(a[4], 2)>>)
        \cup Same("C07.axes", SubSeq(r, 14, 16), [k \in 1..3 |-> <<c[1][k], c[2][k]>>])
    [] op = "j2.get" -> LET f == a[1] IN
        Same("C08.value-and-derivatives", r, <<Fr(f.M.R, f.p[1]), Tw(f.p[2], f.M.w), Tw(f.p[3], f.M.dw), f>>)
    [] op = "j1.turn" ->
        LET q == a[1]
            Turn(u, m) == [R |-> m, w |-> Scale(u, q[2])]
            x == [R |-> RotX(q[1]), w |-> Scale(EX, q[2])]
            y == [R |-> RotY(q[1]), w |-> Scale(EY, q[2])]
            z == [R |-> RotZ(q[1]), w |-> Scale(EZ, q[2])]
            m == MJ(a[4]) IN
        Same("C07.elementary-rotation", SubSeq(r, 1, 3), <<x, y, z>>)
        \cup Same("C07.axis-rotation", SubSeq(r, 4, 5), <<IF Norm(a[2]) \prec Eps6 THEN [R |-> I3, w |-> Zero3] ELSE Turn(Unit(a[2]), RotAxis(a[2], q[1])), Turn(a[3], RotAbout(a[3], q[1]))>>)
        \cup Same("C07.do-rotation", <<MJ(r[6]), MJ(r[7]), MJ(r[8])>>, <<MMul(m, MJ(x)), MMul(m, MJ(y)), MMul(m, MJ(z))>>)
    [] op = "j1.diff" ->
        LET dt == a[9]  k == R1 \oslash dt IN
        Same("C07.diff-number", r[1], JMul(JSub(a[2], a[1]), JC(k, 2)))
        \cup Same("C07.diff-vector", r[2], VScale(VSub(a[4], a[3]), JC(k, 2)))
        \cup Chk("C07.diff-rotation", DiffOk(a[5].R, a[6].R, r[3][1], dt) /\ Close(r[3][2], Scale(Sub(a[6].w, a[5].w), k), Tol))
        \cup Chk("C07.diff-frame", /\ DiffOk(a[7].M.R, a[8].M.R, r[4].rot[1], dt) /\ Close(r[4].rot[2], Scale(Sub(a[8].M.w, a[7].M.w), k), Tol)
                                   /\ Close(r[4].vel, VScale(VSub(a[8].p, a[7].p), JC(k, 2)), Tol))
    [] op = "j1.add" ->
        LET dt == a[9]
            AddR(m, w) == [R |-> AddDeltaM(m.R, w[1], dt), w |-> Add(m.w, Scale(w[2], dt))] IN
        Same("C07.add-delta", r, <<JAdd(a[1], JMul(a[2], JC(dt, 2))), VAdd(a[3], AddJ(a[4], dt)), AddR(a[5], a[6]),
             [M |-> AddR(a[7].M, a[8].rot), p |-> VAdd(a[7].p, AddJ(a[8].vel, dt))]>>)
    [] op \in {"eq.j1v", "eq.j2v"} -> EqFlat("C09.vector-jet", a, FlatJ, ConstV, r)
    [] op \in {"eq.j1m", "eq.j2m"} -> EqFlat("C09.rotation-jet", a, FlatR, ZeroW, r)
    [] op \in {"eq.j1f", "eq.j2f"} -> EqFlat("C09.frame-jet", a, FlatF, ConstF, r)
    [] op \in {"eq.j1t", "eq.j2t"} -> EqFlat("C09.twist-jet", a, FlatT, ConstT, r)
    [] op \in {"eq.j1d", "eq.j2d"} ->
        LET d == MaxDiff(a[1], a[2]) IN
        Chk("C09.number-jet.within-eps", EqOk(r[1], d, a[3]) /\ r[1] = r[2]) \cup Chk("C09.number-jet.hash", a[1] = a[2] => r[3])
        \cup Chk("C09.number-jet.operators", r[4] = r[5] /\ r[6] = ~r[4] /\ r[7] = ~r[5] /\ (a[1] = a[2] => r[4]) /\ (Eps6 \preceq d => ~r[4]))

DualOps == {"nd.num", "nd.fn", "nd.given", "j1.num", "j2.num", "j1.fn", "j2.fn", "j1.vec", "j2.vec", "j1.rot", "j2.rot", "j1.frame", "j2.frame", "j1.twist", "j2.twist",
    "j1.get", "j2.get", "j1.turn", "j1.diff", "j1.add", "eq.j1v", "eq.j1m", "eq.j1f", "eq.j1t", "eq.j2v", "eq.j2m", "eq.j2f", "eq.j2t",
    "eq.j1d", "eq.j2d"}
=============================================================================
