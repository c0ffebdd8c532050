------------------------------- MODULE MCDual ------------------------------
(***************************************************************************)
(* Jets over small integers.  Numbers: every jet with components in a      *)
(* small range, acted upon by every other.  Rotations: the products of     *)
(* quarter turns about the axes, each with its own rate and acceleration.  *)
(* The invariants are identities of calculus; transitions become scripts.  *)
(***************************************************************************)
EXTENDS Dual

CONSTANTS Order,        \* number of components of a jet: 2 or 3
          Depth         \* the longest product of rotations
VARIABLES kind, x, k
vars == <<kind, x, k>>

Out == Env("KDL_EMIT")
Prop == Env("KDL_PROP")
O(name, args) == [op |-> name, a |-> args]
Emit(unit) == EmitLines(Out, <<[unit |-> unit]>>)
J == IF Order = 2 THEN "j1." ELSE "j2."

Small == {-1, 0, 2}
NumJets == {Tup([j \in 1..Order |-> R(f[j])]) : f \in [1..Order -> Small]}
Positive(j) == Tup([j EXCEPT ![1] = Sqr(j[1]) \oplus Dec(5, -1)])
QuarterTurns ==
    LET w == {Scale(e, R(s)) : e \in {EX, EZ}, s \in {-1, 2}} \cup {Zero3} IN
    {MJ(IF Order = 2 THEN [R |-> m, w |-> v] ELSE [R |-> m, w |-> v, dw |-> u]) :
        m \in { << <<R1,R0,R0>>, <<R0,R0,R(-1)>>, <<R0,R1,R0>> >>, << <<R0,R(-1),R0>>, <<R1,R0,R0>>, <<R0,R0,R1>> >>,
                << <<R0,R0,R1>>, <<R0,R1,R0>>, <<R(-1),R0,R0>> >> },
        v \in w, u \in IF Order = 2 THEN {Zero3} ELSE {Zero3, <<R1, R(-1), R0>>}}
Vee(s) == <<s[3][2], s[1][3], s[2][1]>>
\* how the library is given a jet of matrices
Written(m) == LET W == MM(m[2], Tr(m[1])) IN
    IF Order = 2 THEN [R |-> m[1], w |-> Vee(W)] ELSE [R |-> m[1], w |-> Vee(W), dw |-> Vee(MSub(MM(m[3], Tr(m[1])), MM(W, W)))]
Some3(a, b, c) == <<R(a), R(b), R(c)>>
AV == Tup([j \in 1..Order |-> <<Some3(1, -2, 3), Some3(0, 1, -1), Some3(2, 0, 1)>>[j]])
BV == Tup([j \in 1..Order |-> <<Some3(-1, 1, 2), Some3(1, 0, -2), Some3(0, -1, 0)>>[j]])
AT == [vel |-> AV, rot |-> BV]

Init == \/ kind = "number" /\ k = 0 /\ x \in NumJets /\ Prop = "C06"
        \/ kind = "rotation" /\ k = 0 /\ x = MC(I3, Order) /\ Prop # "C06"
Funs == {"exp", "sin", "cos", "tan", "sinh", "cosh", "tanh", "sqr", "atan"}
PFuns == {"log", "sqrt", "pow"}
RECURSIVE Listed(_)
Listed(s) == IF s = {} THEN <<>> ELSE LET e == CHOOSE z \in s : TRUE IN <<e>> \o Listed(s \ {e})
Long(y) == SubSeq(y \o <<R1, R(-2), Half, R(3), R1>>, 1, 6)
Act(y) == /\ kind = "number" /\ k = 0 /\ k' = 1 /\ kind' = kind
          /\ x' = JMul(x, y)
          /\ LET fs == Listed(Funs)  ps == Listed(PFuns)  nz == Tup([y EXCEPT ![1] = IF @ = R0 THEN R1 ELSE @]) IN
             Emit(<<O(J \o "num", <<Tup([x EXCEPT ![1] = IF @ = R0 THEN R1 ELSE @]), nz, R(-2)>>)>>
                  \o Tup([j \in 1..Len(fs) |-> O(J \o "fn", <<fs[j], x, R2>>)])
                  \o Tup([j \in 1..Len(ps) |-> O(J \o "fn", <<ps[j], Positive(x), y[1]>>)])
                  \o <<O("nd.num", <<"5", Long(Tup([x EXCEPT ![1] = IF @ = R0 THEN R1 ELSE @])), Long(nz), R(-2)>>)>>
                  \o Tup([j \in 1..Len(fs) |-> O("nd.fn", <<"5", fs[j], Long(x), R2>>)])
                  \o Tup([j \in 1..Len(ps) |-> O("nd.fn", <<"5", ps[j], Long(Positive(x)), y[1]>>)]))
Turn(t) == /\ kind = "rotation" /\ k < Depth /\ k' = k + 1 /\ kind' = kind
           /\ x' = MMul(x, t)
           /\ LET f == [M |-> Written(x), p |-> AV]  g == [M |-> Written(t), p |-> BV] IN
              Emit(<<O(J \o "rot", <<f.M, g.M, RotX(R1), AV, AV[1], AT, Tw(AV[1], BV[1])>>),
                     O(J \o "frame", <<f, g, Fr(RotZ(R1), BV[1]), BV, BV[1], AT, Tw(BV[1], AV[1])>>)>>)
Next == (\E y \in NumJets : Act(y)) \/ (\E t \in QuarterTurns : Turn(t))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
One == JC(R1, Order)
Z == JC(R0, Order)
F(name, y) == JFn(name, y, R(3))
Trigonometry == kind = "number" =>
    /\ Close(JAdd(JMul(F("sin", x), F("sin", x)), JMul(F("cos", x), F("cos", x))), One, Tol)
    /\ Close(JSub(JMul(F("cosh", x), F("cosh", x)), JMul(F("sinh", x), F("sinh", x))), One, Tol)
    /\ Close(JMul(F("tan", x), F("cos", x)), F("sin", x), Tol)
    /\ Close(JMul(F("tanh", x), F("cosh", x)), F("sinh", x), Tol)
Inverses == kind = "number" =>
    LET p == Positive(x) IN
    /\ Close(F("log", F("exp", x)), x, Tol) /\ Close(F("exp", F("log", p)), p, Tol)
    /\ Close(JMul(F("sqrt", p), F("sqrt", p)), p, Tol)
    /\ Close(F("pow", p), JMul(p, JMul(p, p)), Tol)
    /\ Close(F("tan", F("atan", x)), x, Tol)
    /\ Close(F("sin", F("asin", JDiv(x, JC(R(9), Order)))), JDiv(x, JC(R(9), Order)), Tol)
    /\ Close(F("cos", F("acos", JDiv(x, JC(R(9), Order)))), JDiv(x, JC(R(9), Order)), Tol)
    /\ Close(JMul(JDiv(x, p), p), x, Tol)
    /\ Close(JAtan2(x, p), F("atan", JDiv(x, p)), Tol)
    /\ Close(JAtan2(F("sin", F("atan", x)), F("cos", F("atan", x))), F("atan", x), Tol)
\* derivatives of any order: the same as jets as far as those go, and the same identities of calculus beyond
Series == kind = "number" =>
    LET p == Positive(x)  ninth == JDiv(x, JC(R(9), Order))  y == Long(x)  q == Long(p)  n == SAll(R1 \oslash R(9), y)  S(name, z) == SFn(name, z, R(3))  one == SConst(R1, y) IN
    /\ \A f \in Funs : Close(S(f, x), F(f, x), Dec(1, -7))
    /\ \A f \in PFuns : Close(S(f, p), F(f, p), Dec(1, -6))
    /\ \A f \in {"asin", "acos"} : Close(S(f, ninth), F(f, ninth), Dec(1, -6))
    /\ Close(SDiv(x, p), JDiv(x, p), Dec(1, -6)) /\ Close(SAtan2(x, p), JAtan2(x, p), Dec(1, -6))
    /\ Close(JAdd(SMul(S("sin", y), S("sin", y)), SMul(S("cos", y), S("cos", y))), one, Dec(1, -6))
    /\ Close(JSub(SMul(S("cosh", y), S("cosh", y)), SMul(S("sinh", y), S("sinh", y))), one, Dec(1, -6))
    /\ Close(SMul(S("tan", y), S("cos", y)), S("sin", y), Dec(1, -6))
    /\ Close(SMul(S("tanh", y), S("cosh", y)), S("sinh", y), Dec(1, -6))
    /\ Close(S("log", S("exp", y)), y, Dec(1, -6))
    /\ Close(SMul(S("sqrt", q), S("sqrt", q)), q, Dec(1, -6))
    /\ Close(S("pow", q), SMul(q, S("sqr", q)), Dec(1, -6))
    /\ Close(S("tan", S("atan", n)), n, Dec(1, -6)) /\ Close(S("sin", S("asin", n)), n, Dec(1, -6)) /\ Close(S("cos", S("acos", n)), n, Dec(1, -6))
    /\ Close(SAtan2(S("sin", n), S("cos", n)), n, Dec(1, -6))
\* (d/dt of the jet without its last component: the product rule agrees with differentiating twice)
Rigid == kind = "rotation" =>
    /\ Close(MMul(x, MTr(x)), MC(I3, Order), Tol)
    /\ Close(MJ(Written(x)), x, Tol)
    /\ Close(VDot(MApp(x, AV), MApp(x, BV)), VDot(AV, BV), Tol)
    /\ Close(VCross(MApp(x, AV), MApp(x, BV)), MApp(x, VCross(AV, BV)), Tol)
Group == kind = "rotation" =>
    LET f == [M |-> x, p |-> AV]  g == [M |-> MTr(x), p |-> BV] IN
    /\ Close(FAppJ(FMulJ(f, g), AV), FAppJ(f, FAppJ(g, AV)), Tol)
    /\ Close(FMulJ(f, FInvJ(f)), FC(FId, Order), Tol)
    /\ Close(FInvJ(FMulJ(f, g)), FMulJ(FInvJ(g), FInvJ(f)), Tol)
    /\ Close(TFrameJ(FMulJ(f, g), AT), TFrameJ(f, TFrameJ(g, AT)), Tol)
Velocity == kind = "rotation" =>      \* points fixed to the moving frame move with its twist
    LET w == Written(x).w IN Close(MApp(x, VC(AV[1], Order))[2], Cross(w, MV(x[1], AV[1])), Tol)
=============================================================================
