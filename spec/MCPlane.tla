------------------------------- MODULE MCPlane -------------------------------
(***************************************************************************)
(* A body moved step by step in the plane: unit steps, quarter turns and   *)
(* turns with cosine 3/5 and sine 4/5.  Next to the definitions of Geom,   *)
(* which have angles, it is kept as a pair of complex numbers, which have  *)
(* none.  Every state becomes a script for the library.                    *)
(***************************************************************************)
EXTENDS Geom

CONSTANT Box
VARIABLES f, z, t, n
vars == <<f, z, t, n>>
Out == Env("KDL_EMIT")
O(name, args) == [op |-> name, a |-> args]

CMul(a, b) == << (a[1] \otimes b[1]) \ominus (a[2] \otimes b[2]), (a[1] \otimes b[2]) \oplus (a[2] \otimes b[1]) >>
CConj(a) == <<a[1], Neg(a[2])>>
Atan34 == Atan2(Dec(4, 0), Dec(3, 0))
\* angle, the same as a complex number, and a step
Steps == {<<R0, <<R1, R0>>, <<R(i), R(j)>>>> : i, j \in {-1, 0, 1}}
         \cup {<<Pi \oslash R2, <<R0, R1>>, <<R0, R0>>>>, <<Atan34, <<Dec(6, -1), Dec(8, -1)>>, <<R0, R0>>>>, <<Neg(Atan34), <<Dec(6, -1), Dec(-8, -1)>>, <<R1, R0>>>>, <<Pi, <<R(-1), R0>>, <<R0, R2>>>>}
V1 == <<R(3), R(-2)>>
G1 == [th |-> Dec(7, -1), p |-> <<R1, Half>>]
Z1 == <<Cos(Dec(7, -1)), Sin(Dec(7, -1))>>

Spatial(g) == Fr(RotZ(g.th), <<g.p[1], g.p[2], R0>>)
Flat3(v) == <<v[1], v[2], R0>>
Mul2(g, h) == [th |-> g.th \oplus h.th, p |-> P2Add(P2App(g.th, h.p), g.p)]
Init == f = [th |-> R0, p |-> <<R0, R0>>] /\ z = <<R1, R0>> /\ t = <<R0, R0>> /\ n = 0
Next == \E s \in Steps : LET g == [th |-> s[1], p |-> s[3]]  w == IF f.p = <<R0, R0>> THEN V1 ELSE f.p IN
    /\ n' = n + 1 /\ n' <= Box
    /\ f' = Mul2(f, g)
    /\ z' = CMul(z, s[2])
    /\ t' = P2Add(CMul(z, s[3]), t)
    /\ EmitLines(Out, <<[unit |-> <<O("p.rot", <<f'.th>>), O("p.rotmul", <<f.th, s[1], w>>), O("p.frame", <<f, g, V1>>), O("p.frame", <<f', G1, w>>), O("p.vec", <<f'.p, w, R2>>), O("p.norm", <<P2Add(f'.p, <<Dec(313, -2), Dec(-7, -2)>>)>>),
            O("p.from3d", <<Flat3(f'.p), Fr(RotX(f.th), Flat3(f.p))>>), O("v.from2d", <<f'.p, Spatial(f)>>),
            O("p.eq", <<f'.p, P2Add(f'.p, <<R0, Dec(9, -7)>>), Eps6, f', [f' EXCEPT !.p[1] = @ \oplus Dec(11, -7)]>>),
            O("p.eq", <<f'.p, P2Add(f'.p, <<Dec(-11, -7), R0>>), Eps6, f', [f' EXCEPT !.th = @ \oplus Dec(11, -7)]>>)>>]>>)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Agree == Close(P2Rot(f.th), <<<<z[1], Neg(z[2])>>, <<z[2], z[1]>>>>, Tol) /\ Close(f.p, t, Tol)
Acts == Close(P2App(f.th, V1), CMul(z, V1), Tol) /\ Close(P2App(Neg(f.th), V1), CMul(CConj(z), V1), Tol)
Composes == LET g == Mul2(f, G1) IN Close(P2Add(P2App(g.th, V1), g.p), P2Add(CMul(CMul(z, Z1), V1), P2Add(CMul(z, G1.p), t)), Tol)
Inverts == LET i == F2Inv(f) IN Close(i.p, CMul(CConj(z), P2Scale(t, R(-1))), Tol) /\ Close(P2Add(P2App(f.th, i.p), f.p), <<R0, R0>>, Tol)
Homogeneous == LET m == F2Mat(f)  x == P2Add(P2App(f.th, V1), f.p) IN
    Close(Tup([i \in 1..3 |-> (m[i][1] \otimes V1[1]) \oplus ((m[i][2] \otimes V1[2]) \oplus m[i][3])]), <<x[1], x[2], R1>>, Tol)
Planar == Close(FApp(Spatial(f), Flat3(V1)), Flat3(P2Add(P2App(f.th, V1), f.p)), Tol)
Rigid == Close(P2Norm(P2App(f.th, V1)), P2Norm(V1), Tol) /\ Close(P2Norm(V1) \otimes P2Norm(V1), R(13), Tol)
=============================================================================
