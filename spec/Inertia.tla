------------------------------ MODULE Inertia ------------------------------
(***************************************************************************)
(* An inertia is the linear map from the twist of a body to its momentum   *)
(* (a wrench), both with respect to the same reference point.  The map is  *)
(* written as its images of the six unit twists.                           *)
(***************************************************************************)
EXTENDS Dual

UnitTwists == <<Tw(EX, Zero3), Tw(EY, Zero3), Tw(EZ, Zero3), Tw(Zero3, EX), Tw(Zero3, EY), Tw(Zero3, EZ)>>
MapOf(F(_)) == Tup([k \in 1..6 |-> F(UnitTwists[k])])
Apply(i, t) == LET c == TwVec(t) IN
    FoldL(LAMBDA w, k : WrAdd(w, WrScale(i[k], c[k])), WrZero, <<1, 2, 3, 4, 5, 6>>)
IZero == MapOf(LAMBDA t : WrZero)
IAdd(i, j) == Tup([k \in 1..6 |-> WrAdd(i[k], j[k])])
ISub(i, j) == Tup([k \in 1..6 |-> WrSub(i[k], j[k])])
IScale(i, s) == Tup([k \in 1..6 |-> WrScale(i[k], s)])
\* the same body described in another frame, with another orientation, about another point
IFrame(f, i) == LET g == FInv(f) IN MapOf(LAMBDA t : WrFrame(f, Apply(i, TwFrame(g, t))))
IRot(m, i) == IFrame(Fr(m, Zero3), i)
IRef(i, p) == MapOf(LAMBDA t : WrRef(Apply(i, TwRef(t, NegV(p))), p))
Energy(i, t) == Half \otimes Power(t, Apply(i, t))

SymM(s) == << <<s[1], s[4], s[5]>>, <<s[4], s[2], s[6]>>, <<s[5], s[6], s[3]>> >>   \* xx yy zz xy xz yz
\* the body of mass b.m, centre of gravity b.c and rotational inertia b.I about that centre: the momentum of its
\* centre, and the angular momentum about the reference point
Body(b) == MapOf(LAMBDA t :
    LET mom == Scale(Add(t.vel, Cross(t.rot, b.c)), b.m) IN Wr(mom, Add(MV(SymM(b.I), t.rot), Cross(b.c, mom))))
\* from the blocks of an articulated-body inertia
Blocks(x) == MapOf(LAMBDA t : Wr(Add(MV(x.M, t.vel), MV(Tr(x.H), t.rot)), Add(MV(x.I, t.rot), MV(x.H, t.vel))))
\* from mass, first moment and inertia about the reference point
Moments(x) == MapOf(LAMBDA t : Wr(Add(Scale(t.vel, x.m), Cross(t.rot, x.h)), Add(MV(x.I, t.rot), Cross(x.h, t.vel))))

InertiaOp(op, a, r) ==
  CASE op = "i.rot" -> LET x == SymM(a[1])  y == SymM(a[2]) IN
        Same("C10.rotational-inertia", r, <<x, MScale(x, a[3]), MAdd(x, y), MV(x, a[4]), ZM, ZM>>)
    [] op = "i.rb" ->
        LET x == Body(a[1])  y == Body(a[2])  s == a[3]  t == a[4]  f == a[5]  m == a[6]  p == a[7]
            want == <<x, IScale(x, s), IAdd(x, y), IFrame(f, x), IRot(m, x), IRef(x, p), IAdd(IFrame(f, IRef(IRot(m, x), p)), IScale(y, s)),
                      IZero, IZero, IScale(x, R2), IScale(IFrame(f, x), R2)>> IN
        Each("C10", "rigid-body-", <<"make", "scale", "sum", "frame", "rotation", "reference-point", "combined", "zero", "default", "self-sum", "self-frame">>,
             Tup([k \in 1..Len(want) |-> Moments(r[k])]), want)
        \cup Same("C10.rigid-body-momentum", r[12], Apply(x, t))
        \cup Same("C10.rigid-body-accessors", SubSeq(r, 13, 17),
                  <<a[1].m, IF a[1].m = R0 THEN Zero3 ELSE a[1].c, Scale(a[1].c, a[1].m),
                    MAdd(SymM(a[1].I), MScale(MSub(MScale(I3, Dot(a[1].c, a[1].c)), Outer(a[1].c, a[1].c)), a[1].m)), Zero3>>)
    [] op = "i.ab" ->
        LET x == Blocks(a[1])  y == Blocks(a[2])  s == a[3]  t == a[4]  f == a[5]  m == a[6]  p == a[7]  b == Body(a[8])
            want == <<x, IScale(x, s), IAdd(x, y), ISub(x, y), IFrame(f, x), IRot(m, x), IRef(x, p), b, b, IAdd(x, b), ISub(x, b),
                      IFrame(f, b), IRot(m, b), IRef(b, p), IZero, IZero>> IN
        Each("C10", "articulated-", <<"make", "scale", "sum", "difference", "frame", "rotation", "reference-point", "from-rigid", "from-parts",
                "plus-rigid", "minus-rigid", "rigid-frame", "rigid-rotation", "rigid-reference-point", "zero", "default">>,
             Tup([k \in 1..Len(want) |-> Blocks(r[k])]), want)
        \cup Same("C10.articulated-momentum", SubSeq(r, 17, 18), <<Apply(x, t), Apply(b, t)>>)
        \cup Each("C10", "articulated-", <<"rigid-plus", "rigid-minus">>, <<Blocks(r[19]), Blocks(r[20])>>, <<IAdd(b, x), ISub(b, x)>>)
InertiaOps == {"i.rot", "i.rb", "i.ab"}
=============================================================================
