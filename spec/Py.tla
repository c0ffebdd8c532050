--------------------------------- MODULE Py --------------------------------
(***************************************************************************)
(* The Python bindings.  A value of Python is [t, v]: its type and what it *)
(* consists of.  A call gives a value, or raises an exception, and leaves  *)
(* its arguments as they were, but for those it is there to change.        *)
(* Variables of Python refer to objects, or to parts of them: a part of an *)
(* object, once referred to, is the same whichever way it is reached, and  *)
(* stays as long as it is referred to.                                     *)
(***************************************************************************)
EXTENDS Life

None == [t |-> "None", v |-> ""]
KindOf(t) ==
    CASE t \in {"double", "int", "doubleVel"} -> "n"
      [] t \in {"Vector", "VectorVel"} -> "v"
      [] t \in {"Rotation", "RotationVel"} -> "m"
      [] t \in {"Twist", "TwistVel"} -> "t"
      [] t \in {"Frame", "FrameVel"} -> "f"
      [] OTHER -> t
IsJet(t) == t \in {"doubleVel", "VectorVel", "RotationVel", "TwistVel", "FrameVel"}
TypeOfKind(k, jet) ==
    CASE k = "n" -> IF jet THEN "doubleVel" ELSE "double"
      [] k = "v" -> IF jet THEN "VectorVel" ELSE "Vector"
      [] k = "m" -> IF jet THEN "RotationVel" ELSE "Rotation"
      [] k = "t" -> IF jet THEN "TwistVel" ELSE "Twist"
      [] k = "f" -> IF jet THEN "FrameVel" ELSE "Frame"
      [] OTHER -> k
\* an integer does for a real
Wide(t) == IF t = "int" THEN "double" ELSE t
RealOf(x) == IF x.t = "int" THEN R(x.v) ELSE x.v

Mat9(s) == << <<s[1], s[2], s[3]>>, <<s[4], s[5], s[6]>>, <<s[7], s[8], s[9]>> >>
\* geometry as jets, with zero derivatives when it has none; an inertia as the map it is
RECURSIVE Up(_)
Up(x) ==
    CASE x.t \in {"double", "int"} -> JC(RealOf(x), 2)
      [] x.t = "Vector" -> VC(x.v, 2)
      [] x.t = "Rotation" -> MC(x.v, 2)
      [] x.t = "Twist" -> TC(x.v, 2)
      [] x.t = "Frame" -> FC(x.v, 2)
      [] x.t = "RotationVel" -> MJ(x.v)
      [] x.t = "FrameVel" -> FJ(x.v)
      [] x.t = "RigidBodyInertia" -> IF Len(x.v.I) = 6 THEN Body(x.v) ELSE Moments([m |-> x.v.m, h |-> Scale(x.v.c, x.v.m), I |-> Mat9(x.v.I)])
      [] x.t \in {"tuple", "list"} -> Tup([k \in 1..Len(x.v) |-> <<x.v[k].t, Up(x.v[k])>>])
      [] OTHER -> x.v
Canon(x) == <<x.t, Up(x)>>
Py(t, v) == Canon([t |-> t, v |-> v])
Nothing == Canon(None)

(* what there is *)
SameTypes(S) == {<<t, t>> : t \in S}
Plus == SameTypes({"Vector", "Wrench", "Twist", "VectorVel", "TwistVel", "RotationalInertia", "RigidBodyInertia"}) \cup {<<"Vector", "VectorVel">>, <<"VectorVel", "Vector">>}
Minus == SameTypes({"Vector", "Wrench", "Twist", "VectorVel", "TwistVel"}) \cup {<<"Vector", "VectorVel">>, <<"VectorVel", "Vector">>}
Scalable == {"Vector", "Wrench", "Twist", "VectorVel", "TwistVel"}
Times == {<<t, "double">> : t \in Scalable} \cup {<<"double", t>> : t \in Scalable \cup {"RotationalInertia", "RigidBodyInertia"}}
    \cup {<<t, "doubleVel">> : t \in {"VectorVel", "TwistVel"}} \cup {<<"doubleVel", t>> : t \in {"VectorVel", "TwistVel"}}
    \cup {<<"Vector", "Vector">>, <<"VectorVel", "VectorVel">>, <<"Vector", "VectorVel">>, <<"VectorVel", "Vector">>}
    \cup {<<"Rotation", t>> : t \in {"Vector", "Twist", "Wrench", "Rotation", "VectorVel", "RotationVel", "RigidBodyInertia"}}
    \cup {<<"Frame", t>> : t \in {"Vector", "Twist", "Wrench", "Frame", "FrameVel", "RigidBodyInertia"}}
    \cup {<<"RotationVel", t>> : t \in {"VectorVel", "Vector", "TwistVel", "Twist", "RotationVel", "Rotation"}}
    \cup {<<"FrameVel", t>> : t \in {"VectorVel", "Vector", "TwistVel", "Twist", "FrameVel", "Frame"}}
    \cup {<<"RotationalInertia", "Vector">>, <<"RigidBodyInertia", "Twist">>}
DividedBy == {<<t, "double">> : t \in Scalable} \cup {<<t, "doubleVel">> : t \in {"VectorVel", "TwistVel"}}
Negatable == {"Vector", "Wrench", "Twist", "doubleVel", "VectorVel", "TwistVel"}
InPlace == Negatable \ {"doubleVel"}
Mixed == {<<"Vector", "VectorVel">>, <<"VectorVel", "Vector">>, <<"Twist", "TwistVel">>, <<"TwistVel", "Twist">>, <<"Rotation", "RotationVel">>,
          <<"RotationVel", "Rotation">>, <<"Frame", "FrameVel">>, <<"FrameVel", "Frame">>}
Comparable == SameTypes({"Vector", "Wrench", "Twist", "Rotation", "Frame", "doubleVel", "VectorVel", "TwistVel", "RotationVel", "FrameVel",
                       "JntArray", "JntSpaceInertiaMatrix"}) \cup Mixed
EqualTo == Comparable \cup {<<"JntArrayVel", "JntArrayVel">>}
Hashed == {"Vector", "Wrench", "Twist", "Rotation", "Frame", "doubleVel", "VectorVel", "TwistVel", "RotationVel", "FrameVel"}
Pickled == Hashed \ {"doubleVel"}
\* a rotation takes back what it maps, in the frame it maps from
TakenBack == {<<"Rotation", t>> : t \in {"Vector", "Wrench", "Twist"}} \cup {<<"Frame", t>> : t \in {"Vector", "Wrench", "Twist"}}
    \cup {<<"RotationVel", t>> : t \in {"VectorVel", "Vector", "TwistVel", "Twist"}} \cup {<<"FrameVel", t>> : t \in {"VectorVel", "Vector", "TwistVel", "Twist"}}
Differed == SameTypes({"Vector", "Rotation", "Frame", "Twist", "Wrench", "doubleVel", "VectorVel", "RotationVel", "FrameVel"})
Moved == {<<"Vector", "Vector">>, <<"Rotation", "Vector">>, <<"Frame", "Twist">>, <<"Twist", "Twist">>, <<"Wrench", "Wrench">>, <<"doubleVel", "doubleVel">>,
          <<"VectorVel", "VectorVel">>, <<"RotationVel", "VectorVel">>, <<"FrameVel", "TwistVel">>}

\* the product of values of kinds k and l
Multiple(k, x, l, y) ==
    CASE <<k, l>> = <<"n", "n">> -> JMul(x, y)
      [] <<k, l>> = <<"v", "n">> -> VScale(x, y)
      [] <<k, l>> = <<"n", "v">> -> VScale(y, x)
      [] <<k, l>> = <<"t", "n">> -> TScale(x, y)
      [] <<k, l>> = <<"n", "t">> -> TScale(y, x)
      [] <<k, l>> = <<"v", "v">> -> VCross(x, y)
      [] <<k, l>> = <<"m", "v">> -> MApp(x, y)
      [] <<k, l>> = <<"m", "t">> -> TRotJ(x, y)
      [] <<k, l>> = <<"m", "m">> -> MMul(x, y)
      [] <<k, l>> = <<"f", "v">> -> FAppJ(x, y)
      [] <<k, l>> = <<"f", "t">> -> TFrameJ(x, y)
      [] <<k, l>> = <<"f", "f">> -> FMulJ(x, y)
      [] <<k, l>> = <<"Wrench", "n">> -> WrScale(x, y[1])
      [] <<k, l>> = <<"n", "Wrench">> -> WrScale(y, x[1])
      [] <<k, l>> = <<"m", "Wrench">> -> WrRot(x[1], y)
      [] <<k, l>> = <<"f", "Wrench">> -> WrFrame(PoseOf(x), y)
      [] <<k, l>> = <<"n", "RotationalInertia">> -> ScaleN(y, x[1])
      [] <<k, l>> = <<"RotationalInertia", "v">> -> VC(MV(Mat9(x), y[1]), 2)
      [] <<k, l>> = <<"n", "RigidBodyInertia">> -> IScale(y, x[1])
      [] <<k, l>> = <<"RigidBodyInertia", "t">> -> Apply(x, Value(y))
      [] <<k, l>> = <<"m", "RigidBodyInertia">> -> IRot(x[1], y)
      [] <<k, l>> = <<"f", "RigidBodyInertia">> -> IFrame(PoseOf(x), y)
\* the kind of the product
ProductKind(k, l) == IF k = "RigidBodyInertia" THEN "Wrench" ELSE IF l = "n" THEN k ELSE l
Sum(k, x, y) ==
    CASE k = "v" -> VAdd(x, y) [] k = "t" -> TAdd(x, y) [] k = "Wrench" -> WrAdd(x, y) [] k = "RotationalInertia" -> AddN(x, y)
      [] k = "RigidBodyInertia" -> IAdd(x, y) [] k = "n" -> JAdd(x, y)
Minused(k, x) == CASE k = "v" -> VNeg(x) [] k = "t" -> TNeg(x) [] k = "Wrench" -> WrNeg(x) [] k = "n" -> JNeg(x)
TransposeOf(k, x) == IF k = "m" THEN MTr(x) ELSE FInvJ(x)

\* the reals of a value, with zero derivatives when it has none and jet
Numbers(x, jet) ==
    CASE x.t = "Wrench" -> WrVec(x.v)
      [] x.t = "Vector" -> IF jet THEN FlatJ(VC(x.v, 2)) ELSE x.v
      [] x.t \in {"VectorVel", "doubleVel", "JntArrayVel", "JntSpaceInertiaMatrix"} -> IF x.t = "doubleVel" THEN x.v ELSE FlatJ(x.v)
      [] x.t = "Twist" -> IF jet THEN FlatT(TC(x.v, 2)) ELSE TwVec(x.v)
      [] x.t = "TwistVel" -> FlatT(x.v)
      [] x.t = "Rotation" -> IF jet THEN FlatM(x.v) \o Zero3 ELSE FlatM(x.v)
      [] x.t = "RotationVel" -> FlatR(x.v)
      [] x.t = "Frame" -> IF jet THEN FlatF([M |-> [R |-> x.v.M, w |-> Zero3], p |-> VC(x.v.p, 2)]) ELSE FlatM(x.v.M) \o x.v.p
      [] x.t = "FrameVel" -> FlatF(x.v)
      [] x.t = "JntArray" -> x.v
Measure(x) == IF x.t = "JntArrayVel" THEN <<Len(x.v[1]), Len(x.v[2])>> ELSE IF x.t \in {"JntArray", "JntSpaceInertiaMatrix"} THEN Len(x.v) ELSE 0
EqualUpTo(got, x, y, eps) ==
    LET jet == IsJet(x.t) \/ IsJet(y.t) IN
    IF Measure(x) # Measure(y) THEN ~got ELSE EqOk(got, MaxDiff(Numbers(x, jet), Numbers(y, jet)), eps)

(* elements, counted from zero *)
Elements(x) ==
    CASE x.t \in {"Vector", "JntArray", "RotationalInertia"} -> x.v
      [] x.t = "Twist" -> TwVec(x.v)
      [] x.t = "Wrench" -> WrVec(x.v)
Listed == {"Vector", "JntArray", "RotationalInertia", "Twist", "Wrench"}
OfElements(t, s) == [t |-> t, v |-> CASE t = "Twist" -> VecTw(s) [] t = "Wrench" -> VecWr(s) [] OTHER -> s]
Grid(x) ==
    CASE x.t \in {"Rotation", "JntSpaceInertiaMatrix"} -> x.v
      [] x.t = "Frame" -> SubSeq(Make4(x.v), 1, 3)
      [] x.t = "Jacobian" -> JacMat(x.v)
Gridded == {"Rotation", "Frame", "Jacobian", "JntSpaceInertiaMatrix"}
Drawn(t, m) == [t |-> t, v |->
    CASE t \in {"Rotation", "JntSpaceInertiaMatrix"} -> m
      [] t = "Frame" -> Fr(Tup([i \in 1..3 |-> SubSeq(m[i], 1, 3)]), Col(m, 4))
      [] t = "Jacobian" -> Tup([k \in 1..Cols(m) |-> VecTw(Col(m, k))])]
Indexed(x, i) == IF x.t \in Listed THEN i.t = "int" /\ 0 <= i.v /\ i.v < Len(Elements(x))
                 ELSE LET m == Grid(x) IN
                      i.t = "tuple" /\ Len(i.v) = 2 /\ i.v[1].t = "int" /\ i.v[2].t = "int" /\ 0 <= i.v[1].v /\ i.v[1].v < Rows(m) /\ 0 <= i.v[2].v /\ i.v[2].v < Cols(m)
\* an index, but out of range
Beyond(x, i) == (i.t = "int" /\ x.t \in Listed) \/ (x.t \in Gridded /\ i.t = "tuple" /\ Len(i.v) = 2 /\ i.v[1].t = "int" /\ i.v[2].t = "int")
ElementAt(x, i) == IF x.t \in Listed THEN Elements(x)[i.v + 1] ELSE Grid(x)[i.v[1].v + 1][i.v[2].v + 1]
WithElement(x, i, y) == IF x.t \in Listed THEN OfElements(x.t, [Elements(x) EXCEPT ![i.v + 1] = y])
                        ELSE Drawn(x.t, [Grid(x) EXCEPT ![i.v[1].v + 1] = [@ EXCEPT ![i.v[2].v + 1] = y]])

(* parts *)
Parts == [Twist |-> {"vel", "rot"}, Wrench |-> {"force", "torque"}, Frame |-> {"M", "p"}, VectorVel |-> {"p", "v"}, TwistVel |-> {"vel", "rot"},
          RotationVel |-> {"R", "w"}, FrameVel |-> {"M", "p"}, JntArrayVel |-> {"q", "qdot"}, doubleVel |-> {"t", "grad"}]
HasPart(x, f) == x.t \in DOMAIN Parts /\ f \in Parts[x.t]
Part(x, f) ==
    LET V(y) == [t |-> "Vector", v |-> y] IN
    CASE x.t = "Twist" -> V(IF f = "vel" THEN x.v.vel ELSE x.v.rot)
      [] x.t = "Wrench" -> V(IF f = "force" THEN x.v.f ELSE x.v.t)
      [] x.t = "Frame" -> IF f = "p" THEN V(x.v.p) ELSE [t |-> "Rotation", v |-> x.v.M]
      [] x.t = "VectorVel" -> V(IF f = "p" THEN x.v[1] ELSE x.v[2])
      [] x.t = "TwistVel" -> [t |-> "VectorVel", v |-> IF f = "vel" THEN x.v.vel ELSE x.v.rot]
      [] x.t = "RotationVel" -> IF f = "w" THEN V(x.v.w) ELSE [t |-> "Rotation", v |-> x.v.R]
      [] x.t = "FrameVel" -> IF f = "p" THEN [t |-> "VectorVel", v |-> x.v.p] ELSE [t |-> "RotationVel", v |-> x.v.M]
      [] x.t = "JntArrayVel" -> [t |-> "JntArray", v |-> IF f = "q" THEN x.v[1] ELSE x.v[2]]
      [] x.t = "doubleVel" -> [t |-> "double", v |-> IF f = "t" THEN x.v[1] ELSE x.v[2]]
WithPart(x, f, y) == [x EXCEPT !.v =
    CASE x.t \in {"Twist", "TwistVel"} -> IF f = "vel" THEN [@ EXCEPT !.vel = y.v] ELSE [@ EXCEPT !.rot = y.v]
      [] x.t = "Wrench" -> IF f = "force" THEN [@ EXCEPT !.f = y.v] ELSE [@ EXCEPT !.t = y.v]
      [] x.t \in {"Frame", "FrameVel"} -> IF f = "p" THEN [@ EXCEPT !.p = y.v] ELSE [@ EXCEPT !.M = y.v]
      [] x.t = "VectorVel" -> IF f = "p" THEN <<y.v, @[2]>> ELSE <<@[1], y.v>>
      [] x.t = "RotationVel" -> IF f = "w" THEN [@ EXCEPT !.w = y.v] ELSE [@ EXCEPT !.R = y.v]
      [] x.t = "JntArrayVel" -> IF f = "q" THEN <<y.v, @[2]>> ELSE <<@[1], y.v>>
      [] x.t = "doubleVel" -> IF f = "t" THEN <<RealOf(y), @[2]>> ELSE <<@[1], RealOf(y)>>]
\* the value and the derivative, of what has them
ValueOf(x) ==
    CASE x.t = "doubleVel" -> [t |-> "double", v |-> x.v[1]]
      [] x.t = "VectorVel" -> [t |-> "Vector", v |-> x.v[1]]
      [] x.t = "TwistVel" -> [t |-> "Twist", v |-> Value(x.v)]
      [] x.t = "RotationVel" -> [t |-> "Rotation", v |-> x.v.R]
      [] x.t = "FrameVel" -> [t |-> "Frame", v |-> Fr(x.v.M.R, x.v.p[1])]
      [] x.t = "JntArrayVel" -> [t |-> "JntArray", v |-> x.v[1]]
DerivOf(x) ==
    CASE x.t = "doubleVel" -> [t |-> "double", v |-> x.v[2]]
      [] x.t = "VectorVel" -> [t |-> "Vector", v |-> x.v[2]]
      [] x.t = "TwistVel" -> [t |-> "Twist", v |-> Rate(x.v)]
      [] x.t = "RotationVel" -> [t |-> "Vector", v |-> x.v.w]
      [] x.t = "FrameVel" -> [t |-> "Twist", v |-> Tw(x.v.p[2], x.v.M.w)]
      [] x.t = "JntArrayVel" -> [t |-> "JntArray", v |-> x.v[2]]
HasDeriv == {"doubleVel", "VectorVel", "TwistVel", "RotationVel", "FrameVel", "JntArrayVel"}
ZeroOf(t) ==
    CASE t = "Vector" -> Zero3 [] t = "Twist" -> TwZero [] t = "Wrench" -> WrZero [] t = "Rotation" -> I3 [] t = "Frame" -> FId
      [] t = "doubleVel" -> <<R0, R0>> [] t = "VectorVel" -> <<Zero3, Zero3>> [] t = "TwistVel" -> [vel |-> <<Zero3, Zero3>>, rot |-> <<Zero3, Zero3>>]
      [] t = "RotationVel" -> [R |-> I3, w |-> Zero3] [] t = "FrameVel" -> [M |-> [R |-> I3, w |-> Zero3], p |-> <<Zero3, Zero3>>]
      [] t \in {"JntArray", "Jacobian", "JntSpaceInertiaMatrix"} -> <<>>
      [] t = "RotationalInertia" -> ZeroN(9)
      [] t = "RigidBodyInertia" -> [m |-> R0, c |-> Zero3, I |-> ZeroN(6)]
\* x, all zeros
Zeroed(x) == [x EXCEPT !.v =
    CASE x.t \in {"Vector", "Twist", "Wrench", "VectorVel", "TwistVel"} -> ZeroOf(x.t)
      [] x.t = "JntArray" -> ZeroN(Len(@))
      [] x.t = "JntArrayVel" -> ArrZero(@)
      [] x.t = "Jacobian" -> PadTw(<<>>, Len(@))
      [] x.t = "JntSpaceInertiaMatrix" -> ZeroM(Len(@), Len(@))]
CanZero == {"Vector", "Twist", "Wrench", "VectorVel", "TwistVel", "JntArray", "JntArrayVel", "Jacobian", "JntSpaceInertiaMatrix"}

(* constructors: <<the types taken, the value made>>, or <<>> *)
Sevens(x, k, n) == Tup([j \in 1..n |-> RealOf(x[k + j - 1])])
Made(t, x) ==
    LET n == Len(x)
        ts == Tup([k \in 1..n |-> Wide(x[k].t)])
        D == "double"
        Size == n = 1 /\ x[1].t = "int" /\ x[1].v >= 0
        Is(s) == ts = s
        a == x[1].v  b == x[2].v IN
    IF n = 0 /\ t # "JntArrayVel" THEN <<ZeroOf(t)>>
    ELSE IF Is(<<t>>) /\ t \notin {"RotationalInertia", "RigidBodyInertia", "JntArrayVel"} THEN <<a>>
    ELSE CASE t = "Vector" /\ Is(<<D, D, D>>) -> <<Sevens(x, 1, 3)>>
           [] t = "Rotation" /\ n = 9 /\ \A k \in 1..9 : ts[k] = D -> <<Mat9(Sevens(x, 1, 9))>>
           [] t = "Rotation" /\ Is(<<"Vector", "Vector", "Vector">>) -> <<FromCols(a, b, x[3].v)>>
           [] t = "Frame" /\ Is(<<"Rotation", "Vector">>) -> <<Fr(a, b)>>
           [] t = "Frame" /\ Is(<<"Vector">>) -> <<Fr(I3, a)>>
           [] t = "Frame" /\ Is(<<"Rotation">>) -> <<Fr(a, Zero3)>>
           [] t = "Twist" /\ Is(<<"Vector", "Vector">>) -> <<Tw(a, b)>>
           [] t = "Wrench" /\ Is(<<"Vector", "Vector">>) -> <<Wr(a, b)>>
           [] t = "doubleVel" /\ Is(<<D>>) -> << <<RealOf(x[1]), R0>> >>
           [] t = "doubleVel" /\ Is(<<D, D>>) -> << <<RealOf(x[1]), RealOf(x[2])>> >>
           [] t = "VectorVel" /\ Is(<<"Vector">>) -> << <<a, Zero3>> >>
           [] t = "VectorVel" /\ Is(<<"Vector", "Vector">>) -> << <<a, b>> >>
           [] t = "TwistVel" /\ Is(<<"VectorVel", "VectorVel">>) -> <<Tw(a, b)>>
           [] t = "TwistVel" /\ Is(<<"Twist", "Twist">>) -> <<Tw(<<a.vel, b.vel>>, <<a.rot, b.rot>>)>>
           [] t = "TwistVel" /\ Is(<<"Twist">>) -> <<Tw(<<a.vel, Zero3>>, <<a.rot, Zero3>>)>>
           [] t = "RotationVel" /\ Is(<<"Rotation">>) -> <<[R |-> a, w |-> Zero3]>>
           [] t = "RotationVel" /\ Is(<<"Rotation", "Vector">>) -> <<[R |-> a, w |-> b]>>
           [] t = "FrameVel" /\ Is(<<"Frame">>) -> <<[M |-> [R |-> a.M, w |-> Zero3], p |-> <<a.p, Zero3>>]>>
           [] t = "FrameVel" /\ Is(<<"Frame", "Twist">>) -> <<[M |-> [R |-> a.M, w |-> b.rot], p |-> <<a.p, b.vel>>]>>
           [] t = "FrameVel" /\ Is(<<"RotationVel", "VectorVel">>) -> <<[M |-> a, p |-> b]>>
           [] t = "JntArray" /\ Size -> <<ZeroN(a)>>
           [] t = "Jacobian" /\ Size -> <<PadTw(<<>>, a)>>
           [] t = "JntSpaceInertiaMatrix" /\ Size -> <<ZeroM(a, a)>>
           [] t = "JntArrayVel" /\ Size -> << <<ZeroN(a), ZeroN(a)>> >>
           [] t = "JntArrayVel" /\ Is(<<"JntArray">>) -> << <<a, ZeroN(Len(a))>> >>
           [] t = "JntArrayVel" /\ Is(<<"JntArray", "JntArray">>) -> << <<a, b>> >>
           [] t = "RotationalInertia" /\ n <= 6 /\ (\A k \in 1..n : ts[k] = D) ->
                LET s == Tup([k \in 1..6 |-> IF k <= n THEN RealOf(x[k]) ELSE R0])  m == SymM(s) IN <<FlatM(m)>>
           [] t = "RigidBodyInertia" /\ n <= 3 /\ ts[1] = D /\ (n < 2 \/ ts[2] = "Vector") /\ (n < 3 \/ ts[3] = "RotationalInertia") ->
                LET I == IF n < 3 THEN ZeroN(9) ELSE x[3].v IN
                <<[m |-> RealOf(x[1]), c |-> IF n < 2 THEN Zero3 ELSE b, I |-> <<I[1], I[5], I[9], I[2], I[3], I[6]>>]>>
           [] OTHER -> <<>>

(* turning *)
AxisNamed(f) == CASE f \in {"RotX", "DoRotX", "UnitX"} -> EX [] f \in {"RotY", "DoRotY", "UnitY"} -> EY [] f \in {"RotZ", "DoRotZ", "UnitZ"} -> EZ
AxisNr(f) == CASE f = "UnitX" -> 1 [] f = "UnitY" -> 2 [] f = "UnitZ" -> 3
\* by an angle, which may change, about the unit vector u
TurnJ(u, m, q) == MJ([R |-> m, w |-> Scale(u, q[2])])

(* the names of calls *)
Starts(f, s) == Len(f) > Len(s) /\ SubSeq(f, 1, Len(s)) = s
TextAfter(f, s) == SubSeq(f, Len(s) + 1, Len(f))
RECURSIVE DotAt(_, _)
DotAt(f, k) == IF k > Len(f) THEN 0 ELSE IF SubSeq(f, k, k) = "." THEN k ELSE DotAt(f, k + 1)
\* what the name f says: <<kind of call, name, type>>
FieldCall(f) ==
    IF Starts(f, "field ") THEN <<"field", TextAfter(f, "field "), "">>
    ELSE IF Starts(f, "setfield ") THEN <<"setfield", TextAfter(f, "setfield "), "">>
    ELSE IF Starts(f, "new ") THEN <<"new", TextAfter(f, "new "), "">>
    ELSE IF Starts(f, "static ") THEN
        LET s == TextAfter(f, "static ")  d == DotAt(s, 1)  t == SubSeq(s, 1, d - 1)  name == SubSeq(s, d + 1, Len(s)) IN
        IF name \in {"Zero", "Identity"} THEN <<"zero", t, "">>
        ELSE IF name \in {"RotX", "RotY", "RotZ"} THEN <<"turn", name, t>>
        ELSE IF name \in {"Rot", "Rot2"} THEN <<"about", name, t>> ELSE <<"static", name, t>>
    ELSE IF Starts(f, ".change") THEN <<"change", TextAfter(f, "."), "method">>
    ELSE IF Starts(f, "fn change") THEN <<"change", TextAfter(f, "fn "), "fn">>
    ELSE IF Starts(f, ".") THEN <<"", TextAfter(f, "."), "">> ELSE <<"", f, "">>

SettingOf(x, k, default) == IF Len(x) < k THEN default ELSE RealOf(x[k])
\* what the call f of the arguments x gives: the value w and what the arguments are afterwards, y; or the exceptions it
\* may raise; or a relation ok which the value must have.  g: what was observed; after: the arguments seen afterwards;
\* home[k]: the first argument which is the same object as the k-th
Want(f, x, g, after, home) ==
    LET n == Len(x)
        ts == Tup([k \in 1..n |-> Wide(x[k].t)])
        u == [k \in 1..n |-> Up(x[k])]
        kd == [k \in 1..n |-> KindOf(x[k].t)]
        jet == \E k \in 1..n : IsJet(x[k].t)
        c == Tup([k \in 1..n |-> Canon(x[k])])
        Put1(j, v) == Tup([k \in 1..n |-> IF home[k] = home[j] THEN v ELSE c[k]])
        Val(w) == [k |-> "value", w |-> w, y |-> c]
        Become(j, v) == [k |-> "value", w |-> Nothing, y |-> Put1(j, v)]
        BecomeToo(w, j, v) == [k |-> "value", w |-> w, y |-> Put1(j, v)]
        Raise(e) == [k |-> "raise", e |-> e, y |-> c]
        Rel(t, ok) == [k |-> "relation", ok |-> g.t = t /\ ok, y |-> c]
        RelTo(t, ok, j) == [k |-> "relation", ok |-> g.t = t /\ ok, y |-> IF Len(after) = n THEN Put1(j, Canon(after[j])) ELSE c]
        Is(s) == ts = s
        Opt(s) == ts = s \/ ts = Append(s, "double")
        Or(e, S) == IF ts \in S THEN e ELSE Raise({"TypeError"})
        Typed(k, v) == <<TypeOfKind(k, jet), v>>
        Nums(j) == Tup([k \in 1..j |-> g.v[k].v])
        ElemsOk(s) == Len(g.v) = s /\ \A k \in 1..s : g.v[k].t = "double"
        Summed == Typed(kd[1], Sum(kd[1], u[1], u[2]))
        Subtracted == Typed(kd[1], Sum(kd[1], u[1], Minused(kd[2], u[2])))
        Multiplied == LET k == ProductKind(kd[1], kd[2]) IN Typed(k, Multiple(kd[1], u[1], kd[2], u[2]))
        Divided == Typed(kd[1], IF kd[1] = "Wrench" THEN WrDiv(u[1], u[2][1]) ELSE Multiple(kd[1], u[1], "n", JInv(u[2])))
        Attr == Raise({"AttributeError"})
        Type == Raise({"TypeError"}) IN
    CASE f = "+" -> Or(Val(Summed), Plus)
      [] f = "-" -> Or(Val(Subtracted), Minus)
      [] f \in {"*", "*="} -> Or(Val(Multiplied), Times)
      [] f \in {"/", "/="} -> Or(Val(Divided), DividedBy)
      [] f = "+=" -> IF ts[1] \in InPlace /\ ts[1] = ts[2] THEN BecomeToo(Summed, 1, Summed) ELSE Or(Val(Summed), Plus)
      [] f = "-=" -> IF ts[1] \in InPlace /\ ts[1] = ts[2] THEN BecomeToo(Subtracted, 1, Subtracted) ELSE Or(Val(Subtracted), Minus)
      [] f = "neg" -> IF ts[1] \in Negatable THEN Val(Typed(kd[1], Minused(kd[1], u[1]))) ELSE Type
      [] f = "==" -> IF ts \in Comparable THEN Rel("bool", EqualUpTo(g.v, x[1], x[2], Eps6)) ELSE Val(<<"bool", FALSE>>)
      [] f = "!=" -> IF ts \in Comparable THEN Rel("bool", EqualUpTo(~g.v, x[1], x[2], Eps6)) ELSE Val(<<"bool", TRUE>>)
      [] f = "fn Equal" -> IF n >= 2 /\ SubSeq(ts, 1, 2) \in EqualTo /\ Opt(SubSeq(ts, 1, 2)) THEN Rel("bool", EqualUpTo(g.v, x[1], x[2], SettingOf(x, 3, Eps6))) ELSE Type
      [] f = "hash" -> IF ts[1] \in Hashed /\ ts[2] \in Hashed THEN Rel("bool", (x[1] = x[2]) => g.v) ELSE Type
      [] f \in {"copy", "deepcopy"} -> IF ts[1] \in Hashed THEN Val(c[1]) ELSE Type
      [] f = "pickle" -> IF ts[1] \in Pickled THEN Rel(x[1].t, Close(Canon(g), c[1], Dec(1, -6))) ELSE Type
      [] f = "list" -> IF ts[1] \in Listed THEN Val(<<"list", Tup([k \in 1..Len(Elements(x[1])) |-> Py("double", Elements(x[1])[k])])>>) ELSE Type
      [] f \in {"repr", "str"} ->
            LET s == IF ts[1] \in Gridded \ {"Frame"} THEN FlatJ(Grid(x[1])) ELSE Numbers(x[1], FALSE) IN
            Rel("list", ElemsOk(Len(s)) /\ Close(Nums(Len(s)), s, Dec(1, -5)))
      [] f = "get" ->
            IF ts[1] \notin Listed \cup Gridded THEN Type
            ELSE IF Indexed(x[1], x[2]) THEN Val(Py("double", ElementAt(x[1], x[2])))
            ELSE Raise(IF Beyond(x[1], x[2]) THEN {"IndexError"} ELSE {"TypeError", "IndexError"})
      [] f = "set" ->
            IF ts[1] \notin Listed \cup Gridded THEN Type
            ELSE IF Indexed(x[1], x[2]) /\ ts[3] = "double" THEN Become(1, Canon(WithElement(x[1], x[2], RealOf(x[3]))))
            ELSE Raise(IF Beyond(x[1], x[2]) /\ ts[3] = "double" THEN {"IndexError"} ELSE {"TypeError", "IndexError"})
      [] OTHER ->
    LET m == FieldCall(f) IN
    CASE m[1] = "field" -> IF HasPart(x[1], m[2]) THEN Val(Canon(Part(x[1], m[2]))) ELSE Attr
      [] m[1] = "setfield" -> IF ~HasPart(x[1], m[2]) THEN Attr
            ELSE IF Wide(x[2].t) = Part(x[1], m[2]).t THEN Become(1, Canon(WithPart(x[1], m[2], x[2]))) ELSE Type
      [] m[1] = "new" -> LET s == Made(m[2], x) IN IF s = <<>> THEN Type ELSE Val(Py(m[2], s[1]))
      [] m[1] = "zero" -> IF n = 0 THEN Val(Py(m[2], ZeroOf(m[2]))) ELSE Type
      [] m[1] = "turn" ->     \* the elementary rotations
            LET e == AxisNamed(m[2]) IN
            IF m[3] = "Rotation" THEN IF Is(<<"double">>) THEN Val(Py("Rotation", RotAbout(e, RealOf(x[1])))) ELSE Type
            ELSE IF Is(<<"doubleVel">>) THEN Val(<<"RotationVel", TurnJ(e, RotAbout(e, x[1].v[1]), x[1].v)>>) ELSE Type
      [] m[1] = "about" ->    \* an axis, of any length when m[2] = "Rot"
            LET e == IF m[2] = "Rot" THEN Unit(x[1].v) ELSE x[1].v  q == x[2].v IN
            IF m[3] = "Rotation" THEN IF Is(<<"Vector", "double">>) THEN Val(Py("Rotation", RotAbout(e, RealOf(x[2])))) ELSE Type
            ELSE IF Is(<<"Vector", "doubleVel">>) THEN Val(<<"RotationVel", TurnJ(e, RotAbout(e, q[1]), q)>>) ELSE Type
      [] f = "static Rotation.RPY" -> IF Is(<<"double", "double", "double">>) THEN Val(Py("Rotation", RotRPY(RealOf(x[1]), RealOf(x[2]), RealOf(x[3])))) ELSE Type
      [] f = "static Rotation.EulerZYX" -> IF Is(<<"double", "double", "double">>) THEN Val(Py("Rotation", RotZYX(RealOf(x[1]), RealOf(x[2]), RealOf(x[3])))) ELSE Type
      [] f = "static Rotation.EulerZYZ" -> IF Is(<<"double", "double", "double">>) THEN Val(Py("Rotation", RotZYZ(RealOf(x[1]), RealOf(x[2]), RealOf(x[3])))) ELSE Type
      [] f = "static Rotation.Quaternion" -> IF Is(<<"double", "double", "double", "double">>) THEN Val(Py("Rotation", RotQuat(RealOf(x[1]), RealOf(x[2]), RealOf(x[3]), RealOf(x[4])))) ELSE Type
      [] f \in {"static Frame.DH", "static Frame.DH_Craig1989"} ->
            IF ~Is(<<"double", "double", "double", "double">>) THEN Type
            ELSE LET s == Sevens(x, 1, 4) IN Val(Py("Frame", IF f = "static Frame.DH" THEN DHStd(s[1], s[2], s[3], s[4]) ELSE DHCraig(s[1], s[2], s[3], s[4])))
      [] f \in {".DoRotX", ".DoRotY", ".DoRotZ"} ->
            LET e == AxisNamed(m[2]) IN
            IF Is(<<"Rotation", "double">>) THEN Become(1, Py("Rotation", MM(x[1].v, RotAbout(e, RealOf(x[2])))))
            ELSE IF Is(<<"RotationVel", "doubleVel">>) THEN Become(1, <<"RotationVel", MMul(u[1], TurnJ(e, RotAbout(e, x[2].v[1]), x[2].v))>>)
            ELSE IF ts[1] \in {"Rotation", "RotationVel"} THEN Type ELSE Attr
      [] f \in {".UnitX", ".UnitY", ".UnitZ"} ->
            LET k == AxisNr(m[2]) IN
            IF Is(<<"Rotation">>) THEN Val(Py("Vector", Col(x[1].v, k)))
            ELSE IF Is(<<"RotationVel">>) THEN Val(<<"VectorVel", <<Col(u[1][1], k), Col(u[1][2], k)>>>>)
            ELSE IF Is(<<"Rotation", "Vector">>) THEN Become(1, Py("Rotation", Tr([Tr(x[1].v) EXCEPT ![k] = x[2].v])))
            ELSE IF ts[1] \in {"Rotation", "RotationVel"} THEN Type ELSE Attr
      [] f = ".SetInverse" -> IF Is(<<"Rotation">>) THEN Become(1, Py("Rotation", Tr(x[1].v))) ELSE IF ts[1] = "Rotation" THEN Type ELSE Attr
      [] f = ".Inverse" ->
            IF ts[1] \notin {"Rotation", "Frame", "RotationVel", "FrameVel"} THEN Attr
            ELSE IF n = 1 THEN Val(<<ts[1], TransposeOf(kd[1], u[1])>>)
            ELSE IF ts \in TakenBack THEN Val(Typed(kd[2], Multiple(kd[1], TransposeOf(kd[1], u[1]), kd[2], u[2]))) ELSE Type
      [] f = ".GetRot" -> IF Is(<<"Rotation">>) THEN Rel("Vector", GeomOp("m.getrot", <<x[1].v>>, <<g.v>>) = {}) ELSE IF ts[1] = "Rotation" THEN Type ELSE Attr
      [] f = ".GetRotAngle" ->
            IF Opt(<<"Rotation">>) THEN Rel("tuple", Len(g.v) = 2 /\ g.v[1].t = "double" /\ g.v[2].t = "Vector"
                                            /\ GeomOp("m.getrotangle", <<x[1].v, SettingOf(x, 2, Eps6)>>, Nums(2)) = {})
            ELSE IF ts[1] = "Rotation" THEN Type ELSE Attr
      [] f \in {".GetRPY", ".GetEulerZYX", ".GetEulerZYZ", ".GetQuaternion"} ->
            LET op == CASE f = ".GetRPY" -> "m.getrpy" [] f = ".GetEulerZYX" -> "m.getzyx" [] f = ".GetEulerZYZ" -> "m.getzyz" [] f = ".GetQuaternion" -> "m.getquat"
                s == IF f = ".GetQuaternion" THEN 4 ELSE 3 IN
            IF Is(<<"Rotation">>) THEN Rel("tuple", ElemsOk(s) /\ GeomOp(op, <<x[1].v>>, Nums(s)) = {}) ELSE IF ts[1] = "Rotation" THEN Type ELSE Attr
      [] f = ".Integrate" ->
            IF Is(<<"Frame", "Twist", "double">>) THEN
                LET t == TwDiv(x[2].v, RealOf(x[3])) IN Become(1, Py("Frame", FMul(x[1].v, Fr(RotExp(t.rot), t.vel))))
            ELSE IF ts[1] = "Frame" THEN Type ELSE Attr
      [] f \in {".x", ".y", ".z"} ->
            LET k == CASE f = ".x" -> 1 [] f = ".y" -> 2 [] f = ".z" -> 3 IN
            IF ts[1] # "Vector" THEN Attr
            ELSE IF n = 1 THEN Val(Py("double", x[1].v[k]))
            ELSE IF Is(<<"Vector", "double">>) THEN Become(1, Py("Vector", [x[1].v EXCEPT ![k] = RealOf(x[2])])) ELSE Type
      [] f = ".ReverseSign" -> IF ts[1] \notin InPlace THEN Attr ELSE IF n = 1 THEN Become(1, <<ts[1], Minused(kd[1], u[1])>>) ELSE Type
      [] f = ".Norm" ->
            IF Opt(<<"Vector">>) THEN Rel("double", NormOk(x[1].v, SettingOf(x, 2, Eps6), g.v))
            ELSE IF Opt(<<"VectorVel">>) THEN Val(<<"doubleVel", JSqrt(VDot(u[1], u[1]))>>)
            ELSE IF ts[1] \in {"Vector", "VectorVel"} THEN Type ELSE Attr
      [] f = ".Normalize" ->
            IF Opt(<<"Vector">>) THEN RelTo("double", after[1].t = "Vector" /\ NormalizeOk(x[1].v, SettingOf(x, 2, Eps6), g.v, after[1].v), 1)
            ELSE IF ts[1] = "Vector" THEN Type ELSE Attr
      [] f = ".RefPoint" ->
            IF Is(<<"Twist", "Vector">>) \/ Is(<<"TwistVel", "VectorVel">>) THEN Val(<<ts[1], TRef(u[1], u[2])>>)
            ELSE IF Is(<<"Wrench", "Vector">>) THEN Val(Py("Wrench", WrRef(x[1].v, x[2].v)))
            ELSE IF Is(<<"RigidBodyInertia", "Vector">>) THEN Val(<<"RigidBodyInertia", IRef(u[1], x[2].v)>>)
            ELSE IF ts[1] \in {"Twist", "TwistVel", "Wrench", "RigidBodyInertia"} THEN Type ELSE Attr
      [] f = ".value" -> IF ts[1] \notin HasDeriv THEN Attr ELSE IF n = 1 THEN Val(Canon(ValueOf(x[1]))) ELSE Type
      [] f = ".deriv" -> IF ts[1] \notin HasDeriv THEN Attr ELSE IF n = 1 THEN Val(Canon(DerivOf(x[1]))) ELSE Type
      [] f = ".GetFrame" -> IF ts[1] # "FrameVel" THEN Attr ELSE IF n = 1 THEN Val(Canon(ValueOf(x[1]))) ELSE Type
      [] f = ".GetTwist" -> IF ts[1] \notin {"FrameVel", "TwistVel"} THEN Attr
                            ELSE IF n = 1 THEN Val(Canon(IF ts[1] = "FrameVel" THEN DerivOf(x[1]) ELSE ValueOf(x[1]))) ELSE Type
      [] f = ".GetTwistDot" -> IF ts[1] # "TwistVel" THEN Attr ELSE IF n = 1 THEN Val(Canon(DerivOf(x[1]))) ELSE Type
      [] f = ".getMass" -> IF Is(<<"RigidBodyInertia">>) THEN Val(Py("double", x[1].v.m)) ELSE IF ts[1] = "RigidBodyInertia" THEN Type ELSE Attr
      [] f = ".getCOG" -> IF Is(<<"RigidBodyInertia">>) THEN Val(Py("Vector", IF x[1].v.m = R0 THEN Zero3 ELSE x[1].v.c)) ELSE IF ts[1] = "RigidBodyInertia" THEN Type ELSE Attr
      [] f = ".getRotationalInertia" ->
            IF Is(<<"RigidBodyInertia">>) THEN Val(Py("RotationalInertia", FlatM(InOf(x[1].v).I))) ELSE IF ts[1] = "RigidBodyInertia" THEN Type ELSE Attr
      [] f = ".rows" -> IF ts[1] \notin {"JntArray", "Jacobian", "JntSpaceInertiaMatrix"} THEN Attr
                        ELSE IF n = 1 THEN Val(Py("int", IF ts[1] = "Jacobian" THEN 6 ELSE Len(x[1].v))) ELSE Type
      [] f = ".columns" -> IF ts[1] \notin {"JntArray", "Jacobian", "JntSpaceInertiaMatrix"} THEN Attr
                        ELSE IF n = 1 THEN Val(Py("int", IF ts[1] = "JntArray" THEN 1 ELSE Len(x[1].v))) ELSE Type
      [] f = ".resize" ->
            LET ok == n = 2 /\ x[2].t = "int" /\ x[2].v >= 0  w == after[1].v  k == x[2].v IN
            IF ts[1] \notin {"JntArray", "Jacobian", "JntSpaceInertiaMatrix", "JntArrayVel"} THEN Attr
            ELSE IF ~ok THEN Type
            ELSE RelTo("None",
                       CASE ts[1] = "JntArray" -> Kept(<<x[1].v>>, <<w>>, k)
                         [] ts[1] = "JntArrayVel" -> Kept(x[1].v, w, k)
                         [] ts[1] = "Jacobian" -> Len(w) = k
                         [] OTHER -> Len(w) = k /\ \A i \in 1..k : Len(w[i]) = k, 1)
      [] f = ".getColumn" ->
            IF ts[1] # "Jacobian" THEN Attr
            ELSE IF n # 2 \/ x[2].t # "int" THEN Type
            ELSE IF 0 <= x[2].v /\ x[2].v < Len(x[1].v) THEN Val(Py("Twist", x[1].v[x[2].v + 1])) ELSE Raise(IF x[2].v < 0 THEN {"IndexError", "TypeError"} ELSE {"IndexError"})
      [] f = ".setColumn" ->
            IF ts[1] # "Jacobian" THEN Attr
            ELSE IF n # 3 \/ x[2].t # "int" \/ ts[3] # "Twist" THEN Type
            ELSE IF 0 <= x[2].v /\ x[2].v < Len(x[1].v) THEN Become(1, Py("Jacobian", [x[1].v EXCEPT ![x[2].v + 1] = x[3].v]))
            ELSE Raise(IF x[2].v < 0 THEN {"IndexError", "TypeError"} ELSE {"IndexError"})
      [] m[1] = "change" ->
            LET s == x[1].v  arg == x[2].v
                w == Tup([k \in 1..Len(s) |-> CASE m[2] = "changeRefPoint" -> TwRef(s[k], arg) [] m[2] = "changeBase" -> TwRot(arg, s[k]) [] m[2] = "changeRefFrame" -> TwFrame(arg, s[k])])
                t2 == CASE m[2] = "changeRefPoint" -> "Vector" [] m[2] = "changeBase" -> "Rotation" [] m[2] = "changeRefFrame" -> "Frame" IN
            IF m[3] = "method" THEN IF Is(<<"Jacobian", t2>>) THEN Become(1, Py("Jacobian", w)) ELSE IF ts[1] = "Jacobian" THEN Type ELSE Attr
            ELSE IF ~Is(<<"Jacobian", t2, "Jacobian">>) THEN Type
            ELSE IF Len(x[3].v) = Len(s) THEN BecomeToo(<<"bool", TRUE>>, 3, Py("Jacobian", w)) ELSE Val(<<"bool", FALSE>>)
      [] f = "fn SetToZero" -> IF n = 1 /\ ts[1] \in CanZero THEN Become(1, Canon(Zeroed(x[1]))) ELSE Type
      [] f = "fn dot" ->
            IF ts \in {<<"Vector", "Vector">>, <<"VectorVel", "VectorVel">>, <<"VectorVel", "Vector">>, <<"Vector", "VectorVel">>} THEN Val(Typed("n", VDot(u[1], u[2])))
            ELSE IF Is(<<"Twist", "Wrench">>) THEN Val(Py("double", Power(x[1].v, x[2].v)))
            ELSE IF Is(<<"Wrench", "Twist">>) THEN Val(Py("double", Power(x[2].v, x[1].v))) ELSE Type
      [] f = "fn diff" ->
            LET t2 == SubSeq(ts, 1, 2)  dt == SettingOf(x, 3, R1)  k == R1 \oslash dt  w == g.v  a == x[1].v  b == x[2].v IN
            IF n < 2 \/ ~Opt(t2) \/ t2 \notin Differed THEN Type
            ELSE (CASE ts[1] \in {"Vector", "Twist", "doubleVel", "VectorVel"} -> Val(Typed(kd[1], Multiple(kd[1], Sum(kd[1], u[2], Minused(kd[1], u[1])), "n", JC(k, 2))))
                   [] ts[1] = "Wrench" -> Val(Py("Wrench", WrScale(WrSub(b, a), k)))
                   [] ts[1] = "Rotation" -> Rel("Vector", DiffOk(a, b, w, dt))
                   [] ts[1] = "Frame" -> Rel("Twist", Close(w.vel, Scale(Sub(b.p, a.p), k), Tol) /\ DiffOk(a.M, b.M, w.rot, dt))
                   [] ts[1] = "RotationVel" -> Rel("VectorVel", DiffOk(a.R, b.R, w[1], dt) /\ Close(w[2], Scale(Sub(b.w, a.w), k), Tol))
                   [] ts[1] = "FrameVel" -> Rel("TwistVel", DiffOk(a.M.R, b.M.R, w.rot[1], dt) /\ Close(w.rot[2], Scale(Sub(b.M.w, a.M.w), k), Tol)
                                                             /\ Close(w.vel, VScale(VSub(b.p, a.p), JC(k, 2)), Tol)))
      [] f = "fn addDelta" ->
            LET t2 == SubSeq(ts, 1, 2)  dt == SettingOf(x, 3, R1)  a == x[1].v  b == x[2].v
                AddR(r, w) == [R |-> AddDeltaM(r.R, w[1], dt), w |-> Add(r.w, Scale(w[2], dt))] IN
            IF n < 2 \/ ~Opt(t2) \/ t2 \notin Moved THEN Type
            ELSE (CASE ts[1] \in {"Vector", "Twist", "doubleVel", "VectorVel"} -> Val(Typed(kd[1], Sum(kd[1], u[1], Multiple(kd[2], u[2], "n", JC(dt, 2)))))
                   [] ts[1] = "Wrench" -> Val(Py("Wrench", WrAdd(a, WrScale(b, dt))))
                   [] ts[1] = "Rotation" -> Val(Py("Rotation", AddDeltaM(a, b, dt)))
                   [] ts[1] = "Frame" -> Val(Py("Frame", Fr(AddDeltaM(a.M, b.rot, dt), Add(a.p, Scale(b.vel, dt)))))
                   [] ts[1] = "RotationVel" -> Val(Py("RotationVel", AddR(a, b)))
                   [] ts[1] = "FrameVel" -> Val(Py("FrameVel", [M |-> AddR(a.M, b.rot), p |-> VAdd(a.p, AddJ(b.vel, dt))])))
      [] f \in {"fn Add", "fn Subtract"} ->
            LET a == x[1].v  b == x[2].v  J == "JntArray"  V == "JntArrayVel"  M == "JntSpaceInertiaMatrix"
                Op(p, q) == IF f = "fn Add" THEN ArrSum(p, q) ELSE ArrDiff(p, q) IN
            IF Is(<<J, J, J>>) THEN Become(3, Py(J, Op(<<a>>, <<b>>)[1]))
            ELSE IF Is(<<V, V, V>>) THEN Become(3, Py(V, Op(a, b)))
            ELSE IF Is(<<V, J, V>>) THEN Become(3, Py(V, Op(a, <<b>>)))
            ELSE IF Is(<<M, M, M>>) THEN Become(3, Py(M, IF f = "fn Add" THEN MatAdd(a, b) ELSE MatSub(a, b))) ELSE Type
      [] f \in {"fn Multiply", "fn Divide"} ->
            LET a == x[1].v  b == x[2].v  J == "JntArray"  V == "JntArrayVel"  M == "JntSpaceInertiaMatrix"  D == "double"
                Op(p, s) == IF f = "fn Multiply" THEN ArrTimes(p, s) ELSE ArrOver(p, s) IN
            IF Is(<<J, D, J>>) THEN Become(3, Py(J, Op(<<a>>, <<RealOf(x[2])>>)[1]))
            ELSE IF Is(<<V, D, V>>) THEN Become(3, Py(V, Op(a, <<RealOf(x[2])>>)))
            ELSE IF Is(<<V, "doubleVel", V>>) THEN Become(3, Py(V, Op(a, b)))
            ELSE IF Is(<<M, D, M>>) THEN Become(3, Py(M, MatScale(a, IF f = "fn Multiply" THEN RealOf(x[2]) ELSE R1 \oslash RealOf(x[2]))))
            ELSE IF f = "fn Multiply" /\ Is(<<M, J, J>>) THEN Become(3, Py(J, MatVec(a, b))) ELSE Type
      [] f = "fn MultiplyJacobian" -> IF Is(<<"Jacobian", "JntArray", "Twist">>) THEN Become(3, Py("Twist", TimesQ(x[1].v, x[2].v))) ELSE Type

\* the arguments of a call; one may be the same object as an earlier one
HomeOf(s, k) == IF s[k].t = "ref" THEN s[k].v + 1 ELSE k
CallBad(a, r) ==
    LET n == Len(a[2])
        home == Tup([k \in 1..n |-> HomeOf(a[2], k)])
        x == Tup([k \in 1..n |-> a[2][home[k]]])
        g == r[1]
        w == Want(a[1], x, g, r[2], home)
        Likewise(o, y) == o.t = y[1] /\ Close(Canon(o), y, Tol) IN
    (CASE w.k = "raise" -> Chk("refuses", g.t = "raise" /\ g.v \in w.e)
       [] w.k = "value" -> Chk("value", Likewise(g, w.w))
       [] w.k = "relation" -> Chk("value", w.ok))
    \cup Chk("arguments", Len(r[2]) = n /\ \A k \in 1..n : Likewise(r[2][k], w.y[k]))

----------------------------------------------------------------------------
(* variables: each is an object, or the part of one that a path of names leads to *)
Vars(h) == IF "py" \in DOMAIN h THEN h["py"] ELSE [at |-> NoEl, objs |-> <<>>]
RECURSIVE PartAt(_, _), Changed(_, _, _)
PartAt(x, path) == IF path = <<>> THEN x ELSE PartAt(Part(x, Head(path)), Tail(path))
Changed(x, path, y) == IF path = <<>> THEN y ELSE WithPart(x, Head(path), Changed(Part(x, Head(path)), Tail(path), y))
Look(w, name) == LET p == w.at[name] IN PartAt(w.objs[p[1]], p[2])
Store(w, name, y) == LET p == w.at[name] IN [w EXCEPT !.objs[p[1]] = Changed(@, p[2], y)]
Bind(w, name, p) == [w EXCEPT !.at = (name :> p) @@ @]
Fresh(w, name, y) == Bind([w EXCEPT !.objs = Append(@, y)], name, <<Len(w.objs) + 1, <<>>>>)
Forget(w, name) == [w EXCEPT !.at = [n \in DOMAIN @ \ {name} |-> @[n]]]
\* a number has no parts to refer to: it is a value of its own
IsNumber(x) == x.t \in {"double", "int"}
Down(t, v) == CASE t = "Vector" -> v[1] [] t = "Twist" -> Value(v) [] t \in {"Wrench", "RotationalInertia"} -> v [] t = "TwistVel" -> v [] t = "VectorVel" -> v
    [] t = "double" -> v[1] [] t = "doubleVel" -> v
AddOf(x, y, neg) == LET k == KindOf(x.t)  jet == IsJet(x.t) \/ IsJet(y.t)  t == TypeOfKind(k, jet) IN
    [t |-> t, v |-> Down(t, Sum(k, Up(x), IF neg THEN Minused(k, Up(y)) ELSE Up(y)))]
VarStep(w, op, a) ==
    CASE op = "py.v.new" -> Fresh(w, a[1], a[2])
      [] op = "py.v.ref" -> LET p == w.at[a[2]]  x == Part(Look(w, a[2]), a[3]) IN IF IsNumber(x) THEN Fresh(w, a[1], x) ELSE Bind(w, a[1], <<p[1], Append(p[2], a[3])>>)
      [] op = "py.v.alias" -> Bind(w, a[1], w.at[a[2]])
      [] op = "py.v.copy" -> Fresh(w, a[1], Look(w, a[2]))
      [] op = "py.v.set" -> Store(w, a[1], WithElement(Look(w, a[1]), a[2], a[3]))
      [] op = "py.v.put" -> Store(w, a[1], WithPart(Look(w, a[1]), a[2], Look(w, a[3])))
      [] op \in {"py.v.iadd", "py.v.isub"} ->
            LET x == Look(w, a[1])  y == Look(w, a[2])  z == AddOf(x, y, op = "py.v.isub") IN
            IF x.t \in InPlace /\ x.t = y.t THEN Store(w, a[1], z) ELSE Fresh(w, a[1], z)
      [] op = "py.v.flip" -> LET x == Look(w, a[1]) IN Store(w, a[1], [x EXCEPT !.v = Down(x.t, Minused(KindOf(x.t), Up(x)))])
      [] op = "py.v.zero" -> Store(w, a[1], Zeroed(Look(w, a[1])))
      [] op = "py.v.del" -> Forget(w, a[1])
VarOps == {"py.v.new", "py.v.ref", "py.v.alias", "py.v.copy", "py.v.set", "py.v.put", "py.v.iadd", "py.v.isub", "py.v.flip", "py.v.zero", "py.v.del"}
VarsSeen(w, seen) ==
    Chk("variables", {seen[k][1] : k \in 1..Len(seen)} = DOMAIN w.at
        /\ \A k \in 1..Len(seen) : seen[k][1] \in DOMAIN w.at => LET x == Look(w, seen[k][1]) IN seen[k][2].t = x.t /\ Close(Canon(seen[k][2]), Canon(x), Tol))

----------------------------------------------------------------------------
(* chains and trees, looked at segment by segment, with their joints at ShownQ moving at ShownQD *)
ShownQ == Dec(7, -1)
ShownQD == Dec(-13, -1)
NoInertia == [m |-> R0, c |-> Zero3, I |-> ZeroN(6)]
JointMotion(j, q, qd) == TwistOf(JPoseJ(j, q, qd))
ViewOf(s) == [n |-> s.n, jn |-> s.j.n, jk |-> s.j.k, je |-> TRUE, o |-> s.j.o, a |-> s.j.a, jp |-> JPose(s.j, ShownQ), jt |-> JointMotion(s.j, ShownQ, ShownQD),
              tip |-> s.tip, in |-> s.in, pose |-> SegPose(s, ShownQ), tw |-> TwistOf(SegPoseJ(s, ShownQ, ShownQD))]
ShownIn(b) == [m |-> b.m, h |-> Scale(b.c, b.m), I |-> Mat9(b.I)]
Shows(v, s) == Close([v EXCEPT !.in = ShownIn(@)], ViewOf(s), Tol)
ShowsChain(v, segs) == Chk("chain", v.nj = NrMoving(segs) /\ v.ns = Len(segs) /\ Len(v.segs) = Len(segs) /\ \A k \in 1..Len(segs) : Shows(v.segs[k], segs[k]))
ShowsWay(v, t, a, b) ==
    IF ~Known(t, a) \/ ~Known(t, b) THEN Chk("no-chain", v.ns = 0 /\ v.nj = 0 /\ v.segs = <<>>)
    ELSE LET st == Steps(t, a, b) IN
    Chk("chain-segments", v.ns = Len(st) /\ Len(v.segs) = Len(st))
    \cup (IF Len(v.segs) # Len(st) THEN {}
          ELSE Chk("chain-joints", v.nj = Cardinality({k \in 1..Len(st) : Moves(t.el[st[k][2]].seg.j)}))
               \cup UNION {LET from == t.el[st[k][2]].seg  sg == v.segs[k]  x == SegPoseJ(from, ShownQ, ShownQD)  y == IF st[k][3] THEN FInvJ(x) ELSE x IN
                    Chk("chain-names", sg.n = st[k][1] /\ sg.jn = from.j.n /\ sg.je /\ (sg.jk # "Fixed") = Moves(from.j))
                    \cup Chk("chain-inertias", st[k][1] # t.root => Close(ShownIn(sg.in), t.el[st[k][1]].seg.in, Tol))
                    \cup Chk("chain-poses", Close(sg.pose, PoseOf(y), Tol) /\ Close(sg.tw, TwistOf(y), Tol)) : k \in 1..Len(st)})
\* a tree and a chain made of it are of different objects
ChainOps == {"py.c.new", "py.c.add", "py.c.addchain", "py.c.copy", "py.c.look", "py.c.segment", "py.c.drop"}
ChainStep(h, op, a) ==
    CASE op = "py.c.new" -> Put(h, a[1], SegsOf(a[2]))
      [] op = "py.c.add" -> Put(h, a[1], Append(h[a[1]], SegOf(a[2])))
      [] op = "py.c.addchain" -> Put(h, a[1], h[a[1]] \o h[a[2]])
      [] op = "py.c.copy" -> Put(h, a[1], h[a[2]])
      [] op = "py.c.drop" -> Del(h, a[1])
      [] OTHER -> h
ChainBad(h, op, a, r) ==
    CASE op = "py.c.drop" -> {}
      [] op = "py.c.segment" -> LET segs == h[a[1]] IN
            IF 0 <= a[2] /\ a[2] < Len(segs) THEN Chk("segment", r[1] = "there" /\ Shows(r[2], segs[a[2] + 1]))
            ELSE Chk("refuses", r[1] = "IndexError" \/ (a[2] < 0 /\ r[1] = "TypeError"))
      [] OTHER -> ShowsChain(r[1], ChainStep(h, op, a)[a[1]])
TreeOps == {"py.t.new", "py.t.add", "py.t.addchain", "py.t.addtree", "py.t.chain", "py.t.drop"}
\* what can be hung on the tree: all of it, or it is left to the library how much
AllAdded(h, op, a) ==
    LET t == h[a[1]] IN
    CASE op = "py.t.add" -> CanAdd(t, SegOf(a[2]), a[3])
      [] op = "py.t.addchain" -> LET segs == h[a[2]] IN ChainAddedTo(t, segs, a[3], 1)[2] = Len(segs)
      [] op = "py.t.addtree" -> Known(t, a[3]) /\ \A n \in Names(h[a[2]]) : ~Known(t, n)
TreeStep(h, op, a) ==
    CASE op = "py.t.new" -> Put(h, a[1], [root |-> a[2], nj |-> 0, el |-> NoEl])
      [] op = "py.t.drop" -> Del(h, a[1])
      [] op = "py.t.chain" -> h
      [] OTHER -> LET t == h[a[1]] IN
            IF ~AllAdded(h, op, a) THEN h
            ELSE Put(h, a[1], CASE op = "py.t.add" -> AddedTo(t, SegOf(a[2]), a[3])
                                [] op = "py.t.addchain" -> ChainAddedTo(t, h[a[2]], a[3], 1)[1]
                                [] op = "py.t.addtree" -> [t EXCEPT !.nj = @ + h[a[2]].nj, !.el = Hung(h[a[2]], a[3]) @@ @])
TreeBad(h, op, a, r) ==
    CASE op = "py.t.drop" -> {}
      [] op = "py.t.new" -> Chk("tree", r = <<0, 0>>)
      [] op = "py.t.chain" -> ShowsWay(r[1], h[a[1]], a[2], a[3])
      [] OTHER -> LET all == AllAdded(h, op, a)  t == TreeStep(h, op, a)[a[1]] IN
            Chk("tree-answer", r[1] = all) \cup Chk("tree", (all \/ op = "py.t.add") => r[2] = t.nj /\ r[3] = Cardinality(DOMAIN t.el))
JointBad(a, r) ==
    LET g == a[1]  how == a[2]  q == a[3]  qd == a[4]  tip == a[5]
        fixed == [n |-> g.n, k |-> "Fixed", o |-> Zero3, a |-> Zero3, s |-> R1, f |-> R0, i |-> R0, d |-> R0, t |-> R0]
        j == CASE how \in {"named", "keywords", "copy"} -> JointOf(g)
               [] how = "unnamed" -> [JointOf(g) EXCEPT !.n = "NoName"]
               [] how = "scale" -> [JointOf(g) EXCEPT !.f = R0, !.i = R0, !.d = R0, !.t = R0]
               [] how = "name" -> fixed
               [] how = "default" -> [fixed EXCEPT !.n = "NoName"]
        s == [n |-> "s", j |-> j, tip |-> tip, in |-> NoInertia] IN
    Chk("joint", r[1] = j.n /\ r[2] = j.k /\ r[3] /\ Close(<<r[4], r[5]>>, <<j.o, j.a>>, Tol))
    \cup Chk("joint-motion", Close(<<r[6], r[7], r[8]>>, <<JPose(j, q), JointMotion(j, q, qd), JPose(j, q)>>, Tol))
    \cup Chk("segment-motion", Close(<<r[9], r[10]>>, <<SegPose(s, q), TwistOf(SegPoseJ(s, q, qd))>>, Tol))
SegmentBad(a, r) ==
    LET s == SegOf(a[1])
        bare == SegOf([n |-> a[1].n, j |-> [n |-> "NoName", k |-> "Fixed", o |-> Zero3, a |-> Zero3, s |-> R1, f |-> R0, i |-> R0, d |-> R0, t |-> R0], tip |-> FId, in |-> NoInertia]) IN
    Chk("segment", Shows(r[1], [s EXCEPT !.in = InOf(a[2])]) /\ Shows(r[2], s) /\ Shows(r[3], [s EXCEPT !.n = "NoName"]) /\ Shows(r[4], s) /\ Shows(r[5], bare))

----------------------------------------------------------------------------
(* solvers *)
RepOf(st) == IF "rep" \notin DOMAIN st THEN "hybrid" ELSE CASE st.rep \in {"0", "hybrid"} -> "hybrid" [] st.rep \in {"1", "body"} -> "body" [] st.rep \in {"2", "inertial"} -> "inertial"
LockOf(segs, st) == IF "locked" \in DOMAIN st THEN st.locked ELSE NoLock(segs)
NrOf(x, k) == IF Len(x) >= k THEN x[k] ELSE -1
\* s: <<code, error, answer>>
Refused(s) == Chk("refuses-size", s[1] = Mismatch)
AnswerBad(kind, segs, st, x, s, more) ==
    LET nj == NrMoving(segs)  ns == Len(segs)  q == x[1]  n9 == NoWrenches(segs) IN
    CASE kind = "fk" -> FkBad("fk", segs, Len(q) = nj, NrOf(x, 2), s[1], s[2], LAMBDA n : Close(s[3], Poses(segs, q)[n + 1], Tol))
      [] kind = "fkvel" -> FkBad("fkvel", segs, Len(q) = nj /\ Len(x[2]) = nj, NrOf(x, 3), s[1], s[2], LAMBDA n : Close(FJ(s[3]), PoseJets(segs, q, x[2])[n + 1], Tol))
      [] kind = "jac" -> FkBad("jac", segs, Len(q) = nj /\ x[2] = nj, NrOf(x, 3), s[1], s[2],
                               LAMBDA n : Close(s[3], PadTw(Map1(JacobianJ(segs, q, ZeroN(nj), n, LockOf(segs, st), "hybrid"), Value), nj), Tol))
      [] kind \in {"jacdot", "jacdotqd"} ->
            LET lock == LockOf(segs, st)
                free == SelectSeq(Tup([k \in 1..nj |-> k]), LAMBDA k : ~lock[k])
                sized == Len(q) = nj /\ Len(x[2]) = nj
                u == IF sized THEN Unlocked(x[2], lock) ELSE <<>>
                Cs(n) == Map1(JacobianJ(segs, q, u, n, lock, RepOf(st)), Rate) IN
            IF kind = "jacdot" THEN FkBad("jacdot", segs, sized /\ x[3] = Len(free), NrOf(x, 4), s[1], s[2], LAMBDA n : Close(s[3], PadTw(Cs(n), Len(free)), Tol))
            ELSE FkBad("jacdot", segs, sized, NrOf(x, 3), s[1], s[2], LAMBDA n : Close(s[3], TimesQ(Cs(n), Tup([k \in 1..Len(free) |-> x[2][free[k]]])), Tol))
      [] kind = "dyn" ->
            IF Len(x[2]) # nj \/ x[4] # nj \/ (x[1] = "coriolis" /\ Len(x[3]) # nj) THEN Refused(s)
            ELSE Chk("dyn", s[1] = 0 /\ Close(s[3], CASE x[1] = "mass" -> MassOf(segs, x[2]) [] x[1] = "gravity" -> GravityOf(segs, x[2], st.g) [] x[1] = "coriolis" -> CoriolisOf(segs, x[2], x[3]), DynTol))
      [] kind = "id" ->
            IF Len(q) # nj \/ Len(x[2]) # nj \/ Len(x[3]) # nj \/ Len(x[4]) # ns \/ x[5] # nj THEN Refused(s)
            ELSE Chk("id", s[1] = 0 /\ Close(s[3], TorquesFor(segs, q, x[2], x[3], Gravity(st.g), InBase(segs, q, x[4])), DynTol))
      [] kind = "pinv" ->
            LET d == IF Len(q) = nj THEN Svd(JacMat(JacobianOf(segs, q, ns)))[2] ELSE <<>> IN
            PinvCheck(segs, <<"", st.eps, x[3]>>, x, s \o << <<NrBelow(d, st.eps) + nj - Len(d), 0>>, q>>)
      [] kind = "givens" -> GivensCheck(segs, <<"", x[3]>>, x, s \o <<0, q>>)
      [] kind = "nso" -> NsoCheck(segs, <<"", st.eps, st.alpha, st.opt, st.w, TRUE, x[3]>>, x, s \o <<0, q>>) \cup Chk("settings", Close(more, <<st.alpha, st.opt, st.w>>, Tol))
      [] kind = "wdls" ->
            LET d == IF Len(q) = nj THEN Svd(JacMat(JacobianOf(segs, q, ns)))[2] ELSE <<>> IN
            WdlsCheck(segs, <<"", st.eps, st.lambda, IdN(nj), IdN(6), x[3]>>, x, s \o << <<0, d, more[4], more[1], more[5], more[3], more[2], more[6]>>, q>>)
      [] kind \in {"nr", "nrjl", "lma"} ->
            IkPosCheck(segs, <<"", IF kind = "nrjl" THEN "nr_jl" ELSE kind, "", IF kind = "nrjl" THEN st.lim ELSE <<>>, st.maxiter, st.eps>>, <<q, IF Len(x) > 3 THEN x[4] ELSE <<>>, x[2], x[3]>>, s \o <<q>>)
SolveBad(a, r) ==
    LET segs == SegsOf(a[2]) IN
    AnswerBad(a[1], segs, a[3], a[4], r[1], r[3])
    \cup Chk("error", a[1] = "dyn" \/ (r[1][2] = r[1][1] /\ r[2][2] = r[2][1]))
    \cup Chk("kept", r[2][1] = r[1][1] /\ (r[1][1] < 0 \/ Close(r[2][3], r[1][3], LifeTol(a[1]))))

PyOps == VarOps \cup ChainOps \cup TreeOps \cup {"py.call", "py.joint", "py.segment", "py.solve"}
PyOp(h, op, a, r) == Labelled("C35",
    CASE op = "py.call" -> CallBad(a, r)
      [] op \in VarOps -> VarsSeen(VarStep(Vars(h), op, a), r[1])
      [] op \in ChainOps -> ChainBad(h, op, a, r)
      [] op \in TreeOps -> TreeBad(h, op, a, r)
      [] op = "py.joint" -> JointBad(a, r)
      [] op = "py.segment" -> SegmentBad(a, r)
      [] op = "py.solve" -> SolveBad(a, r))
PyPost(h, e) ==
    CASE e.op \in VarOps -> Put(h, "py", VarStep(Vars(h), e.op, e.a))
      [] e.op \in ChainOps -> ChainStep(h, e.op, e.a)
      [] e.op \in TreeOps -> TreeStep(h, e.op, e.a)
      [] OTHER -> h
=============================================================================
