------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Texts derived by a grammar, symbol by symbol.  Checks that the readers  *)
(* of Text accept exactly them: whole texts, no beginning of one, and none *)
(* with a token missing; and that what they read is what it should be.     *)
(* Every text becomes a script, and so do texts which are not.             *)
(***************************************************************************)
EXTENDS Text

CONSTANT Deep
VARIABLES kind, out, todo       \* what is derived, the tokens so far, the symbols left
vars == <<kind, out, todo>>
Out == Env("KDL_EMIT")
O(name, args) == [op |-> name, a |-> args]

Mod(a, b) == a - b * (a \div b)
P(c) == <<"p", c, 0>>
W(w) == <<"w", w, 0>>
I(n) == <<"i", "", n>>
N(x) == <<"n", "", x>>
S(s) == <<"s", s, 0>>       \* a symbol
\* words, punctuation and symbols with spaces between
List(xs) == [k \in 1..(2 * Len(xs) + 1) |-> IF k = 1 THEN P("[") ELSE IF k = 2 * Len(xs) + 1 THEN P("]") ELSE IF k = 2 * (k \div 2) THEN xs[k \div 2] ELSE P(",")]
Mat(m) == LET c(i, j) == N(m[i][j]) IN
    <<P("["), c(1, 1), P(","), c(1, 2), P(","), c(1, 3), P(";"), c(2, 1), P(","), c(2, 2), P(","), c(2, 3), P(";"), c(3, 1), P(","), c(3, 2), P(","), c(3, 3), P("]")>>
V(v) == List(<<N(v[1]), N(v[2]), N(v[3])>>)
Some == RotAbout(Unit(<<R1, R2, Neg(R1)>>), Dec(12, -1))
Fa == <<P("[")>> \o Mat(Some) \o V(<<R1, R2, R0>>) \o <<P("]")>>
Fb == <<P("[")>> \o <<W("IDENTITY")>> \o V(<<R1, Dec(35, -1), R0>>) \o <<P("]")>>
Fc == <<P("[")>> \o <<W("RPY")>> \o V(<<R(10), R(20), R(-30)>>) \o <<W("ZERO"), P("]")>>
Orient == <<W("SINGLEAXIS"), P("["), P("]")>>
SeqOf(n, s) == [k \in 1..n |-> s]
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Join(Tail(ss))

Rules(s) ==
    CASE s = "N" -> {<<I(2)>>, <<N(Dec(-35, -1))>>}
      [] s = "vector" -> {<<W("ZERO")>>, List(SeqOf(3, S("N")))}
      [] s = "rotation" -> {<<W("IDENTITY")>>, <<W("EULERZYX"), S("vector")>>, <<W("EULERZYZ"), S("vector")>>, <<W("RPY"), S("vector")>>,
                            <<W("ROT")>> \o V(<<R1, R0, R2>>) \o List(<<S("N")>>), Mat(Some)}
      [] s = "frame" -> {<<P("["), S("rotation"), S("vector"), P("]")>>, <<W("DH")>> \o List(SeqOf(4, S("N")))}
      [] s \in {"twist", "wrench"} -> {List(SeqOf(6, S("N")))}
      [] s = "vector2" -> {List(SeqOf(2, S("N")))}
      [] s = "rotation2" -> {List(SeqOf(1, S("N")))}
      [] s = "frame2" -> {<<S("rotation2"), S("vector2")>>}
      [] s = "F" -> {Fa, Fb} \cup (IF Deep THEN {Fc} ELSE {})
      [] s = "eq" -> {<<I(2)>>, <<N(Half)>>}
      [] s = "leaf" -> {<<W("POINT"), P("["), S("F"), P("]")>>, <<W("LINE"), P("["), S("F"), S("F")>> \o Orient \o <<S("eq"), P("]")>>,
                        <<W("CIRCLE"), P("[")>> \o Fa \o V(<<R0, R0, R0>>) \o V(<<R0, R1, R1>>) \o <<W("IDENTITY"), N(R(100))>> \o Orient \o <<S("eq"), P("]")>>}
      [] s = "path" -> {<<S("leaf")>>,
                        <<W("ROUNDEDCOMPOSITE"), P("["), N(Dec(1, -1)), S("eq")>> \o Orient \o <<I(3)>> \o Fa \o Fb \o Fc \o <<P("]")>>,
                        <<W("COMPOSITE"), P("["), I(1), S("leaf"), P("]")>>, <<W("COMPOSITE"), P("["), I(2), S("leaf"), S("leaf"), P("]")>>,
                        <<W("CYCLIC_CLOSED"), P("["), W("LINE"), P("[")>> \o Fa \o Fb \o Orient \o <<S("eq"), P("]"), I(3), P("]")>>}
                       \cup (IF Deep THEN {<<W("COMPOSITE"), P("["), I(2), S("nest"), S("small"), P("]")>>} ELSE {})
      [] s = "small" -> {<<W("POINT"), P("["), S("F"), P("]")>>, <<W("LINE"), P("[")>> \o Fb \o Fc \o Orient \o <<S("eq"), P("]")>>}
      [] s = "nest" -> {<<W("COMPOSITE"), P("["), I(2), S("small"), S("small"), P("]")>>, <<W("CYCLIC_CLOSED"), P("["), S("small"), I(2), P("]")>>}
      [] s = "lim" -> {<<N(Half)>>, <<I(2)>>}
      [] s = "profile" -> {<<W("DIRACVEL"), P("["), P("]")>>, <<W("CONSTVEL")>> \o List(<<S("lim")>>), <<W("TRAPEZOIDAL")>> \o List(<<S("lim"), S("lim")>>)}
                          \cup {<<W("TRAPEZOIDALHALF")>> \o List(<<S("lim"), S("lim"), I(b)>>) : b \in {0, 1}}
      [] s = "traj" -> {<<W("SEGMENT"), P("["), S("leaf"), S("profile"), P("]")>>}
Kinds == {"vector", "rotation", "frame", "twist", "wrench", "vector2", "rotation2", "frame2", "path", "profile", "traj"}

Complete == todo = <<>>
Without(t, k) == SubSeq(t, 1, k - 1) \o SubSeq(t, k + 1, Len(t))
Looks == [p |-> <<0, <<R0, R1, Dec(4, -1)>>, Half, R2, Half>>, j |-> <<0, <<R0, R1, Dec(4, -1)>>, <<Dec(-1, 0), Dec(15, -1)>>>>]
Spaces(t) == [k \in 1..(Len(t) + 1) |-> " "]
Script(t) == O("x.read", <<<<kind>>, t, Spaces(t), Mod(Len(t), 4), Looks>>)
\* the text, and what it is without a token
Emitted(t) == EmitLines(Out, <<[unit |-> <<Script(t)>> \o (IF kind \in Plain \cup {"profile"} THEN [k \in 1..Len(t) |-> Script(Without(t, k))] ELSE <<Script(Without(t, 1 + Len(t) \div 2))>>)]>>)

Init == kind \in Kinds /\ out = <<>> /\ todo = <<S(kind)>>
\* terminals in front of the first symbol
RECURSIVE Terms(_)
Terms(t) == IF t = <<>> \/ Head(t)[1] = "s" THEN 0 ELSE 1 + Terms(Tail(t))
Next == /\ ~Complete
        /\ \E r \in Rules(Head(todo)[2]) :
              LET t == Tup(r) \o Tail(todo)  n == Terms(t) IN
              /\ out' = out \o SubSeq(t, 1, n) /\ todo' = SubSeq(t, n + 1, Len(t))
              /\ (n = Len(t) => Emitted(out'))
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

Outcome == Read(kind, out, 1)
Accepts == Complete => Outcome[1] /\ Outcome[3] = Len(out) + 1
NoBeginnings == Complete => \A k \in 0..(Len(out) - 1) : ~Read(kind, SubSeq(out, 1, k), 1)[1]
NothingMissing == Complete => \A k \in 1..Len(out) : ~Read(kind, Without(out, k), 1)[1]
NothingChanged == Complete => \A k \in 1..Len(out), c \in {"[", "]", ";"} : out[k] # P(c) => ~Read(kind, [out EXCEPT ![k] = P(c)], 1)[1]
\* angles are in degrees: a turn more is the same.  Switches are 0 or 1
Turned == [out EXCEPT ![Len(out) - 1] = N(NumAt(out, Len(out) - 1) \oplus R(360))]
InDegrees == Complete /\ Len(out) > 2 /\ kind \in {"rotation", "rotation2"} /\ IsN(out, Len(out) - 1) /\ out[1] \in {W("EULERZYX"), W("EULERZYZ"), W("RPY"), W("ROT"), P("[")} /\ ~IsP(out, 3, ",") =>
             /\ Close(Outcome[2], Read(kind, Turned, 1)[2], Dec(1, -9))
             /\ ~Close(Outcome[2], Read(kind, [Turned EXCEPT ![Len(out) - 1] = N(NumAt(out, Len(out) - 1) \oplus R(90))], 1)[2], Dec(1, -2))
Switched == Complete /\ kind = "profile" /\ out[1] = W("TRAPEZOIDALHALF") => ~Read(kind, [out EXCEPT ![Len(out) - 1] = I(2)], 1)[1]
Orthonormal(m) == Close(MM(m, Tr(m)), I3, Dec(1, -9))
Sound == Complete => CASE kind = "rotation" -> Orthonormal(Outcome[2]) [] kind = "frame" -> Orthonormal(Outcome[2].M)
                       [] kind = "rotation2" -> Close(Sqr(Outcome[2][1]) \oplus Sqr(Outcome[2][2]), R1, Dec(1, -9))
                       [] kind = "path" -> Buildable(Outcome[2]) [] kind = "profile" -> Outcome[2].lim = <<>> \/ Outcome[2].lim[1] \in {Half, R2} [] OTHER -> TRUE
=============================================================================
