------------------------------- MODULE MCPy -------------------------------
(***************************************************************************)
(* Variables of Python over objects of C++ with parts.  Py describes them  *)
(* by paths into objects; here is next to it a memory of cells, in which a *)
(* variable is an address and a part a cell of its own, as in C++.  Checks *)
(* that both always show the same values, and that no step is seen through *)
(* a variable which shares nothing with the one written to.  Every history *)
(* up to a length becomes a script for the real bindings.                  *)
(***************************************************************************)
EXTENDS Py

CONSTANTS Depth, Types, Quick
VARIABLES w, mem, at, hist, was
vars == <<w, mem, at, hist, was>>
Out == Env("KDL_EMIT")
O(name, args) == [op |-> name, a |-> args]

Tri(k) == <<R(k), R(k + 1), R(-k)>>
Begun(t, k) ==
    CASE t = "Vector" -> [t |-> t, v |-> Tri(k)]
      [] t = "Twist" -> [t |-> t, v |-> [vel |-> Tri(k), rot |-> Tri(k + 3)]]
      [] t = "Wrench" -> [t |-> t, v |-> [f |-> Tri(k), t |-> Tri(k + 3)]]
      [] t = "VectorVel" -> [t |-> t, v |-> <<Tri(k), Tri(k + 3)>>]
      [] t = "TwistVel" -> [t |-> t, v |-> [vel |-> <<Tri(k), Tri(k + 3)>>, rot |-> <<Tri(k + 6), Tri(k + 9)>>]]
      [] t = "FrameVel" -> [t |-> t, v |-> [M |-> [R |-> I3, w |-> Tri(k)], p |-> <<Tri(k + 3), Tri(k + 6)>>]]

----------------------------------------------------------------------------
(* the memory: a cell is a vector or a rotation, or has the addresses of its parts *)
Solid(x) == x.t \notin DOMAIN Parts
FieldsOf(t) == CASE t \in {"Twist", "TwistVel"} -> <<"vel", "rot">> [] t = "Wrench" -> <<"force", "torque">> [] t \in {"Frame", "FrameVel"} -> <<"M", "p">>
    [] t = "VectorVel" -> <<"p", "v">> [] t = "RotationVel" -> <<"R", "w">>
RECURSIVE Laid(_, _), Fetched(_, _), Written(_, _, _), CellsOf(_, _)
\* a memory with x in it, whose address is the last
Laid(s, x) ==
    IF Solid(x) THEN Append(s, [t |-> x.t, v |-> x.v, p |-> <<>>])
    ELSE LET f == FieldsOf(x.t)  s1 == Laid(s, Part(x, f[1]))  s2 == Laid(s1, Part(x, f[2])) IN Append(s2, [t |-> x.t, v |-> 0, p |-> <<Len(s1), Len(s2)>>])
Pair(t, x, y) ==
    CASE t \in {"Twist", "TwistVel"} -> [vel |-> x, rot |-> y]
      [] t = "Wrench" -> [f |-> x, t |-> y]
      [] t \in {"Frame", "FrameVel"} -> [M |-> x, p |-> y]
      [] t = "VectorVel" -> <<x, y>>
      [] t = "RotationVel" -> [R |-> x, w |-> y]
Fetched(s, k) == LET c == s[k] IN [t |-> c.t, v |-> IF c.p = <<>> THEN c.v ELSE Pair(c.t, Fetched(s, c.p[1]).v, Fetched(s, c.p[2]).v)]
Written(s, k, x) ==
    IF s[k].p = <<>> THEN [s EXCEPT ![k].v = x.v]
    ELSE LET f == FieldsOf(x.t) IN Written(Written(s, s[k].p[1], Part(x, f[1])), s[k].p[2], Part(x, f[2]))
\* the cells below a cell
CellsOf(s, k) == {k} \cup UNION {CellsOf(s, s[k].p[i]) : i \in 1..Len(s[k].p)}
FieldAt(s, k, f) == LET c == s[k] IN c.p[CHOOSE i \in 1..2 : FieldsOf(c.t)[i] = f]
Points(name, k) == (name :> k) @@ at

Here(n) == Fetched(mem, at[n])
\* a memory and what the names are after a step
Stepped(op, a) ==
    LET New(x) == LET s == Laid(mem, x) IN <<s, Points(a[1], Len(s))>>
        Write(x) == <<Written(mem, at[a[1]], x), at>> IN
    CASE op = "py.v.new" -> New(a[2])
      [] op = "py.v.ref" -> <<mem, Points(a[1], FieldAt(mem, at[a[2]], a[3]))>>
      [] op = "py.v.alias" -> <<mem, Points(a[1], at[a[2]])>>
      [] op = "py.v.copy" -> New(Here(a[2]))
      [] op = "py.v.set" -> LET c == mem[at[a[1]]]  i == a[2].v IN
            IF c.p = <<>> THEN <<[mem EXCEPT ![at[a[1]]].v[i + 1] = a[3]], at>>
            ELSE <<[mem EXCEPT ![c.p[1 + i \div 3]].v[(i % 3) + 1] = a[3]], at>>
      [] op = "py.v.put" -> <<Written(mem, FieldAt(mem, at[a[1]], a[2]), Here(a[3])), at>>
      [] op \in {"py.v.iadd", "py.v.isub"} -> Write(AddOf(Here(a[1]), Here(a[2]), op = "py.v.isub"))
      [] op = "py.v.flip" -> LET x == Here(a[1]) IN Write([x EXCEPT !.v = Down(x.t, Minused(KindOf(x.t), Up(x)))])
      [] op = "py.v.zero" -> Write(Zeroed(Here(a[1])))
      [] op = "py.v.del" -> <<mem, [n \in DOMAIN at \ {a[1]} |-> at[n]]>>

----------------------------------------------------------------------------
Names3 == <<"a", "b", "c", "d", "e">>
Free1 == Names3[CHOOSE k \in 1..5 : Names3[k] \notin DOMAIN at /\ \A j \in 1..k - 1 : Names3[j] \in DOMAIN at]
Targets == {Free1} \cup (IF Quick THEN {} ELSE {"a"})
Does(op, a) ==
    /\ was' = <<w, mem, at>>
    /\ w' = VarStep(w, op, a)
    /\ \E z \in {Stepped(op, a)} : mem' = z[1] /\ at' = z[2]
    /\ hist' = Append(hist, O(op, a))
    /\ IF Len(hist') < Depth + 1 THEN TRUE ELSE EmitLines(Out, <<[unit |-> hist']>>)
Init == \E t \in Types : \E x \in {Begun(t, 1)} :
    /\ w = Fresh([at |-> NoEl, objs |-> <<>>], "a", x)
    /\ mem = Laid(<<>>, x)
    /\ at = ("a" :> Len(mem))
    /\ hist = <<O("py.v.new", <<"a", x>>)>>
    /\ was = <<w, mem, at>>
TypeAt(n) == mem[at[n]].t
Changing ==
    \E n \in DOMAIN at : LET t == TypeAt(n) IN
        \/ t \in {"Vector", "Twist", "Wrench"} /\ \E i \in (IF t = "Vector" THEN {1} ELSE {1, 3}) : Does("py.v.set", <<n, [t |-> "int", v |-> i], R(100 + Len(hist))>>)
        \/ t \in DOMAIN Parts /\ \E k \in 1..2 : \E z \in DOMAIN at : TypeAt(z) = Part(Here(n), FieldsOf(t)[k]).t /\ Does("py.v.put", <<n, FieldsOf(t)[k], z>>)
        \/ t \in InPlace /\ \E z \in DOMAIN at : TypeAt(z) = t /\ Does("py.v.iadd", <<n, z>>)
        \/ t \in InPlace /\ \E z \in DOMAIN at : TypeAt(z) = t /\ Does("py.v.isub", <<n, z>>)
        \/ t \in InPlace /\ Does("py.v.flip", <<n>>)
        \/ t \in InPlace /\ Does("py.v.zero", <<n>>)
        \/ Cardinality(DOMAIN at) > 1 /\ Does("py.v.del", <<n>>)
Naming ==
    /\ Cardinality(DOMAIN at) < 3
    /\ \E n \in DOMAIN at : \E y \in Targets : LET t == TypeAt(n) IN
        \/ t \in DOMAIN Parts /\ \E k \in 1..2 : Does("py.v.ref", <<y, n, FieldsOf(t)[k]>>)
        \/ Does("py.v.alias", <<y, n>>)
        \/ \E how \in (IF Quick THEN {"copy", "new"} ELSE {"copy", "deepcopy", "new", "pickle"}) : Does("py.v.copy", <<y, n, how>>)
Next == Len(hist) < Depth + 1 /\ (Changing \/ Naming)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* paths and cells show the same
Agree == DOMAIN w.at = DOMAIN at /\ \A n \in DOMAIN at : Look(w, n) = Here(n)
\* two names of one cell, and only they, have one path
SameThing == \A n, m \in DOMAIN at : (w.at[n] = w.at[m]) = (at[n] = at[m])
\* what is not shared with what was written to does not change
LastOp == hist[Len(hist)]
Writes == LastOp.op \in {"py.v.set", "py.v.put", "py.v.iadd", "py.v.isub", "py.v.flip", "py.v.zero"}
Local == Writes => \A n \in DOMAIN at : CellsOf(mem, at[n]) \cap CellsOf(mem, at[LastOp.a[1]]) = {} => Look(w, n) = Look(was[1], n)
\* naming and forgetting change no object
Harmless == ~Writes => \A n \in DOMAIN was[3] : n \in DOMAIN at /\ at[n] = was[3][n] => Look(w, n) = Look(was[1], n)
\* Py accepts what is shown, and nothing else
Display == [k \in 1..Cardinality(DOMAIN at) |-> LET n == SelectSeq(Names3, LAMBDA m : m \in DOMAIN at)[k] IN <<n, Here(n)>>]
Accepted == VarsSeen(w, Tup(Display)) = {}
Wronged(x) == IF x.t = "Vector" THEN [x EXCEPT !.v[2] = @ \oplus Half] ELSE IF Solid(x) THEN x ELSE LET f == FieldsOf(x.t)[2]  p == Part(x, f) IN
    IF p.t \in {"Vector"} THEN WithPart(x, f, [p EXCEPT !.v[3] = @ \oplus Half]) ELSE x
Refuses == \A k \in 1..Len(Tup(Display)) : LET s == Tup(Display) IN
    /\ Wronged(s[k][2]) # s[k][2] => VarsSeen(w, [s EXCEPT ![k][2] = Wronged(@)]) # {}
    /\ VarsSeen(w, SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))) # {}
=============================================================================
