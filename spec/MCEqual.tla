------------------------------- MODULE MCEqual -------------------------------
(***************************************************************************)
(* Two values of every type which differ in one component, or in two, by   *)
(* less or by more than the tolerance.  Checks that what Geom and Dual ask *)
(* of equality is decided by every component, whichever it is, and by the  *)
(* largest difference only; every pair becomes a script for the library.   *)
(***************************************************************************)
EXTENDS Dual

CONSTANTS Kinds, Pairs, Devs     \* Devs: deviations in tenths of the tolerance, and 100
VARIABLES kind, i, j, d, e, big
vars == <<kind, i, j, d, e, big>>
Out == Env("KDL_EMIT")
O(name, args) == [op |-> name, a |-> args]

G(k) == <<R(k), Dec(5 * k - 7, -1), R(1 - k)>>
Jet3(n) == Tup([k \in 1..n |-> G(k)])
MOf(n) == IF n = 1 THEN [R |-> RotRPY(Half, R1, R(-2)), w |-> G(2)] ELSE [R |-> RotRPY(Half, R1, R(-2)), w |-> G(2), dw |-> G(3)]
Base(k) ==
    CASE k = "eq.v" -> G(1) [] k = "eq.m" -> RotRPY(Half, R1, R(-2)) [] k = "eq.f" -> Fr(RotRPY(Half, R1, R(-2)), G(2)) [] k = "eq.t" -> Tw(G(1), G(2)) [] k = "eq.w" -> Wr(G(1), G(2))
      [] k = "eq.j1v" -> Jet3(2) [] k = "eq.j2v" -> Jet3(3) [] k = "eq.j1m" -> MOf(1) [] k = "eq.j2m" -> MOf(2)
      [] k = "eq.j1f" -> [M |-> MOf(1), p |-> Jet3(2)] [] k = "eq.j2f" -> [M |-> MOf(2), p |-> Jet3(3)]
      [] k = "eq.j1t" -> [vel |-> Jet3(2), rot |-> Jet3(2)] [] k = "eq.j2t" -> [vel |-> Jet3(3), rot |-> Jet3(3)]
      [] k = "eq.j1d" -> <<R2, R1>> [] k = "eq.j2d" -> <<R2, R1, Half>>
Threes == << <<1>>, <<2>>, <<3>> >>
Nines == << <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 1>>, <<3, 2>>, <<3, 3>> >>
Under(x, s) == Tup([k \in 1..Len(s) |-> <<x>> \o s[k]])
Jets3(n) == IF n = 1 THEN SubSeq(Nines, 1, 6) ELSE Nines
MPaths(n) == Under("R", Nines) \o Under("w", Threes) \o (IF n = 1 THEN <<>> ELSE Under("dw", Threes))
Paths(k) ==
    CASE k = "eq.v" -> Threes [] k = "eq.m" -> Nines [] k = "eq.f" -> Under("M", Nines) \o Under("p", Threes) [] k = "eq.t" -> Under("vel", Threes) \o Under("rot", Threes)
      [] k = "eq.w" -> Under("f", Threes) \o Under("t", Threes)
      [] k = "eq.j1v" -> Jets3(1) [] k = "eq.j2v" -> Jets3(2) [] k = "eq.j1m" -> MPaths(1) [] k = "eq.j2m" -> MPaths(2)
      [] k = "eq.j1f" -> Under("M", MPaths(1)) \o Under("p", Jets3(1)) [] k = "eq.j2f" -> Under("M", MPaths(2)) \o Under("p", Jets3(2))
      [] k = "eq.j1t" -> Under("vel", Jets3(1)) \o Under("rot", Jets3(1)) [] k = "eq.j2t" -> Under("vel", Jets3(2)) \o Under("rot", Jets3(2))
      [] k = "eq.j1d" -> << <<1>>, <<2>> >> [] k = "eq.j2d" -> Threes
RECURSIVE Bump(_, _, _), At(_, _)
Bump(x, path, y) == IF path = <<>> THEN x \oplus y ELSE [x EXCEPT ![Head(path)] = Bump(@, Tail(path), y)]
At(x, path) == IF path = <<>> THEN x ELSE At(x[Head(path)], Tail(path))
Flat(k, x) == Tup([c \in 1..Len(Paths(k)) |-> At(x, Paths(k)[c])])
X == Base(kind)
Y == LET y == Bump(X, Paths(kind)[i], e \otimes Dec(d, -1)) IN IF j = 0 THEN y ELSE Bump(y, Paths(kind)[j], e \otimes Dec(IF big THEN -20 ELSE -3, -1))
Init == \E k \in Kinds : \E c \in 1..Len(Paths(k)) : \E c2 \in (IF Pairs THEN 0..Len(Paths(k)) ELSE {0}) : \E y \in Devs : \E t \in {Eps6, Dec(1, -2)} : \E b \in {FALSE, TRUE} :
    /\ c2 # c /\ (c2 = 0 => ~b)
    /\ kind = k /\ i = c /\ j = c2 /\ d = y - 100 /\ e = t /\ big = b
    /\ EmitLines(Out, <<[unit |-> <<O(kind, <<X, Y, e>>)>>]>>)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
IsPlain == Len(kind) = 4
Event(eq, own) == IF IsPlain THEN <<eq, eq, own, own, ~own, ~own, TRUE>> ELSE <<eq, eq>>
Op(eq, own) == LET a == <<X, Y, e>> IN GeomOp(kind, a, Event(eq, own))
AllLess(t) == \A c \in 1..Len(Paths(kind)) : RAbs(Flat(kind, Y)[c] \ominus Flat(kind, X)[c]) \prec t
\* every component is compared, and nothing else
Decided == IsPlain => \A eq, own \in BOOLEAN : (Op(eq, own) = {}) = (eq = AllLess(e) /\ own = AllLess(Eps6))
FlatOf == CASE kind \in {"eq.j1v", "eq.j2v", "eq.j1d", "eq.j2d"} -> IF kind \in {"eq.j1d", "eq.j2d"} THEN [x |-> X, y |-> Y] ELSE [x |-> FlatJ(X), y |-> FlatJ(Y)]
            [] kind \in {"eq.j1m", "eq.j2m"} -> [x |-> FlatR(X), y |-> FlatR(Y)]
            [] kind \in {"eq.j1f", "eq.j2f"} -> [x |-> FlatF(X), y |-> FlatF(Y)]
            [] kind \in {"eq.j1t", "eq.j2t"} -> [x |-> FlatT(X), y |-> FlatT(Y)]
JetsDecided == ~IsPlain => LET m == MaxDiff(FlatOf.x, FlatOf.y) IN
    /\ Len(FlatOf.x) = Len(Paths(kind))
    /\ \A eq \in BOOLEAN : EqOk(eq, m, e) = (eq = AllLess(e))
    /\ m = MaxDiff(FlatOf.y, FlatOf.x)
=============================================================================
