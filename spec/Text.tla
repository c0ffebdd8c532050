-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* What values are as text.  A text is a sequence of tokens,               *)
(*   <<"p", c, 0>> punctuation, <<"w", word, 0>>, <<"n", "", x>> a real,   *)
(*   <<"i", "", n>> an integer,                                            *)
(* between which there may be space and comments.  Read* give what stands  *)
(* at a position: <<TRUE, value, position after it>>, or <<FALSE>>.        *)
(* MCText derives texts from values and disturbs them.                     *)
(***************************************************************************)
EXTENDS Path

Fail == <<FALSE>>
Got(v, i) == <<TRUE, v, i>>
IsP(t, i, c) == i <= Len(t) /\ t[i][1] = "p" /\ t[i][2] = c
IsW(t, i, w) == i <= Len(t) /\ t[i][1] = "w" /\ t[i][2] = w
IsN(t, i) == i <= Len(t) /\ t[i][1] \in {"n", "i"}
IsI(t, i) == i <= Len(t) /\ t[i][1] = "i"
NumAt(t, i) == IF t[i][1] = "i" THEN R(t[i][3]) ELSE t[i][3]
\* x, and then what F finds after it
Then(x, F(_, _)) == IF x[1] THEN F(x[2], x[3]) ELSE Fail
\* the closing bracket
Close1(t, i, v) == IF IsP(t, i, "]") THEN Got(v, i + 1) ELSE Fail
\* [ number seps[1] number ... ]
NumbersIn(t, i, seps) == LET k == Len(seps) + 1 IN
    IF /\ IsP(t, i, "[") /\ \A j \in 1..k : IsN(t, i + 2 * j - 1)
       /\ \A j \in 1..(k - 1) : IsP(t, i + 2 * j, seps[j])
       /\ IsP(t, i + 2 * k, "]")
    THEN Got(Tup([j \in 1..k |-> NumAt(t, i + 2 * j - 1)]), i + 2 * k + 1) ELSE Fail
Commas(n) == [j \in 1..n |-> ","]

ReadVector(t, i) == IF IsW(t, i, "ZERO") THEN Got(Zero3, i + 1) ELSE NumbersIn(t, i, Commas(2))
ReadPair(t, i) == NumbersIn(t, i, Commas(1))
ReadTwist(t, i) == Then(NumbersIn(t, i, Commas(5)), LAMBDA x, j : Got(Tw(<<x[1], x[2], x[3]>>, <<x[4], x[5], x[6]>>), j))
ReadWrench(t, i) == Then(NumbersIn(t, i, Commas(5)), LAMBDA x, j : Got(Wr(<<x[1], x[2], x[3]>>, <<x[4], x[5], x[6]>>), j))
\* angles are in degrees
Rad(x) == (x \otimes Pi) \oslash R(180)
ReadRotation(t, i) ==
    IF IsW(t, i, "IDENTITY") THEN Got(I3, i + 1)
    ELSE IF IsW(t, i, "EULERZYX") THEN Then(ReadVector(t, i + 1), LAMBDA x, j : Got(RotZYX(Rad(x[1]), Rad(x[2]), Rad(x[3])), j))
    ELSE IF IsW(t, i, "EULERZYZ") THEN Then(ReadVector(t, i + 1), LAMBDA x, j : Got(RotZYZ(Rad(x[1]), Rad(x[2]), Rad(x[3])), j))
    ELSE IF IsW(t, i, "RPY") THEN Then(ReadVector(t, i + 1), LAMBDA x, j : Got(RotRPY(Rad(x[1]), Rad(x[2]), Rad(x[3])), j))
    ELSE IF IsW(t, i, "ROT") THEN Then(ReadVector(t, i + 1), LAMBDA x, j : Then(NumbersIn(t, j, <<>>), LAMBDA y, k : Got(RotAbout(Unit(x), Rad(y[1])), k)))
    ELSE Then(NumbersIn(t, i, <<",", ",", ";", ",", ",", ";", ",", ",">>), LAMBDA x, j : Got(<<<<x[1], x[2], x[3]>>, <<x[4], x[5], x[6]>>, <<x[7], x[8], x[9]>>>>, j))
ReadFrame(t, i) ==
    IF IsW(t, i, "DH") THEN Then(NumbersIn(t, i + 1, Commas(3)), LAMBDA x, j : Got(DHStd(x[1], Rad(x[2]), x[3], Rad(x[4])), j))
    ELSE IF IsP(t, i, "[") THEN Then(ReadRotation(t, i + 1), LAMBDA m, j : Then(ReadVector(t, j), LAMBDA p, k : Close1(t, k, Fr(m, p))))
    ELSE Fail
\* a planar rotation: the cosine and sine of its angle
ReadRotation2(t, i) == Then(NumbersIn(t, i, <<>>), LAMBDA x, j : Got(<<Cos(Rad(x[1])), Sin(Rad(x[1]))>>, j))
ReadFrame2(t, i) == Then(ReadRotation2(t, i), LAMBDA m, j : Then(ReadPair(t, j), LAMBDA p, k : Got([M |-> m, p |-> p], k)))

\* ---- paths: the expressions of Path.  Those which cannot be built cannot be read
Opens(t, i, w) == IsW(t, i, w) /\ IsP(t, i + 1, "[")
HasOrient(t, i) == Opens(t, i, "SINGLEAXIS") /\ IsP(t, i + 2, "]")
Buildable(x) == /\ ~IsError(PathOf(x))
                /\ (x.k = "round" => \A e \in {RoundedFrom(x.pts, x.rad, x.eq)[1][k] : k \in 1..Len(x.pts)} : e = 0)
Built(x, i) == IF ~IsClear(x) THEN Got([k |-> "undecided"], i) ELSE IF Buildable(x) THEN Got(x, i) ELSE Fail
Last1(t, i, x) == IF IsP(t, i, "]") THEN Built(x, i + 1) ELSE Fail
RECURSIVE ReadPath(_, _), ReadMany(_, _, _, _, _)
\* n values read by Read, from i on, after those of v
ReadMany(t, i, n, v, frames) ==
    IF n <= 0 THEN Got(v, i)
    ELSE Then(IF frames THEN ReadFrame(t, i) ELSE ReadPath(t, i), LAMBDA x, j : ReadMany(t, j, n - 1, Append(v, x), frames))
ReadPath(t, i) ==
    IF Opens(t, i, "POINT") THEN Then(ReadFrame(t, i + 2), LAMBDA f, j : Last1(t, j, [k |-> "point", f |-> f]))
    ELSE IF Opens(t, i, "LINE") THEN
        Then(ReadFrame(t, i + 2), LAMBDA f, j : Then(ReadFrame(t, j), LAMBDA g, k :
        IF HasOrient(t, k) /\ IsN(t, k + 3) THEN Last1(t, k + 4, [k |-> "line", f |-> f, to |-> g, eq |-> NumAt(t, k + 3)]) ELSE Fail))
    ELSE IF Opens(t, i, "CIRCLE") THEN
        Then(ReadFrame(t, i + 2), LAMBDA f, j : Then(ReadVector(t, j), LAMBDA c, k : Then(ReadVector(t, k), LAMBDA p, l : Then(ReadRotation(t, l), LAMBDA m, q :
        IF IsN(t, q) /\ HasOrient(t, q + 1) /\ IsN(t, q + 4)
        THEN Last1(t, q + 5, [k |-> "circle", f |-> f, c |-> c, p |-> p, m |-> m, alpha |-> Rad(NumAt(t, q)), eq |-> NumAt(t, q + 4)]) ELSE Fail))))
    ELSE IF Opens(t, i, "ROUNDEDCOMPOSITE") THEN
        IF IsN(t, i + 2) /\ IsN(t, i + 3) /\ HasOrient(t, i + 4) /\ IsI(t, i + 7)
        THEN Then(ReadMany(t, i + 8, t[i + 7][3], <<>>, TRUE), LAMBDA pts, j : Last1(t, j, [k |-> "round", pts |-> pts, rad |-> NumAt(t, i + 2), eq |-> NumAt(t, i + 3)]))
        ELSE Fail
    ELSE IF Opens(t, i, "COMPOSITE") THEN
        IF IsI(t, i + 2) THEN Then(ReadMany(t, i + 3, t[i + 2][3], <<>>, FALSE), LAMBDA parts, j :
            IF \E k \in 1..Len(parts) : parts[k].k = "undecided" THEN Got([k |-> "undecided"], j + 1) ELSE Last1(t, j, [k |-> "comp", parts |-> parts]))
        ELSE Fail
    ELSE IF Opens(t, i, "CYCLIC_CLOSED") THEN
        Then(ReadPath(t, i + 2), LAMBDA x, j :
        IF x.k = "undecided" THEN Got(x, j + 1) ELSE IF IsI(t, j) THEN Last1(t, j + 1, [k |-> "cyc", part |-> x, n |-> t[j][3]]) ELSE Fail)
    ELSE Fail

\* ---- profiles are written without what is planned; trajectories plan them over their path
Prof0(kind, lim, i) == Got([kind |-> kind, lim |-> lim], i)
ReadProfile(t, i) ==
    IF Opens(t, i, "DIRACVEL") THEN Close1(t, i + 2, [kind |-> "Dirac", lim |-> <<>>])
    ELSE IF IsW(t, i, "CONSTVEL") THEN Then(NumbersIn(t, i + 1, <<>>), LAMBDA x, j : Prof0("Rect", x, j))
    ELSE IF IsW(t, i, "TRAPEZOIDAL") THEN Then(NumbersIn(t, i + 1, Commas(1)), LAMBDA x, j : Prof0("Trap", x, j))
    ELSE IF IsW(t, i, "TRAPEZOIDALHALF") THEN Then(NumbersIn(t, i + 1, Commas(2)), LAMBDA x, j :
         IF x[3] \in {R0, R1} THEN Prof0("TrapHalf", <<x[1], x[2], x[3] = R1>>, j) ELSE Fail)
    ELSE Fail
Planned(path, prof) == [k |-> "seg", path |-> path, prof |-> [kind |-> prof.kind, lim |-> prof.lim, how |-> "set", from |-> R0, to |-> R1, dur |-> R0]]
ReadTraj(t, i) ==
    IF Opens(t, i, "SEGMENT") THEN Then(ReadPath(t, i + 2), LAMBDA x, j : Then(ReadProfile(t, j), LAMBDA f, k : Close1(t, k, IF x.k = "undecided" THEN x ELSE Planned(x, f))))
    ELSE Fail

Read(kind, t, i) ==
    CASE kind = "vector" -> ReadVector(t, i) [] kind = "rotation" -> ReadRotation(t, i) [] kind = "frame" -> ReadFrame(t, i)
      [] kind = "twist" -> ReadTwist(t, i) [] kind = "wrench" -> ReadWrench(t, i)
      [] kind = "vector2" -> ReadPair(t, i) [] kind = "rotation2" -> ReadRotation2(t, i) [] kind = "frame2" -> ReadFrame2(t, i)
      [] kind = "path" -> ReadPath(t, i) [] kind = "profile" -> ReadProfile(t, i) [] kind = "traj" -> ReadTraj(t, i)
\* the values up to the first which cannot be read
RECURSIVE ReadAll(_, _, _, _)
ReadAll(kinds, t, i, done) ==
    IF Len(done) = Len(kinds) THEN <<done, FALSE>>
    ELSE LET x == Read(kinds[Len(done) + 1], t, i) IN IF x[1] THEN ReadAll(kinds, t, x[3], Append(done, x[2])) ELSE <<done, TRUE>>

\* ---- what is seen of what was read.  opts: [p |-> how paths are looked at, j |-> how trajectories are]
Plain == {"vector", "rotation", "frame", "twist", "wrench", "vector2", "rotation2", "frame2"}
IsUndecided(kind, x) == kind \in {"path", "traj"} /\ x.k = "undecided"
\* a path which moves as x does, whatever it is made of
SeenMotion(x, sd, sdd, got) ==
    LET p == PathOf(x) IN
    Chk("error", got[1] = 0) \cup Chk("length", Close(got[4], p.len, Joint9)) \cup UNION {PathRow(p, sd, sdd, got[5][k]) : k \in 1..Len(got[5])}
SeenRead(kind, x, opts, got, tol) ==
    IF IsUndecided(kind, x) THEN {}
    ELSE IF kind \in Plain THEN Chk(kind, Close(got, x, tol))
    ELSE IF kind = "path" THEN SeenMotion(x, opts.p[3], opts.p[4], got)
    ELSE IF kind = "profile" THEN
         LET f == NewProfile(x.kind, x.lim)  g == [f EXCEPT !.m = SetOf(f, R1, Dec(25, -1))]
             seen(y, z) == Chk("duration", Off(z[1], y.m.dur, Fine \otimes y.m.dur)) \cup UNION {SeenRow(y, z[2][k]) : k \in 1..Len(z[2])} IN
         seen(f, got[1]) \cup seen(g, got[2])
    ELSE SeenTraj(x, got)

\* numbers are written with so many digits
Digits(p) == RMax(Dec(2, 1 - p), Dec(1, -12))
\* of what is written, without what is not
RECURSIVE AsWritten(_)
AsWritten(x) == IF x.k = "seg" THEN Planned(x.path, x.prof) ELSE x
\* can be read again
Readable(kind, x) == CASE kind = "profile" -> x.kind # "Spline" [] kind = "traj" -> x.k = "seg" /\ x.prof.kind # "Spline" [] OTHER -> TRUE
SamePath(x, y) ==
    LET p == PathOf(x)  q == PathOf(y) IN
    /\ Close(p.len, q.len, Dec(1, -8))
    /\ \A k \in {Dec(21, -2), Dec(53, -2), R1} : \E a \in PathAt(p, p.len \otimes k, R1, R0), b \in PathAt(q, p.len \otimes k, R1, R0) : Close(a, b, Dec(1, -7)) \/ p.len = R0
SameValue(kind, x, y, tol) ==
    IF IsUndecided(kind, y) THEN TRUE
    ELSE CASE kind \in Plain \cup {"profile"} -> Close(x, y, tol)
           [] kind = "path" -> SamePath(x, y)
           [] kind = "traj" -> SamePath(x.path, y.path) /\ Close([x.prof EXCEPT !.dur = R0, !.how = "", !.from = R0, !.to = R0], [y.prof EXCEPT !.dur = R0, !.how = "", !.from = R0, !.to = R0], tol)
Clear1(kind, x) == CASE kind = "path" -> IsClear(x) [] kind = "traj" -> ClearTraj(x) [] OTHER -> TRUE
Bare(kind, x) == IF kind = "profile" THEN [kind |-> x.kind, lim |-> x.lim] ELSE x
SeenText(kind, x, precision, opts, r) ==
    IF ~Clear1(kind, x) THEN {} ELSE
    LET y == Bare(kind, x)
        parsed == Read(kind, r[1], 1)
        tol == Digits(precision) IN
    IF ~Readable(kind, x) THEN (IF r[2] \/ kind = "profile" THEN {} ELSE SeenRead(kind, x, opts, r[3], tol))
    ELSE Chk("written", parsed[1] /\ (parsed[1] => parsed[3] = Len(r[1]) + 1 /\ SameValue(kind, y, parsed[2], tol)))
         \cup Chk("refused", ~r[2])
         \cup (IF r[2] THEN {} ELSE SeenRead(kind, IF kind = "traj" THEN AsWritten(x) ELSE y, opts, r[3], tol))

Flat(m) == IF Len(m) = 0 THEN <<>> ELSE FoldL(LAMBDA y, x : y \o x, <<>>, m)
\* ---- descriptions.  Texts are codes of characters here
IsWhite(c) == c \in {32, 10, 9}
CodeAt(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
Capital(c) == IF c \in 97..122 THEN c - 32 ELSE c
RECURSIVE EndOfLine(_, _), EndOfComment(_, _), White(_, _)
EndOfLine(t, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = 10 THEN i + 1 ELSE EndOfLine(t, i + 1)
EndOfComment(t, i) == IF i >= Len(t) THEN 0 ELSE IF t[i] = 42 /\ t[i + 1] = 47 THEN i + 2 ELSE EndOfComment(t, i + 1)
\* the position after space and comments; 0 if a comment does not end
White(t, i) ==
    LET c == CodeAt(t, i)  d == CodeAt(t, i + 1) IN
    IF IsWhite(c) THEN White(t, i + 1)
    ELSE IF c = 35 \/ (c = 47 /\ d = 47) THEN LET j == EndOfLine(t, i) IN IF j = 0 THEN 0 ELSE White(t, j)
    ELSE IF c = 47 /\ d = 42 THEN LET j == EndOfComment(t, i + 2) IN IF j = 0 THEN 0 ELSE White(t, j)
    ELSE i
\* the position after the description from its j-th character on; 0 if it is not there
RECURSIVE Described(_, _, _, _)
Described(t, i, d, j) ==
    IF j > Len(d) THEN i
    ELSE IF d[j] = 32 THEN LET k == White(t, i) IN IF k \in {0, i} THEN 0 ELSE Described(t, k, d, j + 1)
    ELSE IF Capital(CodeAt(t, i)) = Capital(d[j]) THEN Described(t, i + 1, d, j + 1) ELSE 0
EatSeen(t, d, r) ==
    LET start == White(t, 1)  i == IF start = 0 THEN 0 ELSE Described(t, start, d, 1) IN
    IF i = 0 THEN Chk("refuses", r[1] \in 1..4) ELSE Chk("accepts", r[1] = 0) \cup (IF r[1] = 0 THEN Chk("left", r[2] = SubSeq(t, i, Len(t))) ELSE {})
\* ---- errors say what they are
Telling(rows) ==
    Chk("error-text", \A k \in 1..Len(rows) : rows[k][2] # "" /\ rows[k][3])
    \cup Chk("error-numbers", \A j, k \in 1..Len(rows) : j # k => rows[j][1] # rows[k][1])
\* ---- the trace of what was being read: a stack
\* steps: [what, argument]; seen: what each gave.  Texts that do not fit are cut, which is not looked into here
Told(s, x) ==      \* s: <<stack, complaints>>; x: <<step, seen>>
    LET st == s[1]  what == x[1][1]  arg == x[1][2]  got == x[2] IN
    CASE what = "push" -> <<<<arg>> \o st, s[2]>>
      [] what = "pop" -> <<Tail(st), s[2]>>
      [] what = "take" -> IF arg <= 0 THEN s
                          ELSE IF st = <<>> THEN <<st, s[2] \/ got # "">>
                          ELSE <<Tail(st), s[2] \/ (IF arg > 16 THEN got # st[1] ELSE got = "unterminated")>>
      [] what = "all" -> <<<<>>, s[2] \/ got # FoldL(LAMBDA y, z : y \o z \o "\n", "", st)>>
TraceSeen(steps, seen) ==
    Chk("trace", Len(seen) = Len(steps) /\ ~FoldL(Told, <<<<>>, FALSE>>, Tup([k \in 1..Len(steps) |-> <<steps[k], seen[k]>>]))[2])
\* what was read to its end is on the trace no more (refused is whether there was an error, left the number of entries left)
Retraced(refused, left) == IF refused THEN left >= 0 ELSE left = 0
TextOps == {"x.read", "x.write", "x.cut", "x.raw", "x.print", "x.eat", "x.errors", "x.trace"}
TextOp(op, a, r) ==
    CASE op = "x.read" ->
             LET want == ReadAll(a[1], a[2], 1, <<>>)
                 loose == \E k \in 1..Len(want[1]) : IsUndecided(a[1][k], want[1][k]) IN
             IF loose THEN {}
             ELSE Labelled("C32", Chk("accepts", r[2] = want[2] /\ Len(r[1]) = Len(want[1]))
                  \cup (IF Len(r[1]) = Len(want[1]) THEN UNION {SeenRead(a[1][k], want[1][k], a[5], r[1][k], Dec(1, -9)) : k \in 1..Len(r[1])} ELSE {})
                  \cup Chk("stream", r[2] \/ ~r[3]) \cup Chk("trace", Retraced(r[2], r[4])))
      [] op = "x.write" -> Labelled("C32", SeenText(a[1], a[2], a[3], a[4], r) \cup Chk("trace", Retraced(r[2], r[4])))
      [] op = "x.cut" -> Labelled("C32", Chk("accepts-beginning", r[1] = <<>>))
      [] op = "x.raw" -> {}
      [] op = "x.eat" -> Labelled("C32", EatSeen(a[1], a[2], r))
      [] op = "x.errors" -> Labelled("C32", Telling(r[1]) \cup Telling(r[3]) \cup Chk("error-given", r[2][1] = <<a[2], a[1], TRUE>> /\ r[2][2][1] = 0 /\ r[2][2][2] # ""))
      [] op = "x.trace" -> Labelled("C32", TraceSeen(a[1], r))
      [] op = "x.print" -> Labelled("C32", Chk("printed", Close(r[1], IF a[1] = "jnts" THEN a[2] ELSE Flat(a[2]), Digits(a[3]))))
=============================================================================
