------------------------------- MODULE MCLife -------------------------------
(***************************************************************************)
(* Histories of one solver while its chain grows and is replaced, while it *)
(* is or is not told, set, and called with arguments for the chain it has  *)
(* or for the one it was told of.  The solver here keeps tables which have *)
(* the sizes of the chain it was told of.  Checks that it never looks      *)
(* outside of them, that it refuses as Life asks and Life asks that it     *)
(* refuses so, and that being told once is enough.  Every history, up to a *)
(* length, becomes a script for every kind of solver.                      *)
(***************************************************************************)
EXTENDS Life

CONSTANTS Depth, Kinds
VARIABLES l, mem, last, hist      \* mem: the sizes of the tables; last: what was done, and what came of it
vars == <<l, mem, last, hist>>
Out == Env("KDL_EMIT")
O(name, args) == [op |-> name, a |-> args]

BodyL(k) == [m |-> R(k), c |-> <<Dec(1, -1), Dec(-2, -1), R0>>, I |-> <<R1, R2, R2, R0, R0, R0>>]
Jt(k, a) == [n |-> k, k |-> k, o |-> Zero3, a |-> a, s |-> R1, f |-> R0, i |-> R0, d |-> R0, t |-> R0]
Sg(n, k, a) == [n |-> n, j |-> Jt(k, a), tip |-> Fr(I3, <<Half, Dec(1, -1), Dec(2, -1)>>), in |-> BodyL(1)]
Letter(x, n) == CASE x = "R" -> Sg(n, "RotZ", EZ) [] x = "X" -> Sg(n, "RotX", EX) [] x = "T" -> Sg(n, "TransAxis", <<R1, R2, R0>>) [] OTHER -> Sg(n, "Fixed", EZ)
Letters == <<"a", "b", "c", "d", "e", "f">>
NewLetters == <<"p", "q", "r", "s", "t", "u">>
LastDone(s) == s[Len(s)]
ChainOf(letters, from) == Tup([k \in 1..Len(letters) |-> Letter(letters[k], Letters[from + k])])
Chains == {ChainOf(<<"X", "R", "F">>, 0), ChainOf(<<"T">>, 0), ChainOf(<<"R", "F", "X", "T">>, 0), ChainOf(<<"F", "T", "X">>, 1)}

NumbersN(n) == Tup([k \in 1..n |-> Dec(3 * k - 4, -1)])
Grav == <<R0, R1, Dec(-981, -2)>>
SettingsOf(kind, n) ==
    CASE kind = "jac" -> [locked |-> Tup([k \in 1..n |-> k = 1])]
      [] kind = "jacdot" -> [locked |-> Tup([k \in 1..n |-> k = 2]), rep |-> 1]
      [] kind \in {"dyn", "id", "fd", "treeid"} -> [g |-> Grav]
      [] kind = "hd" -> [acc |-> [vel |-> <<R0, R0, Dec(981, -2)>>, rot |-> Zero3], nc |-> 2]
      [] kind = "pinv" -> [eps |-> Dec(1, -5)]
      [] kind = "givens" -> [none |-> 0]
      [] kind = "nso" -> [opt |-> NumbersN(n), w |-> Tup([k \in 1..n |-> R(k)]), alpha |-> Half, eps |-> Dec(1, -5)]
      [] kind = "wdls" -> [mq |-> Tup([j \in 1..n |-> [k \in 1..n |-> IF j = k THEN R(j) ELSE R0]]), mx |-> IdN(6), lambda |-> Dec(1, -1), eps |-> Dec(1, -5)]
      [] kind = "nr" -> [eps |-> Dec(1, -6), maxiter |-> 40]
      [] kind = "nrjl" -> [eps |-> Dec(1, -6), maxiter |-> 40, lim |-> <<Tup([k \in 1..n |-> R(-3)]), Tup([k \in 1..n |-> R(3)])>>]
      [] kind = "lma" -> [eps |-> Dec(1, -5), maxiter |-> 40]
      [] OTHER -> [g |-> Grav, freq |-> R(500), gain |-> R(45), filter |-> Half, eps |-> Dec(1, -3)]
Aim == Fr(I3, <<Half, Dec(2, -1), Dec(3, -1)>>)
Push == [vel |-> <<R1, Dec(2, -1), R0>>, rot |-> <<R0, R1, Half>>]
Pushes(n) == Tup([k \in 1..n |-> [f |-> <<R1, R0, R(k)>>, t |-> <<R0, R1, R0>>]])
ArgsOf(kind, n, ns, set) == LET q == NumbersN(n) IN
    CASE kind = "jac" -> <<q, n>>
      [] kind = "jacdot" -> <<q, q, Cardinality({k \in 1..n : k > Len(set.locked) \/ (k <= Len(set.locked) /\ ~set.locked[k])})>>
      [] kind = "dyn" -> <<"coriolis", q, q, n>>
      [] kind \in {"id", "fd"} -> <<q, q, q, Pushes(ns), n>>
      [] kind = "hd" -> <<q, q, <<Push, [vel |-> EX, rot |-> Zero3]>>, <<R0, R1>>, Pushes(ns), q, n>>
      [] kind = "treeid" -> <<q, q, q, n>>
      [] kind = "est" -> <<q, q, q>>
      [] kind \in {"nr", "nrjl", "lma"} -> <<q, Aim, n>>
      [] OTHER -> <<q, Push, n>>
\* what can be set, and for how many joints
SetsOf(kind, n) ==
    CASE kind \in {"jac", "jacdot"} -> <<"locked", Tup([k \in 1..n |-> k = n])>>
      [] kind = "nso" -> <<"w", Tup([k \in 1..n |-> R(3 * k)])>>
      [] kind = "wdls" -> <<"mq", Tup([j \in 1..n |-> [k \in 1..n |-> IF j = k THEN R(2 * j) ELSE R0]])>>
      [] kind = "nrjl" -> <<"lim", <<Tup([k \in 1..n |-> R(-2)]), Tup([k \in 1..n |-> R2])>>>>
      [] OTHER -> <<>>

\* tables for segments are read by these
PerSegment == {"id", "fd", "hd", "treeid", "dyn"}
Tables(segs) == [nj |-> NrMoving(segs), ns |-> Len(segs)]
Code(x, a) == IF OtherJoints(x) THEN Stale
              ELSE IF InnerStale(x) THEN -100
              ELSE IF (OtherSegments(x) \/ OtherNames(x)) /\ x.kind \in PerSegment THEN Stale
              ELSE IF ~RightSizes([x EXCEPT !.ns = Len(x.segs)], a) THEN Mismatch
              ELSE NoError
Answer(x, a) == IF Code(x, a) < 0 THEN <<>> ELSE x.set
Said(x, e) == LET k == x.kind IN
    CASE e.op = "l.call" -> LET c == Code(x, e.a[2]) IN <<c, c, TRUE, Answer(x, e.a[2]), IF c < 0 THEN c ELSE NoError, x.set>>
      [] e.op = "l.set" -> LET c == IF Settable(k, e.a[2], e.a[3], x.nj) THEN NoError ELSE Mismatch IN <<c, c>>
      [] OTHER -> <<x.err>>
NoHeap == [n \in {} |-> 0]
Heap(x) == Put(NoHeap, "l", x)

CallTold == O("l.call", <<"l", ArgsOf(l.kind, l.nj, l.ns, l.set), l.set>>)
CallNow == O("l.call", <<"l", ArgsOf(l.kind, NrMoving(l.segs), Len(l.segs), l.set), l.set>>)
CallWrong == O("l.call", <<"l", ArgsOf(l.kind, l.nj + 1, l.ns, l.set), l.set>>)
UpToDate == NrMoving(l.segs) = l.nj /\ Len(l.segs) = l.ns
\* afterwards: called for what it was told, told, and called for what there is
Ending(x) ==
    LET y == LifePost(Heap(x), [op |-> "l.update", a |-> <<"l">>, r |-> <<NoError>>])["l"]
    IN <<O("l.call", <<"l", ArgsOf(x.kind, x.nj, x.ns, x.set), x.set>>), O("l.update", <<"l">>), O("l.call", <<"l", ArgsOf(y.kind, y.nj, y.ns, y.set), y.set>>), O("l.texts", <<"l">>), O("l.drop", <<"l">>)>>
Start(kind) == ChainOf(<<"R", "X">>, 0)
Does(e) == \E r \in {Said(l, e)} :
    /\ Len(hist) < Depth
    /\ l' = LifePost(Heap(l), [op |-> e.op, a |-> e.a, r |-> r])["l"]
    /\ Len(l'.segs) <= Len(Letters)
    /\ mem' = IF e.op = "l.update" THEN Tables(l.segs) ELSE mem
    /\ last' = [e |-> e, r |-> r, was |-> l, mem |-> mem]
    /\ hist' = Append(hist, e)
    /\ IF Len(hist') < Depth THEN TRUE ELSE EmitLines(Out, <<[unit |->
          <<O("l.new", <<"l", l.kind, Start(l.kind), SettingsOf(l.kind, 2)>>)>> \o hist' \o Ending(l')]>>)
Init == \E kind \in Kinds : \E x \in {NewLife(<<"l", kind, Start(kind), SettingsOf(kind, 2)>>)} :
    l = x /\ mem = Tables(x.segs) /\ last = [e |-> O("l.new", <<"l", kind, Start(kind), SettingsOf(kind, 2)>>), r |-> <<NoError>>, was |-> x, mem |-> Tables(x.segs)] /\ hist = <<>>
Next ==
    \/ \E x \in {"R", "F"} : Len(l.segs) < Len(Letters) /\ Does(O("l.add", <<"l", Letter(x, NewLetters[Len(l.segs) + 1])>>))
    \/ \E c \in Chains : Does(O("l.assign", <<"l", c>>))
    \/ Does(O("l.update", <<"l">>))
    \/ l.kind \in {"nr", "nrjl"} /\ Does(O("l.inner", <<"l">>))
    \/ UpToDate /\ \E n \in {l.nj, l.nj + 1} : \E s \in {SetsOf(l.kind, n)} : s # <<>> /\ Does(O("l.set", <<"l", s[1], s[2]>>))
    \/ Does(CallTold)
    \/ ~UpToDate /\ Does(CallNow)
    \/ UpToDate /\ Does(CallWrong)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Life accepts what this solver does
Accepted == LifeOp(Heap(last.was), last.e.op, last.e.a, last.r) = {}
\* and nothing else it could answer
OtherCodes(c) == {NoError, Stale, Mismatch} \ {c}
Freely(x) == (OtherSegments(x) \/ OtherNames(x)) /\ ~OtherJoints(x)       \* it may refuse, or answer
Refuses == last.e.op = "l.call" /\ ~Freely(last.was) /\ ~InnerStale(last.was) => \A c \in OtherCodes(last.r[1]) :
    LifeOp(Heap(last.was), "l.call", last.e.a, [last.r EXCEPT ![1] = c, ![2] = c]) # {}
ErrorKept == last.e.op \in {"l.call", "l.set"} => LifeOp(Heap(last.was), last.e.op, last.e.a, [last.r EXCEPT ![2] = -77]) # {}
\* an answer is within the tables
InTables == last.e.op = "l.call" /\ last.r[1] >= 0 =>
    /\ NrMoving(last.was.segs) <= last.mem.nj
    /\ (last.was.kind \in PerSegment => Len(last.was.segs) <= last.mem.ns)
\* what is set fits what was told
SetFits == LET s == l.set  k == l.kind IN
    /\ (k \in {"jac", "jacdot"} => Len(s.locked) = l.nj)
    /\ (k = "nso" => Len(s.w) = l.nj /\ Len(s.opt) = l.nj)
    /\ (k = "wdls" => Len(s.mq) = l.nj)
    /\ (k = "nrjl" => Len(s.lim[1]) = l.nj /\ Len(s.lim[2]) = l.nj)
\* told once, it answers
ToldIsEnough == last.e.op = "l.update" => Code(l, ArgsOf(l.kind, l.nj, l.ns, l.set)) = NoError
\* nobody but an update makes it forget, and then only what the chain has no more
SetsLast == [][l'.set # l.set => LastDone(hist').op \in {"l.set", "l.update"}]_vars
Padding == last.e.op = "l.update" =>
    (l.kind = "nso" => \A k \in 1..Len(l.set.w) : l.set.w[k] = IF k <= Len(last.was.set.w) THEN last.was.set.w[k] ELSE R1)
=============================================================================
