-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* Solvers through the life of their chain.  A solver is the numbers of    *)
(* joints and segments of its chain when it was last told about it, what   *)
(* was set, and the error of its last call.  It refuses when its chain has *)
(* other joints, and otherwise does what a solver made now would do.       *)
(***************************************************************************)
EXTENDS Decomp

NoError == 0
Stale == -3
Mismatch == -4
NotImplemented == -7

\* settings of as many elements as the chain has joints, and what is set for new joints
Lacking == Neg(Dec(1, 300))
Padded(s, n, x) == Tup([k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE x])
PaddedM(m, n) == Tup([j \in 1..n |-> [k \in 1..n |-> IF j <= Len(m) /\ k <= Len(m) THEN m[j][k] ELSE IF j = k THEN R1 ELSE R0]])
Resized(kind, set, n) ==
    CASE kind \in {"jac", "jacdot"} -> [set EXCEPT !.locked = Padded(@, n, FALSE)]
      [] kind = "nso" -> [set EXCEPT !.opt = Padded(@, n, R0), !.w = Padded(@, n, R1)]
      [] kind = "wdls" -> [set EXCEPT !.mq = PaddedM(@, n)]
      [] kind = "nrjl" -> IF set.lim = <<>> THEN set ELSE [set EXCEPT !.lim = <<Padded(@[1], n, Lacking), Padded(@[2], n, Neg(Lacking))>>]
      [] OTHER -> set
\* what is set without an answer
Quiet == {"rep", "lambda"}
\* a value of the right size
Settable(kind, what, v, n) ==
    CASE what \in {"locked", "opt", "w"} -> Len(v) = n
      [] what = "mq" -> Len(v) = n /\ (n = 0 \/ Len(v[1]) = n)
      [] what = "mx" -> Len(v) = 6 /\ Len(v[1]) = 6
      [] what = "lim" -> Len(v[1]) = n /\ Len(v[2]) = n
      [] OTHER -> TRUE

FreeJoints(set) == Cardinality({k \in 1..Len(set.locked) : ~set.locked[k]})
\* the arguments of a call are of the right sizes
RightSizes(l, a) ==
    LET n == l.nj  k == l.kind IN
    CASE k = "jac" -> Len(a[1]) = n /\ a[2] = n
      [] k = "jacdot" -> Len(a[1]) = n /\ Len(a[2]) = n /\ a[3] = FreeJoints(l.set)
      [] k = "dyn" -> Len(a[2]) = n /\ a[4] = n /\ (a[1] = "coriolis" => Len(a[3]) = n)
      [] k \in {"id", "fd"} -> Len(a[1]) = n /\ Len(a[2]) = n /\ Len(a[3]) = n /\ Len(a[4]) = l.ns /\ a[5] = n
      [] k = "hd" -> Len(a[1]) = n /\ Len(a[2]) = n /\ Len(a[3]) = l.set.nc /\ Len(a[4]) = l.set.nc /\ Len(a[5]) = l.ns /\ Len(a[6]) = n /\ a[7] = n
      [] k = "treeid" -> Len(a[1]) = n /\ Len(a[2]) = n /\ Len(a[3]) = n /\ a[4] = n
      [] k = "est" -> Len(a[1]) = n /\ Len(a[2]) = n /\ Len(a[3]) = n
      [] OTHER -> Len(a[1]) = n /\ a[3] = n
OtherJoints(l) == NrMoving(l.segs) # l.nj
OtherSegments(l) == Len(l.segs) # l.ns
\* a solver over another solver fails with it
InnerStale(l) == l.kind \in {"nr", "nrjl"} /\ NrMoving(l.segs) # l.inner
\* the tree solver knows its segments by name
OtherNames(l) == l.kind = "treeid" /\ ~\A k \in 1..Len(l.segs) : l.segs[k].n \in l.names
NamesOf(segs) == {segs[k].n : k \in 1..Len(segs)}

NewLife(a) == LET segs == SegsOf(a[3]) IN [kind |-> a[2], segs |-> segs, nj |-> NrMoving(segs), ns |-> Len(segs), inner |-> NrMoving(segs), names |-> NamesOf(segs), set |-> a[4], err |-> 0]
\* givens starts its iteration from the last answer, and stops at half the digits
LifeTol(kind) == IF kind = "givens" THEN Dec(1, -4) ELSE Dec(1, -9)
SameAsFresh(l, r) == r[1] = r[5] /\ (r[1] < 0 \/ Close(r[4], r[6], LifeTol(l.kind)))
CallSeen(l, a, r) ==
    Chk("error", r[2] = r[1]) \cup Chk("text", r[3])
    \cup (IF OtherJoints(l) THEN Chk("stale", r[1] = Stale)
          ELSE IF InnerStale(l) THEN Chk("inner", r[1] < 0)
          ELSE IF OtherSegments(l) \/ OtherNames(l) THEN Chk("stale", r[1] = Stale \/ (IF RightSizes([l EXCEPT !.ns = Len(l.segs)], a[2]) THEN SameAsFresh(l, r) ELSE r[1] = Mismatch))
          ELSE IF ~RightSizes(l, a[2]) THEN Chk("size", r[1] = Mismatch)
          ELSE Chk("script", l.set = a[3]) \cup Chk("fresh", SameAsFresh(l, r)))
TextsSeen(r) ==
    Chk("text", \A k \in 1..Len(r[1]) : r[1][k][2] # "" /\ r[1][k][2] # r[2])
    \cup Chk("text-same", \A j, k \in 1..Len(r[1]) : r[1][j][1] # r[1][k][1] => r[1][j][2] # r[1][k][2])

LifeOps == {"l.new", "l.add", "l.assign", "l.update", "l.inner", "l.set", "l.other", "l.call", "l.texts", "l.drop"}
LifeOp(h, op, a, r) == Labelled("C26",
    IF op = "l.new" THEN Chk("error", r[1] = NoError)
    ELSE LET l == h[a[1]] IN
    CASE op \in {"l.add", "l.assign", "l.inner"} -> Chk("error", r[1] = l.err)
      [] op = "l.update" -> Chk("error", r[1] \in {l.err, NoError})
      [] op = "l.set" -> Chk("error", r[2] = IF a[2] \in Quiet THEN l.err ELSE r[1]) \cup Chk("set", r[1] = (IF Settable(l.kind, a[2], a[3], l.nj) THEN NoError ELSE Mismatch) \/ (OtherJoints(l) /\ r[1] = Stale))
      [] op = "l.other" -> Chk("error", r[2] = r[1]) \cup Chk("not-implemented", r[1] = NotImplemented)
      [] op = "l.call" -> CallSeen(l, a, r)
      [] op = "l.texts" -> TextsSeen(r) \cup Chk("error", r[3] = l.err)
      [] OTHER -> {})
LifePost(h, e) ==
    LET op == e.op  a == e.a  r == e.r IN
    IF op = "l.new" THEN Put(h, a[1], NewLife(a))
    ELSE LET l == h[a[1]] IN
    CASE op = "l.add" -> Put(h, a[1], [l EXCEPT !.segs = Append(@, SegOf(a[2]))])
      [] op = "l.assign" -> Put(h, a[1], [l EXCEPT !.segs = SegsOf(a[2])])
      [] op = "l.update" -> LET n == NrMoving(l.segs) IN
             Put(h, a[1], [l EXCEPT !.nj = n, !.ns = Len(l.segs), !.inner = n, !.names = NamesOf(l.segs), !.set = Resized(l.kind, @, n), !.err = r[1]])
      [] op = "l.inner" -> Put(h, a[1], [l EXCEPT !.inner = NrMoving(l.segs)])
      [] op = "l.set" -> Put(h, a[1], IF r[1] = NoError THEN [l EXCEPT !.set[a[2]] = a[3], !.err = r[2]] ELSE [l EXCEPT !.err = r[2]])
      [] op = "l.other" -> Put(h, a[1], [l EXCEPT !.err = r[2]])
      [] op = "l.call" -> Put(h, a[1], [l EXCEPT !.err = r[2]])
      [] op = "l.drop" -> Del(h, a[1])
      [] OTHER -> h
=============================================================================
