------------------------------- MODULE MCTree ------------------------------
(***************************************************************************)
(* Trees grown by adding segments under any parent, copied, assigned and   *)
(* hung into each other.  The state is the pair of trees; the history by   *)
(* which it was first reached is kept aside, and every transition becomes  *)
(* a script: that history, the transition, and a look at everything.       *)
(***************************************************************************)
EXTENDS Mech

CONSTANTS Kinds,        \* how many different segments there are
          Size,         \* segments in a tree
          After         \* segments added after the one copying, assigning or hanging
VARIABLES heap,         \* the trees, with the numbers of their segments in Pool instead of the segments
          hist, changed, after
vars == <<heap, hist, changed, after>>
View == <<heap, changed, after>>
Out == Env("KDL_EMIT")
Prop == Env("KDL_PROP")
O(name, args) == [op |-> name, a |-> args]

NoBody == [m |-> R0, c |-> Zero3, I |-> ZeroN(6)]
J(k, o, a, s, f) == [n |-> k, k |-> k, o |-> o, a |-> a, s |-> s, f |-> f, i |-> R0, d |-> R1, t |-> R0]
S(n, j, tip) == [n |-> n, j |-> j, tip |-> tip, in |-> [m |-> R1, c |-> EX, I |-> <<R1, R1, R1, R0, R0, R0>>]]
Turn == << <<R0, R0, R1>>, <<R1, R0, R0>>, <<R0, R1, R0>> >>
\* the names are in an order which differs from any in which most trees are built
Pool == <<S("c", J("RotAxis", <<R0, R1, R0>>, <<R1, R2, R2>>, R(-2), Dec(3, -1)), Fr(Turn, EX)),
          S("a", J("RotZ", Zero3, EZ, R1, R0), Fr(I3, <<R1, R0, R1>>)),
          S("d", J("Fixed", Zero3, Zero3, R1, R0), Fr(Turn, EY)),
          S("b", J("TransAxis", <<R1, R0, R0>>, <<R0, R(3), R(-4)>>, Half, R1), Fr(I3, EZ)),
          S("e", J("RotX", Zero3, EX, R1, R0), FId)>>
AChain == <<S("y", J("Fixed", Zero3, Zero3, R1, R0), Fr(I3, EX)), S("x", J("RotY", Zero3, EY, R1, R0), Fr(Turn, EZ))>>
All == Pool \o AChain
Described == SegsOf(All)
MovingPool == {k \in 1..Len(All) : Moves(All[k].j)}
Ts == {"t", "s"}
RootOf(x) == IF x = "t" THEN "root" ELSE "other"
Start == [x \in Ts |-> [root |-> RootOf(x), nj |-> 0, el |-> NoEl]]
Hooks(x) == Names(heap[x]) \cup {heap[x].root}
\* the tree as the specification has it
Full(t) == [root |-> t.root, nj |-> t.nj, el |-> [n \in Names(t) |-> [par |-> t.el[n].par, q |-> t.el[n].q, seg |-> Described[t.el[n].k]]]]
Planted(t, k, hook) == [t EXCEPT !.nj = @ + (IF k \in MovingPool THEN 1 ELSE 0),
    !.el = (All[k].n :> [par |-> hook, q |-> IF k \in MovingPool THEN t.nj ELSE 0, k |-> k]) @@ @]

RECURSIVE Listed(_)
Listed(s) == IF s = {} THEN <<>> ELSE LET e == CHOOSE z \in s : TRUE IN <<e>> \o Listed(s \ {e})
Positions(n) == Tup([k \in 1..n |-> Dec(10 * k - 13, -1)])
Looks(hp) ==
    <<O("t.look", <<"t">>), O("t.look", <<"s">>), O("t.text", <<"t", "  ", "">>)>> \o
    LET x == IF changed' /\ Names(hp["s"]) # {} THEN "s" ELSE "t"
        t == hp[x]  all == Listed(Names(t) \cup {t.root}) IN
    IF Prop = "C15" THEN
        FoldL(LAMBDA u, n : u \o <<O("t.fk", <<x, Positions(t.nj), n>>), O("t.jac", <<x, Positions(t.nj), n, t.nj>>)>>, <<>>, all)
    ELSE FoldL(LAMBDA u, n : u \o Tup([k \in 1..Len(all) |-> O("t.chain", <<"k", x, n, all[k]>>)]) \o <<O("t.sub", <<"u", x, n>>)>>, <<>>, all)
\* the operations kept in the history name segments by their number
Written(e) == IF e.op = "t.add" THEN [e EXCEPT !.a[2] = All[@]] ELSE e
Does(e, hp) ==
    /\ heap' = hp /\ hist' = Append(hist, e)
    /\ \E new \in {hp} : EmitLines(Out, <<[unit |-> <<O("t.new", <<"t", "root">>), O("t.new", <<"s", "other">>), O("c.new", <<"c", AChain>>)>>
                                           \o Tup([k \in 1..(Len(hist) + 1) |-> Written(Append(hist, e)[k])]) \o Looks(new)]>>)
\* how joints added together are numbered is left open: the model takes the order of a walk
RECURSIVE HungAll(_, _, _, _)
HungAll(t, s, hook, todo) == IF todo = <<>> THEN t
    ELSE LET el == s.el[todo[1]] IN HungAll(Planted(t, el.k, IF el.par = s.root THEN hook ELSE el.par), s, hook, Tail(todo))
RECURSIVE Walk(_, _)
Walk(s, n) == LET kids == Listed({m \in Names(s) : s.el[m].par = n}) IN
    FoldL(LAMBDA u, m : u \o <<m>> \o Walk(s, m), <<>>, kids)

Init == heap = Start /\ hist = <<>> /\ changed = FALSE /\ after = 0
Change == ~changed /\ changed' = TRUE /\ after' = after
Plant == \E x \in Ts, k \in 1..Kinds : \E hook \in Hooks(x) :
    /\ Cardinality(Names(heap[x])) < Size + (IF changed THEN 1 ELSE 0) /\ Pool[k].n \notin Names(heap[x])
    /\ changed' = changed
    /\ IF changed THEN after < After /\ after' = after + 1 ELSE after' = after /\ x = "t"
    /\ Does(O("t.add", <<x, k, hook>>), Put(heap, x, Planted(heap[x], k, hook)))
Refused == \E k \in 1..Kinds, hook \in {"root", "nowhere"} :
    /\ Change
    /\ Pool[k].n \in Names(heap["t"]) \/ hook = "nowhere"
    /\ Does(O("t.add", <<"t", k, hook>>), heap)
Copy == \E x \in Ts, y \in Ts, op \in {"t.copy", "t.assign"} :
    /\ Change
    /\ Does(O(op, <<x, y>>), Put(heap, x, heap[y]))
HangChain == \E hook \in Hooks("t") :
    /\ Change
    /\ Does(O("t.addchain", <<"t", "c", hook>>), Put(heap, "t", Planted(Planted(heap["t"], Len(Pool) + 1, hook), Len(Pool) + 2, "y")))
HangTree == \E hook \in Hooks("s") :
    /\ Change
    /\ \A n \in Names(heap["t"]) : ~Known(heap["s"], n)
    /\ Does(O("t.addtree", <<"s", "t", hook>>), Put(heap, "s", HungAll(heap["s"], heap["t"], hook, Walk(heap["t"], heap["t"].root))))
Next == Plant \/ Refused \/ Copy \/ HangChain \/ HangTree
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Numbered == \A x \in Ts : Gapless(Full(heap[x]).el, heap[x].nj)
Rooted == \A x \in Ts : \A n \in Names(heap[x]) : LET a == Ancestors(heap[x], n) IN a[Len(a)] = heap[x].root /\ Cardinality(Range(a)) = Len(a)
\* the way from a segment to another and back crosses the same joints, and the poses are inverse
Across(t, q, a, b) == LET st == Steps(t, a, b) IN
    FoldL(LAMBDA f, s : FMul(f, LET p == SegPose(t.el[s[2]].seg, TreeAt(t, q, s[2])) IN IF s[3] THEN FInv(p) ELSE p), FId, st)
Paths == \A x \in Ts : LET t == Full(heap[x])  q == Positions(t.nj) IN
    \A a \in Names(t), b \in Names(t) :
        /\ Close(Across(t, q, a, b), FMul(FInv(TreePose(t, q, a)), TreePose(t, q, b)), Tol)
        /\ {s[2] : s \in Range(Steps(t, a, b))} = {s[2] : s \in Range(Steps(t, b, a))}
\* the Jacobian is the rate of the pose: of every joint, over a short time
Dt == Dec(1, -6)
Jacobian == \A x \in Ts : LET t == Full(heap[x])  q == Positions(t.nj) IN
    \A n \in Names(t) : LET c == TreeColumns(t, q, n)  f == TreePose(t, q, n) IN
        \A k \in 1..t.nj : LET g == TreePose(t, [q EXCEPT ![k] = @ \oplus Dt], n) IN
            /\ Close(Add(f.p, Scale(c[k].vel, Dt)), g.p, Dec(1, -10))
            /\ Close(MM(RotExp(Scale(c[k].rot, Dt)), f.M), g.M, Dec(1, -10))
=============================================================================
