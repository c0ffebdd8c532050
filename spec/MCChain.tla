------------------------------ MODULE MCChain ------------------------------
(***************************************************************************)
(* All histories, up to a length, of building, copying and changing two    *)
(* chains.  Each becomes a script, in which every chain is looked at after *)
(* every operation.                                                        *)
(***************************************************************************)
EXTENDS Mech

CONSTANT Depth
VARIABLES heap, hist
vars == <<heap, hist>>
Out == Env("KDL_EMIT")
O(name, args) == [op |-> name, a |-> args]
NoBody == [m |-> R0, c |-> Zero3, I |-> ZeroN(6)]
ABody == [m |-> R2, c |-> EX, I |-> <<R1, R1, R1, R0, R0, R0>>]
Jt(k) == [n |-> k, k |-> k, o |-> Zero3, a |-> EZ, s |-> R1, f |-> R0, i |-> R0, d |-> R0, t |-> R0]
Sg(n, k) == [n |-> n, j |-> Jt(k), tip |-> Fr(I3, EX), in |-> NoBody]
New == {Sg("a", "RotZ"), Sg("b", "Fixed")}
Cs == {"c", "d"}
MaxLen == 6

Does(e) == LET r == [op |-> e.op, a |-> e.a, r |-> <<>>] IN
    /\ Len(hist) < Depth
    /\ heap' = MechPost(heap, r)
    /\ \A x \in DOMAIN heap' : Len(heap'[x]) <= MaxLen
    /\ hist' = Append(hist, e)
    /\ IF Len(hist') < Depth THEN TRUE ELSE EmitLines(Out, <<[unit |->
          FoldL(LAMBDA s, x : s \o <<x>> \o (IF x.op = "c.new" /\ x.a[1] = "c" THEN <<>> ELSE <<O("c.look", <<"c">>), O("c.look", <<"d">>)>>),
                <<O("c.new", <<"c", <<>>>>), O("c.new", <<"d", <<Sg("x", "TransX")>>>>)>>, hist')]>>)
Init == heap = [x \in Cs |-> IF x = "c" THEN <<>> ELSE <<SegOf(Sg("x", "TransX"))>>] /\ hist = <<>>
Next == \E c \in Cs, d \in Cs :
    \/ \E s \in New : Does(O("c.add", <<c, s>>))
    \/ Does(O("c.addchain", <<c, d>>))
    \/ Does(O("c.copy", <<c, d>>))
    \/ Does(O("c.assign", <<c, d>>))
    \/ Len(heap[c]) > 0 /\ Does(O("c.addown", <<c, Len(heap[c]) - 1>>))
    \/ Len(heap[c]) > 0 /\ Does(O("c.addown", <<c, 0>>))
    \/ Len(heap[c]) > 0 /\ Does(O("c.seti", <<c, 0, ABody>>))
    \/ Len(heap[c]) > 0 /\ Does(O("c.settip", <<c, Len(heap[c]) - 1, Fr(RotX(R1), EY)>>))
Spec == Init /\ [][Next]_vars

Last(s) == s[Len(s)]
\* a chain is the sequence of its segments: what can be seen of it follows
Counts == \A c \in Cs : ChainView(heap[c]).nj <= ChainView(heap[c]).ns /\ ChainView(heap[c]).ns = Len(heap[c])
\* only the chain an operation names changes
Independent == [][\A c \in Cs : heap'[c] # heap[c] => Last(hist').a[1] = c]_vars
=============================================================================
