------------------------------- MODULE MCEst -------------------------------
(***************************************************************************)
(* A mechanism moving under the torques of inverse dynamics and a constant *)
(* wrench on its last segment, watched by the observer of Est: it must     *)
(* settle on the torques of that wrench, and see nothing where nothing     *)
(* acts.  Complete runs become scripts.                                    *)
(***************************************************************************)
EXTENDS MCDyn, Est

CONSTANTS Moves1, Rests     \* the number of steps moving and at rest
VARIABLES k, obs, rows, mode        \* mode: <<keep, wrench acts>>
est_vars == <<parts, hooks, pose, k, obs, rows, mode>>

Dt == Dec(2, -2)
Gain == R(20)
Time(n) == R(n) \otimes Dt
Whole == Time(Moves1)
Amp == ScaleN(SubSeq(<<R1, Dec(-5, -1), Dec(8, -1), Half, R1>>, 1, NJ), Whole)
\* from 0 to 1 with zero velocity at both ends, and then at rest
Rise(t) == LET x == Pi \otimes (t \oslash Whole) IN
    IF Whole \preceq t THEN <<R1, R0, R0>>
    ELSE <<Half \otimes (R1 \ominus Cos(x)), Half \otimes ((Pi \oslash Whole) \otimes Sin(x)), Half \otimes (Sqr(Pi \oslash Whole) \otimes Cos(x))>>
PoseAt(n) == LET s == Rise(Time(n)) IN <<AddN(Q, ScaleN(Amp, s[1])), ScaleN(Amp, s[2]), ScaleN(Amp, s[3])>>
Act == IF mode[2] THEN Tup([n \in 1..N |-> IF n = N THEN AWrench ELSE WrZero]) ELSE NoWrenches(Segs)
TauAt(n) == LET m == PoseAt(n) IN TorquesFor(Segs, m[1], m[2], m[3], Gravity(G), InBase(Segs, m[1], Act))
RowAt(n) == LET m == PoseAt(n) IN <<m[1], m[2], TauAt(n)>>
Felt(n) == LET q == PoseAt(n)[1]  z == ZeroN(NJ) IN
    SubN(TorquesFor(Segs, q, z, z, TwZero, NoWrenches(Segs)), TorquesFor(Segs, q, z, z, TwZero, InBase(Segs, q, Act)))
EArgs == <<"e", "c", G, R1 \oslash Dt, Gain, mode[1], Dec(1, -5), 150>>
Whole1 == <<O("c.new", <<"c", RawOf(parts)>>), O("e.new", EArgs), O("e.start", <<"e", PoseAt(0)[1], PoseAt(0)[2]>>), O("e.run", <<"e", rows>>),
            O("e.rest", <<"e", PoseAt(Moves1)[1], TauAt(Moves1 + 1), 200>>)>>

EInit == /\ Init /\ k = 0 /\ obs = <<>> /\ rows = <<>> /\ mode \in {R0, Half} \X BOOLEAN
EGrow == /\ k = 0 /\ Len(parts) < Depth
         /\ \E p \in 1..Len(Library) : parts' = Append(parts, p) /\ hooks' = Append(hooks, Len(parts))
         /\ UNCHANGED <<pose, k, obs, rows, mode>>
EStart == /\ k = 0 /\ NJ > 0
          /\ k' = 1 /\ obs' = StartEst(NewEst(Segs, EArgs), PoseAt(0)[1], PoseAt(0)[2])
          /\ UNCHANGED <<parts, hooks, pose, rows, mode>>
EStep == /\ 0 < k /\ k <= Moves1 + Rests
         /\ \E row \in {RowAt(k)} : obs' = StepEst(obs, row) /\ rows' = IF k <= Moves1 THEN Append(rows, row) ELSE rows
         /\ k' = k + 1
         /\ (k = Moves1 + Rests => EmitLines(Out, <<[unit |-> Whole1]>>))
         /\ UNCHANGED <<parts, hooks, pose, mode>>
ENext == EGrow \/ EStart \/ EStep
ESpec == EInit /\ [][ENext]_est_vars

Big == R1 \oplus MaxAbs(TauAt(Moves1 + 1)) \oplus MaxAbs(TauAt(1))     \* the torques at rest and at the strongest acceleration
\* settles on what acts
Settles == k > Moves1 + Rests => MaxAbs(SubN(obs.est, Felt(k))) \preceq (Dec(1, -2) \otimes Big)
\* nothing is seen of the motion itself, up to the time step
SeesNothing == (k > 0 /\ ~mode[2]) => MaxAbs(obs.est) \preceq ((R(6) \oslash R(Moves1)) \otimes Big)
\* the wrench is found where the torques determine it
FindsWrench == (k > Moves1 + Rests /\ mode[2]) =>
    LET d == FeltSvd(Segs, PoseAt(k)[1])  w == WrenchFor(d, Dec(1, -5), Felt(k))  q == PoseAt(k)[1]
        tau == Map1(BodyCols(Segs, q), LAMBDA t : DotN(TwVec(t), w)) IN
    Close(tau, Felt(k), Dec(1, -8))
=============================================================================
