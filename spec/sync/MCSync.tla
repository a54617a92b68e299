-------------------------------- MODULE MCSync --------------------------------
(* Exhaustive check of the controller closed over a clock: every start error, run length and     *)
(* speed; the remote clock drifts for a while, then is steady.                                   *)
EXTENDS SyncDefs
CONSTANTS Em, Xm, Thr, Sf,       \* margins in units, errors in a row, factor
          Dt,                    \* frame
          Range, Step,           \* errors explored: -Range..Range in steps
          Drift, Calm            \* drift per frame while the network is unsteady; frames until it is steady
VARIABLES e, x, v, t, last
vars == <<e, x, v, t, last>>
Drifts == {-Drift, 0, Drift}
C == [em |-> Em, xm |-> Xm, thr |-> Thr, sf |-> Sf]
Errors == {i * Step : i \in (-(Range \div Step))..(Range \div Step)}
VMax == Factor(C, Xm)
VMin == (ONE * ONE) \div VMax
Init == /\ e \in Errors /\ x \in [cons : 0..Thr, sign : {1, -1}] /\ v \in {ONE, VMin, VMax} /\ t = 0
        /\ last = [kind |-> "none", e |-> 0, v |-> ONE]
Next ==
    \E d \in (IF t < Calm THEN Drifts ELSE {0}) :
    \E r \in {Control(C, x, e)} :
    \E nv \in {CASE r.kind = "jump" -> v [] r.kind = "pace" -> Paced(C, e) [] OTHER -> Relax(v)} :
        /\ x' = r.x
        /\ v' = nv
        /\ last' = [kind |-> r.kind, e |-> e, v |-> v]
        /\ t' = IF t < Calm THEN t + 1 ELSE t
        \* a jump goes to the nearest whole tick; the clock then moves at its speed
        /\ e' = (IF r.kind = "jump" THEN ((e + 512) % 1024) - 512 ELSE e) + d + ((nv - ONE) * Dt) \div ONE
Fair == WF_vars(Next)
Spec == Init /\ [][Next]_vars /\ Fair

TypeOK == v \in VMin..VMax /\ x.cons \in 0..255
Bounds == Abs(v - ONE) <= VMax - ONE
\* only an error above the maximum moves the clock at once
JumpOnlyIfLarge == last.kind = "jump" <=> (last.kind # "none" /\ Abs(last.e) > Xm)
\* a correction opposes the error; otherwise the speed goes back to normal
Direction ==
    /\ last.kind = "pace" => (IF last.e > 0 THEN v <= ONE ELSE v >= ONE)
    /\ last.kind = "relax" => Abs(v - ONE) <= Abs(last.v - ONE)
\* a first error in a new direction, or too few in a row, does not change the pace
Patient == [][(last'.kind = "pace" /\ Thr > 1) => (x.cons >= Thr - 1 /\ x.sign = Sign(e))]_vars
\* once the network is steady the error ends within the margin
Converges == <>[](Abs(e) <= Em)
===============================================================================
