------------------------------- MODULE MCHist -------------------------------
(* The list of a value history answers as the plain function "newest record at or before t"   *)
(* does, through any sequence of operations; and leaving out repeated values (a) loses nothing *)
(* an authoritative history (c) knows, as long as states are confirmed in tick order.          *)
EXTENDS CoreDefs
CONSTANTS T, Vals, MaxLen
VARIABLES h, f, c, a
vars == <<h, f, c, a>>
Ticks == 0..T
States == {0} \cup Vals
Init == h = <<>> /\ f = [t \in Ticks |-> None] /\ c = <<>> /\ a = <<>>
LastT == IF h = <<>> THEN 0 ELSE Last(h)[1]
Hist ==
    \/ \E t \in LastT..T, v \in States : Len(h) < MaxLen /\ h' = HAdd(h, t, v) /\ f' = [x \in Ticks |-> IF x >= t THEN v ELSE f[x]]
    \/ \E t \in Ticks : f[t] # None /\ h' = HClearUntil(h, t) /\ f' = [x \in Ticks |-> IF x < t THEN None ELSE f[x]]
    \/ \E t \in Ticks : h' = HClearAfter(h, t) /\ f' = [x \in Ticks |-> IF x > t THEN f[t] ELSE f[x]]
    \/ \E t \in Ticks : h' = HExcept(h, t) /\ f' = [x \in Ticks |-> IF x < t THEN None ELSE f[t]]
CNew == IF c = <<>> THEN 0 ELSE Last(c).t
Conf ==
    \/ \E t \in CNew..T, v \in States : Len(c) < MaxLen /\ c' = CInsert(c, t, v, FALSE) /\ a' = CInsert(a, t, v, TRUE)
    \/ \E t \in Ticks : Len(c) < MaxLen /\ c' = CUnchanged(c, t) /\ a' = CUnchanged(a, t)
    \/ \E t \in Ticks : c' = CClearUntil(c, t) /\ a' = CClearUntil(a, t)
    \/ c' = CPop(c) /\ a' = CPop(a)
Next == (Hist /\ UNCHANGED <<c, a>>) \/ (Conf /\ UNCHANGED <<h, f>>)
NextH == Hist /\ UNCHANGED <<c, a>>
NextC == Conf /\ UNCHANGED <<h, f>>
AsOf == \A t \in Ticks : HGet(h, t) = f[t]
Ordered == \A i \in 1..(Len(h) - 1) : h[i][1] < h[i + 1][1]
SameAnswers == \A t \in Ticks : CGet(c, t) = CGet(a, t) /\ CAt(c, t) = CAt(a, t)
FirstSolid == c = <<>> \/ (~c[1].same /\ ~a[1].same)
SpecH == Init /\ [][NextH]_vars
SpecC == Init /\ [][NextC]_vars
=============================================================================
