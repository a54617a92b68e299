------------------------------- MODULE MCArith -------------------------------
(* Laws of the arithmetic, for every pair of values around the ends and the wrap points *)
EXTENDS CoreDefs
CONSTANTS M, Near
VARIABLES a, b, x, y
vars == <<a, b, x, y>>
Edge == {W(n) : n \in 0..Near} \cup {WSub(U32MAX, W(n)) : n \in 0..Near} \cup {WAdd(I32MAX, W(n)) : n \in -Near..Near}
Pat == {<<h, m, l, k>> : h \in {0, 32767, 32768, 65535}, m \in {0, 65535}, l \in {0, 32767, 32768, 65535}, k \in {0, 1, 65535}}
Init == (a \in 0..(M - 1) /\ b \in 0..(M - 1) /\ x = <<0, 0, 0, 0>> /\ y = x) \/ (a = 0 /\ b = 0 /\ x \in Pat /\ y \in Pat)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
WrapLaws == LET d == WrapDiff(M, a, b) IN
    /\ (a + d) % M = b /\ d \in -(M \div 2)..(M \div 2 - 1)
    /\ d # -(M \div 2) => WrapDiff(M, b, a) = -d
    /\ (d = 0) = (a = b)
TickLaws == (a = 0 /\ b = 0 /\ x = <<0, 0, 0, 0>> /\ y = x) => \A p \in Edge, q \in Edge :
    /\ WSub(p, q) = TickSub(p, q) => TickAdd(q, TickSub(p, q)) = p
    /\ WLt(p, q) = WLt(TickSub(p, q), ZERO)
    /\ ~WLt(TickAdd(p, TickSub(q, p)), ZERO)
Laws64 ==
    /\ Add4(y, Sub4(x, y)) = x /\ Sub4(Add4(x, y), y) = x /\ Neg4(Neg4(x)) = x
    /\ Add4(x, Neg4(x)) = <<0, 0, 0, 0>>
    /\ (Lt4(x, y) \/ Lt4(y, x)) = (x # y)
VarLaws == x[1] < 16384 => LET e == VarEnc(x) IN VarDec(e) = <<Len(e), x>> /\ \A n \in 0..(Len(e) - 1) : VarDec(SubSeq(e, 1, n))[1] = 0
==============================================================================
