------------------------------ MODULE LinkDefs ------------------------------
(* Packet conditioners, in-process channels and UDP fan-out as pure functions of their state.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, FiniteSetsExt, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Rng(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(Rng(s)) = Len(s)
IdsOf(p) == {x.id : x \in p}

(* A conditioner's settings: latency and jitter in ms, loss and flip (of the Gilbert-Elliott      *)
(* state, "g" or "b") in percent. What is random is known only as a window: sts is the set of     *)
(* states the chain may be in; a kept packet is due somewhere in lo..hi, and may = TRUE if it may *)
(* have been lost.                                                                                *)
Lo(c, t) == t + Max2(0, c.lat - c.jit)
Hi(c, t) == IF c.jit = 0 THEN t + c.lat ELSE t + Max2(0, c.lat + c.jit - 1)
Flip(x) == IF x = "g" THEN "b" ELSE "g"
After(c, sts) == UNION {IF c.flip[x] = 0 THEN {x} ELSE IF c.flip[x] = 100 THEN {Flip(x)} ELSE {"g", "b"} : x \in sts}
Lost(c, sts) == \A x \in sts : c.loss[x] = 100
MayLose(c, sts) == \E x \in sts : c.loss[x] > 0
CondNew(c) == [c |-> c, sts |-> {"g"}, pend |-> {}]
CondIn(cd, id, t) ==
    [cd EXCEPT !.sts = After(cd.c, cd.sts),
               !.pend = IF Lost(cd.c, cd.sts) THEN @
                        ELSE @ \cup {[id |-> id, lo |-> Lo(cd.c, t), hi |-> Hi(cd.c, t), may |-> MayLose(cd.c, cd.sts)]}]

(* A frame at time t lets out the sequence out *)
PendOf(cd, id) == CHOOSE x \in cd.pend : x.id = id
OnTime(cd, t, out) == \A i \in DOMAIN out : out[i] \in IdsOf(cd.pend) /\ PendOf(cd, out[i]).lo <= t
Once(out) == Distinct(out)
AllDue(cd, t, out) == \A x \in cd.pend : (x.hi <= t /\ ~x.may) => x.id \in Rng(out)
InDueOrder(cd, t, out) == \A i, j \in DOMAIN out : (i < j) => PendOf(cd, out[i]).lo <= PendOf(cd, out[j]).hi
FrameOk(cd, t, out) == Once(out) /\ OnTime(cd, t, out) /\ AllDue(cd, t, out) /\ InDueOrder(cd, t, out)
(* what is still under way was not due yet *)
CondOut(cd, t, out) == [cd EXCEPT !.pend = {[x EXCEPT !.lo = Max2(@, t + 1)] : x \in {y \in @ : y.id \notin Rng(out) /\ y.hi > t}}]

(* The two ends of an in-process channel: st "up"/"down"/"gone", out: to be sent, chan: under way  *)
(* to this end, in: received. Partner of end i: P(i). cap = 0: unbounded.                         *)
P(i) == IF i % 2 = 1 THEN i + 1 ELSE i - 1
End0 == [st |-> "down", out |-> <<>>, chan |-> <<>>, in |-> <<>>]
XReceive(X, i) ==
    IF X[i].st # "up" THEN X
    ELSE [X EXCEPT ![i].in = @ \o X[i].chan, ![i].chan = <<>>, ![i].st = IF X[P(i)].st = "gone" THEN "down" ELSE "up"]
XSend(X, i, cap) ==
    IF X[i].st # "up" \/ X[i].out = <<>> THEN X
    ELSE IF X[P(i)].st = "gone" THEN [X EXCEPT ![i].out = <<>>, ![i].st = "down"]
    ELSE LET room == IF cap = 0 THEN Len(X[i].out) ELSE Min2(Len(X[i].out), Max2(0, cap - Len(X[P(i)].chan)))
         IN  [X EXCEPT ![P(i)].chan = @ \o SubSeq(X[i].out, 1, room),
                       ![i].out = SubSeq(@, room + 1, Len(@))]
(* one frame of the app holding the ends is: all receive, then all send *)
XFrame(X, is, Cap(_)) ==
    LET R(Y, i) == XReceive(Y, i)
        T(Y, i) == XSend(Y, i, Cap(i))
    IN  FoldLeft(T, FoldLeft(R, X, is), is)
===============================================================================
