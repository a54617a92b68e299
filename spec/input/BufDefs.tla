------------------------------- MODULE BufDefs -------------------------------
(* The history of one entity's inputs: what was pressed at each tick of an interval. Inputs are   *)
(* numbers, None is no input.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

None == -1
SameAs == -2
NT == -1
Empty == [st |-> NT, h |-> <<>>]
EndOf(B) == B.st + Len(B.h) - 1
Has(B, t) == B.st # NT /\ t >= B.st /\ t <= EndOf(B)
Get(B, t) == IF Has(B, t) THEN B.h[t - B.st + 1] ELSE None
LastOf(B) == IF B.h = <<>> THEN None ELSE B.h[Len(B.h)]
(* beyond the end a player is taken to go on as he last did *)
Predict(B, t) == IF B.st # NT /\ t > EndOf(B) THEN LastOf(B) ELSE Get(B, t)
Fill(v, n) == [i \in 1..n |-> v]
Upto(B, t) == IF B.st = NT \/ t < B.st THEN Empty ELSE IF t >= EndOf(B) THEN B ELSE [B EXCEPT !.h = SubSeq(B.h, 1, t - B.st + 1)]

(* the input of tick t; a gap before it repeats what came before. In the middle of the history it *)
(* replaces the rest.                                                                            *)
SetTo(B, t, v) ==
    IF B.st = NT THEN [st |-> t, h |-> <<v>>]
    ELSE IF t < B.st THEN B
    ELSE IF t <= EndOf(B) THEN [B EXCEPT !.h = Append(SubSeq(B.h, 1, t - B.st), v)]
    ELSE [B EXCEPT !.h = Append(B.h \o Fill(LastOf(B), t - EndOf(B) - 1), v)]
(* forgets all up to t *)
PopTo(B, t) ==
    IF B.st = NT \/ t < B.st THEN B
    ELSE IF t > EndOf(B) THEN [st |-> t + 1, h |-> <<>>]
    ELSE [st |-> t + 1, h |-> SubSeq(B.h, t - B.st + 2, Len(B.h))]
PopKeep(B, t) ==
    IF LastOf(B) = None THEN PopTo(B, t)
    ELSE IF t < EndOf(B) THEN PopTo(B, t)
    ELSE IF EndOf(B) = 0 THEN B ELSE PopTo(B, EndOf(B) - 1)
PopKeepGives(B, t) == IF LastOf(B) # None /\ t >= EndOf(B) THEN (IF EndOf(B) = 0 THEN None ELSE Get(B, EndOf(B) - 1)) ELSE Get(B, t)
Extend(B, a, z) ==
    LET b == IF B.st = NT THEN [st |-> a, h |-> <<>>] ELSE B
        c == IF a < b.st THEN [st |-> a, h |-> Fill(None, b.st - a) \o b.h] ELSE b
    IN  IF z > EndOf(c) THEN [c EXCEPT !.h = c.h \o Fill(None, z - EndOf(c))] ELSE c

(* ---------------------------------------------------------------- messages *)
(* what a message says for each of its ticks *)
Resolve(s) == FoldLeft(LAMBDA acc, x : Append(acc, IF x # SameAs THEN x ELSE IF acc = <<>> THEN None ELSE acc[Len(acc)]), <<>>, s)
Larger(a, b) == IF a > b THEN a ELSE b
(* the message of the last n ticks up to end *)
FirstOf(B, n, end) == Larger(end - n + 1, B.st)
Says(B, n, end) == [i \in 1..(end - FirstOf(B, n, end) + 1) |-> Get(B, FirstOf(B, n, end) + i - 1)]

(* A receiver R = [b: history, lr: the last tick received] takes in message m of ticks            *)
(* ..end. What was received stays; from the first tick that is not as predicted the message       *)
(* replaces the prediction.                                                                      *)
News(R, m, end) == {t \in (end - Len(m) + 1)..end : t > R.lr}
At(m, end, t) == m[t - end + Len(m)]
Wrong(R, m, end) == {t \in News(R, m, end) : At(m, end, t) # Predict(R.b, t)}
FromTick(R, m, end, a) ==   \* a..end as the message has it, what comes before as it was
    LET b == Upto(R.b, a - 1)
        part == SubSeq(m, a - end + Len(m), Len(m))
    IN  IF b.st = NT THEN [st |-> a, h |-> part]
        ELSE [b EXCEPT !.h = b.h \o Fill(LastOf(b), a - 1 - EndOf(b)) \o part]
Take(R, m, end) ==
    LET new == News(R, m, end)
        bad == Wrong(R, m, end)
    IN  IF new = {} THEN [R EXCEPT !.lr = Larger(@, end)]
        ELSE IF bad # {} THEN [b |-> FromTick(R, m, end, Min(bad)), lr |-> end]
        ELSE LET more == {t \in new : R.b.st = NT \/ t > EndOf(R.b)}
             IN  [b |-> IF more = {} THEN R.b ELSE FromTick(R, m, end, Min(more)), lr |-> end]
=============================================================================
