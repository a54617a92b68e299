------------------------------ MODULE CoreDefs ------------------------------
(* Value types of lightyear_core, lightyear_utils and lightyear_serde: wide integers, sub-tick   *)
(* instants, wrapping ids, value histories, ready buffers, byte encodings.                       *)
(* Integers that do not fit TLC's 32 bits are pairs <<hi, lo>> standing for hi * 2^16 + lo, with *)
(* 0 <= lo < 2^16; 64-bit patterns are four 16-bit limbs, most significant first.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, FiniteSetsExt, TLC

B == 65536
Norm(x) == <<x[1] + x[2] \div B, x[2] % B>>
W(n) == <<n \div B, n % B>>
WAdd(x, y) == Norm(<<x[1] + y[1], x[2] + y[2]>>)
WNeg(x) == Norm(<<-x[1], -x[2]>>)
WSub(x, y) == Norm(<<x[1] - y[1], x[2] - y[2]>>)
WLt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
WClamp(x, lo, hi) == IF WLt(x, lo) THEN lo ELSE IF WLt(hi, x) THEN hi ELSE x
U32MAX == <<65535, 65535>>
I32MIN == <<-32768, 0>>
I32MAX == <<32767, 65535>>
ZERO == <<0, 0>>
TickSub(a, b) == WClamp(WSub(a, b), I32MIN, I32MAX)
TickAdd(a, d) == WClamp(WAdd(a, d), ZERO, U32MAX)

(* 64-bit patterns *)
Add4(x, y) ==
    LET d4 == x[4] + y[4]
        d3 == x[3] + y[3] + d4 \div B
        d2 == x[2] + y[2] + d3 \div B
        d1 == x[1] + y[1] + d2 \div B
    IN  <<d1 % B, d2 % B, d3 % B, d4 % B>>
Neg4(x) == Add4([i \in 1..4 |-> B - 1 - x[i]], <<0, 0, 0, 1>>)
Sub4(x, y) == Add4(x, Neg4(y))
IsNeg4(x) == x[1] >= 32768
Abs4(x) == IF IsNeg4(x) THEN Neg4(x) ELSE x
Lt4(x, y) == \E i \in 1..4 : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]
Int4(x) == <<x[1], x[2]>>                    \* the whole ticks of a non-negative pattern
(* the nearest whole number, halves away from zero *)
Round4(x) ==
    LET a == Abs4(x)
        r == IF a[3] >= 32768 THEN WAdd(Int4(a), <<0, 1>>) ELSE Int4(a)
    IN  IF IsNeg4(x) THEN WNeg(r) ELSE r

(* wrapping ids of a space of size M *)
WrapDiff(M, a, b) == LET d == (b - a) % M IN IF d >= M \div 2 THEN d - M ELSE d

-------------------------------------------------------------------------------
(* Histories: sequences of entries <<tick, state>>, oldest first; state 0 is "removed".          *)
None == -1
HGet(h, t) == LET n == Len(SelectSeq(h, LAMBDA e : e[1] <= t)) IN IF n = 0 THEN None ELSE h[n][2]
HAdd(h, t, v) == IF h # <<>> /\ Last(h)[1] = t THEN Append(Front(h), <<t, v>>) ELSE Append(h, <<t, v>>)
HClearUntil(h, t) ==
    LET n == Len(SelectSeq(h, LAMBDA e : e[1] <= t))
    IN  IF n = 0 THEN h ELSE <<<<t, h[n][2]>>>> \o SubSeq(h, n + 1, Len(h))
HClearAfter(h, t) == SelectSeq(h, LAMBDA e : e[1] <= t)
HExcept(h, t) == LET v == HGet(h, t) IN IF v = None THEN <<>> ELSE <<<<t, v>>>>
HSecond(h, t) ==
    IF h = <<>> THEN None
    ELSE IF Last(h)[1] < t THEN Last(h)[2]
    ELSE IF Len(h) < 2 THEN None ELSE h[Len(h) - 1][2]

(* Authoritative histories: entries [t, v, same]; an entry with `same` stands for whatever the    *)
(* entry before it stands for.                                                                   *)
RECURSIVE CVal(_, _)
CVal(c, i) == IF i = 0 THEN None ELSE IF c[i].same THEN CVal(c, i - 1) ELSE c[i].v
CBefore(c, t) == Len(SelectSeq(c, LAMBDA e : e.t < t))
CGet(c, t) == CVal(c, Len(SelectSeq(c, LAMBDA e : e.t <= t)))
CHas(c, t) == \E i \in DOMAIN c : c[i].t = t
CAt(c, t) == IF CHas(c, t) THEN CGet(c, t) ELSE None
CPut(c, e) ==
    LET n == CBefore(c, e.t)
        k == IF n < Len(c) /\ c[n + 1].t = e.t THEN n + 2 ELSE n + 1
    IN  SubSeq(c, 1, n) \o <<e>> \o SubSeq(c, k, Len(c))
CInsert(c, t, v, compress) ==
    CPut(c, [t |-> t, v |-> v, same |-> compress /\ CVal(c, CBefore(c, t)) = v])
CUnchangedOk(c, t) == CAt(c, t) = None /\ CVal(c, CBefore(c, t)) # None
CUnchanged(c, t) == IF CUnchangedOk(c, t) THEN CPut(c, [t |-> t, v |-> None, same |-> TRUE]) ELSE c
CPop(c) ==
    IF c = <<>> THEN c
    ELSE IF Len(c) > 1 /\ c[2].same THEN <<[t |-> c[2].t, v |-> c[1].v, same |-> FALSE]>> \o SubSeq(c, 3, Len(c))
    ELSE Tail(c)
CClearUntil(c, t) ==
    LET v == CGet(c, t)
        rest == SelectSeq(c, LAMBDA e : e.t > t)
    IN  IF v = None THEN SelectSeq(c, LAMBDA e : e.t >= t) ELSE <<[t |-> t, v |-> v, same |-> FALSE]>> \o rest
CShift(c, d) == [i \in DOMAIN c |-> [c[i] EXCEPT !.t = @ + d]]
(* present values, oldest first *)
CIter(c) == SelectSeq([i \in DOMAIN c |-> <<c[i].t, CVal(c, i)>>], LAMBDA e : e[2] > 0)

-------------------------------------------------------------------------------
(* Encodings *)
VarLen(v) == \* v: 64-bit pattern below 2^62
    IF v[1] = 0 /\ v[2] = 0 /\ v[3] = 0 /\ v[4] < 64 THEN 1
    ELSE IF v[1] = 0 /\ v[2] = 0 /\ v[3] = 0 /\ v[4] < 16384 THEN 2
    ELSE IF v[1] = 0 /\ v[2] = 0 /\ v[3] < 16384 THEN 4 ELSE 8
Bytes2(x) == <<x \div 256, x % 256>>
VarEnc(v) ==
    LET n == VarLen(v)
    IN  IF n = 1 THEN <<v[4]>>
        ELSE IF n = 2 THEN Bytes2(v[4] + 16384)
        ELSE IF n = 4 THEN Bytes2(v[3] + 32768) \o Bytes2(v[4])
        ELSE Bytes2(v[1] + 49152) \o Bytes2(v[2]) \o Bytes2(v[3]) \o Bytes2(v[4])
VarNeed(first) == <<1, 2, 4, 8>>[first \div 64 + 1]
(* <<number of bytes read, value>>, or <<0, ..>> when the bytes do not suffice *)
VarDec(b) ==
    IF b = <<>> \/ Len(b) < VarNeed(b[1]) THEN <<0, <<0, 0, 0, 0>>>>
    ELSE LET n == VarNeed(b[1])
             w == [i \in 1..n |-> IF i = 1 THEN b[1] % 64 ELSE b[i]]
             at(i) == IF i < 1 THEN 0 ELSE w[i]
             lm(k) == at(n - 2 * k + 2) + 256 * at(n - 2 * k + 1)
         IN  <<n, <<lm(4), lm(3), lm(2), lm(1)>>>>
===============================================================================
