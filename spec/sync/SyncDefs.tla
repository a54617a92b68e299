------------------------------- MODULE SyncDefs -------------------------------
(* Clock synchronization: the controller that steers a local clock toward a target (S02), the    *)
(* prediction window and the input delay (S03), and the estimator of the round trip (S01).       *)
(* Times are integers: 1024 units are one tick.  Speeds are in ten-thousandths.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Least(a, b) == IF a <= b THEN a ELSE b
Most(a, b) == IF a >= b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol
Between(x, a, b, tol) == x >= Least(a, b) - tol /\ x <= Most(a, b) + tol
Sign(e) == IF e >= 0 THEN 1 ELSE -1
ONE == 10000

(*---------------------------------------------------------------------------------------------*)
(* The controller.  c = [em, xm, thr, sf]: error margin, maximum error, number of errors in a    *)
(* row that call for a correction, strongest factor.  x = [cons, sign]: length of the current    *)
(* run of errors, direction of the last one.  e: how far the clock is ahead of its target.       *)
(*---------------------------------------------------------------------------------------------*)
Ctx0 == [cons |-> 0, sign |-> 1]
Relax(v) == IF Abs(v - ONE) > 10 THEN v + (ONE - v) \div 10 ELSE v
\* how fast to run with an error of e: twice the configured factor at the maximum error
Factor(c, e) == ONE + (2 * (c.sf - ONE) * Least(Abs(e), c.xm)) \div c.xm
Paced(c, e) == IF e > 0 THEN (ONE * ONE) \div Factor(c, e) ELSE Factor(c, e)
Control(c, x, e) ==
    IF Abs(e) > c.xm THEN [kind |-> "jump", x |-> [cons |-> 0, sign |-> Sign(e)]]
    ELSE IF Abs(e) <= c.em THEN [kind |-> "relax", x |-> [cons |-> 0, sign |-> Sign(e)]]
    ELSE IF Sign(e) # x.sign THEN [kind |-> "relax", x |-> [cons |-> 1, sign |-> Sign(e)]]
    ELSE IF Least(x.cons + 1, 255) < c.thr THEN [kind |-> "relax", x |-> [cons |-> x.cons + 1, sign |-> Sign(e)]]
    ELSE [kind |-> "pace", x |-> [cons |-> Least(x.cons + 1, 255), sign |-> Sign(e)]]

(*---------------------------------------------------------------------------------------------*)
(* The prediction window.  origin: first tick seen (or <<>>)                                     *)
(*---------------------------------------------------------------------------------------------*)
Wait0 == [waiting |-> FALSE, origin |-> <<>>]
HYST == 2
WaitStep(w, cur, conf, max) ==
    LET o == IF w.origin = <<>> THEN cur ELSE w.origin[1]
        depth == cur - (IF conf = <<>> THEN o ELSE conf[1])
        resume == IF max > HYST THEN max - HYST ELSE 0
    IN  [w |-> [waiting |-> IF conf = <<>> /\ cur = o THEN FALSE
                            ELSE IF w.waiting THEN depth > resume ELSE depth >= max,
                origin |-> <<o>>],
         depth |-> depth]

(*---------------------------------------------------------------------------------------------*)
(* The input delay in ticks.  d = [min, mb, mp]: least delay, most delay before one predicts,    *)
(* most ticks predicted (none: lockstep).  q: the latency in ticks, rounded up.                  *)
(*---------------------------------------------------------------------------------------------*)
U16 == 65535
Sat(x) == IF x > U16 THEN U16 ELSE x
Delay(d, q0) ==
    LET q == IF d.mp = 0 THEN Sat(Sat(q0) + 2) ELSE Sat(q0)
    IN  IF q <= d.min THEN d.min
        ELSE IF q <= d.mb THEN q
        ELSE IF q <= Sat(d.mp + d.mb) THEN d.mb
        ELSE q - d.mp
===============================================================================
