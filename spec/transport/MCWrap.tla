------------------------------- MODULE MCWrap -------------------------------
(* Wrapping message numbers (the mechanism LongTrace holds the code to over real    *)
(* 16-bit histories, here with M numbers). Messages 1, 2, ... carry the number       *)
(* (i - 1) % M. The sender of a reliable channel keeps all outstanding messages      *)
(* within Span of the oldest; the network repeats, loses and delays anything, but no *)
(* packet past Lag newer messages. The receiver sees numbers only.                   *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS M, Span, Lag, N, Mode
(* An unreliable channel that lost half the numbers in a row may refuse new messages. *)
VARIABLES top,    \* newest message put on the wire
          ack,    \* messages the sender knows arrived (reliable)
          pend,   \* receiver: number of the oldest message not there yet / of the newest one seen
          nums,   \* receiver: numbers at or after pend that are there
          seen,   \* SU, SR: has seen a message at all
          got,    \* the messages that were really accepted
          ok      \* no message was refused that is new, or accepted that is not
vars == <<top, ack, pend, nums, seen, got, ok>>

Reliable == Mode \in {"UR", "OR", "SR"}
Num(i) == (i - 1) % M
Diff(a, b) == (a - b + M) % M
Ahead(a, b) == Diff(a, b) < M \div 2

Init == top = 0 /\ ack = {} /\ pend = 0 /\ nums = {} /\ seen = FALSE /\ got = {} /\ ok = TRUE

Oldest == CHOOSE i \in 1..(top + 1) : i \notin ack /\ \A j \in 1..(i - 1) : j \in ack

Put == /\ top < N
       /\ Reliable => top + 1 - Oldest < Span
       /\ top' = top + 1
       /\ UNCHANGED <<ack, pend, nums, seen, got, ok>>

RECURSIVE Advance(_, _)
Advance(p, s) == IF p \in s THEN Advance((p + 1) % M, s \ {p}) ELSE <<p, s>>

(* Any message ever put may arrive (again), unless it is too old by now. *)
Arrive(i) ==
    LET w == Num(i)
        acc == IF Mode \in {"UR", "OR"} THEN Ahead(w, pend) /\ w \notin nums
               ELSE ~seen \/ (w # pend /\ Ahead(w, pend))
        new == IF Mode \in {"UR", "OR"} THEN i \notin got ELSE \A j \in got : j < i
        adv == Advance(pend, nums \cup {w})
    IN  /\ i <= top /\ top - i < Lag
        /\ ok' = (ok /\ (acc => new) /\ (Reliable => (new => acc)))
        /\ IF ~acc THEN UNCHANGED <<pend, nums, seen, got>>
           ELSE /\ seen' = TRUE
                /\ got' = IF Mode \in {"UR", "OR"} THEN got \cup {i} ELSE {i}    \* sequenced: the newest is enough
                /\ IF Mode \in {"UR", "OR"} THEN pend' = adv[1] /\ nums' = adv[2] ELSE pend' = w /\ nums' = {}
        /\ UNCHANGED <<top, ack>>

(* The acknowledgement of a packet that arrived gets through. A message that was     *)
(* refused as old is acknowledged too: the sender only knows of packets.             *)
Ack(i) == /\ Reliable /\ i <= top /\ i \notin ack
          /\ (i \in got \/ (Mode = "SR" /\ \E j \in got : j > i))
          /\ ack' = ack \cup {i}
          /\ UNCHANGED <<top, pend, nums, seen, got, ok>>

Next == Put \/ \E i \in 1..N : Arrive(i) \/ Ack(i)
Spec == Init /\ [][Next]_vars

Judged == ok
(* Numbers in use at the receiver never collide. *)
Distinct == Cardinality(nums) <= M \div 2
=============================================================================
