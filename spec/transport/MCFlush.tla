------------------------------- MODULE MCFlush -------------------------------
(* What a bandwidth cap does to a flush: pieces go in priority order until the    *)
(* allowance is used up; what is left of a non-retrying channel is given up       *)
(* unless a piece of the same message already went, everything else waits.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxMsgs, Prios, Burst, MaxTime
Modes == {"retry", "drop", "rel"}

VARIABLES msgs, left, sent, gone, budget, bytes, now, viol
vars == <<msgs, left, sent, gone, budget, bytes, now, viol>>
(* msgs: sequence of [mode, prio, nf]; left: pieces waiting; budget: bytes that may go *)
Init == msgs = <<>> /\ left = {} /\ sent = {} /\ gone = {} /\ budget = Burst /\ bytes = 0 /\ now = 0 /\ viol = FALSE

Send(m, p, nf) ==
    /\ Len(msgs) < MaxMsgs
    /\ msgs' = Append(msgs, [mode |-> m, prio |-> p, nf |-> nf])
    /\ left' = left \cup {<<Len(msgs) + 1, f>> : f \in 1..nf}
    /\ UNCHANGED <<sent, gone, budget, bytes, now, viol>>

(* One piece costs one unit. The chosen set is upward closed in priority and as      *)
(* large as the budget allows.                                                        *)
P(x) == msgs[x[1]].prio
Flush ==
    \E s \in SUBSET left :
      /\ Cardinality(s) = IF Cardinality(left) <= budget THEN Cardinality(left) ELSE budget
      /\ \A x \in s, y \in left \ s : P(x) >= P(y)
      /\ LET limited == s # left
             dead == IF ~limited THEN {} ELSE {y \in left \ s : msgs[y[1]].mode = "drop" /\ \A z \in s \cup sent : z[1] # y[1]}
         IN /\ left' = (left \ s) \ dead
            /\ gone' = gone \cup dead
      /\ sent' = sent \cup s /\ budget' = budget - Cardinality(s) /\ bytes' = bytes + Cardinality(s)
      /\ viol' = (viol \/ \E x \in s : x \in gone \cup sent)
      /\ UNCHANGED <<msgs, now>>
Tick == now < MaxTime /\ now' = now + 1 /\ budget' = (IF budget < Burst THEN budget + 1 ELSE Burst)
        /\ UNCHANGED <<msgs, left, sent, gone, bytes, viol>>
Next == Flush \/ Tick \/ \E m \in Modes, p \in Prios, nf \in 1..2 : Send(m, p, nf)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Flush /\ left' # left)

Cap == bytes <= Burst + now
NotAfterGivingUp == ~viol
Conserved == \A i \in DOMAIN msgs : \A f \in 1..msgs[i].nf :
    /\ <<i, f>> \in left \cup sent \cup gone
    /\ msgs[i].mode # "drop" => <<i, f>> \notin gone
(* never partially abandoned *)
Whole == \A i \in DOMAIN msgs : (\E f \in 1..msgs[i].nf : <<i, f>> \in gone) => (\A f \in 1..msgs[i].nf : <<i, f>> \notin sent)
=============================================================================
