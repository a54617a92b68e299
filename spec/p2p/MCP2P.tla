------------------------------- MODULE MCP2P -------------------------------
(* All behaviours of a few peers that start and stop sessions over links that lose, delay and    *)
(* reorder control messages and go down and up.                                                  *)
EXTENDS P2PDefs

CONSTANTS N, MaxTick, MaxNow, MaxGen, Delay, Timeout, Stops, Cuts, Skew
P == 1..N
Name(p) == CASE p = 1 -> "a" [] p = 2 -> "b" [] p = 3 -> "c"
Num == [x \in {Name(p) : p \in P} |-> CHOOSE p \in P : Name(p) = x]

VARIABLES s,        \* session per peer
          L,        \* links per peer: peer -> [other peer -> link]
          tick, now, net, cuts, stops,
          went,     \* set of <<peer, attempt, tick it started at, local tick after that step, members>>
          chose     \* set of <<peer, attempt, start tick it computed, members>>
vars == <<s, L, tick, now, net, cuts, stops, went, chose>>

Init ==
    /\ s = [p \in P |-> Stopped0]
    /\ L = [p \in P |-> [q \in P \ {p} |-> [mode |-> "inactive", id |-> Name(q), me |-> Name(p), conn |-> TRUE]]]
    /\ tick \in [P -> 0..Skew]
    /\ tick[1] = 0
    /\ now = [p \in P |-> 0]
    /\ net = {} /\ cuts = 0 /\ stops = 0 /\ went = {} /\ chose = {}

Ask(p) ==
    /\ s[p].st = "stopped" /\ s[p].gen < MaxGen
    /\ \E r \in {Begin(s[p], L[p], now[p])} :
         /\ s' = [s EXCEPT ![p] = r.s]
         /\ L' = [L EXCEPT ![p] = r.L]
    /\ UNCHANGED <<tick, now, net, cuts, stops, went, chose>>

StopIt(p) ==
    /\ stops < Stops /\ s[p].st # "stopped"
    /\ stops' = stops + 1
    /\ \E r \in {Leave(s[p], L[p])} :
         /\ s' = [s EXCEPT ![p] = r.s]
         /\ L' = [L EXCEPT ![p] = r.L]
    /\ UNCHANGED <<tick, now, net, cuts, went, chose>>

\* one frame of p: any of the messages on their way to it arrive (one per frame suffices: frames without ticks follow)
InOrder(M) == SetToSeq(M)
Frame(p, M, n) ==
    \E d \in {Drive(s[p], L[p], [i \in DOMAIN InOrder(M) |-> <<InOrder(M)[i].from, InOrder(M)[i].m>>], tick[p], TRUE, now[p], Delay, Timeout)} :
    \E g \in {IF n = 0 THEN [s |-> d.s, L |-> d.L, go |-> FALSE] ELSE Go(d.s, d.L, tick[p])} :
      /\ s' = [s EXCEPT ![p] = g.s]
      /\ L' = [L EXCEPT ![p] = g.L]
      /\ tick' = [tick EXCEPT ![p] = @ + n]
      /\ now' = [now EXCEPT ![p] = @ + n]
      /\ net' = (net \ M) \cup {[from |-> p, to |-> q, m |-> m] : q \in {x \in P \ {p} : d.L[x].mode = "candidate"}, m \in d.out}
      /\ chose' = IF d.s.start # NoTick /\ d.s.st = "starting" THEN chose \cup {<<p, d.s.gen, d.s.start, d.s.ids>>} ELSE chose
      /\ went' = IF g.go THEN went \cup {<<p, g.s.gen, g.s.start, tick[p] + n, d.s.ids>>} ELSE went
      /\ UNCHANGED <<cuts, stops>>
Frames(p) ==
    \E n \in 0..1 : \E M \in SUBSET {x \in net : x.to = p} :
       /\ Cardinality(M) <= 1
       /\ tick[p] + n <= MaxTick /\ now[p] + n <= MaxNow
       /\ (M # {} \/ n # 0 \/ s[p].st = "starting")
       /\ Frame(p, M, n)

\* The link between two peers goes down (what is on it is lost) or comes back
Cut(p, q) ==
    /\ p < q /\ L[p][q].conn /\ cuts < Cuts
    /\ cuts' = cuts + 1
    /\ L' = [L EXCEPT ![p][q].conn = FALSE, ![q][p].conn = FALSE]
    /\ net' = {x \in net : {x.from, x.to} # {p, q}}
    /\ UNCHANGED <<s, tick, now, stops, went, chose>>
Join(p, q) ==
    /\ p < q /\ ~L[p][q].conn
    /\ L' = [L EXCEPT ![p][q].conn = TRUE, ![q][p].conn = TRUE]
    /\ UNCHANGED <<s, tick, now, net, cuts, stops, went, chose>>

Next == \/ \E p \in P : Ask(p) \/ StopIt(p) \/ Frames(p)
        \/ \E p, q \in P : Cut(p, q) \/ Join(p, q)
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
\* peers of the same attempt start at the same tick with the same members
SameStart == \A x, y \in went : (x[2] = y[2] /\ Name(x[1]) \in y[5] /\ Name(y[1]) \in x[5]) => (x[3] = y[3] /\ x[5] = y[5])
\* each starts exactly at that tick, once per attempt
AtTick == \A x \in went : x[4] = x[3]
Once == \A x, y \in went : (x[1] = y[1] /\ x[2] = y[2]) => x = y
\* only after every member has agreed to that tick for this attempt
AllAgreed == \A x \in went : \A q \in x[5] : <<Num[q], x[2], x[3], x[5]>> \in chose
\* two running peers that have each other as members are in the same attempt
SameAttempt == \A p, q \in P : (p # q /\ s[p].st = "started" /\ s[q].st = "started"
                                /\ L[p][q].mode = "joined" /\ L[q][p].mode = "joined")
                               => (s[p].gen = s[q].gen /\ s[p].start = s[q].start)
\* the modes of the links follow the session
ModesFollow == \A p \in P : \A q \in DOMAIN L[p] :
    L[p][q].mode = (CASE s[p].st = "stopped" -> "inactive" [] s[p].st = "starting" -> "candidate" [] OTHER -> "joined")
\* nothing of a finished attempt remains
Clean == \A p \in P : s[p].st = "stopped" => (s[p] = [Stopped0 EXCEPT !.gen = s[p].gen, !.t0 = s[p].t0, !.me = s[p].me])
Inv == SameStart /\ AtTick /\ Once /\ AllAgreed /\ SameAttempt /\ ModesFollow /\ Clean

\* within the attempt's time every attempt is decided (started, failed or agreed)
StepOk == \A p \in P : (now[p] < now'[p] /\ s'[p].st = "starting" /\ s[p].st = "starting" /\ ~Agreed(s'[p]))
             => now[p] - s[p].t0 < Timeout
InTime == [][StepOk]_vars
===============================================================================
