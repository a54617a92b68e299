------------------------------ MODULE MCInput ------------------------------
(* One player's inputs on their way to a server (or to another client, which goes on by itself and *)
(* replays when it was wrong): the sender writes an input for each of its ticks, some ticks ahead,  *)
(* and says in each message what it pressed at the last Num ticks; the network loses, repeats and   *)
(* reorders. Design check of BufDefs.                                                               *)
EXTENDS BufDefs

CONSTANTS MaxTick, Vals, Num, InNet, Client, Delay
VARIABLES s, w, net, R, now, v, log, got, sent
vars == <<s, w, net, R, now, v, log, got, sent>>

Init == /\ s = 0 /\ w = Empty /\ net = {} /\ now \in 0..1 /\ R = [b |-> Empty, lr |-> NT] /\ v = 0
        /\ log = [t \in 1..MaxTick |-> None] /\ got = {} /\ sent = [t \in 1..(MaxTick + Delay) |-> None]

Write(x) ==
    /\ s < MaxTick
    /\ s' = s + 1
    /\ w' = PopTo(SetTo(w, s + 1 + Delay, x), s - Num - 1)
    /\ sent' = [sent EXCEPT ![s + 1 + Delay] = x]
    /\ UNCHANGED <<net, R, now, v, log, got>>
Send ==
    /\ s > 0 /\ Cardinality(net) < InNet
    /\ net' = net \cup {[end |-> s + Delay, m |-> Says(w, Num, s + Delay)]}
    /\ net' # net
    /\ UNCHANGED <<s, w, R, now, v, log, got, sent>>
Lose(p) == net' = net \ {p} /\ UNCHANGED <<s, w, R, now, v, log, got, sent>>

(* one tick with buffer b and input u: [b, v] *)
One(b, u, t) ==
    LET x == IF Client THEN Get(b, t) ELSE Predict(b, t)
        y == IF x = None THEN u ELSE x
    IN  [b |-> IF Client THEN (IF x = None THEN SetTo(b, t, y) ELSE b) ELSE PopKeep(b, t - 1), v |-> y]
(* the ticks from a on once more: [b, v, log] *)
Again(b, u, a, lg) == FoldLeft(LAMBDA acc, i : LET o == One(acc.b, acc.v, i) IN [b |-> o.b, v |-> o.v, log |-> [acc.log EXCEPT ![i] = o.v]],
                               [b |-> b, v |-> u, log |-> lg], [i \in 1..(now - a + 1) |-> a + i - 1])
Sim ==
    /\ now < MaxTick
    /\ \E o \in {One(R.b, v, now + 1)} :
         R' = [R EXCEPT !.b = o.b] /\ v' = o.v /\ log' = [log EXCEPT ![now + 1] = o.v]
    /\ now' = now + 1
    /\ UNCHANGED <<s, w, net, got, sent>>
Recv(p) ==
    /\ \E keep \in BOOLEAN : net' = IF keep THEN net ELSE net \ {p}
    /\ got' = got \cup {t \in News(R, p.m, p.end) : t > 0}
    /\ \E r \in {Take(R, p.m, p.end)} : \E bad \in {Wrong(R, p.m, p.end)} :
         IF Client /\ bad # {} /\ Min(bad) <= now
         THEN \E o \in {Again(r.b, IF Min(bad) > 1 /\ log[Min(bad) - 1] # None THEN log[Min(bad) - 1] ELSE 0, Larger(1, Min(bad)), log)} :
                R' = [r EXCEPT !.b = o.b] /\ v' = o.v /\ log' = o.log
         ELSE R' = r /\ UNCHANGED <<v, log>>
    /\ UNCHANGED <<s, w, now, sent>>
Next == Sim \/ Send \/ (\E x \in Vals : Write(x)) \/ \E p \in net : Lose(p) \/ Recv(p)
Spec == Init /\ [][Next]_vars

(* what a tick should have been simulated with: what is known of the last tick up to it *)
Known(g, t) == LET k == {u \in g : u <= t} IN IF k = {} THEN 0 ELSE sent[Max(k)]
(* a server uses what had come in time, a client in the end what has come *)
Right == Client => \A t \in 1..now : log[t] # None => log[t] = Known(got, t)
InTime == [][~Client /\ now' > now => log'[now'] = Known(got, now')]_vars
(* a message says what was pressed *)
Honest == \A p \in net : \A t \in (p.end - Len(p.m) + 1)..p.end : At(p.m, p.end, t) = sent[t]
(* nothing beyond what was written is taken for received *)
Whole == R.lr # NT => R.lr <= s + Delay
(* what came is never changed by what comes later *)
Stays == [][\A t \in got : t <= R.lr /\ Has(R'.b, t) => Get(R'.b, t) = sent[t]]_vars
NoneLost == R.lr # NT /\ got # {} => \A t \in got : t <= R.lr
=============================================================================
