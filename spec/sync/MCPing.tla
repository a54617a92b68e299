-------------------------------- MODULE MCPing --------------------------------
(* Exhaustive check of the ping protocol: pings and answers lost, delayed, duplicated and         *)
(* reordered at will, plus answers nobody asked for; a ping store with few places.                *)
EXTENDS SyncDefs
CONSTANTS Pings,     \* pings sent
          Places,    \* pings remembered
          MaxT,      \* clock
          Ids        \* identifiers a forged answer may carry: 0..Ids
VARIABLES t, next, store, newest, net, rtt, seen, used
vars == <<t, next, store, newest, net, rtt, seen, used>>
\* store: id -> time sent; net: answers under way <<id, time the peer held it>>; rtt in sixths; seen: samples
Init == t = 0 /\ next = 0 /\ store = <<>> /\ newest = -1 /\ net = {} /\ rtt = <<>> /\ seen = {} /\ used = <<>>
Send == /\ next < Pings
        /\ store' = [k \in {x \in DOMAIN store : x > next - Places} \cup {next} |-> IF k = next THEN t ELSE store[k]]
        /\ next' = next + 1
        /\ UNCHANGED <<t, newest, net, rtt, seen, used>>
Answer == \E id \in 0..(next - 1), h \in 0..1 : net' = net \cup {<<id, h>>} /\ UNCHANGED <<t, next, store, newest, rtt, seen, used>>
Forge == \E id \in 0..Ids : net' = net \cup {<<id, 0>>} /\ UNCHANGED <<t, next, store, newest, rtt, seen, used>>
Take == \E p \in net :
    /\ net' \in {net, net \ {p}}
    /\ IF p[1] \in DOMAIN store
       THEN LET m == Most(0, t - store[p[1]] - p[2])
                old == IF rtt = <<>> THEN m * 6 ELSE rtt[1]
            IN  /\ store' = [k \in DOMAIN store \ {p[1]} |-> store[k]]
                /\ newest' = Most(newest, p[1])
                /\ IF p[1] > newest
                   THEN /\ rtt' = <<(5 * old + 6 * m) \div 6>>
                        /\ seen' = seen \cup {m}
                        /\ used' = Append(used, p[1])
                   ELSE UNCHANGED <<rtt, seen, used>>
       ELSE UNCHANGED <<store, newest, rtt, seen, used>>
    /\ UNCHANGED <<t, next>>
Pass == t < MaxT /\ t' = t + 1 /\ UNCHANGED <<next, store, newest, net, rtt, seen, used>>
Next == Send \/ Answer \/ Forge \/ Take \/ Pass
Spec == Init /\ [][Next]_vars
\* only pings that were sent count, each once, newer and newer
Once == /\ \A i \in DOMAIN used : used[i] < next
        /\ \A i, j \in DOMAIN used : i < j => used[i] < used[j]
Within == IF rtt = <<>> THEN seen = {} ELSE
          /\ \E m \in seen : rtt[1] >= 6 * m - 5
          /\ \E m \in seen : rtt[1] <= 6 * m
Sane == \A m \in seen : m >= 0 /\ m <= t
Room == Cardinality(DOMAIN store) <= Places
===============================================================================
