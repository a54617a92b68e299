------------------------------ MODULE LinkTrace ------------------------------
(* Conformance of links, conditioners and IO layers with LinkDefs (L01, L02).                    *)
EXTENDS LinkDefs, Json, IOUtils

CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S
vars == <<l, S>>
Ev == Log[l]
G(ps, clause, cond) ==
    IF Prop \in ps THEN IF cond THEN TRUE ELSE PrintT("CLAUSE " \o Prop \o ": " \o clause) /\ FALSE
    ELSE TRUE

NoUdp == [n |-> 0, up |-> FALSE, links |-> <<>>, flyS |-> {}, flyC |-> {}, news |-> <<>>, stale |-> <<>>, addr |-> <<>>]
New == [s |-> <<>>, r |-> <<>>, srv |-> [has |-> FALSE], links |-> <<>>, X |-> <<>>, home |-> <<>>, caps |-> <<>>, u |-> NoUdp]
Init == l = 1 /\ S = New

-------------------------------------------------------------------------------
(* Plain queues *)
QStep ==
    LET q == S[Ev.q]
        q2 == CASE Ev.op = "push" -> Append(q, Ev.id)
                [] Ev.op = "front" -> <<Ev.id>> \o q
                [] Ev.op = "pop" -> IF q = <<>> THEN q ELSE Tail(q)
                [] Ev.op = "drain" -> <<>>
    IN  [ok |-> /\ G({"L01"}, "the oldest packet comes out first, unchanged", (Ev.op = "pop") => Ev.id = IF q = <<>> THEN 0 ELSE Head(q))
                /\ G({"L01"}, "draining gives all packets in order, unchanged", (Ev.op = "drain") => Ev.out = q)
                /\ G({"L01"}, "the length is the number of packets held", (Ev.op \in {"pop", "drain"}) => Ev.len = Len(q2))
        , S |-> [S EXCEPT ![Ev.q] = q2]]
SharedStep == [ok |-> G({"L01", "L02"}, "a packet is never altered while someone holds it", Ev.bad = 0), S |-> S]

(* Settings *)
Near(a, b, d) == a - b \in -d..d
CfgStep ==
    LET c == Ev.c  h == Ev.h  M == 1000000
        min == IF Ev.kind = "elliott" THEN Ev.min ELSE 0
        bad == IF Ev.kind = "simple" THEN M ELSE Ev.bad
        pm(x) == (x + 500) \div 1000
    IN  [ok |-> /\ G({"L01"}, "setting a loss model leaves latency and jitter alone", c[1] = Ev.lat /\ c[2] = Ev.jit)
                /\ G({"L01"}, "a fixed loss is the same in both states",
                     Ev.kind = "fixed" => (Near(c[3], Ev.mean, 1) /\ Near(c[4], Ev.mean, 1) /\ c[5] = 0 /\ c[6] = 0))
                /\ G({"L01"}, "a burst loss model loses at the given rates in each state and stays bad for the given length",
                     Ev.kind # "fixed" => (Near(c[3], min, 1) /\ Near(c[4], bad, 1) /\ Near(c[6], M \div Ev.len, 1)
                        /\ Near(pm(c[5]) * pm(bad - Ev.mean), pm(c[6]) * pm(Ev.mean - min), 1500 + (pm(c[6]) * pm(Ev.mean - min)) \div 500)))
                /\ G({"L01"}, "the announced mean loss is the configured one", Near(Ev.got, Ev.mean, 300))
                /\ G({"L01"}, "half a configuration halves latency, jitter and losses",
                     2 * h[1] = c[1] /\ 2 * h[2] = c[2] /\ Near(2 * h[3], c[3], 2) /\ Near(2 * h[4], c[4], 2) /\ h[5] = c[5] /\ h[6] = c[6])
        , S |-> S]
MtuStep ==
    LET After2(k) == LET acc == SelectSeq(SubSeq(Ev.sets, 1, k), LAMBDA x : x[1] >= Ev.min) IN IF acc = <<>> THEN Ev.min ELSE acc[Len(acc)][1]
    IN  [ok |-> G({"L01"}, "the packet size limit can be changed but not below its minimum",
                  \A k \in DOMAIN Ev.sets : Ev.sets[k][2] = (Ev.sets[k][1] >= Ev.min) /\ Ev.sets[k][3] = After2(k) /\ Ev.sets[k][4] = Ev.min)
        , S |-> S]

(* Conditioned links *)
ServerStep == [ok |-> TRUE, S |-> [S EXCEPT !.srv = [has |-> Ev.has, c |-> Ev.c]]]
LinkStep ==
    LET inherit == Ev.child /\ ~Ev.own /\ S.srv.has
        In(cd, id) == CondIn(cd, id, Ev.t)
        cd == FoldLeft(In, CondNew(S.srv.c), Ev.queued)
    IN  [ok |-> TRUE,
         S |-> [S EXCEPT !.links = Append(@, IF inherit THEN [has |-> TRUE, cd |-> cd, buf |-> <<>>]
                                             ELSE [has |-> Ev.own, cd |-> IF Ev.own THEN CondNew(Ev.oc) ELSE 0, buf |-> Ev.queued])]]
InStep ==
    LET k == S.links[Ev.l]
    IN  [ok |-> TRUE,
         S |-> [S EXCEPT !.links[Ev.l] = IF k.has /\ ~Ev.raw THEN [k EXCEPT !.cd = CondIn(k.cd, Ev.id, Ev.t)]
                                         ELSE [k EXCEPT !.buf = Append(@, Ev.id)]]]
TakeStep ==
    LET b == S.links[Ev.l].buf
        n == IF Ev.all THEN Len(b) ELSE Min2(1, Len(b))
    IN  [ok |-> /\ G({"L01"}, "the receiver takes the oldest packets, unchanged", Ev.out = SubSeq(b, 1, n))
                /\ G({"L01"}, "the length is the number of packets held", Ev.len = Len(b) - n)
        , S |-> [S EXCEPT !.links[Ev.l].buf = SubSeq(b, n + 1, Len(b))]]
FrameStep ==
    LET N == DOMAIN S.links
        old(i) == S.links[i].buf
        pre(i) == Len(Ev.bufs[i]) >= Len(old(i)) /\ SubSeq(Ev.bufs[i], 1, Len(old(i))) = old(i)
        out(i) == SubSeq(Ev.bufs[i], Len(old(i)) + 1, Len(Ev.bufs[i]))
        cd(i) == S.links[i].cd
    IN  [ok |-> /\ G({"L01"}, "a frame only adds packets at the end of the buffer", \A i \in N : pre(i))
                /\ G({"L01"}, "without a conditioner nothing is added", \A i \in N : ~S.links[i].has => out(i) = <<>>)
                /\ G({"L01"}, "a packet comes out once", \A i \in N : Once(out(i)))
                /\ G({"L01"}, "a packet comes out only if it was not lost, unchanged, and not before its delay",
                     \A i \in N : S.links[i].has => OnTime(cd(i), Ev.t, out(i)))
                /\ G({"L01"}, "every packet whose delay has passed comes out", \A i \in N : S.links[i].has => AllDue(cd(i), Ev.t, out(i)))
                /\ G({"L01"}, "packets come out in the order they are due", \A i \in N : S.links[i].has => InDueOrder(cd(i), Ev.t, out(i)))
        , S |-> [S EXCEPT !.links = [i \in N |-> IF S.links[i].has
                    THEN [S.links[i] EXCEPT !.buf = Ev.bufs[i], !.cd = CondOut(@, Ev.t, out(i))] ELSE S.links[i]]]]

-------------------------------------------------------------------------------
(* In-process channels *)
PairsStep == [ok |-> TRUE, S |-> [S EXCEPT !.home = Ev.home, !.caps = Ev.caps, !.X = [i \in DOMAIN Ev.home |-> End0]]]
Seen(Y) ==
    /\ G({"L02"}, "a link is up from its start until it is stopped or the other end goes away", \A i \in DOMAIN Y : Ev.st[i] = Y[i].st)
    /\ G({"L02"}, "packets arrive once, in order and unchanged", \A i \in DOMAIN Y : Y[i].st # "gone" => Ev.recv[i] = Y[i].in)
    /\ G({"L02"}, "packets that cannot be sent yet wait", \A i \in DOMAIN Y : Y[i].st # "gone" => Ev.left[i] = Len(Y[i].out))
XStep ==
    LET X == S.X
        Cap(i) == S.caps[(i + 1) \div 2]
        is == SelectSeq([i \in DOMAIN X |-> i], LAMBDA i : S.home[i] = Ev.app /\ X[i].st # "gone")
        Y == CASE Ev.k = "xupdate" -> XFrame(X, is, Cap)
               [] Ev.k = "xstart" -> [X EXCEPT ![Ev.s].st = "up"]
               [] Ev.k = "xstop" -> [X EXCEPT ![Ev.s].st = "down"]
               [] Ev.k = "xsend" -> [X EXCEPT ![Ev.s].out = @ \o Ev.ids]
               [] Ev.k = "xtake" -> [X EXCEPT ![Ev.s].in = <<>>]
               [] Ev.k = "xgone" -> [X EXCEPT ![Ev.s].st = "gone"]
    IN  [ok |-> /\ Seen(Y)
                /\ G({"L02"}, "packets arrive once, in order and unchanged", (Ev.k = "xtake") => Ev.out = X[Ev.s].in)
        , S |-> [S EXCEPT !.X = Y]]

-------------------------------------------------------------------------------
(* UDP: n clients, links of the server as records [l, c, a, live]; flyS: datagrams under way to    *)
(* the server [id, c, must]; flyC: to the clients [id, c]; news[c]: datagrams sent since client c  *)
(* has no link; stale[c]: the server may still remember a link that is gone; addr: who an address  *)
(* belongs to                                                                                      *)
UdpStep == [ok |-> TRUE, S |-> [S EXCEPT !.u = [NoUdp EXCEPT !.n = Ev.n, !.news = [i \in 1..Ev.n |-> 0], !.stale = [i \in 1..Ev.n |-> FALSE],
                                                            !.addr = [x \in {} |-> 0]]]]
LinkOfC(u, c) == {i \in DOMAIN u.links : u.links[i].live /\ u.links[i].c = c}
UStart == [ok |-> G({"L02"}, "starting a server binds its socket and tells the address", Ev.ok), S |-> [S EXCEPT !.u.up = TRUE]]
DropLinks(u, which) ==
    LET cs == {u.links[i].c : i \in {j \in which : u.links[j].live}}
    IN  [u EXCEPT !.links = [i \in DOMAIN @ |-> IF i \in which THEN [@[i] EXCEPT !.live = FALSE] ELSE @[i]],
                  !.news = [c \in DOMAIN @ |-> IF c \in cs THEN 0 ELSE @[c]],
                  !.stale = [c \in DOMAIN @ |-> @[c] \/ c \in cs],
                  !.flyS = {IF x.c \in cs THEN [x EXCEPT !.must = FALSE] ELSE x : x \in @}]
UStop == [ok |-> G({"L02"}, "a stopped server is no longer linked", Ev.down),
          S |-> [S EXCEPT !.u = [DropLinks(S.u, DOMAIN S.u.links) EXCEPT !.up = FALSE, !.flyS = {}, !.news = [c \in DOMAIN @ |-> 0]]]]
LGone == [ok |-> TRUE, S |-> [S EXCEPT !.u = DropLinks(S.u, {i \in DOMAIN S.u.links : S.u.links[i].l = Ev.l})]]
CSend ==
    LET known == LinkOfC(S.u, Ev.c) # {}
    IN  [ok |-> TRUE, S |-> [S EXCEPT !.u.flyS = @ \cup {[id |-> i, c |-> Ev.c, must |-> known] : i \in Rng(Ev.ids)},
                                      !.u.news[Ev.c] = IF known THEN @ ELSE @ + Len(Ev.ids)]]
SSend ==
    LET k == {i \in DOMAIN S.u.links : S.u.links[i].l = Ev.l}
    IN  [ok |-> TRUE, S |-> [S EXCEPT !.u.flyC = @ \cup {[id |-> i, c |-> S.u.links[CHOOSE x \in k : TRUE].c] : i \in Rng(Ev.ids)}]]
CGot ==
    LET mine == {x \in S.u.flyC : x.c = Ev.c}
    IN  [ok |-> /\ G({"L02"}, "a peer gets only packets sent to it, unchanged", Rng(Ev.ids) \subseteq IdsOf(mine))
                /\ G({"L02"}, "a peer gets each packet once", Distinct(Ev.ids))
        , S |-> [S EXCEPT !.u.flyC = @ \ {x \in mine : x.id \in Rng(Ev.ids)}]]
UFrame ==
    LET u == S.u
        ls == Ev.links
        liveIds == {u.links[i].l : i \in {j \in DOMAIN u.links : u.links[j].live}}
        deadIds == {u.links[i].l : i \in {j \in DOMAIN u.links : ~u.links[j].live}}
        rec(x) == CHOOSE y \in Rng(u.links) : y.l = x.l
        fresh == {x \in Rng(ls) : x.l \notin liveIds /\ x.l \notin deadIds}
        from(x) == {y.c : y \in {z \in u.flyS : z.id \in Rng(x.got)}}
        client(x) == IF x.l \in liveIds THEN rec(x).c ELSE IF x.a \in DOMAIN u.addr THEN u.addr[x.a]
                     ELSE IF from(x) # {} THEN CHOOSE c \in from(x) : TRUE ELSE 0
        got == UNION {Rng(x.got) : x \in Rng(ls)}
        cs == {client(x) : x \in fresh}
        u2 == [u EXCEPT !.links = @ \o SetToSeq({[l |-> x.l, c |-> client(x), a |-> x.a, live |-> TRUE] : x \in fresh}),
                        !.flyS = {y \in @ : y.id \notin got},
                        !.news = [c \in DOMAIN @ |-> IF c \in cs THEN 0 ELSE @[c]],
                        !.stale = [c \in DOMAIN @ |-> @[c] /\ c \notin cs],
                        !.addr = [a \in {x.a : x \in fresh} |-> client(CHOOSE x \in fresh : x.a = a)] @@ @]
    IN  [ok |-> /\ G({"L02"}, "the links of a stopped server or a removed link do not come back", \A x \in Rng(ls) : x.l \notin deadIds)
                /\ G({"L02"}, "a peer's link stays while nobody removes it", liveIds \subseteq {x.l : x \in Rng(ls)})
                /\ G({"L02"}, "a link is made for a datagram that came in, under the server, and is up",
                     \A x \in fresh : u.up /\ x.got # <<>> /\ x.of /\ x.up)
                /\ G({"L02"}, "a link keeps its address", \A x \in Rng(ls) : x.l \in liveIds => x.a = rec(x).a)
                /\ G({"L02"}, "there is one link per address", \A i, j \in DOMAIN ls : ls[i].a = ls[j].a => i = j)
                /\ G({"L02"}, "an address is that of one peer and a peer has one address",
                     \A x \in fresh : (x.a \in DOMAIN u.addr) = (client(x) \in {u.addr[a] : a \in DOMAIN u.addr}))
                /\ G({"L02"}, "a datagram goes to the link of the peer that sent it, unchanged",
                     \A x \in Rng(ls) : Rng(x.got) \subseteq {y.id : y \in {z \in u.flyS : z.c = client(x)}})
                /\ G({"L02"}, "a datagram is handed over once", \A i \in DOMAIN ls : Distinct(ls[i].got))
        , S |-> [S EXCEPT !.u = u2]]
Settled ==
    [ok |-> /\ G({"L02"}, "every datagram sent to a linked peer arrives", S.u.flyC = {})
            /\ G({"L02"}, "every datagram of a linked peer arrives", \A x \in S.u.flyS : ~x.must)
            /\ G({"L02"}, "a new peer's datagrams get it a link",
                 \A c \in 1..S.u.n : (S.u.up /\ S.u.news[c] > IF S.u.stale[c] THEN 1 ELSE 0) => LinkOfC(S.u, c) # {})
    , S |-> [S EXCEPT !.u.flyS = {}]]

-------------------------------------------------------------------------------
Reset == Ev.k = "reset" /\ S' = New
Do(r) == r.ok /\ S' = TLCEval(r.S)
Next ==
    /\ l <= Len(Log) /\ l' = l + 1
    /\ \/ Reset
       \/ (Ev.k = "q" /\ \E r \in {QStep} : Do(r))
       \/ (Ev.k = "shared" /\ \E r \in {SharedStep} : Do(r))
       \/ (Ev.k = "cfg" /\ \E r \in {CfgStep} : Do(r))
       \/ (Ev.k = "mtu" /\ \E r \in {MtuStep} : Do(r))
       \/ (Ev.k = "server" /\ \E r \in {ServerStep} : Do(r))
       \/ (Ev.k = "link" /\ \E r \in {LinkStep} : Do(r))
       \/ (Ev.k = "in" /\ \E r \in {InStep} : Do(r))
       \/ (Ev.k = "take" /\ \E r \in {TakeStep} : Do(r))
       \/ (Ev.k = "frame" /\ \E r \in {FrameStep} : Do(r))
       \/ (Ev.k = "pairs" /\ \E r \in {PairsStep} : Do(r))
       \/ (Ev.k \in {"xupdate", "xstart", "xstop", "xsend", "xtake", "xgone"} /\ \E r \in {XStep} : Do(r))
       \/ (Ev.k = "udp" /\ \E r \in {UdpStep} : Do(r))
       \/ (Ev.k = "ustart" /\ \E r \in {UStart} : Do(r))
       \/ (Ev.k = "ustop" /\ \E r \in {UStop} : Do(r))
       \/ (Ev.k = "lgone" /\ \E r \in {LGone} : Do(r))
       \/ (Ev.k = "csend" /\ \E r \in {CSend} : Do(r))
       \/ (Ev.k = "ssend" /\ \E r \in {SSend} : Do(r))
       \/ (Ev.k = "cgot" /\ \E r \in {CGot} : Do(r))
       \/ (Ev.k = "uframe" /\ \E r \in {UFrame} : Do(r))
       \/ (Ev.k = "settled" /\ \E r \in {Settled} : Do(r))
View == l
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log) \/ (PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE)
===============================================================================
