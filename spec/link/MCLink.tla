------------------------------ MODULE MCLink ------------------------------
(* The mechanisms behind links, with every random choice of the network, against what LinkDefs   *)
(* expects of them.                                                                              *)
(*  C: a conditioner: a heap ordered by due time, loss and delay drawn at random.                *)
(*  X: two ends of an in-process channel in one or two apps.                                     *)
(*  U: a UDP server's map from address to link, filled while datagrams come in.                  *)
EXTENDS LinkDefs

CONSTANTS Lat, Jit, LossG, LossB, FlipG, FlipB, MaxT, MaxPk, Cap, TwoApps, Clients
Cfg == [lat |-> Lat, jit |-> Jit, loss |-> [g |-> LossG, b |-> LossB], flip |-> [g |-> FlipG, b |-> FlipB]]
VARIABLES v
-------------------------------------------------------------------------------
(* C: t: time, n: packets so far, st: the chain's state, heap: [id, due], cd: what the            *)
(* specification knows, bad: a frame that it would not accept                                     *)
InitC == v = [t |-> 0, n |-> 0, st |-> "g", heap |-> {}, cd |-> CondNew(Cfg), ok |-> TRUE, early |-> FALSE, lost |-> {}, got |-> {}, dup |-> FALSE]
Rand(p, b) == (p = 0 => ~b) /\ (p = 100 => b)
Offs == IF Jit = 0 THEN {0} ELSE (-Jit)..(Jit - 1)
PushC ==
    /\ v.n < MaxPk
    /\ \E flip, lose \in BOOLEAN, o \in Offs :
        /\ Rand(Cfg.flip[v.st], flip) /\ Rand(Cfg.loss[v.st], lose)
        /\ v' = [v EXCEPT !.n = @ + 1, !.st = IF flip THEN Flip(@) ELSE @,
                          !.heap = IF lose THEN @ ELSE @ \cup {[id |-> v.n + 1, due |-> v.t + Max2(0, Lat + o), at |-> v.t]},
                          !.lost = IF lose THEN @ \cup {v.n + 1} ELSE @,
                          !.cd = CondIn(@, v.n + 1, v.t)]
TickC == v.t < MaxT /\ v' = [v EXCEPT !.t = @ + 1]
(* the heap pops by due time, equal ones in any order *)
Orders(hs) == {q \in SetToSeqs(hs) : \A i, j \in DOMAIN q : i < j => q[i].due <= q[j].due}
PollC ==
    \E hs \in {{h \in v.heap : h.due <= v.t}} : \E q \in Orders(hs) : \E out \in {[i \in DOMAIN q |-> q[i].id]} :
        v' = [v EXCEPT !.heap = @ \ hs, !.ok = FrameOk(v.cd, v.t, out), !.cd = CondOut(@, v.t, out),
                       !.dup = @ \/ (Rng(out) \cap v.got # {}), !.got = @ \cup Rng(out),
                       !.early = @ \/ \E h \in hs : v.t < h.at + Max2(0, Lat - Jit)]
NextC == PushC \/ TickC \/ PollC
SpecC == InitC /\ [][NextC]_v
AcceptsReal == v.ok
NeverEarly == ~v.early
NeverTwice == ~v.dup
Conserved == v.got \cup v.lost \cup {h.id : h \in v.heap} = 1..v.n
TotalLoss == (LossG = 100 /\ LossB = 100) => v.got = {}
NoLoss == (LossG = 0 /\ LossB = 0) => v.lost = {}
(* with no loss nothing stays longer than the latest due time, once polled *)
Prompt == \A h \in v.heap : h.due <= h.at + Lat + Jit

-------------------------------------------------------------------------------
(* X *)
InitX == v = [X |-> [i \in 1..2 |-> End0], sent |-> <<0, 0>>, got |-> <<<<>>, <<>>>>, stopped |-> FALSE]
CapX(i) == Cap
AppsX == IF TwoApps THEN {<<1>>, <<2>>} ELSE {<<1, 2>>}
UpdX(is) == v' = [v EXCEPT !.X = XFrame(v.X, SelectSeq(is, LAMBDA i : v.X[i].st # "gone"), CapX)]
StartX(i) == v.X[i].st = "down" /\ v' = [v EXCEPT !.X[i].st = "up"]
StopX(i) == v.X[i].st = "up" /\ v' = [v EXCEPT !.X[i].st = "down", !.stopped = TRUE]
SendX(i) == v.X[i].st # "gone" /\ v.sent[i] < MaxPk /\ v' = [v EXCEPT !.X[i].out = Append(@, v.sent[i] + 1), !.sent[i] = @ + 1]
TakeX(i) == v.X[i].in # <<>> /\ v' = [v EXCEPT !.X[i].in = <<>>, !.got[i] = @ \o v.X[i].in]
GoneX(i) == v.X[i].st # "gone" /\ v' = [v EXCEPT !.X[i].st = "gone"]
NextX == (\E is \in AppsX : UpdX(is)) \/ (\E i \in 1..2 : StartX(i) \/ StopX(i) \/ SendX(i) \/ TakeX(i) \/ GoneX(i))
FairX == (\A is \in {<<1>>, <<2>>, <<1, 2>>} : is \in AppsX => WF_v(UpdX(is)))
SpecX == InitX /\ [][NextX]_v /\ FairX
(* every packet is at exactly one place on its way, in the order sent *)
FifoX == \A i \in 1..2 : LET j == P(i) IN
    LET all == v.got[j] \o v.X[j].in \o v.X[j].chan \o v.X[i].out
    IN  IF v.X[j].st # "gone" THEN all = [k \in 1..v.sent[i] |-> k] ELSE \A k \in DOMAIN all : all[k] = k
BoundX == Cap > 0 => \A i \in 1..2 : Len(v.X[i].chan) <= Cap
(* an end that is up notices that the other has gone *)
NoticeX == \A i \in 1..2 : (v.X[P(i)].st = "gone" /\ v.X[i].st = "up") ~> (v.X[i].st # "up" \/ v.X[i].chan # <<>>)

-------------------------------------------------------------------------------
(* U: net: datagrams in the server's socket, in order [id, c]; map[c]: "no" or [st, l]; links[l]: *)
(* [c, live, in]                                                                                  *)
InitU == v = [up |-> TRUE, net |-> <<>>, map |-> [c \in Clients |-> [st |-> "no", l |-> 0]], links |-> <<>>, n |-> 0, dropped |-> {}, known |-> {}]
SendU(c) ==
    /\ v.n < MaxPk /\ v.up
    /\ v' = [v EXCEPT !.n = @ + 1, !.net = Append(@, [id |-> v.n + 1, c |-> c]),
                      !.known = IF \E l \in DOMAIN v.links : v.links[l].live /\ v.links[l].c = c THEN @ \cup {v.n + 1} ELSE @]
Recv1(w, d) ==
    LET m == w.map[d.c]
        drop == [w EXCEPT !.dropped = @ \cup {d.id}]
    IN  IF m.st = "spawning" THEN drop
        ELSE IF m.st = "spawned" THEN
            IF w.links[m.l].live THEN [w EXCEPT !.links[m.l].in = Append(@, d.id)]
            ELSE [drop EXCEPT !.map[d.c] = [st |-> "no", l |-> 0]]
        ELSE [w EXCEPT !.links = Append(@, [c |-> d.c, live |-> TRUE, in |-> <<d.id>>]),
                       !.map[d.c] = [st |-> "spawning", l |-> Len(w.links) + 1]]
FrameU ==
    /\ v.up /\ v.net # <<>>
    /\ \E w \in {FoldLeft(Recv1, v, v.net)} :
        v' = [w EXCEPT !.net = <<>>, !.map = [c \in Clients |-> IF w.map[c].st = "spawning" THEN [w.map[c] EXCEPT !.st = "spawned"] ELSE w.map[c]]]
Kill(w, which) == [w EXCEPT !.links = [l \in DOMAIN @ |-> IF l \in which THEN [@[l] EXCEPT !.live = FALSE] ELSE @[l]],
                            !.known = {i \in @ : \A k \in DOMAIN w.net : (w.net[k].id = i) => \A l \in which : w.links[l].c # w.net[k].c}]
GoneU(l) == v.links[l].live /\ v' = Kill(v, {l})
StopU == v.up /\ v' = [Kill(v, DOMAIN v.links) EXCEPT !.up = FALSE, !.net = <<>>]
StartU == ~v.up /\ v' = [v EXCEPT !.up = TRUE]
NextU == (\E c \in Clients : SendU(c)) \/ FrameU \/ (\E l \in DOMAIN v.links : GoneU(l)) \/ StopU \/ StartU
SpecU == InitU /\ [][NextU]_v
Live == {l \in DOMAIN v.links : v.links[l].live}
OneLinkU == \A a, b \in Live : v.links[a].c = v.links[b].c => a = b
OnceU == \A a, b \in DOMAIN v.links : Distinct(v.links[a].in) /\ (a # b => Rng(v.links[a].in) \cap Rng(v.links[b].in) = {})
(* datagrams of a peer that has a link are not dropped *)
ReliableU == v.known \cap v.dropped = {}
(* at most one datagram is lost to an address whose link is gone: the map then forgets it *)
MapU == \A c \in Clients : v.map[c].st # "spawning"
===============================================================================
