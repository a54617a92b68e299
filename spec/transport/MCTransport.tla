------------------------------- MODULE MCTransport -------------------------------
(* Two transports and a network that loses, duplicates, delays and reorders packets. *)
(* End 1 sends NMsgs messages on one channel of mode Mode; end 2 answers with         *)
(* acknowledgements. Built from the same operators as TransportTrace.                 *)
(* With LogOps = TRUE (simulation) behaviours are printed as scripts for the driver.  *)
EXTENDS TransportCore, Json

CONSTANTS Mode, NF,        \* channel mode; NF[i] = number of pieces of message i
          MaxPkts,         \* packets end 1 may emit with data
          MaxAcks,         \* packets end 2 may emit
          MaxDup,          \* extra deliveries
          MaxTime, Step, Rtt, MinDelay, PerPkt,
          LogOps, MaxOps

VARIABLES sent, snd, pkts, pend, ackd, mackd, lost,      \* end 1
          rcv, seen, last, ackp, reads, acks, hist,      \* end 2 (acks: packets it emitted)
          net, anet, dups, now, t1, ops

vars == <<sent, snd, pkts, pend, ackd, mackd, lost, rcv, seen, last, ackp, reads, acks, hist, net, anet, dups, now, t1, ops>>
N == Len(NF)
NF12 == <<1, 2>>
NF21 == <<2, 1>>
NF121 == <<1, 2, 1>>
NF112 == <<1, 1, 2>>
NF3 == <<3, 1, 2, 1, 1, 2>>
M == Mode

Op(o) == IF LogOps THEN ops' = Append(ops, o) ELSE UNCHANGED ops
Fin == ~LogOps \/ Len(ops) < MaxOps

Init ==
    /\ sent = 0 /\ snd = NewSend /\ pkts = <<>> /\ pend = {} /\ ackd = {} /\ mackd = <<>> /\ lost = {}
    /\ rcv = NewRecv /\ seen = {} /\ last = -100 /\ ackp = FALSE /\ reads = <<>> /\ acks = <<>> /\ hist = {}
    /\ net = {} /\ anet = {} /\ dups = 0 /\ now = 0 /\ t1 = 0 /\ ops = <<>>

Send ==
    /\ sent < N
    /\ sent' = sent + 1
    /\ snd' = Enqueue(M, snd, sent + 1, NF[sent + 1])
    /\ Op([op |-> "send", e |-> 1, m |-> M, nf |-> NF[sent + 1]])
    /\ UNCHANGED <<pkts, pend, ackd, mackd, lost, rcv, seen, last, ackp, reads, acks, hist, net, anet, dups, now, t1>>

(* A flush: what is new or due is cut into packets of PerPkt pieces.                  *)
RECURSIVE Cut(_)
Cut(s) == IF s = <<>> THEN <<>>
          ELSE IF Len(s) <= PerPkt THEN <<s>>
          ELSE <<SubSeq(s, 1, PerPkt)>> \o Cut(SubSeq(s, PerPkt + 1, Len(s)))
Flush1 ==
    LET due == MustSend(M, snd, t1, ResendDelay(Rtt, 15, MinDelay))
        sq == SetToSortSeq(due, LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
        ps == Cut(sq)
        b  == Len(pkts)
    IN  /\ due # {} /\ b + Len(ps) <= MaxPkts
        /\ pkts' = pkts \o [i \in DOMAIN ps |-> [ps |-> ps[i], t |-> t1]]
        /\ pend' = pend \cup ((b + 1)..(b + Len(ps)))
        /\ net' = net \cup ((b + 1)..(b + Len(ps)))
        /\ snd' = Committed(M, snd, due, t1)
        /\ Op([op |-> "flush", e |-> 1])
        /\ UNCHANGED <<sent, ackd, mackd, lost, rcv, seen, last, ackp, reads, acks, hist, anet, dups, now, t1>>

(* The network hands packet n to end 2, which receives and reads at once.             *)
Deliver(n, keep) ==
    /\ n \in net /\ (keep => dups < MaxDup)
    /\ net' = IF keep THEN net ELSE net \ {n}
    /\ dups' = IF keep THEN dups + 1 ELSE dups
    /\ LET r1 == FoldLeft(LAMBDA r, p : RecvPart(M, NF[p[1]], r, p[1], p[2], now), Expire(M, rcv, now), pkts[n].ps)
       IN  /\ reads' = reads \o ReadAll(M, r1)
           /\ rcv' = AfterRead(M, r1)
    /\ seen' = seen \cup {n} /\ last' = Max2(last, n) /\ ackp' = TRUE
    /\ hist' = hist \cup {pkts[n].ps[i] : i \in DOMAIN pkts[n].ps}
    /\ IF LogOps THEN ops' = ops \o <<[op |-> "deliver", e |-> 1, i |-> Cardinality({x \in net : x < n}), keep |-> keep], [op |-> "recv", e |-> 2]>>
                 ELSE UNCHANGED ops
    /\ UNCHANGED <<sent, snd, pkts, pend, ackd, mackd, lost, acks, anet, now, t1>>
Drop(n) ==
    /\ n \in net
    /\ net' = net \ {n}
    /\ Op([op |-> "drop", e |-> 1, i |-> Cardinality({x \in net : x < n})])
    /\ UNCHANGED <<sent, snd, pkts, pend, ackd, mackd, lost, rcv, seen, last, ackp, reads, acks, hist, anet, dups, now, t1>>

Flush2 ==
    /\ ackp /\ Len(acks) < MaxAcks
    /\ acks' = Append(acks, AckSet(seen, last))
    /\ anet' = anet \cup {Len(acks) + 1}
    /\ ackp' = FALSE
    /\ Op([op |-> "flush", e |-> 2])
    /\ UNCHANGED <<sent, snd, pkts, pend, ackd, mackd, lost, rcv, seen, last, reads, hist, net, dups, now, t1>>
(* End 1 runs a receive pass with the packets in A (possibly none). *)
Recv1(A) ==
    /\ A \subseteq anet
    /\ A # {} \/ now > t1
    /\ LET na == (UNION {acks[a] : a \in A}) \cap pend
           nl == {n \in pend \ na : now - pkts[n].t > NackTimeout(Rtt)}
           flat(S) == FoldSet(LAMBDA n, s : s \o pkts[n].ps, <<>>, S)
           s1 == FoldLeft(LAMBDA s, p : NackPiece(M, NF[p[1]], s, p), snd, flat(nl))
           r  == FoldLeft(LAMBDA a, p : LET y == AckPiece(M, NF[p[1]], a[1], p)
                                        IN <<y[1], IF y[2] THEN Append(a[2], p[1]) ELSE a[2]>>, <<s1, mackd>>, flat(na))
       IN  /\ IF Watched(M) THEN snd' = r[1] /\ mackd' = r[2] ELSE UNCHANGED <<snd, mackd>>
           /\ ackd' = ackd \cup na /\ lost' = lost \cup nl /\ pend' = pend \ (na \cup nl)
    /\ anet' = anet \ A /\ t1' = now
    /\ IF LogOps THEN ops' = ops \o [i \in 1..Cardinality(A) |-> [op |-> "deliver", e |-> 2, i |-> Cardinality({x \in anet : \A y \in A : x < y}), keep |-> FALSE]]
                                 \o <<[op |-> "recv", e |-> 1]>>
                 ELSE UNCHANGED ops
    /\ UNCHANGED <<sent, pkts, rcv, seen, last, ackp, reads, acks, hist, net, dups, now>>
DropAck(a) ==
    /\ a \in anet
    /\ anet' = anet \ {a}
    /\ Op([op |-> "drop", e |-> 2, i |-> Cardinality({x \in anet : x < a})])
    /\ UNCHANGED <<sent, snd, pkts, pend, ackd, mackd, lost, rcv, seen, last, ackp, reads, acks, hist, net, dups, now, t1>>
Tick ==
    /\ now < MaxTime
    /\ now' = now + Step
    /\ Op([op |-> "tick"])
    /\ UNCHANGED <<sent, snd, pkts, pend, ackd, mackd, lost, rcv, seen, last, ackp, reads, acks, hist, net, anet, dups, t1>>

Next ==
    /\ Fin
    /\ \/ Send \/ Flush1 \/ Flush2 \/ Tick
       \/ \E n \in net : Deliver(n, FALSE) \/ Deliver(n, TRUE) \/ Drop(n)
       \/ \E a \in anet : DropAck(a) \/ Recv1({a})
       \/ Recv1({})
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
All(i) == Pieces(i, NF[i])
(* T01 / T03 *)
OnlySentWhole == \A i \in DOMAIN reads : reads[i] \in 1..sent /\ All(reads[i]) \subseteq hist
AtMostOnce    == M \in {"UR", "OR", "SR", "SU"} => NoDup(reads)
(* Nothing reliable is ever forgotten: what has not arrived is still held by the sender. *)
NothingLost   == Reliable(M) => (\A i \in 1..sent : \A p \in All(i) : p \in hist \/ p \in DOMAIN snd.ls)
ReadWhenComplete ==
    /\ (M = "UR") => (\A i \in 1..sent : (All(i) \subseteq hist) => (i \in Range(reads)))
    /\ (M = "OR") => (\A i \in 1..sent : (\A j \in 1..i : All(j) \subseteq hist) => (i \in Range(reads)))
    /\ (M = "SR") => ((sent > 0 /\ All(sent) \subseteq hist) => (sent \in Range(reads)))
(* T02 *)
InOrder ==
    /\ (M = "OR") => (reads = [i \in DOMAIN reads |-> i])
    /\ Sequenced(M) => (\A i \in 1..(Len(reads) - 1) : reads[i] < reads[i + 1])
(* T04 *)
AckTruth  == /\ ackd \subseteq seen
             /\ ackd \cap lost = {} /\ pend \cap (ackd \cup lost) = {}
             /\ ackd \cup lost \cup pend = DOMAIN pkts
MsgAcks   == Watched(M) => (\A k \in DOMAIN mackd : All(mackd[k]) \subseteq hist)
MsgAcksOnce == Reliable(M) => NoDup(mackd)
LossIsLate == \A n \in lost : t1 - pkts[n].t > NackTimeout(Rtt)
(* T05 *)
NoNeedlessResend == Reliable(M) => (\A i \in 1..sent : (i \in Range(mackd)) => \A p \in All(i) : p \notin DOMAIN snd.ls)
(* T09 *)
AckOwed == \A n \in seen : ackp \/ (last >= n /\ \E a \in DOMAIN acks : n \in acks[a]) \/ n < last - Window

(* Simulation: print the behaviour when it is over. *)
Emit == ~LogOps \/ Len(ops) < MaxOps \/ PrintT("@SCRIPT@" \o ToJson(ops))
=============================================================================
