--------------------------- MODULE TransportTrace ---------------------------
(* Conformance: accepts a recorded execution of two transports joined by a network  *)
(* iff it is a behaviour allowed by the properties T01..T09. `Prop` selects whose   *)
(* clauses bite; the state is followed in any case.                                 *)
EXTENDS TransportCore, Json, IOUtils

CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, S, chs, cap, sess, drain
vars == <<l, S, chs, cap, sess, drain>>

NCH == 6
Ends == {1, 2}
Peer(e) == 3 - e
Ev == Log[l]
G(p, clause, cond) ==
    IF Prop = p \/ (Prop = "T08" /\ sess > 1)
    THEN IF cond THEN TRUE ELSE PrintT("CLAUSE " \o p \o ": " \o clause) /\ FALSE
    ELSE TRUE

NewEnd(t) == [t |-> t, rtt |-> 0, pkts |-> <<>>, pend |-> {}, recvd |-> {}, last |-> -1000000, seen |-> {},
    ackp |-> FALSE, msgs |-> [c \in 1..NCH |-> <<>>], snd |-> [c \in 1..NCH |-> NewSend],
    rcv |-> [c \in 1..NCH |-> NewRecv], lastRead |-> [c \in 1..NCH |-> 0],
    nread |-> [c \in 1..NCH |-> 0], bytes |-> 0]

NoChs == [c \in 1..NCH |-> [mode |-> "UU", freq |-> 0, prio |-> 1, retry |-> TRUE, mind |-> 0, factor |-> 15]]
Init == l = 1 /\ S = [e \in Ends |-> NewEnd(0)] /\ chs = NoChs /\ cap = FALSE /\ sess = 1 /\ drain = FALSE

M(c) == chs[c].mode

Reset ==
    /\ Ev.k = "reset"
    /\ chs' = Ev.chs /\ cap' = Ev.cap /\ sess' = 1 /\ drain' = FALSE
    /\ S' = [e \in Ends |-> NewEnd(Ev.t)]

Reconnect ==
    /\ Ev.k = "reconnect"
    /\ sess' = sess + 1
    /\ S' = [e \in Ends |-> [NewEnd(S[e].t) EXCEPT !.rtt = S[e].rtt]]
    /\ UNCHANGED <<chs, cap, drain>>

Send ==
    /\ Ev.k = "send"
    /\ LET e == Ev.e  c == Ev.ch IN
       S' = [S EXCEPT ![e].msgs[c] = Append(@, [nf |-> Ev.nf, len |-> Ev.len, prio |-> Ev.prio]),
                      ![e].snd[c] = Enqueue(M(c), @, Ev.idx, Ev.nf)]
    /\ UNCHANGED <<chs, cap, sess, drain>>

-----------------------------------------------------------------------------
NF(e, c, i) == S[e].msgs[c][i].nf
Known(e, p) == p[1] \in 1..NCH /\ p[2] \in 1..Len(S[e].msgs[p[1]]) /\ p[3] \in 1..NF(e, p[1], p[2])

(* Fold over the packets received in one pass. acc = [x: endpoint, acked: packets]  *)
RecvPacket(e, acc, n, t) ==
    LET pk == S[Peer(e)].pkts[n]
        x  == acc.x
        nw == pk.acks \cap x.pend
        known == SelectSeq(pk.ps, LAMBDA p : Known(Peer(e), p))
        rcv1 == FoldLeft(LAMBDA r, p : TLCEval([r EXCEPT ![p[1]] = RecvPart(M(p[1]), NF(Peer(e), p[1], p[2]), @, p[2], p[3], t)]),
                         x.rcv, known)
    IN  TLCEval([x |-> [x EXCEPT !.pend = @ \ nw,
                         !.recvd = @ \cup {n}, !.last = Max2(@, n), !.seen = @ \cup {n},
                         !.ackp = @ \/ ~pk.ao, !.rcv = rcv1],
         acked |-> acc.acked \cup nw])

TickTimer(c, s, dt) ==
    IF chs[c].freq = 0 THEN [s EXCEPT !.ready = TRUE]
    ELSE LET a == s.el + dt IN [s EXCEPT !.el = a % chs[c].freq, !.ready = a >= chs[c].freq]

ReadsOf(c) == LET f == SelectSeq(Ev.reads, LAMBDA r : r[1] = c) IN [i \in DOMAIN f |-> f[i][2]]

RecvStep ==
    LET e == Ev.e
           t == Ev.t
           pe == Peer(e)
           x0 == TLCEval([S[e] EXCEPT !.t = t, !.rtt = Ev.rtt,
                    !.snd = [c \in 1..NCH |-> TickTimer(c, @[c], Ev.dt)],
                    !.rcv = [c \in 1..NCH |-> Expire(M(c), @[c], t)]])
           f  == FoldLeft(LAMBDA a, n : RecvPacket(e, a, n, t), [x |-> x0, acked |-> {}], Ev.got)
           x1 == f.x
           to == NackTimeout(Ev.rtt)
           lost == {Ev.lost[i] : i \in DOMAIN Ev.lost}
           lostMust == {n \in x1.pend : t - x1.pkts[n].t > to}
           lostMay  == {n \in x1.pend : t - x1.pkts[n].t >= to}
           lostOk == lost \cap x1.pend
           Wps(ns) == SelectSeq(FoldSet(LAMBDA n, a : a \o x1.pkts[n].ps, <<>>, ns),
                                LAMBDA p : Known(e, p) /\ Watched(M(p[1])))
           lostPs == Wps(lostOk)
           snd1 == FoldLeft(LAMBDA s, p : [s EXCEPT ![p[1]] = NackPiece(M(p[1]), NF(e, p[1], p[2]), @, <<p[2], p[3]>>)],
                            x1.snd, lostPs)
           r == FoldLeft(LAMBDA a, p : LET y == AckPiece(M(p[1]), NF(e, p[1], p[2]), a.s[p[1]], <<p[2], p[3]>>)
                                       IN [s |-> [a.s EXCEPT ![p[1]] = y[1]],
                                           m |-> IF y[2] THEN Append(a.m, <<p[1], p[2]>>) ELSE a.m],
                         [s |-> snd1, m |-> <<>>], Wps(f.acked))
           ackedObs == [i \in DOMAIN Ev.acked |-> Ev.acked[i][1]]
           macks == {<<Ev.macks[i][1], Ev.macks[i][2]>> : i \in DOMAIN Ev.macks}
           mnacks == {<<Ev.mnacks[i][1], Ev.mnacks[i][2]>> : i \in DOMAIN Ev.mnacks}
       IN [ok |->
       \* ---- T04
       /\ G("T04", "acknowledged packets are those the peer's headers acknowledge",
            NoDup(ackedObs) /\ {ackedObs[i] : i \in DOMAIN ackedObs} = f.acked)
       /\ G("T04", "the round-trip sample is the time since the packet was sent",
            \A i \in DOMAIN Ev.acked : Ev.acked[i][1] \in DOMAIN x1.pkts =>
                Ev.acked[i][2] = (t - x1.pkts[Ev.acked[i][1]].t) * 1000)
       /\ G("T04", "lost packets are those past the timeout",
            NoDup(Ev.lost) /\ lostMust \subseteq lost /\ lost \subseteq lostMay)
       /\ G("T04", "message acknowledgements",
            Len(Ev.macks) = Len(r.m) /\ macks = {r.m[i] : i \in DOMAIN r.m})
       /\ G("T04", "message losses", mnacks = {<<lostPs[i][1], lostPs[i][2]>> : i \in DOMAIN lostPs})
       \* ---- reads
       /\ G("T03", "everything read was sent on that channel, unchanged", \A i \in DOMAIN Ev.reads : Ev.reads[i][2] > 0)
       /\ G("T01", "nothing is read that was not sent", \A i \in DOMAIN Ev.reads : Ev.reads[i][2] > 0)
       /\ G("T03", "the tick is that of a packet that carried the message",
            \A i \in DOMAIN Ev.reads : \E n \in x1.seen :
                /\ S[pe].pkts[n].tick = Ev.reads[i][3]
                /\ \E j \in DOMAIN S[pe].pkts[n].ps :
                     S[pe].pkts[n].ps[j][1] = Ev.reads[i][1] /\ S[pe].pkts[n].ps[j][2] = Ev.reads[i][2])
       /\ \A c \in 1..NCH :
            LET rd == ReadsOf(c)
                ex == ReadAll(M(c), x1.rcv[c])
                lr == x1.lastRead[c]
            IN  /\ CASE M(c) \in {"UU", "UA"} ->
                          G("T03", "an unordered unreliable message is read once per complete delivery", SameBag(rd, ex))
                     [] M(c) = "UR" ->
                          G("T01", "an unordered reliable message is read once, when complete", SameBag(rd, ex))
                     [] M(c) = "OR" ->
                          /\ G("T01", "an ordered message is read once, when it and its predecessors are complete", SameBag(rd, ex))
                          /\ G("T02", "ordered messages are read in order without gaps", \A i \in DOMAIN rd : rd[i] = lr + i)
                     [] OTHER ->
                          /\ G("T02", "sequenced messages never go back",
                               \A i \in DOMAIN rd : rd[i] > lr /\ \A j \in 1..(i - 1) : rd[j] < rd[i])
                          /\ G("T01", "a sequenced message is read at most once", M(c) = "SU" \/ (\A i \in DOMAIN rd : rd[i] # lr /\ NoDup(rd)))
                          /\ G("T03", "a sequenced message is read only if all of it was received",
                               \A i \in DOMAIN rd : rd[i] \in x1.rcv[c].done)
       , S |-> TLCEval([S EXCEPT ![e] = [x1 EXCEPT !.pend = @ \ lostOk, !.snd = r.s,
                    !.rcv = [c \in 1..NCH |-> AfterRead(M(c), @[c])],
                    !.lastRead = [c \in 1..NCH |-> FoldLeft(Max2, @[c], ReadsOf(c))],
                    !.nread = [c \in 1..NCH |-> @[c] + Len(ReadsOf(c))]]])]

Recv == /\ Ev.k = "recv"
        /\ \E r \in {RecvStep} : r.ok /\ S' = r.S
        /\ UNCHANGED <<chs, cap, sess, drain>>

-----------------------------------------------------------------------------
EffPrio(e, c, i) ==
    chs[c].prio * (IF Reliable(M(c)) THEN S[e].snd[c].acc[i] + S[e].msgs[c][i].prio ELSE S[e].msgs[c][i].prio)

FlushStep ==
    LET e == Ev.e
           x == S[e]
           t == x.t
           pk == Ev.pk
           allps == FlattenSeq([i \in DOMAIN pk |-> pk[i].ps])
           known == SelectSeq(allps, LAMBDA p : Known(e, p))
           Rdy(c) == chs[c].freq = 0 \/ x.snd[c].ready
           Delay(c) == ResendDelay(x.rtt, chs[c].factor, chs[c].mind)
           must == TLCEval([c \in 1..NCH |-> IF Rdy(c) THEN MustSend(M(c), x.snd[c], t, Delay(c)) ELSE {}])
           may  == TLCEval([c \in 1..NCH |-> IF Rdy(c) THEN MaySend(M(c), x.snd[c], t, Delay(c)) ELSE {}])
           sent == TLCEval([c \in 1..NCH |-> {<<known[i][2], known[i][3]>> : i \in {j \in DOMAIN known : known[j][1] = c}}])
           data == SelectSeq(pk, LAMBDA q : ~q.ao)
           tot == FoldLeft(LAMBDA a, q : a + q.len, 0, data)
           left == TLCEval([c \in 1..NCH |-> must[c] \ sent[c]])
           limited == \E c \in 1..NCH : left[c] # {}
           acks == TLCEval(AckSet(x.recvd, x.last))
           base == Len(x.pkts)
           snd1 == [c \in 1..NCH |->
                LET s0 == IF Reliable(M(c)) /\ Rdy(c)
                          THEN [x.snd[c] EXCEPT !.acc = [i \in DOMAIN @ |-> @[i] + x.msgs[c][i].prio]] ELSE x.snd[c]
                    s1 == Committed(M(c), s0, sent[c], t)
                IN  IF limited /\ Rdy(c) /\ ~Reliable(M(c)) /\ ~chs[c].retry
                    THEN [s1 EXCEPT !.q = {p \in @ : x.msgs[c][p[1]].nf > 1 /\ p[1] \in s1.started}]
                    ELSE s1]
       IN [ok |->
       /\ G("T03", "packets carry only pieces of messages that were sent", Len(known) = Len(allps))
       /\ G("T05", "reliable pieces are sent only when new or due, once per flush",
            \A c \in 1..NCH : Reliable(M(c)) => sent[c] \subseteq may[c])
       /\ G("T05", "a channel sends only when its send interval allows", \A c \in 1..NCH : Rdy(c) \/ sent[c] = {})
       /\ G("T05", "a piece goes at most once in a flush", NoDup(known))
       /\ G("T05", "unlimited: everything new or due is sent",
            cap \/ \A c \in 1..NCH : Reliable(M(c)) => left[c] = {})
       /\ G("T05", "unlimited: everything buffered is sent",
            cap \/ \A c \in 1..NCH : left[c] = {})
       /\ G("T07", "packets fit the link", \A i \in DOMAIN pk : pk[i].len <= Ev.mtu)
       /\ G("T07", "unlimited: everything buffered leaves in this flush",
            cap \/ \A c \in 1..NCH : {p \in left[c] : ~Reliable(M(c)) \/ x.snd[c].ls[p] = -1} = {})
       /\ G("T03", "unreliable messages are not sent again", \A c \in 1..NCH : ~Reliable(M(c)) => sent[c] \subseteq may[c])
       /\ G("T06", "unreliable messages are not sent after being given up", \A c \in 1..NCH : sent[c] \subseteq may[c])
       /\ G("T06", "application bytes stay within burst plus rate", cap => x.bytes + tot <= Ev.lim)
       /\ G("T06", "nothing less important is sent while something more important is left behind",
            (cap /\ limited) =>
              \A c \in 1..NCH, d \in 1..NCH : \A p \in left[c], q \in sent[d] :
                 EffPrio(e, c, p[1]) <= EffPrio(e, d, q[1]))
       /\ G("T06", "unlimited: nothing is held back", cap \/ ~limited)
       /\ G("T09", "received data is acknowledged in the next flush", x.ackp => Len(pk) > 0)
       /\ G("T09", "acknowledgement-only packets carry nothing and come alone",
            \A i \in DOMAIN pk : pk[i].ao <=> Len(pk[i].ps) = 0)
       /\ G("T09", "no packet without data to send or to acknowledge",
            /\ \A i \in DOMAIN pk : pk[i].ao => Len(pk) = 1 /\ x.ackp
            /\ (\A c \in 1..NCH : may[c] = {}) => Len(data) = 0)
       /\ G("T03", "packets carry the tick of the flush", \A i \in DOMAIN pk : pk[i].tick = Ev.tick)
       , S |-> TLCEval([S EXCEPT ![e] = [x EXCEPT
                  !.pkts = @ \o [i \in DOMAIN pk |-> [t |-> t, ao |-> pk[i].ao, ps |-> pk[i].ps, acks |-> acks, tick |-> pk[i].tick]],
                  !.pend = @ \cup {base + i : i \in {j \in DOMAIN pk : ~pk[j].ao}},
                  !.ackp = IF Len(pk) > 0 THEN FALSE ELSE @,
                  !.snd = snd1, !.bytes = @ + tot]])]

Flush == /\ Ev.k = "flush"
         /\ \E r \in {FlushStep} : r.ok /\ S' = r.S
         /\ UNCHANGED <<chs, cap, sess, drain>>

Drain == Ev.k = "drain" /\ drain' = TRUE /\ UNCHANGED <<S, chs, cap, sess>>

End ==
    /\ Ev.k = "end"
    /\ Ev.full =>
        \A e \in Ends :
          /\ \A c \in 1..NCH :
               /\ G("T01", "every reliable message got there",
                    M(c) \in {"UR", "OR"} => S[Peer(e)].nread[c] = Len(S[e].msgs[c]))
               /\ G("T01", "the last message of a reliable sequenced channel got there",
                    M(c) = "SR" => S[Peer(e)].lastRead[c] = Len(S[e].msgs[c]))
               /\ G("T06", "what was held back is sent later",
                    /\ Reliable(M(c)) => S[e].snd[c].ls = <<>>
                    /\ S[e].snd[c].q = {})
          /\ G("T04", "every packet with data got its verdict", S[e].pend = {})
          /\ G("T09", "nothing is left to acknowledge", ~S[e].ackp)
    /\ UNCHANGED <<S, chs, cap, sess, drain>>

Next == l <= Len(Log) /\ l' = l + 1 /\ (Reset \/ Reconnect \/ Send \/ Recv \/ Flush \/ Drain \/ End)
View == l
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log) \/ (PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
