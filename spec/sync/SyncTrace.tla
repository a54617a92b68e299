------------------------------- MODULE SyncTrace ------------------------------
(* Conformance of clock synchronization with SyncDefs (S01, S02, S03).                           *)
EXTENDS SyncDefs, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S
vars == <<l, S>>
Ev == Log[l]
G(ps, clause, cond) ==
    IF Prop \in ps THEN IF cond THEN TRUE ELSE PrintT("CLAUSE " \o Prop \o ": " \o clause) /\ FALSE
    ELSE TRUE
ToS(q) == {q[i] : i \in DOMAIN q}

\* ctx: the controller states that agree with what was seen (the margins are known to a unit or so)
Ctl0 == [c |-> <<>>, ctx |-> {Ctx0}, s |-> FALSE, v |-> ONE, vs |-> ONE, w |-> Wait0, end |-> <<>>]
\* one connection as seen by the ping protocol
Net0 == [watch |-> 0, next |-> 0, store |-> <<>>, newest |-> -1, n |-> 0, rtt |-> 0, jit |-> 0, lo |-> 0, hi |-> 0,
         last |-> <<>>, fresh |-> TRUE, s |-> FALSE, est |-> <<>>]
S0(E) == [kind |-> E.kind, E |-> E, ctl |-> Ctl0, net |-> Net0, prev |-> <<>>]
Init == l = 1 /\ S = S0([kind |-> "none"])
C == S.ctl

(*------------------------------------ the controller -----------------------------------------*)
SetCtl(x) == [S EXCEPT !.ctl = x]
CfgStep == [ok |-> TRUE, S |-> SetCtl([C EXCEPT !.c = <<[em |-> Ev.em, xm |-> Ev.xm, thr |-> Ev.thr, sf |-> Ev.sf, mult |-> Ev.mult, jm |-> Ev.jm, hs |-> Ev.hs]>>])]
\* the controller is reset by a conventional client that connects
ConnStep ==
    LET n == IF Ev.p2p THEN C ELSE [C EXCEPT !.ctx = {Ctx0}, !.s = FALSE, !.v = ONE]
    IN  [ok |-> G({"S02"}, "a new connection starts from a fresh controller", Ev.s = n.s /\ Near(Ev.v, n.v, 1)), S |-> SetCtl(n)]
DiscStep ==
    LET n == IF Ev.p2p THEN C ELSE [C EXCEPT !.s = FALSE]
    IN  [ok |-> G({"S02"}, "a disconnected client is not synchronized", Ev.s = n.s /\ Near(Ev.v, n.v, 1)), S |-> SetCtl(n)]
HostStep ==
    [ok |-> G({"S02"}, "a host client is synchronized at once", Ev.s /\ Near(Ev.v, C.v, 1)), S |-> SetCtl([C EXCEPT !.s = TRUE])]
ForceStep == [ok |-> TRUE, S |-> SetCtl([C EXCEPT !.s = Ev.s])]

WResetStep == [ok |-> G({"S03"}, "a reset wait does not wait", ~Ev.w), S |-> SetCtl([C EXCEPT !.w = Wait0])]
WStep ==
    LET r == WaitStep(C.w, Ev.cur, Ev.conf, Ev.max)
    IN  [ok |-> /\ G({"S03"}, "the clock waits exactly when it is too far ahead, until the lead has dropped by the hysteresis", Ev.w = r.w.waiting)
                /\ G({"S03"}, "a change of the wait decision is reported", Ev.ch = (r.w.waiting # C.w.waiting))
                /\ G({"S03"}, "the lead, the window and the newest confirmed tick are reported", Ev.d = r.depth /\ Ev.gotmax = Ev.max /\ Ev.gotconf = Ev.conf)
        , S |-> SetCtl([C EXCEPT !.w = r.w])]

\* what the controller may do for an error known to a few units: <<kind, next context>>
May(c, ctx, e) == UNION {{Control(c, x, y) : y \in {e - 3, e, e + 3}} : x \in ctx}
\* the speed after a step, known to a few ten-thousandths
SpeedOk(c, kind, e, v0, v1) ==
    CASE kind = "pace" -> Near(v1, Paced(c, e), 4 + (40 * (c.sf - ONE)) \div c.xm)
      [] kind = "relax" -> \/ Near(v1, Relax(v0), 2)
                           \/ Abs(Abs(v0 - ONE) - 10) <= 2 /\ Between(v1, v0, ONE, 0)
      [] OTHER -> FALSE
FrameStep ==
    LET c == C.c[1]
        L == Ev.links
        I == 1..Len(L)
        mode == Ev.mode.t
        reset == Ev.mc \/ Ev.cc
        s == Ev.s0 /\ (reset => mode = "p2p")
        v == IF reset THEN ONE ELSE Ev.v0
        ctx == IF reset THEN {Ctx0} ELSE C.ctx
        cand == {i \in I : L[i].p = 2}
        peers == IF cand # {} THEN cand ELSE IF mode = "p2p" THEN {m + 1 : m \in ToS(Ev.mode.m)} ELSE {}
        grp == cand # {} \/ mode = "p2p"
        able == {i \in I : L[i].c /\ ~L[i].h}
        live == {i \in peers : i \in able /\ L[i].i}
        heard == \E i \in live : L[i].r
        Lead(i) == Ev.now - L[i].est
        worst == CHOOSE x \in {Lead(i) : i \in live} : \A j \in live : Lead(j) <= x
        client == ~grp /\ mode = "client" /\ (Ev.mode.m[1] + 1) \in able /\ L[Ev.mode.m[1] + 1].r /\ c.hs = 0
        k == L[Ev.mode.m[1] + 1]
        goal == k.est + k.rtt \div 2 + k.jit * c.mult + c.jm + 1024 + c.em
        still == Ev.shifts = <<>>
        \* one whole-tick shift to the instant nearest to the target
        Jumped(g) == Len(Ev.shifts) = 1 /\ Abs(Ev.now + 1024 * Ev.shifts[1] - g) <= 516
        idle == [ok |-> /\ G({"S02"}, "a clock that cannot or need not be corrected is left alone", still /\ Ev.div = <<>> /\ Near(Ev.v1, v, 1))
                        /\ G({"S02"}, "and its state is kept", Ev.s1 = (s \/ (~grp /\ mode = "host"))),
                 ctx |-> ctx]
        first(g) == [ok |-> /\ G({"S02"}, "the first correction is one jump to the target", Jumped(g) /\ Ev.s1)
                            /\ G({"S02"}, "a first correction does not change the speed", Ev.div = <<>> /\ Near(Ev.v1, IF grp THEN ONE ELSE v, 1)),
                     ctx |-> ctx]
        steer(e, may) ==
            LET fit == {r \in may : CASE r.kind = "jump" -> IF grp THEN still /\ Len(Ev.div) = 1 /\ Near(Ev.v1, ONE, 1)
                                                            ELSE Jumped(goal) /\ Ev.div = <<>> /\ Near(Ev.v1, v, 1)
                                      [] OTHER -> still /\ Ev.div = <<>> /\ SpeedOk(c, r.kind, e, v, Ev.v1)}
            IN  [ok |-> /\ G({"S02"}, "the clock jumps only if the error exceeds the maximum; a clock shared by peers never does, its divergence is reported", (still /\ Ev.div = <<>>) = (Abs(e) <= c.xm) \/ Near(Abs(e), c.xm, 3))
                        /\ G({"S02"}, "the speed reduces a persistent error, within its bounds, and returns to normal otherwise", fit # {})
                        /\ G({"S02"}, "it stays synchronized", Ev.s1),
                 ctx |-> {r.x : r \in fit}]
        r == IF grp THEN
                 IF ~s THEN IF live = peers /\ heard /\ peers # {} THEN first(IF worst > 0 THEN Ev.now - worst ELSE Ev.now) ELSE idle
                 ELSE IF heard THEN steer(Most(worst, 0), May(c, ctx, worst) \cup May(c, ctx, 0)) ELSE idle
             ELSE IF client THEN IF ~s THEN first(goal) ELSE steer(Ev.now - goal, May(c, ctx, Ev.now - goal))
             ELSE idle
        pace == IF Ev.s1 /\ Ev.w /\ (mode = "client" \/ grp) THEN 0
                ELSE IF grp \/ (Ev.s1 /\ mode \in {"client", "host"}) THEN Ev.v1 ELSE ONE
        moved == Ev.now - Ev.from
    IN  [ok |-> /\ r.ok
                /\ G({"S02"}, "only the peer that limits the clock is named, with its lead",
                     \A i \in DOMAIN Ev.div : Ev.div[i][1] + 1 \in live /\ Near(Lead(Ev.div[i][1] + 1), worst, 2) /\ Near(Ev.div[i][2], worst, 3))
                /\ G({"S02"}, "the state between frames is kept", Ev.s0 = C.s /\ Near(Ev.v0, C.v, 1) /\ Near(Ev.vs0, C.vs, 1))
                /\ G({"S02", "S03"}, "the clock advances at its speed", C.end = <<>> \/ (Near(moved, (Ev.dt * Ev.vs0) \div ONE, 3) /\ Ev.from = C.end[1]))
                /\ G({"S02"}, "a jump moves the clock by whole ticks", Near(Ev.end - Ev.now, 1024 * FoldLeft(LAMBDA a, b : a + b, 0, Ev.shifts), 1))
                /\ G({"S02", "S03"}, "the clock stands still while it has to wait, otherwise runs at the speed chosen", Near(Ev.vs1, pace, 1))
                /\ G({"S03"}, "the wait decision in force is that of the last update", Ev.w = C.w.waiting)
        , S |-> SetCtl([C EXCEPT !.ctx = r.ctx, !.s = Ev.s1, !.v = Ev.v1, !.vs = Ev.vs1, !.end = <<Ev.end>>])]

(*------------------------------------ the input delay -----------------------------------------*)
DelayStep ==
    LET d == [min |-> Ev.min, mb |-> Ev.mb, mp |-> Ev.mp]
        present(i) == Ev.has[i + 1]
        cand == {i \in 0..3 : Ev.p[i + 1] = 2}
        grp == IF cand # {} THEN cand ELSE IF Ev.t \in {"client", "host", "p2p"} THEN ToS(Ev.m) ELSE {}
        Total(i) == Ev.stats[i + 1][1] + Ev.stats[i + 1][2] * Ev.mult + Ev.jm
        \* the latency rounded up to ticks; for long ones the rounding of the quotient shows
        Q(i) == LET t == Total(i)
                    u == IF t < 4194304 THEN 1 ELSE 1 + t \div 4194304
                IN  {Sat((y + 1023) \div 1024) : y \in {t - u, t, t + u}}
        all == \A i \in grp : present(i)
        Worst(f) == CHOOSE x \in ToS(f) : \A y \in ToS(f) : y <= x
        D(i) == {Delay(d, q) : q \in Q(i)}
        lo == [i \in grp |-> CHOOSE x \in D(i) : \A y \in D(i) : x <= y]
        hi == [i \in grp |-> CHOOSE x \in D(i) : \A y \in D(i) : y <= x]
        mx(f) == CHOOSE x \in {f[i] : i \in grp} : \A i \in grp : f[i] <= x
        known == grp # {} /\ all
    IN  [ok |-> IF known
                THEN /\ G({"S03"}, "the delay is at least the configured minimum", Ev.got >= Ev.min)
                     /\ G({"S03"}, "the delay covers, with the prediction allowed, the latency of the worst link", Ev.got >= mx(lo))
                     /\ G({"S03"}, "the delay is no longer than the latency calls for", Ev.got <= mx(hi))
                ELSE G({"S03"}, "without a measured link the delay is the configured minimum, later unchanged",
                       Ev.got = IF Ev.how = "cfg" THEN Ev.min ELSE Ev.before)
        , S |-> S]

(*------------------------------------ the ping protocol ---------------------------------------*)
N == S.net
E0 == S.E
UpStep ==
    [ok |-> /\ G({"S01"}, "a new connection starts without measurements", Ev.rtt = 0 /\ Ev.jit = 0 /\ Ev.n = 0)
            /\ G({"S02"}, "a new connection is not synchronized", ~Ev.init /\ ~Ev.s)
    , S |-> [S EXCEPT !.net = Net0]]
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
NetStep ==
    LET \* answers of the peer: taken one after the other, each for a ping that is out, newer than the last
        T(a, p) == IF p[1] \notin DOMAIN a.store THEN a
                   ELSE LET d == Ev.t - a.store[p[1]]
                            m == Most(0, d - p[2] * 64)
                        IN  [store |-> Without(a.store, p[1]),
                             newest |-> Most(a.newest, p[1]),
                             new |-> IF p[1] > a.newest THEN Append(a.new, m) ELSE a.new]
        a == FoldLeft(T, [store |-> N.store, newest |-> N.newest, new |-> <<>>], Ev.pongs)
        n == N.n + Len(a.new)
        lo == FoldLeft(Least, IF N.n = 0 /\ a.new # <<>> THEN a.new[1] ELSE N.lo, a.new)
        hi == FoldLeft(Most, IF N.n = 0 /\ a.new # <<>> THEN a.new[1] ELSE N.hi, a.new)
        x == a.new[1]
        err == Abs(x - N.rtt)
        gap == Least(x - N.rtt, Most(N.rtt \div 5, 900))
        \* pings and answers that went out
        due == N.watch + Ev.dt >= E0.iv
        sent == Ev.t + Ev.proc
        store == IF due THEN [k \in {y \in DOMAIN a.store : y > N.next - 128} \cup {N.next} |-> IF k = N.next THEN sent ELSE a.store[k]] ELSE a.store
        ids == [i \in DOMAIN Ev.outq |-> Ev.outq[i][1]]
        \* the estimate of the remote clock: corrected by packets once there are measurements
        U(b, t) == IF N.n < 3 \/ (b.last # <<>> /\ t < b.last[1]) THEN b ELSE [last |-> <<t>>, goals |-> b.goals \cup {t * 1024 + N.rtt \div 32}]
        b == FoldLeft(U, [last |-> N.last, goals |-> {}], Ev.ticks)
        was == Ev.est[1] + Ev.dt \div 16
        is == Ev.est[2]
        g == CHOOSE y \in b.goals : TRUE
        hear == b.goals # {} /\ n >= E0.hs
    IN  [ok |-> /\ G({"S01"}, "a ping goes out when the interval is over, with the next number", Ev.outp = IF due THEN <<N.next>> ELSE <<>>)
                /\ G({"S01"}, "every ping is answered once", Len(ids) = Len(Ev.pings) /\ \A i \in DOMAIN ids : Count(ids, ids[i]) = Count(Ev.pings, ids[i]))
                /\ G({"S01"}, "an answer tells how long the ping waited here", \A i \in DOMAIN Ev.outq : Between(Ev.outq[i][2], Ev.proc \div 64, Ev.proc \div 64, 1))
                /\ G({"S01"}, "each answer to a ping that is out and newer than the last counts, no other", Ev.n = n)
                /\ G({"S01"}, "without a new answer the estimate stays", a.new = <<>> => (Ev.rtt = N.rtt /\ Ev.jit = N.jit))
                /\ G({"S01"}, "the first sample is the elapsed time less the peer's own", (N.n = 0 /\ Len(a.new) = 1) => (Near(Ev.rtt, x, 3) /\ Ev.jit <= Ev.rtt + 1))
                /\ G({"S01"}, "a further sample moves the estimate toward it, not past it",
                     (N.n > 0 /\ Len(a.new) = 1) => (Between(Ev.rtt, N.rtt, x, 3) /\ (x >= N.rtt => Ev.rtt >= N.rtt + gap \div 50 - 3) /\ (x < N.rtt => Ev.rtt <= N.rtt - (N.rtt - x) \div 50 + 3)))
                /\ G({"S01"}, "the estimate lies within the samples", Len(a.new) > 0 => Between(Ev.rtt, lo, hi, 3))
                /\ G({"S01"}, "the jitter follows the deviation of the samples", (N.n > 0 /\ Len(a.new) = 1) => Between(Ev.jit, N.jit, err, 3) \/ Ev.jit <= Most(N.jit, err) + 3)
                /\ G({"S01"}, "the link reports the same", Ev.lr = Ev.rtt /\ Ev.lj = Ev.jit)
                /\ G({"S02"}, "the remote clock is not estimated before there are measurements", Ev.init = (b.last # <<>>))
                /\ G({"S02"}, "between packets the estimate of the remote clock runs with the time", b.goals = {} => Near(is, was, 3))
                /\ G({"S02"}, "the first estimate is the packet's tick and half a round trip", (Cardinality(b.goals) = 1 /\ N.fresh) => (Near(is, g, 3) \/ Len(Ev.ticks) > 1))
                /\ G({"S02"}, "a later packet moves the estimate toward it, not past it",
                     (Cardinality(b.goals) >= 1 /\ ~N.fresh) => (is >= Least(was, Min(b.goals)) - 3 /\ is <= Most(was, Max(b.goals)) + 3
                        /\ ((Cardinality(b.goals) = 1 /\ Abs(g - was) > 600) => Abs(g - is) < Abs(g - was))))
                /\ G({"S02"}, "the estimate is kept until the next frame", Near(Ev.eend, is, 1) /\ (N.est = <<>> \/ Near(Ev.est[1], N.est[1], 1)))
                /\ G({"S02"}, "the clock is synchronized with the first packet after the measurements asked for, not before", Ev.s = (N.s \/ hear))
                /\ G({"S02"}, "it jumps then, once, and not before", CASE ~N.s /\ hear -> Ev.shifts = 1 [] ~N.s /\ ~hear -> Ev.shifts = 0 [] OTHER -> Ev.shifts <= 1 /\ (Ev.shifts = 1 => hear))
        , S |-> [S EXCEPT !.net = [watch |-> IF due THEN 0 ELSE N.watch + Ev.dt, next |-> IF due THEN N.next + 1 ELSE N.next, store |-> store, newest |-> a.newest,
                                   n |-> n, rtt |-> Ev.rtt, jit |-> Ev.jit, lo |-> lo, hi |-> hi, last |-> b.last, fresh |-> N.fresh /\ b.goals = {}, s |-> Ev.s, est |-> <<Ev.eend>>]]]

(*------------------------------------ a steady network ----------------------------------------*)
SteadyStep ==
    LET ideal == Ev.rtt \div 2 + 4 * Ev.jit + E0.jm + 1024 + E0.em - 1024 * Ev.delay
        fr == E0.dc + E0.dd
        c == [em |-> E0.em, xm |-> E0.xm, thr |-> 3, sf |-> E0.sf]
    IN  [ok |-> /\ G({"S02"}, "the speed keeps its bounds", Between(Ev.v, (ONE * ONE) \div Factor(c, c.xm), Factor(c, c.xm), 1))
                /\ Ev.settled =>
                   /\ G({"S02"}, "under a steady network the clock is synchronized and does not jump", Ev.s /\ Ev.s0 /\ Ev.shifts = <<>>)
                   /\ G({"S02"}, "it stays within the error margin of its target", Abs(Ev.lead - ideal) <= E0.em + fr)
                   /\ G({"S02"}, "and close to normal speed", Near(Ev.v, ONE, (2 * (c.sf - ONE) * 2 * c.em) \div c.xm + 10))
                   /\ G({"S02"}, "what it sends arrives before its time", \A i \in DOMAIN Ev.slack : Ev.slack[i] + Ev.delay >= 1)
                   /\ G({"S01"}, "the estimate of a steady round trip is right up to the length of the frames", Between(Ev.rtt, 2 * E0.lat, 2 * E0.lat + fr, 8) /\ Ev.jit <= fr)
        , S |-> S]

Do(r) == r.ok /\ S' = TLCEval(r.S)
Next ==
    /\ l <= Len(Log)
    /\ l' = l + 1
    /\ CASE Ev.k = "reset" -> S' = IF "kind" \in DOMAIN Ev THEN S0(Ev) ELSE S
         [] Ev.k = "cfg" -> \E r \in {CfgStep} : Do(r)
         [] Ev.k = "conn" -> \E r \in {ConnStep} : Do(r)
         [] Ev.k = "disc" -> \E r \in {DiscStep} : Do(r)
         [] Ev.k = "host" -> \E r \in {HostStep} : Do(r)
         [] Ev.k = "force" -> \E r \in {ForceStep} : Do(r)
         [] Ev.k = "wreset" -> \E r \in {WResetStep} : Do(r)
         [] Ev.k = "wait" -> \E r \in {WStep} : Do(r)
         [] Ev.k = "frame" -> \E r \in {FrameStep} : Do(r)
         [] Ev.k = "delay" -> \E r \in {DelayStep} : Do(r)
         [] Ev.k = "up" -> \E r \in {UpStep} : Do(r)
         [] Ev.k = "net" -> \E r \in {NetStep} : Do(r)
         [] Ev.k = "steady" -> \E r \in {SteadyStep} : Do(r)
         [] OTHER -> PrintT("CLAUSE " \o Prop \o ": no panic (" \o ToString(Ev.k) \o ")") /\ FALSE
Spec == Init /\ [][Next]_vars
View == l
Accepted == LET n == TLCGet("stats").diameter IN IF n > Len(Log) THEN TRUE ELSE PrintT(<<"REJECTED", n>>) /\ FALSE
===============================================================================
