------------------------------ MODULE P2PTrace ------------------------------
(* Conformance of peer-to-peer sessions with P2PDefs (P01, P02).                                 *)
EXTENDS P2PDefs, Json, IOUtils

CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S
vars == <<l, S>>
Ev == Log[l]
G(ps, clause, cond) ==
    IF Prop \in ps THEN IF cond THEN TRUE ELSE PrintT("CLAUSE " \o Prop \o ": " \o clause) /\ FALSE
    ELSE TRUE

\* sent: {<<link, sender, message>>} of the links' present connections; names: roster hash -> members
S0(E) == [ss |-> [p \in 1..E.n |-> Stopped0], L |-> [p \in 1..E.n |-> <<>>], delay |-> E.delay, timeout |-> E.timeout,
          sent |-> {}, names |-> <<>>, went |-> {}]
Init == l = 1 /\ S = S0([n |-> 0, delay |-> <<>>, timeout |-> <<>>])

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Members(h) == IF h \in DOMAIN S.names THEN S.names[h] ELSE {"?"}
Msg(r) == [kind |-> r.kind, gen |-> r.gen, ids |-> Members(r.hash), tick |-> r.tick]

\* what is visible of a session and its links
ModesOf(L) == {<<k, L[k].mode>> : k \in DOMAIN L}
Seen(s, L) ==
    /\ G({"P01", "P02"}, "the session is in the expected state", Ev.st = s.st)
    /\ G({"P01"}, "the start tick is the latest one that the members proposed", Ev.start = s.start)
    /\ G({"P02"}, "links are inactive, candidates or members as the session requires", {<<m[1], m[2]>> : m \in ToSet(Ev.modes)} = ModesOf(L))

\* The environment changes a link: declared, removed, renamed, connected, disconnected
LinkStep ==
    [ok |-> TRUE,
     S |-> [S EXCEPT !.L[Ev.a] = IF Ev.gone THEN Without(@, Ev.id)
                                 ELSE With(@, Ev.id, [mode |-> Ev.mode, id |-> Ev.rid, me |-> Ev.me, conn |-> Ev.conn]),
                     !.sent = IF Ev.cut THEN {x \in @ : x[1] # Ev.id} ELSE @]]
StartStep ==
    LET r == Begin(S.ss[Ev.a], S.L[Ev.a], Ev.now)
        new == r.s.st = "starting" /\ S.ss[Ev.a].st = "stopped"
    IN  [ok |-> /\ Seen(r.s, r.L)
                /\ G({"P01"}, "the same members have the same roster hash, others another",
                     new => \A h \in DOMAIN S.names : (S.names[h] = r.s.ids) = (h = Ev.hash))
        , S |-> [S EXCEPT !.ss[Ev.a] = r.s, !.L[Ev.a] = r.L, !.names = IF new THEN With(@, Ev.hash, r.s.ids) ELSE @]]
StopStep ==
    LET r == Leave(S.ss[Ev.a], S.L[Ev.a])
    IN  [ok |-> /\ Seen(r.s, r.L)
                /\ G({"P02"}, "stopping a session that was on is reported once", Ev.told = r.told)
                /\ G({"P02"}, "links are taken down if that was asked for, and only then", ToSet(Ev.down) = IF Ev.unlink THEN DOMAIN r.L \ {k \in DOMAIN r.L : r.L[k].mode = "none"} ELSE {})
        , S |-> [S EXCEPT !.ss[Ev.a] = r.s, !.L[Ev.a] = r.L]]
\* A message written by hand on a link
InjectStep == [ok |-> TRUE, S |-> [S EXCEPT !.sent = @ \cup {<<Ev.id, Ev.a, Msg(Ev.m)>>}]]

FrameStep ==
    LET a == Ev.a
        msgs == [i \in DOMAIN Ev.recv |-> <<Ev.recv[i].id, Msg(Ev.recv[i])>>]
        d == Drive(S.ss[a], S.L[a], msgs, Ev.tick, Ev.synced, Ev.now, S.delay[a], S.timeout[a])
        T(x, i) == LET g == Go(x.s, x.L, Ev.tick + i - 1)
                   IN  [s |-> g.s, L |-> g.L, go |-> IF g.go THEN Append(x.go, Ev.tick + i - 1) ELSE x.go]
        z == FoldLeft(T, [s |-> d.s, L |-> d.L, go |-> <<>>], [i \in 1..Ev.n |-> i])
        sends == {<<k, a, m>> : k \in {x \in DOMAIN d.L : d.L[x].mode = "candidate"}, m \in d.out}
        first == IF z.go = <<>> THEN {} ELSE {<<a, d.s.gen, d.s.start, d.s.ids>>}
    IN  [ok |-> /\ G({"P01", "P02"}, "only what a peer said in this connection is heard from it",
                     \A i \in DOMAIN Ev.recv : \E x \in S.sent : x[1] = Ev.recv[i].id /\ x[2] = Ev.recv[i].from /\ x[3] = msgs[i][2])
                /\ G({"P01"}, "a session starts exactly before the step to the agreed tick, once",
                     [i \in DOMAIN Ev.starts |-> <<Ev.starts[i].start, Ev.starts[i].tick>>] = [i \in DOMAIN z.go |-> <<z.go[i] + 1, z.go[i]>>])
                /\ G({"P01"}, "the member list reported at the start is that of the session",
                     \A i \in DOMAIN Ev.starts : ToSet(Ev.starts[i].members) = {k \in DOMAIN d.L : d.L[k].mode = "candidate"})
                /\ G({"P01"}, "peers of the same attempt start together",
                     \A x \in first, y \in S.went : (x[2] = y[2] /\ S.ss[a].me \in y[4] /\ S.ss[y[1]].me \in x[4] /\ x[1] # y[1]) => (x[3] = y[3] /\ x[4] = y[4]))
                /\ G({"P02"}, "a session that was not told to stop reports no stop", Ev.told = 0)
                /\ Seen(z.s, z.L)
        , S |-> [S EXCEPT !.ss[a] = z.s, !.L[a] = z.L, !.sent = @ \cup sends, !.went = @ \cup first]]
\* after a long calm no attempt is pending
EndStep ==
    [ok |-> G({"P01"}, "no attempt is pending once its time is over", \A p \in DOMAIN S.ss : S.ss[p].st # "starting")
    , S |-> S]

Do(r) == r.ok /\ S' = TLCEval(r.S)
Step(k, r) == Ev.k = k /\ \E x \in {r} : Do(x)
Next ==
    /\ l <= Len(Log)
    /\ l' = l + 1
    /\ CASE Ev.k = "reset" -> S' = IF "n" \in DOMAIN Ev THEN S0(Ev) ELSE S
         [] Ev.k = "link" -> \E r \in {LinkStep} : Do(r)
         [] Ev.k = "start" -> \E r \in {StartStep} : Do(r)
         [] Ev.k = "stop" -> \E r \in {StopStep} : Do(r)
         [] Ev.k = "inject" -> \E r \in {InjectStep} : Do(r)
         [] Ev.k = "frame" -> \E r \in {FrameStep} : Do(r)
         [] Ev.k = "end" -> \E r \in {EndStep} : Do(r)
         [] OTHER -> PrintT("CLAUSE " \o Prop \o ": no panic (" \o ToString(Ev.k) \o ")") /\ FALSE
Spec == Init /\ [][Next]_vars
View == l
Accepted == LET n == TLCGet("stats").diameter IN IF n > Len(Log) THEN TRUE ELSE PrintT(<<"REJECTED", n>>) /\ FALSE
===============================================================================
