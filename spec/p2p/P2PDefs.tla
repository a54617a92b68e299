------------------------------- MODULE P2PDefs -------------------------------
(* Starting and stopping a peer-to-peer session at one peer (P01, P02), as a function of what    *)
(* the peer is told: start, stop, control messages, its links, its tick and its clock.           *)
(* Shared by the exhaustive model MCP2P and the trace specification P2PTrace.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

NoTick == -1
NoId == ""

\* session of one peer. rem: the members it waits for -> what each has said in this attempt
Stopped0 == [st |-> "stopped", gen |-> 0, start |-> NoTick, t0 |-> 0, ready |-> NoTick,
             rsent |-> FALSE, asent |-> FALSE, ids |-> {}, me |-> NoId, rem |-> <<>>, odd |-> FALSE]
Halt(s) == [s EXCEPT !.st = "stopped", !.start = NoTick, !.ready = NoTick, !.rsent = FALSE,
                     !.asent = FALSE, !.ids = {}, !.rem = <<>>, !.odd = FALSE]

\* links: id -> [mode |-> "none" | "inactive" | "candidate" | "joined", id |-> remote peer, me |-> local peer, conn]
Cands(L) == {k \in DOMAIN L : L[k].mode = "candidate"}
ToMode(L, from, to) == [k \in DOMAIN L |-> IF L[k].mode = from THEN [L[k] EXCEPT !.mode = to] ELSE L[k]]

-------------------------------------------------------------------------------
\* The application asks for a session with every link that is declared and inactive
CanBegin(s, L) ==
    LET C == {k \in DOMAIN L : L[k].mode = "inactive"}
    IN  /\ s.st = "stopped"
        /\ C # {}
        /\ \A k \in C : L[k].me # NoId /\ L[k].id # NoId /\ L[k].id # L[k].me
        /\ Cardinality({L[k].me : k \in C}) = 1
        /\ Cardinality({L[k].id : k \in C}) = Cardinality(C)
Begin(s, L, now) ==
    LET C == {k \in DOMAIN L : L[k].mode = "inactive"}
        R == {L[k].id : k \in C}
        m == (CHOOSE k \in C : TRUE)
    IN  IF ~CanBegin(s, L) THEN [s |-> s, L |-> L]
        ELSE [s |-> [Stopped0 EXCEPT !.st = "starting", !.gen = s.gen + 1, !.t0 = now, !.me = L[m].me,
                        !.ids = R \cup {L[m].me}, !.rem = [p \in R |-> [ready |-> NoTick, ack |-> NoTick]]],
              L |-> ToMode(L, "inactive", "candidate")]

\* The application leaves the session
Leave(s, L) ==
    [s |-> IF s.st = "stopped" THEN s ELSE Halt(s), L |-> ToMode(ToMode(L, "candidate", "inactive"), "joined", "inactive"),
     told |-> IF s.st = "stopped" THEN 0 ELSE 1]

-------------------------------------------------------------------------------
\* A control message m of member p: [kind, gen, ids (of the sender's roster), tick]
Hear(s, p, m) ==
    IF m.gen # s.gen \/ p \notin DOMAIN s.rem THEN s
    ELSE IF m.ids # s.ids THEN [s EXCEPT !.odd = TRUE]
    ELSE IF m.kind = "ready"
         THEN IF s.rem[p].ready = NoTick THEN [s EXCEPT !.rem[p].ready = m.tick] ELSE s
         ELSE IF s.rem[p].ack = NoTick THEN [s EXCEPT !.rem[p].ack = m.tick] ELSE s

TickMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Latest(s) == TickMax({s.ready} \cup {s.rem[p].ready : p \in DOMAIN s.rem})
AllReady(s) == s.ready # NoTick /\ \A p \in DOMAIN s.rem : s.rem[p].ready # NoTick
AllAck(s) == \A p \in DOMAIN s.rem : s.rem[p].ack # NoTick
Agreed(s) == s.st = "starting" /\ s.start # NoTick /\ \A p \in DOMAIN s.rem : s.rem[p].ack = s.start

\* One frame: msgs is the sequence of <<link, message>> that came in on candidate links.
\* Result: session, links, and what is sent to every member
Drive(s0, L, msgs, tick, synced, now, delay, timeout) ==
    LET C == Cands(L)
        H(s, x) == IF x[1] \in C THEN Hear(s, L[x[1]].id, x[2]) ELSE s
        s1 == FoldLeft(H, s0, msgs)
        intact == /\ {L[k].id : k \in C} = DOMAIN s0.rem
                  /\ Cardinality(C) = Cardinality(DOMAIN s0.rem)
        allconn == \A k \in C : L[k].conn
        late == now - s0.t0 >= timeout
        s2 == IF synced /\ s1.ready = NoTick THEN [s1 EXCEPT !.ready = tick + delay] ELSE s1
        s3 == IF AllReady(s2) THEN [s2 EXCEPT !.start = Latest(s2)] ELSE s2
        failed == AllReady(s3) /\ AllAck(s3) /\ (~Agreed(s3) \/ tick >= s3.start)
        fail == [s |-> Halt(s1), L |-> ToMode(L, "candidate", "inactive"), out |-> {}]
        out == (IF s3.ready # NoTick /\ ~s3.rsent
                THEN {[kind |-> "ready", gen |-> s3.gen, ids |-> s3.ids, tick |-> s3.ready]} ELSE {})
               \cup (IF s3.start # NoTick /\ ~s3.asent
                     THEN {[kind |-> "ack", gen |-> s3.gen, ids |-> s3.ids, tick |-> s3.start]} ELSE {})
    IN  IF s0.st # "starting" THEN [s |-> s0, L |-> L, out |-> {}]
        ELSE IF ~intact \/ s1.odd THEN fail
        ELSE IF ~allconn THEN IF late THEN fail ELSE [s |-> s1, L |-> L, out |-> {}]
        ELSE IF failed THEN fail
        ELSE IF late /\ ~Agreed(s3) THEN fail
        ELSE [s |-> [s3 EXCEPT !.rsent = @ \/ s3.ready # NoTick, !.asent = @ \/ s3.start # NoTick], L |-> L, out |-> out]

\* Before the fixed step that takes the local tick from t to t + 1
CanGo(s, L, t) ==
    /\ Agreed(s)
    /\ t + 1 = s.start
    /\ \A k \in Cands(L) : L[k].conn
    /\ Cardinality(Cands(L)) = Cardinality(DOMAIN s.rem)
Go(s, L, t) ==
    IF CanGo(s, L, t)
    THEN [s |-> [Halt(s) EXCEPT !.st = "started", !.start = s.start], L |-> ToMode(L, "candidate", "joined"), go |-> TRUE]
    ELSE [s |-> s, L |-> L, go |-> FALSE]
===============================================================================
