------------------------------- MODULE MCMsg -------------------------------
(* One sender, one receiver, one type of message: exhaustive on small bounds (M01, M02).         *)
(* The network delays and reorders flushes; timelines move in both directions, appear and vanish;*)
(* the connection ends and comes back.                                                           *)
EXTENDS MsgDefs

CONSTANTS Chans, MaxSends, MaxTick, MaxFrames, MaxDowns, MaxMoves, Lag, Room
VARIABLES tick, q, sent, got, pend, now, seen, seenAt, refused, nid, batch, frames, downs, moves, lost
vars == <<tick, q, sent, got, pend, now, seen, seenAt, refused, nid, batch, frames, downs, moves, lost>>

Init ==
    /\ tick = 0 /\ q = <<>> /\ sent = <<>> /\ got = {} /\ pend = <<>> /\ now \in {<<t, -1>> : t \in -1..1}
    /\ seen = <<>> /\ seenAt = <<>> /\ refused = {} /\ nid = 1 /\ batch = 0 /\ frames = 0 /\ downs = 0 /\ moves = 0 /\ lost = {}

Send == \E ch \in Chans :
    /\ nid <= MaxSends
    /\ q' = Append(q, [id |-> nid, ty |-> 0, ch |-> ch, tick |-> -1, batch |-> -1])
    /\ nid' = nid + 1
    /\ UNCHANGED <<tick, sent, got, pend, now, seen, seenAt, refused, batch, frames, downs, moves, lost>>
\* the sender's frame: what is queued leaves with the sender's tick
Flush ==
    /\ q # <<>>
    /\ batch' = batch + 1
    /\ sent' = sent \o [i \in DOMAIN q |-> [q[i] EXCEPT !.tick = tick, !.batch = batch + 1]]
    /\ q' = <<>>
    /\ UNCHANGED <<tick, got, pend, now, seen, seenAt, refused, nid, frames, downs, moves, lost>>
Tick ==
    /\ tick < MaxTick
    /\ tick' = tick + 1
    /\ UNCHANGED <<q, sent, got, pend, now, seen, seenAt, refused, nid, batch, frames, downs, moves, lost>>
\* the receiver's timeline moves, back as well as forward, or is removed
Move == \E t \in -1..MaxTick :
    /\ moves < MaxMoves /\ t # now[1]
    /\ now' = <<t, -1>> /\ moves' = moves + 1
    /\ UNCHANGED <<tick, q, sent, got, pend, seen, seenAt, refused, nid, batch, frames, downs, lost>>
\* the receiver's frame: any of the flushes on their way arrive, in any order
Frame == \E D \in SUBSET ({m.batch : m \in ToSet(sent)} \ got) :
    /\ frames < MaxFrames
    /\ \E g \in {got \cup D} : \E ms \in {Available(sent, g)} :
       \E im \in {SelectSeq(ms, LAMBDA m : Line(m.ch) = 0)}, la \in {SelectSeq(ms, LAMBDA m : Line(m.ch) # 0)} :
       \E p \in {Enqueue(pend, la, now)} : \E due \in {Due(p, now)} :
        /\ got' = g
        /\ sent' = SelectSeq(sent, LAMBDA m : m.id \notin {x.id : x \in ToSet(ms)})
        /\ seen' = seen \o im \o due
        /\ seenAt' = seenAt \o [i \in DOMAIN im |-> MaxTick + 1] \o [i \in DOMAIN due |-> now[1]]
        /\ pend' = NotDue(p, now)
        /\ refused' = refused \cup ({m.id : m \in ToSet(la)} \ {m.id : m \in ToSet(p)})
    /\ frames' = frames + 1
    /\ UNCHANGED <<tick, q, now, nid, batch, downs, moves, lost>>
\* the connection ends for both and comes back
Down ==
    /\ downs < MaxDowns
    /\ downs' = downs + 1
    /\ lost' = lost \cup {m.id : m \in ToSet(q) \cup ToSet(sent) \cup ToSet(pend)}
    /\ q' = <<>> /\ sent' = <<>> /\ pend' = <<>> /\ got' = {}
    /\ UNCHANGED <<tick, now, seen, seenAt, refused, nid, batch, frames, moves>>
Next == Send \/ Flush \/ Tick \/ Move \/ Frame \/ Down
Spec == Init /\ [][Next]_vars

Ids(s) == {m.id : m \in ToSet(s)}
\* every message is in one place only: waiting to leave, on its way, queued, seen, refused or lost with the connection
OnePlace ==
    LET P == <<Ids(q), Ids(sent), Ids(pend), Ids(seen), refused, lost>>
    IN  /\ \A i, j \in DOMAIN P : i < j => P[i] \cap P[j] = {}
        /\ UNION {P[i] : i \in DOMAIN P} = 1..(nid - 1)
Once == Cardinality(Ids(seen)) = Len(seen)
NotEarly == \A i \in DOMAIN seen : Line(seen[i].ch) # 0 => seen[i].tick <= seenAt[i]
\* a timeline message in the queue is seen in the first frame in which its timeline has reached it
NotLate == [][frames' # frames => \A i \in DOMAIN pend' : ~(now[1] >= 0 /\ pend'[i].tick <= now[1])]_vars
\* on an ordered channel messages are taken, and thus seen, in the order in which they were sent;
\* those that follow a timeline in that order among those of one tick
Ordered == \A i, j \in DOMAIN seen : (i < j /\ seen[i].ch = seen[j].ch /\ InOrder(seen[i].ch)
    /\ (Line(seen[i].ch) = 0 \/ seen[i].tick = seen[j].tick)) => seen[i].id < seen[j].id
Bounded == Len(pend) <= MaxPending
=============================================================================
