------------------------------ MODULE MsgDefs ------------------------------
(* Typed messages (M01, M02).                                                                    *)
(* A message record m has: id, ty, ch, e (entity reference, or -1), bad, path, tick, batch.      *)
(* Channels 0 (unordered reliable), 1 (ordered reliable), 2 (unreliable) deliver immediately;    *)
(* 3 (ordered reliable) and 4 (unordered reliable) follow timeline 1, channel 5 timeline 2.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

MaxLag == 100
MaxPending == 4096
Line(ch) == IF ch \in {3, 4} THEN 1 ELSE IF ch = 5 THEN 2 ELSE 0
Reliable(ch) == ch # 2
InOrder(ch) == ch \in {1, 3}
\* both kinds of entity-carrying types
HasRef(ty) == ty \in {1, 4}

\* The clients that a message of the server is addressed to: those with a link, by their identity
Addressed(kind, named, links, connected) ==
    CASE kind = "none" -> {}
      [] kind = "all" -> links
      [] kind = "only" -> named \cap links \cap connected
      [] OTHER -> links \ (named \cap connected)

\* Entity references: the sender translates what it knows of the receiver's world, the receiver the rest
Wire(map, e) ==
    IF \E p \in map : p[2] = e THEN [done |-> TRUE, v |-> (CHOOSE p \in map : p[2] = e)[1]]
    ELSE [done |-> FALSE, v |-> e]
Local(map, w) ==
    IF w.done THEN w.v
    ELSE IF \E p \in map : p[1] = w.v THEN (CHOOSE p \in map : p[1] = w.v)[2] ELSE -1

\* What is taken from the wire: all of a delivered flush; on an ordered channel only once all
\* earlier flushes with something on that channel are there as well
Available(sent, got) ==
    SelectSeq(sent, LAMBDA m : /\ m.batch \in got
                               /\ (InOrder(m.ch) => \A i \in DOMAIN sent : (sent[i].ch = m.ch /\ sent[i].batch < m.batch) => sent[i].batch \in got))

\* May a message that follows a timeline be queued when that timeline is at `now` (-1: there is none)?
Accepts(m, now) == now >= 0 /\ m.tick - now <= MaxLag
\* The queue of a timeline after the arrivals `ms`, in order
Enqueue(pend, ms, now) ==
    FoldLeft(LAMBDA p, m : IF Accepts(m, now[Line(m.ch)]) /\ Cardinality({i \in DOMAIN p : p[i].ty = m.ty /\ Line(p[i].ch) = Line(m.ch)}) < MaxPending
                           THEN Append(p, m) ELSE p, pend, ms)
Due(pend, now) == SelectSeq(pend, LAMBDA m : now[Line(m.ch)] >= 0 /\ m.tick <= now[Line(m.ch)])
NotDue(pend, now) == SelectSeq(pend, LAMBDA m : ~(now[Line(m.ch)] >= 0 /\ m.tick <= now[Line(m.ch)]))
===============================================================================
