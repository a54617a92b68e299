--------------------------- MODULE TransportCore ---------------------------
(* The transport protocol of lightyear as pure state transformers.                  *)
(* Both the exhaustive model (MCTransport) and the conformance specification        *)
(* (TransportTrace) are written with these operators, so that what TLC checks about *)
(* the design is the same thing that recorded executions of the code are held to.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Window == 32          \* packets acknowledged before the newest received one
Discard == 3000       \* ms without progress after which unreliable partial messages go

Reliable(m)  == m \in {"UR", "SR", "OR"}
Sequenced(m) == m \in {"SU", "SR"}
Watched(m)   == Reliable(m) \/ m = "UA"      \* modes with message acknowledgements

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
NoDup(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)

-----------------------------------------------------------------------------
(* Packet acknowledgement: the header of a packet acknowledges the newest packet    *)
(* received and those of the Window packets before it that were received.           *)
AckSet(recvd, last) == {n \in recvd : n >= last - Window}

NackTimeout(rtt) == Max2(10, Min2(3000, (rtt * 3) \div 2))
ResendDelay(rtt, factor, mind) == Max2((rtt * factor) \div 10, mind)

-----------------------------------------------------------------------------
(* Receiving side of one channel.                                                   *)
(*  got    message -> pieces received of a message that is not complete             *)
(*  at     message -> time of the newest of them                                    *)
(*  newest newest message seen (sequenced modes)                                    *)
(*  done   complete messages (reliable or sequenced modes)                          *)
(*  ready  complete messages not handed to the application                          *)
(*  next   next message to hand over (ordered mode)                                 *)
NewRecv == [got |-> <<>>, at |-> <<>>, newest |-> 0, done |-> {}, ready |-> <<>>, next |-> 1]

Ignored(m, r, i) ==
    \/ Reliable(m) /\ i \in r.done
    \/ Sequenced(m) /\ (i < r.newest \/ i \in r.done)

RecvPart(m, nf, r, i, f, now) ==
    IF Ignored(m, r, i) THEN r
    ELSE LET r1 == IF Sequenced(m) /\ i > r.newest
                   THEN [r EXCEPT !.newest = i, !.ready = <<>>] ELSE r
             g  == Get(r1.got, i, {}) \cup {f}
         IN  IF Cardinality(g) = nf
             THEN [r1 EXCEPT !.got = Without(@, i), !.at = Without(@, i),
                             !.done = IF m \in {"UU", "UA"} THEN @ ELSE @ \cup {i},
                             !.ready = IF Sequenced(m) THEN <<i>> ELSE Append(@, i)]
             ELSE [r1 EXCEPT !.got = (i :> g) @@ @, !.at = (i :> now) @@ @]

Expire(m, r, now) ==
    IF Reliable(m) \/ \A i \in DOMAIN r.got : now - r.at[i] < Discard THEN r
    ELSE LET keep == {i \in DOMAIN r.got : now - r.at[i] < Discard}
         IN  [r EXCEPT !.got = [i \in keep |-> r.got[i]], !.at = [i \in keep |-> r.at[i]]]

(* What the application reads when it takes everything there is. *)
RECURSIVE Contig(_, _)
Contig(S, n) == IF n \in S THEN <<n>> \o Contig(S, n + 1) ELSE <<>>
ReadAll(m, r) == IF m = "OR" THEN Contig(r.done, r.next) ELSE r.ready
AfterRead(m, r) ==
    IF m = "OR" THEN [r EXCEPT !.ready = <<>>, !.next = @ + Len(Contig(r.done, r.next))]
    ELSE [r EXCEPT !.ready = <<>>]

-----------------------------------------------------------------------------
(* Sending side of one channel.                                                     *)
(*  q     pieces <<message, piece>> not yet handed to the link (unreliable modes)   *)
(*  ls    piece -> time it was last handed to the link, -1 never; unacknowledged    *)
(*        pieces only (reliable modes)                                              *)
(*  acc   accumulated priority of unacknowledged reliable messages                  *)
(*  ua    message -> acknowledged pieces (mode UA, fragmented messages)             *)
(*  dead  messages that can no longer be acknowledged (mode UA)                     *)
NewSend == [q |-> {}, ls |-> <<>>, acc |-> <<>>, ua |-> <<>>, dead |-> {},
            started |-> {}, el |-> 0, ready |-> FALSE]

Pieces(i, nf) == {<<i, f>> : f \in 1..nf}

Enqueue(m, s, i, nf) ==
    IF Reliable(m) THEN [s EXCEPT !.ls = [p \in Pieces(i, nf) |-> -1] @@ @, !.acc = (i :> 0) @@ @]
    ELSE [s EXCEPT !.q = @ \cup Pieces(i, nf)]

(* Pieces that have to go / that may go in a flush, given the time of the last      *)
(* receive pass. A piece whose delay has elapsed exactly may or may not go.         *)
MustSend(m, s, now, delay) ==
    IF Reliable(m) THEN {p \in DOMAIN s.ls : s.ls[p] = -1 \/ (delay > 0 /\ now - s.ls[p] > delay)}
    ELSE s.q
MaySend(m, s, now, delay) ==
    IF Reliable(m) THEN {p \in DOMAIN s.ls : s.ls[p] = -1 \/ (delay > 0 /\ now - s.ls[p] >= delay)}
    ELSE s.q

Committed(m, s, ps, now) ==
    IF Reliable(m)
    THEN [s EXCEPT !.ls = [p \in DOMAIN @ |-> IF p \in ps THEN now ELSE @[p]]]
    ELSE [s EXCEPT !.q = @ \ ps, !.started = @ \cup {p[1] : p \in ps}]

(* A piece is acknowledged: new state and whether this completed the message. *)
AckPiece(m, nf, s, p) ==
    IF Reliable(m)
    THEN IF p \notin DOMAIN s.ls THEN <<s, FALSE>>
         ELSE LET ls1 == Without(s.ls, p)
                  fin == \A x \in DOMAIN ls1 : x[1] # p[1]
              IN  <<[s EXCEPT !.ls = ls1, !.acc = IF fin THEN Without(@, p[1]) ELSE @], fin>>
    ELSE IF nf = 1 THEN <<s, TRUE>>
    ELSE IF p[1] \in s.dead THEN <<s, FALSE>>
    ELSE LET g == Get(s.ua, p[1], {}) \cup {p[2]}
         IN  IF Cardinality(g) = nf
             THEN <<[s EXCEPT !.ua = Without(@, p[1]), !.dead = @ \cup {p[1]}], TRUE>>
             ELSE <<[s EXCEPT !.ua = (p[1] :> g) @@ @], FALSE>>

NackPiece(m, nf, s, p) ==
    IF m = "UA" /\ nf > 1 THEN [s EXCEPT !.dead = @ \cup {p[1]}] ELSE s
=============================================================================
