----------------------------- MODULE LongTrace -----------------------------
(* Conformance over long histories of one channel: more messages than there are     *)
(* message numbers, thousands of them outstanding. Messages are known by their index *)
(* 1, 2, ... (never by their wrapping number), and sets of them kept as sorted        *)
(* sequences of disjoint runs <<lo, hi>>, so that a step costs what it changes.       *)
EXTENDS TransportCore, Json, IOUtils

CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)
Span == 32767      \* message numbers can tell apart this many messages from the oldest outstanding one

VARIABLES l, S
vars == <<l, S>>
Ev == Log[l]
G(p, clause, cond) ==
    IF Prop = p THEN IF cond THEN TRUE ELSE PrintT("CLAUSE " \o p \o ": " \o clause) /\ FALSE ELSE TRUE

-----------------------------------------------------------------------------
(* Runs *)
AddRun(R, lo, hi) ==
    LET mid == SelectSeq(R, LAMBDA r : r[2] >= lo - 1 /\ r[1] <= hi + 1)
    IN  SelectSeq(R, LAMBDA r : r[2] < lo - 1)
        \o << IF mid = <<>> THEN <<lo, hi>> ELSE <<Min2(lo, mid[1][1]), Max2(hi, mid[Len(mid)][2])>> >>
        \o SelectSeq(R, LAMBDA r : r[1] > hi + 1)
AddRuns(R, rs) == FoldLeft(LAMBDA a, r : TLCEval(AddRun(a, r[1], r[2])), R, rs)
Meets(R, lo, hi) == \E i \in DOMAIN R : R[i][1] <= hi /\ R[i][2] >= lo
Covers(R, lo, hi) == lo > hi \/ \E i \in DOMAIN R : R[i][1] <= lo /\ hi <= R[i][2]
Prefix(R) == IF R # <<>> /\ R[1][1] = 1 THEN R[1][2] ELSE 0
Ascending(rs) == \A i \in 1..(Len(rs) - 1) : rs[i][2] < rs[i + 1][1]

(* nf     pieces of the messages that have several                                  *)
(* put    messages handed to the link; pk: what each packet carries                 *)
(* arr    messages all of whose pieces arrived; part: pieces of the others          *)
(* rd     messages read; last: newest of them; ack: acknowledged; fack: pieces      *)
New(m) == [mode |-> m, sent |-> 0, nf |-> <<>>, put |-> <<>>, fput |-> <<>>, pk |-> <<>>,
           arr |-> <<>>, part |-> <<>>, rd |-> <<>>, last |-> 0, ack |-> <<>>, fack |-> <<>>]
Init == l = 1 /\ S = New("UU")

Reset == Ev.k = "reset" /\ S' = New(Ev.mode)

Send == Ev.k = "send" /\ S' = [S EXCEPT !.sent = @ + Ev.n,
    !.nf = FoldLeft(LAMBDA a, r : (r[1] :> r[2]) @@ a, @, Ev.fr)]

(* Pieces of several-piece messages, collected in a function; whole ones become runs *)
Collect(acc, f) ==
    LET g == Get(acc.part, f[1], {}) \cup {f[2]}
    IN  IF f[1] \notin DOMAIN S.nf THEN acc
        ELSE IF Cardinality(g) = S.nf[f[1]]
             THEN [part |-> (f[1] :> g) @@ acc.part, runs |-> AddRun(acc.runs, f[1], f[1])]
             ELSE [part |-> (f[1] :> g) @@ acc.part, runs |-> acc.runs]
Gather(part, runs, rs, fr) ==
    FoldLeft(LAMBDA a, f : TLCEval(Collect(a, f)), TLCEval([part |-> part, runs |-> AddRuns(runs, rs)]), fr)

KnownRun(r) == r[1] >= 1 /\ r[2] <= S.sent /\ \A i \in DOMAIN S.nf : i < r[1] \/ i > r[2]
KnownPiece(f) == f[1] \in DOMAIN S.nf /\ f[2] \in 1..S.nf[f[1]]

PutStep ==
    LET pk == Ev.pk
        rs == FlattenSeq([i \in DOMAIN pk |-> pk[i].rs])
        fr == FlattenSeq([i \in DOMAIN pk |-> pk[i].fr])
        good == (\A i \in DOMAIN rs : KnownRun(rs[i])) /\ (\A i \in DOMAIN fr : KnownPiece(fr[i]))
        okrs == SelectSeq(rs, KnownRun)
        g  == Gather(S.fput, S.put, okrs, SelectSeq(fr, KnownPiece))
        lim == IF Reliable(S.mode) THEN Min2(S.sent, Prefix(S.ack) + Span) ELSE S.sent
        once == FoldLeft(LAMBDA a, r : [ok |-> a.ok /\ ~Meets(a.R, r[1], r[2]), R |-> TLCEval(AddRun(a.R, r[1], r[2]))],
                         [ok |-> TRUE, R |-> <<>>], okrs)
    IN [ok |->
        /\ G("T03", "packets carry only pieces of messages that were sent", good)
        /\ G("T05", "what is acknowledged is not sent again", Reliable(S.mode) =>
               /\ \A i \in DOMAIN rs : ~Meets(S.ack, rs[i][1], rs[i][2])
               /\ \A i \in DOMAIN fr : fr[i][2] \notin Get(S.fack, fr[i][1], {}))
        /\ G("T05", "a piece goes at most once in a flush", once.ok /\ NoDup(fr))
        /\ G("T05", "unlimited: everything new is sent", Covers(g.runs, 1, lim))
        /\ G("T07", "unlimited: everything buffered leaves in this flush", Covers(g.runs, 1, lim))
        /\ G("T03", "unreliable messages are not sent again", ~Reliable(S.mode) => \A i \in DOMAIN rs : ~Meets(S.put, rs[i][1], rs[i][2]))
      , S |-> [S EXCEPT !.put = g.runs, !.fput = g.part,
                 !.pk = @ \o [i \in DOMAIN pk |-> [rs |-> pk[i].rs, fr |-> pk[i].fr]]]]

RecvStep ==
    LET ps == Ev.got
        g == FoldLeft(LAMBDA a, n : TLCEval(Gather(a.part, a.runs, SelectSeq(S.pk[n].rs, KnownRun), SelectSeq(S.pk[n].fr, KnownPiece))),
                      [part |-> S.part, runs |-> S.arr], ps)
        rs == Ev.reads
        f == FoldLeft(LAMBDA a, r :
                 [once |-> a.once /\ ~Meets(a.rd, r[1], r[2]), up |-> a.up /\ r[1] > a.last, next |-> a.next /\ r[1] = a.last + 1,
                  rd |-> TLCEval(AddRun(a.rd, r[1], r[2])), last |-> Max2(a.last, r[2])],
               [once |-> TRUE, up |-> TRUE, next |-> TRUE, rd |-> S.rd, last |-> S.last], rs)
        m == S.mode
    IN [ok |->
        /\ G("T03", "everything read was sent on that channel, unchanged", \A i \in DOMAIN rs : rs[i][1] > 0)
        /\ G("T01", "nothing is read that was not sent", \A i \in DOMAIN rs : rs[i][1] > 0)
        /\ G("T03", "a message is read only if all of it was received", \A i \in DOMAIN rs : Covers(g.runs, rs[i][1], rs[i][2]))
        /\ G("T01", "a reliable message is read at most once", Reliable(m) => f.once)
        /\ G("T01", "a reliable message is read when complete, in an ordered channel when its predecessors are",
             /\ m = "UR" => f.rd = g.runs
             /\ m = "OR" => f.last = Prefix(g.runs))
        /\ G("T02", "ordered messages are read in order without gaps", m = "OR" => f.next)
        /\ G("T02", "sequenced messages never go back", Sequenced(m) => f.up)
        /\ G("T03", "an unordered unreliable message is read once per complete delivery", m = "UA" => f.once /\ f.rd = g.runs)
      , S |-> [S EXCEPT !.arr = g.runs, !.part = g.part, !.rd = f.rd, !.last = f.last]]

AckStep ==
    LET ns == SelectSeq(Ev.pk, LAMBDA n : n \in DOMAIN S.pk)
        g == FoldLeft(LAMBDA a, n : TLCEval(Gather(a.part, a.runs, SelectSeq(S.pk[n].rs, KnownRun), SelectSeq(S.pk[n].fr, KnownPiece))),
                      [part |-> S.fack, runs |-> S.ack], ns)
    IN [ok |->
        /\ G("T04", "only packets that were sent are acknowledged", Len(ns) = Len(Ev.pk) /\ NoDup(ns))
        /\ G("T04", "message acknowledgements", Watched(S.mode) =>
             /\ Ascending(Ev.m)
             /\ \A i \in DOMAIN Ev.m : ~Meets(S.ack, Ev.m[i][1], Ev.m[i][2])
             /\ AddRuns(S.ack, Ev.m) = g.runs)
      , S |-> [S EXCEPT !.ack = g.runs, !.fack = g.part]]

Put  == Ev.k = "put"  /\ \E r \in {PutStep} : r.ok /\ S' = TLCEval(r.S)
Recv == Ev.k = "recv" /\ \E r \in {RecvStep} : r.ok /\ S' = TLCEval(r.S)
Acks == Ev.k = "acks" /\ \E r \in {AckStep} : r.ok /\ S' = TLCEval(r.S)

End ==
    /\ Ev.k = "end"
    /\ G("T01", "every reliable message got there", S.mode \in {"UR", "OR"} => S.rd = <<<<1, S.sent>>>>)
    /\ G("T01", "the last message of a reliable sequenced channel got there", S.mode = "SR" => S.last = S.sent)
    /\ G("T04", "every message of a reliable channel is acknowledged in the end", Reliable(S.mode) => S.ack = <<<<1, S.sent>>>>)
    /\ G("T05", "two peers with everything acknowledged come to rest", Ev.full)
    /\ UNCHANGED S

Next == l <= Len(Log) /\ l' = l + 1 /\ (Reset \/ Send \/ Put \/ Recv \/ Acks \/ End)
View == l
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log) \/ (PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
