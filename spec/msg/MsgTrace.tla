------------------------------ MODULE MsgTrace ------------------------------
(* Conformance of typed messages with MsgDefs (M01, M02).                                        *)
EXTENDS MsgDefs, Json, IOUtils

CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S
vars == <<l, S>>
Ev == Log[l]
G(ps, clause, cond) ==
    IF Prop \in ps THEN IF cond THEN TRUE ELSE PrintT("CLAUSE " \o Prop \o ": " \o clause) /\ FALSE
    ELSE TRUE

Same(have, want) == have = want \/ (PrintT(<<"unexpected", have \ want, "missing", want \ have>>) /\ FALSE)

\* An endpoint is <<link, side>>: side 0 is in the server's app, side 1 in the client's. Link 0 is the in-process client.
Eps(n, host) == {<<k, i>> : k \in 1..n, i \in 0..1} \cup (IF host THEN {<<0, 0>>} ELSE {})
S0(n, host, exact) ==
    LET D == Eps(n, host)
        all(v) == [x \in D |-> v]
    IN  [n |-> n, host |-> host, exact |-> exact, up |-> all(FALSE), map |-> all({}), tl |-> all(<<-1, -1>>),
         q |-> all(<<>>), mq |-> all(<<>>), sent |-> all(<<>>), got |-> all({}), pend |-> all(<<>>), loc |-> all(<<>>),
         hist |-> all({}), seen |-> {}, maybe |-> {}, fr |-> 0]
Init == l = 1 /\ S = S0(0, FALSE, TRUE)
Host == <<0, 0>>
Other(x) == <<x[1], 1 - x[2]>>
At(a, k) == IF a = 0 THEN <<k, 0>> ELSE <<k, 1>>
Of(a) == {x \in DOMAIN S.up : IF a = 0 THEN x[2] = 0 ELSE x[1] = a /\ x[2] = 1}
From(x) == IF x = Host THEN "local" ELSE IF x[2] = 0 THEN "p" \o ToString(x[1]) ELSE "server"
\* which endpoints are followed exactly: the others' network loses and repeats packets
Exact(x) == S.exact \/ x = Host

Rec(id, path, e) == [id |-> id, ty |-> Ev.ty, ch |-> Ev.ch, e |-> e, bad |-> Ev.bad, path |-> path, tick |-> -1, batch |-> -1, arr |-> 0, pos |-> 0]

UpStep ==
    LET X == {x \in DOMAIN S.up : x[1] = Ev.l}
    IN  [ok |-> TRUE, S |-> [S EXCEPT !.up = [x \in DOMAIN @ |-> IF x \in X THEN TRUE ELSE @[x]],
                                       !.sent = [x \in DOMAIN @ |-> IF x \in X THEN <<>> ELSE @[x]],
                                       !.got = [x \in DOMAIN @ |-> IF x \in X THEN {} ELSE @[x]]]]
TlStep == [ok |-> TRUE, S |-> [S EXCEPT !.tl[At(Ev.a, Ev.l)] = [@ EXCEPT ![Ev.w + 1] = Ev.v]]]
MapStep == [ok |-> TRUE, S |-> [S EXCEPT !.map[At(Ev.a, Ev.l)] = @ \cup {<<Ev.r, Ev.e>>}]]
\* many messages at once
BurstStep ==
    LET x == At(Ev.a, Ev.l)
    IN  [ok |-> TRUE,
         S |-> [S EXCEPT !.q[x] = @ \o [i \in 1..(Ev.last - Ev.first + 1) |->
                  [id |-> Ev.first + i - 1, ty |-> Ev.ty, ch |-> Ev.ch, e |-> -1, bad |-> 0, path |-> "m", tick |-> -1, batch |-> -1, arr |-> 0, pos |-> 0]]]]

SendOp == [ok |-> TRUE, S |-> [S EXCEPT !.q[At(Ev.a, Ev.l)] = Append(@, Rec(Ev.id, "m", Ev.e))]]
MultiOp ==
    LET to == Addressed(Ev.t, ToSet(Ev.to), {x[1] : x \in Of(0)}, {x[1] : x \in {y \in Of(0) : S.up[y]}})
        X == IF Ev.bad = 1 THEN {} ELSE {x \in Of(0) : x[1] \in to}
        live == {x \in X : S.up[x]}
    IN  [ok |-> G({"M01"}, "sending to several clients fails only for a message that cannot be written", Ev.ok = (Ev.bad # 1 \/ (HasRef(Ev.ty) /\ to = {})))
        , S |-> [S EXCEPT !.mq = [x \in DOMAIN @ |-> IF x \in live
                                    THEN Append(@[x], Rec(Ev.id, "x", IF ~HasRef(Ev.ty) THEN [done |-> TRUE, v |-> -1]
                                                                      ELSE IF x = Host THEN [done |-> TRUE, v |-> Ev.e] ELSE Wire(S.map[x], Ev.e)))
                                    ELSE @[x]],
                          !.maybe = @ \cup {<<IF x = Host THEN x ELSE Other(x), Ev.id>> : x \in X \ live}]]
\* a connection ends at one end: nothing of it is left there, and what is on its way is lost
DownOp ==
    LET x == At(Ev.a, Ev.l)
        both == {y \in DOMAIN S.up : y[1] = Ev.l}
        clr(f, X, v) == [y \in DOMAIN f |-> IF y \in X THEN v ELSE f[y]]
    IN  [ok |-> TRUE,
         S |-> [S EXCEPT !.up[x] = FALSE, !.q[x] = <<>>, !.mq[x] = <<>>, !.pend[x] = <<>>, !.loc[x] = <<>>, !.map[x] = {}, !.hist[x] = {},
                         !.sent = clr(@, both, <<>>), !.got = clr(@, both, {})]]
OpStep == CASE Ev.op = "send" -> SendOp [] Ev.op = "multi" -> MultiOp [] OTHER -> DownOp

\* Frame, second part: what was queued leaves
FlushStep ==
    LET stamp(x, s) == [i \in DOMAIN s |-> [s[i] EXCEPT !.tick = Ev.tick, !.batch = Ev.batch,
                                                        !.e = IF s[i].path = "x" THEN @ ELSE IF ~HasRef(s[i].ty) THEN [done |-> TRUE, v |-> -1]
                                                              ELSE IF x = Host THEN [done |-> TRUE, v |-> @] ELSE Wire(S.map[x], @)]]
        ok(s) == SelectSeq(s, LAMBDA m : m.bad # 1)
        X == {x \in Of(Ev.a) : S.up[x]}
        out == [x \in X |-> IF x = Host THEN <<>> ELSE stamp(x, S.mq[x]) \o stamp(x, ok(S.q[x]))]
        \* in process nothing is written, so nothing can fail to be written or read
        mine == IF Host \in X THEN stamp(Host, S.q[Host]) ELSE <<>>
        imm == SelectSeq(mine, LAMBDA m : Line(m.ch) = 0)
        late == [i \in DOMAIN SelectSeq(mine, LAMBDA m : Line(m.ch) # 0) |-> [SelectSeq(mine, LAMBDA m : Line(m.ch) # 0)[i] EXCEPT !.arr = S.fr]]
        \* what the in-process client is told at once
        told == SelectSeq(imm, LAMBDA m : m.ty >= 3)
        seenNow == [i \in DOMAIN told |-> <<-1, told[i].ty, told[i].id, -1, -1, Local(S.map[Host], told[i].e), "local">>]
    IN  [ok |-> G({"M01"}, "an event sent in process is seen once, in the frame in which it was sent", IF told = <<>> THEN Ev.got = <<>>
                        ELSE Same(ToSet(Ev.got), ToSet(seenNow)) /\ Len(Ev.got) = Len(told)),
         S |-> [S EXCEPT !.q = [x \in DOMAIN @ |-> IF x \in X THEN <<>> ELSE @[x]],
                         !.mq = [x \in DOMAIN @ |-> IF x \in X THEN <<>> ELSE @[x]],
                         !.sent = [x \in DOMAIN @ |-> IF x \in X /\ x # Host /\ S.up[Other(x)] THEN @[x] \o out[x] ELSE @[x]],
                         !.hist = [x \in DOMAIN @ |-> IF x # Host /\ Other(x) \in X /\ ~S.exact /\ S.up[x] THEN @[x] \cup ToSet(out[Other(x)]) ELSE @[x]],
                         !.loc = [x \in DOMAIN @ |-> IF x = Host /\ x \in X THEN SelectSeq(imm, LAMBDA m : m.ty < 3) \o stamp(x, S.mq[x]) ELSE @[x]],
                         !.pend = [x \in DOMAIN @ |-> IF x = Host /\ x \in X THEN Enqueue(@[x], late, S.tl[x]) ELSE @[x]]]]

\* Frame, first part: what arrives, what has become due, and what the application sees
Sorted(s, key(_)) == \A i \in 1..(Len(s) - 1) :
    LET a == key(s[i])
        b == key(s[i + 1])
        d == {k \in DOMAIN a : a[k] # b[k]}
    IN  d = {} \/ LET k == CHOOSE k \in d : \A j \in d : k <= j IN a[k] < b[k]
Seen(x, m) == IF m.ty < 3 THEN <<x[1], m.ty, m.id, m.tick, m.ch, m.ref, "">> ELSE <<-1, m.ty, m.id, -1, -1, m.ref, From(x)>>
RecvStep ==
    LET X == {x \in Of(Ev.a) : S.up[x]}
        pos(b, x) == IF \E i \in DOMAIN Ev.del : Ev.del[i] = <<x[1], b>> THEN CHOOSE i \in DOMAIN Ev.del : Ev.del[i] = <<x[1], b>> ELSE 0
        got == [x \in DOMAIN S.got |-> IF x \in X THEN S.got[x] \cup {d[2] : d \in {e \in ToSet(Ev.del) : e[1] = x[1]}} ELSE S.got[x]]
        av == [x \in X |-> IF x = Host THEN S.loc[x] ELSE IF ~S.exact THEN <<>> ELSE Available(S.sent[Other(x)], got[x])]
        arr == [x \in X |-> LET z == SelectSeq(av[x], LAMBDA m : m.bad # 2 \/ (x = Host /\ m.path = "m"))
                                w == [i \in DOMAIN z |-> [z[i] EXCEPT !.arr = S.fr + 1, !.pos = pos(z[i].batch, x)]]
                            IN  SortSeq(w, LAMBDA m, k : m.pos < k.pos)]
        ref(x, m) == [id |-> m.id, ty |-> m.ty, ch |-> m.ch, tick |-> m.tick, arr |-> m.arr, pos |-> m.pos, batch |-> m.batch, path |-> m.path,
                      ref |-> Local(S.map[x], m.e)]
        inc(x, ok(_)) == LET z == SelectSeq(arr[x], ok) IN [i \in DOMAIN z |-> ref(x, z[i])]
        imm == [x \in X |-> inc(x, LAMBDA m : Line(m.ch) = 0)]
        pend == [x \in X |-> Enqueue(S.pend[x], inc(x, LAMBDA m : Line(m.ch) # 0), S.tl[x])]
        fix(x, s) == [i \in DOMAIN s |-> IF "ref" \in DOMAIN s[i] THEN s[i] ELSE ref(x, s[i])]
        due == [x \in X |-> fix(x, Due(pend[x], S.tl[x]))]
        \* what must be seen at the endpoints that are followed exactly
        E == {x \in X : Exact(x)}
        want == UNION {{Seen(x, m) : m \in ToSet(imm[x] \o due[x])} : x \in E}
        total == FoldSet(LAMBDA x, n : n + Len(imm[x]) + Len(due[x]), 0, E)
        ours(g) == ~S.exact /\ (IF g[1] = -1 THEN g[7] # "local" ELSE g[1] # 0)
        late == {i \in DOMAIN Ev.got : \E x \in X : (Ev.got[i][1] \in {-1, x[1]}) /\ <<x, Ev.got[i][3]>> \in S.maybe}
        have == [i \in DOMAIN Ev.got \ late |-> Ev.got[i]]
        exactly == {i \in DOMAIN have : ~ours(have[i])}
        loosely == DOMAIN have \ exactly
        \* records by id, to see the order
        byid(x) == [m \in {k.id : k \in ToSet(imm[x] \o due[x])} |-> (CHOOSE k \in ToSet(imm[x] \o due[x]) : k.id = m)]
        sub(x, ty) == SelectSeq(Ev.got, LAMBDA g : g[2] = ty /\ (IF ty < 3 THEN g[1] = x[1] ELSE g[7] = From(x)) /\ \E k \in ToSet(imm[x] \o due[x]) : k.id = g[3])
        inOrder(x, ty) ==
            \E b \in {byid(x)} : \E s \in {LET z == sub(x, ty) IN [i \in DOMAIN z |-> b[z[i][3]]]} :
                /\ \A w \in 1..2 : Sorted(SelectSeq(s, LAMBDA m : Line(m.ch) = w), LAMBDA m : <<m.tick, m.arr>>)
                /\ \A ch \in 3..5, p \in {"m", "x"} : Sorted(SelectSeq(s, LAMBDA m : m.ch = ch /\ m.path = p), LAMBDA m : IF ch = 3 THEN <<m.tick, m.arr, m.batch, m.id>> ELSE <<m.tick, m.arr, m.pos>>)
        ordered1(x, ty) == \A p \in {"m", "x"} : \E b \in {byid(x)} : \E s \in {LET z == sub(x, ty) IN [i \in DOMAIN z |-> b[z[i][3]]]} :
                Sorted(SelectSeq(s, LAMBDA m : m.ch = 1 /\ m.path = p), LAMBDA m : <<m.batch, m.id>>)
        \* an endpoint whose network loses packets: what is seen was sent to it, is new and is not early
        sane(g) == \E x \in X : /\ (IF g[2] < 3 THEN g[1] = x[1] ELSE g[7] = From(x)) /\ x # Host
                                 /\ \E m \in S.hist[x] : /\ m.id = g[3] /\ m.ty = g[2] /\ m.bad = 0
                                                          /\ (g[2] < 3 => (m.ch = g[5] /\ g[4] >= m.tick /\ (Line(m.ch) # 0 => S.tl[x][Line(m.ch)] >= g[4])))
                                                          /\ (Reliable(m.ch) => <<x, m.id>> \notin S.seen)
        \* an event does not say on which link it came: ids are unique per message, but one message can have several receivers
        endpoint(g) == IF g[2] < 3 THEN At(Ev.a, g[1]) ELSE CHOOSE x \in X : g[7] = From(x)
        isLine(g) == \E x \in E : \E m \in ToSet(imm[x] \o due[x]) : m.id = g[3] /\ Line(m.ch) # 0
        M2 == {i \in exactly : (have[i][5] >= 3) \/ (have[i][1] = -1 /\ isLine(have[i]))}
        want2 == UNION {{SubSeq(Seen(x, m), 1, 5) : m \in ToSet(due[x])} : x \in E}
    IN  [ok |-> /\ G({"M01"}, "what an application sees of a frame is what was sent to it, with its type, tick, channel, sender and references, once",
                     Same({have[i] : i \in exactly}, want) /\ Cardinality(exactly) = total)
                /\ G({"M01"}, "what is seen over a lossy network was sent in this connection to this receiver and is seen once",
                     \A i \in loosely : sane(have[i]))
                /\ G({"M01"}, "nothing is seen twice in a frame",
                     \A i, j \in loosely : (i < j /\ have[i][3] = have[j][3] /\ endpoint(have[i]) = endpoint(have[j]))
                        => \E m \in S.hist[endpoint(have[i])] : m.id = have[i][3] /\ ~Reliable(m.ch))
                /\ G({"M01"}, "an ordered channel keeps the order of a type's messages", \A x \in E, ty \in 0..5 : ordered1(x, ty))
                /\ G({"M02"}, "a message that follows a timeline is seen in the first frame in which that has reached its tick, once",
                     Same({SubSeq(have[i], 1, 5) : i \in M2}, want2) /\ Cardinality(M2) = Cardinality(want2))
                /\ G({"M02"}, "nothing is seen before its timeline has reached its tick",
                     \A i \in loosely : have[i][5] >= 3 => \E x \in X : x[1] = have[i][1] /\ S.tl[x][Line(have[i][5])] >= have[i][4])
                /\ G({"M02"}, "messages of a timeline come in the order of their ticks, and as received within a tick", \A x \in E, ty \in 0..5 : inOrder(x, ty))
        , S |-> [S EXCEPT !.got = got,
                          !.sent = [y \in DOMAIN @ |-> IF S.exact /\ y # Host /\ Other(y) \in X /\ av[Other(y)] # <<>>
                                                       THEN LET gone == {m.id : m \in ToSet(av[Other(y)])} IN SelectSeq(@[y], LAMBDA m : m.id \notin gone) ELSE @[y]],
                          !.loc = [x \in DOMAIN @ |-> IF x \in X THEN <<>> ELSE @[x]],
                          !.pend = [x \in DOMAIN @ |-> IF x \in X THEN NotDue(pend[x], S.tl[x]) ELSE @[x]],
                          !.seen = @ \cup {<<endpoint(have[i]), have[i][3]>> : i \in loosely},
                          !.fr = @ + 1]]
\* after a while without losses everything sent reliably is there
EndStep ==
    [ok |-> /\ G({"M01"}, "what was sent on a reliable channel arrives", S.exact \/
                 \A x \in DOMAIN S.up : (x # Host /\ S.up[x] /\ S.up[Other(x)]) =>
                    \A i \in DOMAIN S.sent[Other(x)] : LET m == S.sent[Other(x)][i] IN (m.ch \in {0, 1} /\ m.bad = 0) => <<x, m.id>> \in S.seen)
            /\ G({"M01", "M02"}, "nothing is left on its way", S.exact => \A x \in DOMAIN S.up : (x # Host /\ S.up[x] /\ S.up[Other(x)]) => S.sent[x] = <<>>)
    , S |-> S]

Do(r) == r.ok /\ S' = TLCEval(r.S)
Next ==
    /\ l <= Len(Log)
    /\ l' = l + 1
    /\ CASE Ev.k = "reset" -> S' = S0(Ev.n, Ev.host, Ev.exact)
         [] Ev.k = "up" -> \E r \in {UpStep} : Do(r)
         [] Ev.k = "tl" -> \E r \in {TlStep} : Do(r)
         [] Ev.k = "map" -> \E r \in {MapStep} : Do(r)
         [] Ev.k = "burst" -> \E r \in {BurstStep} : Do(r)
         [] Ev.k = "op" -> \E r \in {OpStep} : Do(r)
         [] Ev.k = "recv" -> \E r \in {RecvStep} : Do(r)
         [] Ev.k = "flush" -> \E r \in {FlushStep} : Do(r)
         [] Ev.k = "end" -> \E r \in {EndStep} : Do(r)
         [] OTHER -> PrintT("CLAUSE " \o Prop \o ": no panic (" \o ToString(Ev.k) \o ")") /\ FALSE
Spec == Init /\ [][Next]_vars
View == l
Accepted == LET n == TLCGet("stats").diameter IN IF n > Len(Log) THEN TRUE ELSE PrintT(<<"REJECTED", n>>) /\ FALSE
===============================================================================
