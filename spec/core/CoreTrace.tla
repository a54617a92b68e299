------------------------------ MODULE CoreTrace ------------------------------
(* Conformance of the value types with CoreDefs (K01..K04): every recorded operation must give   *)
(* the result the specification gives.                                                           *)
EXTENDS CoreDefs, Json, IOUtils

CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S
vars == <<l, S>>
Ev == Log[l]
G(ps, clause, cond) ==
    IF Prop \in ps THEN IF cond THEN TRUE ELSE PrintT("CLAUSE " \o Prop \o ": " \o clause) /\ FALSE
    ELSE TRUE

(* h: value history; c, a: authoritative history as it should be and as it is stored (see         *)
(* known_findings.json); q: the ready buffer's bag as a sequence <<key, item>>; s: sequence slots *)
(* held: payloads handed off by the pool and still held, id -> content                            *)
New == [h |-> <<>>, c |-> <<>>, a |-> <<>>, q |-> <<>>, s |-> [i \in 0..7 |-> None], held |-> [x \in {} |-> 0]]
Init == l = 1 /\ S = New
Same(ok) == [ok |-> ok, S |-> S]

Sgn(b) == IF b THEN 1 ELSE 0
TickStep ==
    LET a == Ev.a  b == Ev.b  u == Ev.u  i == Ev.i
    IN  Same(/\ G({"K01"}, "the difference of two ticks is the saturated difference of their numbers", Ev.sub = TickSub(a, b))
             /\ G({"K01"}, "adding the difference gets back to the other tick",
                  WSub(a, b) = TickSub(a, b) => Ev.back = a)
             /\ G({"K01"}, "adding to a tick saturates at the ends",
                  Ev.addt = TickAdd(a, u) /\ Ev.addu = TickAdd(a, u) /\ Ev.addi = TickAdd(a, i) /\ Ev.subu = TickAdd(a, WNeg(u)))
             /\ G({"K01"}, "tick order agrees with the numbers", Ev.lt = WLt(a, b) /\ Ev.eq = (a = b))
             /\ G({"K01"}, "set-if-lower keeps the minimum", Ev.low = IF WLt(u, a) THEN u ELSE a))

InstStep ==
    LET a == Ev.a  b == Ev.b  d == Ev.d
        ab == Sub4(a, b)  ad == Abs4(d)
    IN  Same(/\ G({"K01"}, "the difference of two instants is exact", Ev.sub = ab)
             /\ G({"K01"}, "adding the difference gets back to the other instant", Ev.back = a)
             /\ G({"K01"}, "moving an instant by a delta and back is exact", Ev.add = Add4(a, d) /\ Ev.min = Sub4(a, d))
             /\ G({"K01"}, "an instant is its tick plus its overstep", Ev.tick = Int4(a) /\ Ev.over = a[3] /\ Ev.join = <<a[1], a[2], a[3], 0>>)
             /\ G({"K01"}, "instants are ordered as numbers", Ev.lt = Lt4(a, b))
             /\ G({"K01"}, "the sign of a delta is that of its number", Ev.neg = IsNeg4(d) /\ Ev.pos = (~IsNeg4(d) /\ d # <<0, 0, 0, 0>>))
             /\ G({"K01"}, "delta sums, differences and negations are exact",
                  Ev.dneg = Neg4(d) /\ Ev.dsum = Add4(d, ab) /\ Ev.ddif = Sub4(d, ab))
             /\ G({"K01"}, "a delta rounds to the nearest whole tick", Ev.round = Round4(d))
             /\ G({"K01"}, "the parts of a delta are those of its magnitude", Ev.dt = Int4(ad) /\ Ev.dover = ad[3])
             /\ G({"K01", "K04"}, "an encoded delta keeps its ticks and the upper byte of its fraction",
                  Ev.enc = <<ad[1], ad[2], (ad[3] \div 256) * 256, 0>> /\ Ev.left = 0))

(* Durations: us microseconds at tm milliseconds a tick, in 256ths of a tick; a few of them is    *)
(* what single precision leaves                                                                   *)
DurStep ==
    LET want == (Ev.us * 32) \div (Ev.tm * 125)
    IN  Same(/\ G({"K01"}, "a duration converts to the ticks it spans", Ev.inst - want \in -1..1)
             /\ G({"K01"}, "a negative duration converts like the positive one", Ev.negd = -Ev.posd /\ Ev.posd - want \in -1..1)
             /\ G({"K01"}, "converting there and back keeps the duration", Ev.rt - Ev.us \in -Ev.tol..Ev.tol /\ Ev.rt2 - Ev.us \in -Ev.tol..Ev.tol))

WrapStep ==
    LET d == WrapDiff(B, Ev.a, Ev.b)
    IN  Same(/\ G({"K01"}, "the wrapping difference is the signed distance", Ev.diff = d /\ Ev.sub = WrapDiff(B, Ev.b, Ev.a))
             /\ G({"K01"}, "ids less than half the space apart are ordered by the shorter way round",
                  d # -(B \div 2) => (Ev.lt = (d > 0) /\ Ev.gt = (d < 0) /\ Ev.eq = (d = 0)))
             /\ G({"K01"}, "adding to an id wraps around",
                  Ev.addi = (Ev.a + Ev.i) % B /\ Ev.subu = (Ev.a - Ev.b) % B /\ Ev.inc = (Ev.a + Ev.b) % B))

-------------------------------------------------------------------------------
Answers(h, q) == \A i \in DOMAIN q : q[i][2] = HGet(h, q[i][1]) /\ q[i][3] = (IF HGet(h, q[i][1]) = 0 THEN None ELSE HGet(h, q[i][1]))
HistStep ==
    LET h == S.h  t == Ev.t
        h2 == CASE Ev.op = "add" -> HAdd(h, t, Ev.v)
                [] Ev.op = "until" -> HClearUntil(h, t)
                [] Ev.op = "popuntil" -> HClearUntil(h, t)
                [] Ev.op = "after" -> HClearAfter(h, t)
                [] Ev.op = "except" -> HExcept(h, t)
                [] Ev.op = "pop" -> IF h = <<>> THEN h ELSE Tail(h)
                [] Ev.op = "clear" -> <<>>
                [] Ev.op = "last" -> IF h = <<>> THEN h ELSE [h EXCEPT ![Len(h)][1] = t]
                [] Ev.op = "shift" -> [i \in DOMAIN h |-> <<h[i][1] + t, h[i][2]>>]
        NoneAt0(v) == IF v = 0 THEN None ELSE v
    IN  [ok |-> /\ G({"K02"}, "every tick is answered with the newest value recorded at or before it", Answers(h2, Ev.q))
                /\ G({"K02"}, "popping up to a tick returns the value as of that tick",
                     (Ev.op \in {"popuntil", "except"}) => Ev.r = HGet(h, t))
                /\ G({"K02"}, "popping returns the oldest value",
                     (Ev.op = "pop") => Ev.r = (IF h = <<>> THEN None ELSE h[1][2]))
                /\ G({"K02"}, "the newest, second newest and oldest values are those recorded",
                     /\ Ev.new = (IF h2 = <<>> THEN <<>> ELSE Last(h2)) /\ Ev.old = (IF h2 = <<>> THEN <<>> ELSE h2[1])
                     /\ (h2 = <<>> \/ Ev.at >= Last(h2)[1]) => Ev.sec = NoneAt0(HSecond(h2, Ev.at)))
                /\ G({"K02"}, "iterating gives the present values in order",
                     Ev.it = SelectSeq(h2, LAMBDA e : e[2] # 0))
        , S |-> [S EXCEPT !.h = h2]]

(* One view of an authoritative history answers every question of the event *)
CView(c, c2) ==
    LET t == Ev.t
    IN  /\ \A i \in DOMAIN Ev.q : Ev.q[i][2] = CGet(c2, Ev.q[i][1]) /\ Ev.q[i][3] = CAt(c2, Ev.q[i][1])
                                  /\ Ev.q[i][4] = (IF CGet(c2, Ev.q[i][1]) = 0 THEN None ELSE CGet(c2, Ev.q[i][1]))
        /\ Ev.it = CIter(c2)
        /\ Ev.new = (IF c2 = <<>> \/ CVal(c2, Len(c2)) <= 0 THEN <<>> ELSE <<Last(c2).t, CVal(c2, Len(c2))>>)
        /\ Ev.first = (IF c2 = <<>> \/ CVal(c2, 1) <= 0 THEN <<>> ELSE <<c2[1].t, CVal(c2, 1)>>)
        /\ (Ev.op = "unch") => Ev.r = Sgn(CUnchangedOk(c, t))
        /\ (Ev.op = "push") => Ev.r = (IF c # <<>> /\ t > Last(c).t /\ CVal(c, Len(c)) > 0 THEN Last(c).t ELSE None)
        /\ (Ev.op = "pop") => Ev.r = (IF c = <<>> \/ CVal(c, 1) <= 0 THEN None ELSE CVal(c, 1))
COp(c, compress) ==
    LET t == Ev.t
    IN  CASE Ev.op \in {"ins", "sorted"} -> CInsert(c, t, Ev.v, compress)
          [] Ev.op = "expl" -> CInsert(c, t, Ev.v, FALSE)
          [] Ev.op = "unch" -> CUnchanged(c, t)
          [] Ev.op = "push" -> IF c # <<>> /\ t > Last(c).t /\ CVal(c, Len(c)) > 0 THEN CUnchanged(c, t) ELSE c
          [] Ev.op = "pop" -> CPop(c)
          [] Ev.op = "until" -> CClearUntil(c, t)
          [] Ev.op = "clear" -> <<>>
          [] Ev.op = "shift" -> CShift(c, t)
ConfStep ==
    LET c2 == COp(S.c, FALSE)  a2 == COp(S.a, TRUE)
    IN  [ok |-> G({"K02"}, "an authoritative history answers every tick with the newest state confirmed at or before it",
                  CView(S.c, c2) \/ CView(S.a, a2))
        , S |-> [S EXCEPT !.c = c2, !.a = a2]]

-------------------------------------------------------------------------------
Keys(q) == [i \in DOMAIN q |-> q[i][1]]
Bag(q) == [x \in ToSet(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
Upto(q, k) == SelectSeq(q, LAMBDA e : e[1] <= k)
MinKey(q) == Min({q[i][1] : i \in DOMAIN q})
MaxKey(q) == Max({q[i][1] : i \in DOMAIN q})
Less(q, out) == LET RECURSIVE D(_, _)
                    D(x, o) == IF o = <<>> THEN x ELSE
                               LET i == CHOOSE j \in DOMAIN x : x[j] = o[1] IN D(RemoveAt(x, i), Tail(o))
                IN D(q, out)
InBag(q, out) == \A x \in ToSet(out) : Cardinality({i \in DOMAIN out : out[i] = x}) <= Cardinality({i \in DOMAIN q : q[i] = x})
Sorted(out) == \A i \in 1..(Len(out) - 1) : out[i][1] <= out[i + 1][1]
ReadyStep ==
    LET q == S.q  k == Ev.t  r == Ev.r   \* r: what came out, as a sequence of <<key, item>>
        due == Upto(q, k)
        good == CASE Ev.op = "push" -> r = <<>>
                  [] Ev.op = "popitem" -> IF due = <<>> THEN r = <<>> ELSE Len(r) = 1 /\ InBag(q, r) /\ r[1][1] = MinKey(q)
                  [] Ev.op = "peek" -> IF due = <<>> THEN r = <<>> ELSE Len(r) = 1 /\ InBag(q, r) /\ r[1][1] = MinKey(q)
                  [] Ev.op = "has" -> (r # <<>>) = (due # <<>>)
                  [] Ev.op = "popuntil" -> IF due = <<>> THEN r = <<>> ELSE Len(r) = 1 /\ InBag(q, r) /\ r[1][1] = MaxKey(due)
                  [] Ev.op = "drainuntil" -> Bag(r) = Bag(due) /\ Sorted(r)
                  [] Ev.op = "drainafter" -> Bag(r) = Bag(SelectSeq(q, LAMBDA e : e[1] >= k))
                  [] Ev.op = "drain" -> Bag(r) = Bag(q)
        q2 == CASE Ev.op = "push" -> Append(q, <<k, Ev.v>>)
                [] Ev.op = "popitem" -> IF InBag(q, r) THEN Less(q, r) ELSE q
                [] Ev.op \in {"peek", "has"} -> q
                [] Ev.op \in {"popuntil", "drainuntil"} -> SelectSeq(q, LAMBDA e : e[1] > k)
                [] Ev.op = "drainafter" -> SelectSeq(q, LAMBDA e : e[1] < k)
                [] Ev.op = "drain" -> <<>>
    IN  [ok |-> /\ G({"K03"}, "a ready buffer releases exactly the items whose key is reached, in key order, each once", good)
                /\ G({"K03"}, "a ready buffer counts the items it holds", Ev.len = Len(q2))
        , S |-> [S EXCEPT !.q = q2]]

SeqStep ==
    LET i == Ev.t % 8
        s2 == CASE Ev.op = "push" -> [S.s EXCEPT ![i] = Ev.v]
                [] Ev.op = "rem" -> [S.s EXCEPT ![i] = None]
                [] Ev.op = "get" -> S.s
                [] Ev.op = "clear" -> [x \in 0..7 |-> None]
    IN  [ok |-> G({"K03"}, "a sequence buffer returns the last value put in the id's place and nothing else",
                  /\ (Ev.op \in {"rem", "get"}) => Ev.r = S.s[i]
                  /\ \A j \in DOMAIN Ev.q : Ev.q[j][2] = s2[Ev.q[j][1] % 8])
        , S |-> [S EXCEPT !.s = s2]]

(* Buffer pool: held payloads never change, buffers come out empty and writable, the pool is bounded *)
PoolStep ==
    LET h2 == CASE Ev.op = "hand" -> Ev.id :> Ev.v @@ S.held
                [] Ev.op = "drop" -> [x \in DOMAIN S.held \ {Ev.id} |-> S.held[x]]
                [] OTHER -> S.held
    IN  [ok |-> /\ G({"K03"}, "a buffer comes out of the pool empty and large enough", (Ev.op = "take") => (Ev.len = 0 /\ Ev.cap >= Ev.want))
                /\ G({"K03"}, "what was handed off never changes while it is held",
                     {Ev.q[j][1] : j \in DOMAIN Ev.q} = DOMAIN h2 /\ \A j \in DOMAIN Ev.q : Ev.q[j][2] = h2[Ev.q[j][1]])
                /\ G({"K03"}, "the pool keeps no more buffers than allowed", Ev.hits <= Ev.most)
        , S |-> [S EXCEPT !.held = h2]]

-------------------------------------------------------------------------------
RtStep == Same(
    /\ G({"K04"}, "the announced length is the length written", Ev.n = Len(Ev.bytes))
    /\ G({"K04"}, "decoding what was encoded gives the value back and consumes exactly its bytes", Ev.ok /\ Ev.back = Ev.val /\ Ev.left = Ev.tail)
    /\ G({"K04"}, "no truncated encoding decodes", \A j \in DOMAIN Ev.trunc : ~Ev.trunc[j])
    /\ G({"K04"}, "integers are written in the shortest of four lengths", Ev.ty = "var" => Ev.bytes = VarEnc(Ev.val))
    /\ G({"K04"}, "a sequence is its length and its items", Ev.ty \in {"bytes", "vec", "small"} => Ev.bytes = VarEnc(<<0, 0, 0, Len(Ev.val)>>) \o Ev.val)
    /\ G({"K04"}, "ticks are four bytes, most significant first", Ev.ty = "tick" => Ev.bytes = Bytes2(Ev.val[1]) \o Bytes2(Ev.val[2])))
DecStep ==
    LET b == Ev.bytes  d == VarDec(b)
        big == d[2][1] # 0 \/ d[2][2] # 0 \/ d[2][3] # 0
        fit == d[1] # 0 /\ ~big /\ d[2][4] <= Len(b) - d[1]
    IN  Same(/\ G({"K04"}, "decoding reads no further than the bytes at hand", Ev.used <= Len(b))
             /\ G({"K04"}, "integers decode from any bytes as specified",
                  Ev.ty = "var" => (Ev.ok = (d[1] # 0) /\ (Ev.ok => (Ev.val = d[2] /\ Ev.used = d[1]))))
             /\ G({"K04"}, "a sequence decodes only if all its items are there, and to those",
                  Ev.ty \in {"bytes", "vec", "small"} =>
                      (Ev.ok = fit /\ (Ev.ok => (Ev.val = SubSeq(b, d[1] + 1, d[1] + d[2][4]) /\ Ev.used = d[1] + d[2][4]))))
             /\ G({"K04"}, "what decodes can be encoded and decodes to itself again", Ev.ok => Ev.again))

(* entity maps: remote -> local, both ways *)
Reset == Ev.k = "reset" /\ S' = New
Do(r) == r.ok /\ S' = TLCEval(r.S)
Next ==
    /\ l <= Len(Log) /\ l' = l + 1
    /\ \/ Reset
       \/ (Ev.k = "tick" /\ \E r \in {TickStep} : Do(r))
       \/ (Ev.k = "inst" /\ \E r \in {InstStep} : Do(r))
       \/ (Ev.k = "dur" /\ \E r \in {DurStep} : Do(r))
       \/ (Ev.k = "wrap" /\ \E r \in {WrapStep} : Do(r))
       \/ (Ev.k = "hist" /\ \E r \in {HistStep} : Do(r))
       \/ (Ev.k = "conf" /\ \E r \in {ConfStep} : Do(r))
       \/ (Ev.k = "ready" /\ \E r \in {ReadyStep} : Do(r))
       \/ (Ev.k = "seq" /\ \E r \in {SeqStep} : Do(r))
       \/ (Ev.k = "pool" /\ \E r \in {PoolStep} : Do(r))
       \/ (Ev.k = "rt" /\ \E r \in {RtStep} : Do(r))
       \/ (Ev.k = "dec" /\ \E r \in {DecStep} : Do(r))
View == l
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log) \/ (PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE)
===============================================================================
