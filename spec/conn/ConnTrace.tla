------------------------------ MODULE ConnTrace ------------------------------
(* Conformance of connections with ConnDefs (C01-C04).                                           *)
EXTENDS ConnDefs, Json, IOUtils

CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S
vars == <<l, S>>
Ev == Log[l]
G(ps, clause, cond) ==
    IF Prop \in ps THEN IF cond THEN TRUE ELSE PrintT("CLAUSE " \o Prop \o ": " \o clause) /\ FALSE
    ELSE TRUE
Init == l = 1 /\ S = Life0

-------------------------------------------------------------------------------
SetStep ==
    LET U == 0..Ev.n
        want == SetOp(Ev.op, Ev.a, Ev.b, U)
    IN  [ok |-> /\ G({"C04"}, "combining targets gives the combination of the sets of peers they stand for",
                     Den(Ev.r, U) = want /\ ((Ev.n \in want) = Ev.r.neg))
                /\ G({"C04"}, "a target targets exactly the peers of the set it stands for", ToSet(Ev.probe) = want)
                /\ G({"C04"}, "a target is empty only if it stands for no peer", Ev.empty = (want = {} /\ ~Ev.r.neg))
        , S |-> S]
ResStep ==
    LET reg == [p \in {m[1] : m \in ToSet(Ev.map)} |-> (CHOOSE m \in ToSet(Ev.map) : m[1] = p)[2]]
        want == Recipients(Ev.t, ToSet(Ev.cs), reg)
    IN  [ok |-> /\ G({"C04"}, "a target resolves to exactly its peers among the clients", ToSet(Ev.got) = want /\ Len(Ev.got) = Cardinality(want))
                /\ G({"C04"}, "each targeted client is visited once", ToSet(Ev.apply) = want /\ Len(Ev.apply) = Cardinality(want))
        , S |-> S]
WireStep ==
    LET U == 0..Ev.n
    IN  [ok |-> /\ G({"C04"}, "a target arrives as the same set of peers", Ev.eq /\ ToSet(Ev.probe) = Den(Ev.t, U))
                /\ G({"C04"}, "a target takes the announced number of bytes", Ev.len = Ev.said)
                /\ G({"C04"}, "a cut off target is refused", Ev.cut = 0)
        , S |-> S]

-------------------------------------------------------------------------------
TopoStep ==
    LET m == Mode(ToSet(Ev.es))
    IN  [ok |-> /\ G({"C03"}, "after a frame the topology is the one of the present connections and servers", Ev.m = m)
                /\ G({"C03"}, "the roles are those of the topology", Ev.run = Roles(m))
        , S |-> S]

-------------------------------------------------------------------------------
One(seq) == IF seq = <<>> THEN "none" ELSE seq[1]
LifeStep ==
    LET L == LifeOp(S, Ev.op, Ev.e, Ev.s, Ev.p, Ev.x)
        O == ToSet(Ev.es)
        Obs == {o.id : o \in O}
        Of(o) == L.en[o.id]
        reg == {<<p, L.reg[p]>> : p \in DOMAIN L.reg}
    IN  [ok |-> /\ G({"C01"}, "an entity has at most one link state, one connection state and one server state",
                     \A o \in O : Len(o.link) <= 1 /\ Len(o.conn) <= 1 /\ Len(o.srv) <= 1)
                /\ G({"C01"}, "the state kept in a link is the state it is in",
                     \A o \in O : (o.ls # "none" /\ o.link # <<>>) => o.ls = One(o.link))
                /\ G({"C01"}, "no registration remains for an entity that is gone or disconnected",
                     \A m \in ToSet(Ev.pm) : m \in reg)
                /\ G({"C01"}, "every connected peer is registered under its identity", ToSet(Ev.pm) = reg)
                /\ G({"C02"}, "exactly the entities of ended connections and servers are removed", Obs = DOMAIN L.en)
                /\ G({"C01", "C02"}, "connections go through the expected states", \A o \in O : (o.id \in DOMAIN L.en) => One(o.conn) = Of(o).conn)
                /\ G({"C01", "C02"}, "links go through the expected states", \A o \in O : (o.id \in DOMAIN L.en) => One(o.link) = Of(o).link)
                /\ G({"C01", "C02"}, "servers go through the expected states", \A o \in O : (o.id \in DOMAIN L.en) => One(o.srv) = Of(o).srv)
                /\ G({"C02"}, "exactly the connected in-process client of a server is its host client",
                     \A o \in O : (o.id \in DOMAIN L.en) => o.host = Of(o).host)
                /\ G({"C02"}, "a server with a newly connected host client is a host server, without one it is not",
                     (Ev.op \in {"connect", "disconnect"} /\ S.en[Ev.e].kind = "hc" /\ L # S) =>
                        \A o \in O : (o.id = S.en[Ev.e].of /\ L.en[Ev.e].conn # "connecting") => o.hs = L.en[Ev.e].host)
                /\ G({"C02"}, "a server holds exactly its links", \A o \in O : (o.kind = "rs" /\ o.id \in DOMAIN L.en) => ToSet(o.col) = KidsOf(L, o.id) /\ Len(o.col) = Cardinality(KidsOf(L, o.id)))
                /\ G({"C01"}, "a connection keeps the identity of its peer", \A o \in O : (o.id \in DOMAIN L.en /\ Of(o).conn = "connected") => o.rid = Of(o).rid)
        , S |-> L]

-------------------------------------------------------------------------------
Do(r) == r.ok /\ S' = TLCEval(r.S)
Reset == Ev.k = "reset" /\ S' = Life0
Next ==
    /\ l <= Len(Log) /\ l' = l + 1
    /\ \/ Reset
       \/ (Ev.k = "set" /\ \E r \in {SetStep} : Do(r))
       \/ (Ev.k = "res" /\ \E r \in {ResStep} : Do(r))
       \/ (Ev.k = "wire" /\ \E r \in {WireStep} : Do(r))
       \/ (Ev.k = "topo" /\ \E r \in {TopoStep} : Do(r))
       \/ (Ev.k = "life" /\ \E r \in {LifeStep} : Do(r))
View == l
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log) \/ (PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE)
===============================================================================
