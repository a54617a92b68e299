------------------------------ MODULE ConnDefs ------------------------------
(* What a connection is: sets of peers (C04), the role of the application (C03) and the life of  *)
(* links, connections and servers with the table of connected peers (C01, C02).                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

-------------------------------------------------------------------------------
(* Targets: a set of peers or the complement of one. U is a universe with peers never mentioned. *)
Den(t, U) == IF t.neg THEN U \ ToSet(t.ids) ELSE U \cap ToSet(t.ids)
SetOp(op, a, b, U) ==
    CASE op = "inter" -> Den(a, U) \cap Den(b, U)
      [] op = "union" -> Den(a, U) \cup Den(b, U)
      [] op = "excl"  -> Den(a, U) \ Den(b, U)
      [] op = "inv"   -> U \ Den(a, U)
      [] op = "same"  -> Den(a, U)

(* The recipients of a target among the clients of a server. reg: peer -> entity *)
Recipients(t, clients, reg) ==
    LET named == {reg[p] : p \in ToSet(t.ids) \cap DOMAIN reg}
    IN  {c \in clients : (c \in named) # t.neg}

-------------------------------------------------------------------------------
(* Topology. es: set of entities [e, cl, sv, hc, lo, pp, cn, st]; pp 0 none 1 inactive 2 candidate 3 joined *)
Ids(S) == {x.e : x \in S}
MinOr(S, d) == IF S = {} THEN d ELSE Min(S)
Sorted(S) == SetToSortSeq(S, <)
Mode(es) ==
    LET clients == {x \in es : x.cl /\ x.cn}
        servers == {x.e : x \in {y \in es : y.sv /\ y.st}}
        lost == {x.e : x \in {y \in es : y.hc /\ y.cn /\ ~y.cl}}
        active == {x.e : x \in {y \in es : y.pp > 1}}
        conv == {x.e : x \in {y \in clients : y.pp = 0 \/ y.hc}}
        joined == {x.e : x \in {y \in es : y.pp = 3 /\ y.cn}}
        plain == {x \in clients : x.pp = 0}
        c == CHOOSE x \in plain : TRUE
        s == CHOOSE x \in servers : TRUE
    IN  IF lost # {} THEN <<"hostnoclient", <<Min(lost)>>>>
        ELSE IF active # {}
        THEN IF conv # {} \/ servers # {} THEN <<"mixedp2p", <<Min(active), MinOr(conv, -1), MinOr(servers, -1)>>>>
             ELSE IF joined = {} \/ \E x \in es : x.pp = 2 THEN <<"undefined", <<>>>>
             ELSE <<"p2p", Sorted(joined)>>
        ELSE IF Cardinality(plain) > 1 THEN <<"clients", Sorted(Ids(plain))>>
        ELSE IF Cardinality(servers) > 1 THEN <<"servers", Sorted(servers)>>
        ELSE IF plain = {} THEN IF servers = {} THEN <<"undefined", <<>>>> ELSE <<"server", <<s>>>>
        ELSE IF c.hc
        THEN IF c.lo = -1 THEN <<"hostnolink", <<c.e>>>>
             ELSE IF c.lo \in servers THEN <<"host", <<c.lo, c.e>>>>
             ELSE <<"hostnotstarted", <<c.e, c.lo>>>>
        ELSE IF servers = {} THEN <<"client", <<c.e>>>> ELSE <<"mixed", <<c.e, s>>>>
(* is_client, is_server, is_headless_server, is_host_server, is_p2p *)
Roles(m) == <<m[1] = "client", m[1] \in {"server", "host"}, m[1] = "server", m[1] = "host", m[1] = "p2p">>

-------------------------------------------------------------------------------
(* Life of links, connections and servers. L.en: entity -> record, L.reg: peer -> entity.        *)
(* kinds: rs raw server, lo link of a server, rc raw client, hc in-process client of a server    *)
SERVER == 100
HOSTID == 101
Life0 == [en |-> <<>>, reg |-> <<>>]
Ent(kind, of, addr) == [kind |-> kind, of |-> of, addr |-> addr, link |-> IF kind = "rs" THEN "unlinked" ELSE "none",
                        conn |-> IF kind = "rc" THEN "disconnected" ELSE "none", srv |-> "none", cof |-> FALSE, host |-> FALSE, rid |-> -1]
Alive(L, e) == e \in DOMAIN L.en
Register(L, p, e) == [L EXCEPT !.reg = (p :> e) @@ @]
Forget(L, p, e) == IF p \in DOMAIN L.reg /\ L.reg[p] = e THEN [L EXCEPT !.reg = [x \in DOMAIN @ \ {p} |-> @[x]]] ELSE L
KidsOf(L, s) == {x \in DOMAIN L.en : L.en[x].kind \in {"lo", "hc"} /\ L.en[x].of = s}

SetConn(L, e, m) ==
    IF L.en[e].conn = m THEN L ELSE
    LET L1 == [L EXCEPT !.en[e].conn = m]
    IN  CASE m = "connected" -> Register(L1, L.en[e].rid, e)
          [] m = "disconnected" -> Forget(L1, L.en[e].rid, e)
          [] OTHER -> L1
Erase(L, e) ==
    LET L1 == Forget(Forget(L, L.en[e].rid, e), IF L.en[e].kind = "rs" THEN SERVER ELSE -2, e)
    IN  [L1 EXCEPT !.en = [x \in DOMAIN @ \ {e} |-> @[x]]]
RECURSIVE EraseAll(_, _)
EraseAll(L, es) == IF es = {} THEN L ELSE LET e == CHOOSE x \in es : TRUE IN EraseAll(Erase(L, e), es \ {e})
(* a server takes its links with it *)
Despawn(L, e) == IF L.en[e].kind = "rs" THEN Erase(EraseAll(L, KidsOf(L, e)), e) ELSE Erase(L, e)

HostConnect(L, h) ==
    IF L.en[h].host THEN L
    ELSE IF L.en[L.en[h].of].srv # "started" THEN SetConn(L, h, "connecting")
    ELSE SetConn([L EXCEPT !.en[h].rid = HOSTID, !.en[h].cof = TRUE, !.en[h].host = TRUE], h, "connected")
HostDisconnect(L, h) ==
    IF L.en[h].host \/ L.en[h].conn = "connecting" THEN SetConn([L EXCEPT !.en[h].host = FALSE], h, "disconnected") ELSE L

(* requests for a connection which were waiting for the server go through when it starts *)
RECURSIVE Retry(_, _)
Retry(L, hs) == IF hs = {} THEN L ELSE
    LET h == CHOOSE x \in hs : TRUE
        L1 == IF L.en[h].conn = "connecting" THEN HostConnect(L, h) ELSE L
    IN  Retry(L1, hs \ {h})
SetSrv(L, s, m) ==
    IF L.en[s].srv = m THEN L ELSE
    LET L1 == [L EXCEPT !.en[s].srv = m]
    IN  CASE m = "started" -> Retry(Register(L1, SERVER, s), {h \in KidsOf(L, s) : L.en[h].kind = "hc"})
          [] m = "stopped" -> Forget(L1, SERVER, s)
          [] OTHER -> L1

SetLinked(L, e) ==
    IF L.en[e].link = "linked" THEN L ELSE
    LET L1 == [L EXCEPT !.en[e].link = "linked"]  x == L.en[e]
    IN  CASE x.kind = "rs" -> SetSrv(L1, e, "started")
          [] x.kind = "rc" -> SetConn([L1 EXCEPT !.en[e].rid = IF x.rid = -1 THEN SERVER ELSE x.rid], e, "connected")
          [] x.kind = "lo" -> SetConn([L1 EXCEPT !.en[e].rid = x.addr, !.en[e].cof = TRUE], e, "connected")
          [] OTHER -> L1
SetLinking(L, e) == IF L.en[e].link = "linked" THEN L ELSE [L EXCEPT !.en[e].link = "linking"]

LinkDown(L, e) ==
    IF L.en[e].link = "unlinked" THEN L ELSE
    LET L1 == [L EXCEPT !.en[e].link = "unlinked"] IN IF L.en[e].kind = "rs" THEN L1 ELSE SetConn(L1, e, "disconnected")
RECURSIVE Drop(_, _)
Drop(L, es) == IF es = {} THEN L ELSE LET e == CHOOSE x \in es : TRUE IN Drop(Erase(LinkDown(L, e), e), es \ {e})
Unlink(L, e) ==
    IF L.en[e].kind # "rs" \/ L.en[e].link = "unlinked" THEN LinkDown(L, e) ELSE
    LET L1 == LinkDown(L, e)
        L2 == IF L.en[e].srv = "started" THEN SetSrv(L1, e, "stopped") ELSE L1
    IN  Drop(L2, KidsOf(L, e))

RECURSIVE MarkAll(_, _, _)
MarkAll(L, es, m) == IF es = {} THEN L ELSE LET e == CHOOSE x \in es : TRUE IN MarkAll(SetConn(L, e, m), es \ {e}, m)
Stop(L, s) ==
    IF L.en[s].srv = "stopped" THEN L ELSE
    LET L1 == Unlink(SetSrv(L, s, "stopping"), s)
        left == {x \in KidsOf(L1, s) : L1.en[x].kind = "lo" /\ L1.en[x].cof}
    IN  SetSrv(MarkAll(L1, left, "disconnecting"), s, "stopped")

Disconnect(L, e) ==
    CASE L.en[e].kind = "hc" -> HostDisconnect(L, e)
      [] L.en[e].kind = "rc" -> IF L.en[e].conn = "disconnected" THEN L ELSE Unlink(L, e)
      [] OTHER -> L
Connect(L, e) == IF L.en[e].kind = "hc" THEN HostConnect(L, e) ELSE L

(* the end of a frame: server-side connections which were told to disconnect are gone *)
Frame(L) == EraseAll(L, {x \in DOMAIN L.en : L.en[x].conn = "disconnecting" /\ L.en[x].cof})

Spawn(L, e, what, s, p) ==
    LET L1 == [L EXCEPT !.en = (e :> Ent(IF what = "lol" THEN "lo" ELSE what, s, p)) @@ @]
    IN  IF what = "lol" THEN SetLinked(L1, e) ELSE L1
Mark(L, e, m) == IF L.en[e].kind = "rs" THEN SetSrv(L, e, m) ELSE SetConn(L, e, m)

LifeOp(L, op, e, s, p, x) ==
    CASE op = "spawn" -> Spawn(L, e, x, s, p)
      [] op = "linked" -> SetLinked(L, e)
      [] op = "linking" -> SetLinking(L, e)
      [] op = "unlink" -> Unlink(L, e)
      [] op = "stop" -> Stop(L, e)
      [] op = "connect" -> Connect(L, e)
      [] op = "disconnect" -> Disconnect(L, e)
      [] op = "mark" -> Mark(L, e, x)
      [] op = "despawn" -> Despawn(L, e)
      [] op = "update" -> Frame(L)

(* What must hold of every state *)
Registered(L) ==
    \A p \in DOMAIN L.reg : LET e == L.reg[p] IN
        /\ e \in DOMAIN L.en
        /\ \/ L.en[e].rid = p /\ L.en[e].conn \in {"connected", "connecting", "disconnecting"}
           \/ p = SERVER /\ L.en[e].kind = "rs" /\ L.en[e].srv \in {"started", "stopping", "starting"}
===============================================================================
