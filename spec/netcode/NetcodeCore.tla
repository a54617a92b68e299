---------------------------- MODULE NetcodeCore ----------------------------
(* State and transitions of the connection protocol: one server, any number of      *)
(* connection attempts (each with its own token), packets as abstract records.      *)
(* Used by the exhaustive model (MCNetcode) and by the conformance spec.            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Max2(x, y) == IF x >= y THEN x ELSE y

(* packet kinds *)
REQUEST == 0  DENIED == 1  CHALLENGE == 2  RESPONSE == 3  KEEPALIVE == 4  PAYLOAD == 5  DISCONNECT == 6
Window == 256
SendEvery == 100

(* replay protection: numbers seen, highest number *)
Fresh == [seen |-> {}, mx |-> 0]
Old(w, s) == s \in w.seen \/ w.mx - s >= Window
Note(w, s) == [seen |-> w.seen \cup {s}, mx |-> Max2(w.mx, s)]

-----------------------------------------------------------------------------
(* Server. A link: sess = attempt connected through it (0: none); pend = attempt     *)
(* whose request it last accepted; lr, ls = last receive and send time; gone = the   *)
(* link entity is no more; wild = the holder of its session's key misbehaves.        *)
NewLink == [sess |-> 0, pend |-> 0, lr |-> 0, ls |-> 0, w |-> Fresh, gone |-> FALSE, wild |-> FALSE]
NConn(lk) == Cardinality({i \in DOMAIN lk : lk[i].sess # 0})
IdConn(att, lk, id) == \E i \in DOMAIN lk : lk[i].sess # 0 /\ att[lk[i].sess].id = id
DeniedId == 7

(* acc = [lk, owe: set of <<link, attempt, kind, code>>, ups: seq of <<link, payload>>, disc: links, con: links] *)
SRequest(att, max, t, acc, L, a) ==
    LET id == att[a].id
        lk == acc.lk
    IN  IF ~att[a].valid \/ lk[L].sess # 0 \/ IdConn(att, lk, id) THEN acc
        ELSE IF NConn(lk) >= max THEN [acc EXCEPT !.owe = @ \cup {<<L, a, DENIED, 0>>}]
        ELSE IF id = DeniedId THEN [acc EXCEPT !.owe = @ \cup {<<L, a, DENIED, 6>>}]
        ELSE [acc EXCEPT !.owe = @ \cup {<<L, a, CHALLENGE, 0>>},
                 !.lk = [i \in DOMAIN lk |->
                    IF i = L THEN [lk[i] EXCEPT !.pend = a,
                                     !.w = IF lk[i].pend # 0 /\ att[lk[i].pend].id = id THEN @ ELSE Fresh]
                    ELSE IF lk[i].pend # 0 /\ att[lk[i].pend].id = id THEN [lk[i] EXCEPT !.pend = 0]
                    ELSE lk[i]]]

(* ok: the response carries this server's own challenge for this attempt *)
SResponse(att, max, t, acc, L, a, ok) ==
    LET lk == acc.lk IN
    IF lk[L].pend # a \/ lk[L].sess # 0 \/ ~ok \/ IdConn(att, lk, att[a].id) THEN acc
    ELSE IF NConn(lk) >= max THEN [acc EXCEPT !.owe = @ \cup {<<L, a, DENIED, 0>>}]
    ELSE [acc EXCEPT !.lk[L].sess = a, !.lk[L].pend = 0, !.lk[L].lr = t, !.lk[L].ls = t,
             !.owe = @ \cup {<<L, a, KEEPALIVE, att[a].id>>}, !.con = @ \cup {L}]

SSession(att, t, acc, L, a, p) ==
    LET lk == acc.lk IN
    IF (lk[L].sess # a /\ (lk[L].pend # a \/ lk[L].sess # 0)) \/ Old(lk[L].w, p.seq) THEN acc
    ELSE LET a1 == [acc EXCEPT !.lk[L].w = Note(@, p.seq)] IN
         CASE p.kind = KEEPALIVE -> [a1 EXCEPT !.lk[L].lr = t]
           [] p.kind = PAYLOAD -> IF lk[L].sess = a THEN [a1 EXCEPT !.lk[L].lr = t, !.ups = Append(@, <<L, p.x>>)] ELSE a1
           [] OTHER -> [a1 EXCEPT !.lk[L].sess = 0, !.disc = @ \cup {L}, !.con = @ \ {L}]

SPacket(att, max, t, ep, acc, L, p) ==
    CASE p.dir # "c" -> acc
      [] p.kind = REQUEST -> SRequest(att, max, t, acc, L, p.a)
      [] p.kind = RESPONSE -> SResponse(att, max, t, acc, L, p.a, p.ep = ep)
      [] p.kind \in {KEEPALIVE, PAYLOAD, DISCONNECT} -> SSession(att, t, acc, L, p.a, p)
      [] OTHER -> acc

TimedOut(att, lk, L, t) ==
    lk[L].sess # 0 /\ ~lk[L].wild /\ att[lk[L].sess].tmo > 0 /\ lk[L].lr + att[lk[L].sess].tmo < t

-----------------------------------------------------------------------------
(* Client: one connection attempt.                                                   *)
NewClient == [st |-> "Disconnected", t |-> 0, start |-> 0, lr |-> 0, ls |-> -1000, idx |-> 0, sd |-> "", w |-> Fresh,
              ep |-> -1, id |-> 0, q |-> {}]
Pending(st) == st \in {"Request", "Response"}
Alive(st) == Pending(st) \/ st = "Connected"

CReset(c) == [c EXCEPT !.start = c.t, !.ls = c.t - 1000, !.lr = c.t, !.sd = "", !.w = Fresh]
CConnect(c) == [CReset(c) EXCEPT !.st = "Request"]
CEnd(c, st) == [CReset(c) EXCEPT !.st = st, !.idx = 0]
CNext(c) == [CConnect(c) EXCEPT !.idx = @ + 1]
CDisconnect(c) == [CEnd(c, "Disconnected") EXCEPT !.q = {DISCONNECT}]

(* acc = [c, ups] *)
CPacket(a, acc, p) ==
    LET c == acc.c IN
    IF p.dir # "s" \/ p.a # a THEN acc
    ELSE IF c.st = "Connected" /\ p.kind >= KEEPALIVE /\ Old(c.w, p.seq) THEN acc
    ELSE LET c1 == IF c.st = "Connected" /\ p.kind >= KEEPALIVE THEN [c EXCEPT !.w = Note(@, p.seq)] ELSE c
             lr == [c1 EXCEPT !.lr = c.t]
         IN  CASE p.kind = DENIED /\ Pending(c.st) -> [acc EXCEPT !.c = [lr EXCEPT !.sd = "Denied"]]
               [] p.kind = CHALLENGE /\ c.st = "Request" -> [acc EXCEPT !.c = [lr EXCEPT !.st = "Response", !.ep = p.ep]]
               [] p.kind = KEEPALIVE /\ c.st = "Connected" -> [acc EXCEPT !.c = lr]
               [] p.kind = KEEPALIVE /\ c.st = "Response" -> [acc EXCEPT !.c = [lr EXCEPT !.st = "Connected", !.id = p.x]]
               [] p.kind = PAYLOAD /\ c.st = "Connected" -> [c |-> lr, ups |-> Append(acc.ups, p.x)]
               [] p.kind = DISCONNECT /\ c.st = "Connected" -> [acc EXCEPT !.c = [lr EXCEPT !.sd = "Disconnected"]]
               [] OTHER -> [acc EXCEPT !.c = c1]

(* the regular packet, if it is time *)
CSend(c) ==
    IF c.ls + SendEvery >= c.t \/ ~Alive(c.st) THEN c
    ELSE [c EXCEPT !.ls = c.t, !.q = @ \cup {IF c.st = "Request" THEN REQUEST ELSE IF c.st = "Response" THEN RESPONSE ELSE KEEPALIVE}]

CUpdate(at, c) ==
    LET expired == c.t - c.start >= at.life
        late == at.tmo > 0 /\ c.lr + at.tmo < c.t
        more == c.idx + 1 < at.na
        Or(st) == IF more THEN CNext(c) ELSE CEnd(c, st)
    IN  CASE Pending(c.st) /\ expired -> CEnd(c, "Expired")
          [] c.sd # "" -> Or(c.sd)
          [] c.st = "Request" /\ late -> Or("RequestTimedOut")
          [] c.st = "Response" /\ late -> Or("ResponseTimedOut")
          [] c.st = "Connected" /\ late -> CEnd(c, "TimedOut")
          [] OTHER -> c
Marker(st) == IF Pending(st) THEN "Connecting" ELSE IF st = "Connected" THEN "Connected" ELSE "Disconnected"
=============================================================================
