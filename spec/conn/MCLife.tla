------------------------------- MODULE MCLife -------------------------------
(* All histories of two servers, links from two addresses, a raw client and an in-process client *)
EXTENDS ConnDefs
CONSTANTS MaxEnts, MaxSrv \* entities and servers at most
VARIABLES L, n, last, old
vars == <<L, n, last, old>>
Servers == {x \in DOMAIN L.en : L.en[x].kind = "rs"}
Step(op, e, s, p, x) == /\ \E r \in {LifeOp(L, op, e, s, p, x)} : L' = r
                        /\ last' = [op |-> op, e |-> e, s |-> s, x |-> x]
                        /\ old' = L
Make == /\ n < MaxEnts /\ n' = n + 1
        /\ \/ Cardinality(Servers) < MaxSrv /\ Step("spawn", n + 1, 0, -1, "rs")
           \/ \E s \in Servers, p \in {1, 2}, x \in {"lo", "lol"} : Step("spawn", n + 1, s, p, x)
           \/ (\A x \in DOMAIN L.en : L.en[x].kind # "rc") /\ Step("spawn", n + 1, 0, -1, "rc")
           \/ \E s \in Servers : (\A x \in DOMAIN L.en : L.en[x].kind # "hc") /\ Step("spawn", n + 1, s, -1, "hc")
Act == /\ UNCHANGED n
       /\ \/ Step("update", 0, 0, -1, "")
          \/ \E e \in DOMAIN L.en :
              \/ L.en[e].kind # "hc" /\ L.en[e].conn # "disconnecting" /\ (Step("linked", e, 0, -1, "") \/ Step("linking", e, 0, -1, ""))
              \/ Step("unlink", e, 0, -1, "") \/ Step("despawn", e, 0, -1, "")
              \/ L.en[e].kind = "rs" /\ (Step("stop", e, 0, -1, "") \/ Step("mark", e, 0, -1, "starting") \/ Step("mark", e, 0, -1, "stopping"))
              \/ L.en[e].kind \in {"hc", "rc"} /\ (Step("connect", e, 0, -1, "") \/ Step("disconnect", e, 0, -1, ""))
              \/ L.en[e].kind \in {"lo", "rc"} /\ \E m \in {"connecting", "disconnecting", "disconnected"} : Step("mark", e, 0, -1, m)
Init == L = Life0 /\ n = 0 /\ last = [op |-> "none", e |-> 0, s |-> 0, x |-> ""] /\ old = Life0
Next == Make \/ Act
Spec == Init /\ [][Next]_vars
Vw == <<L, n>>

Reg == Registered(L)
(* Properties of steps, checked on every transition *)
Was(e) == old.en[e]
Others(s) == {x \in DOMAIN old.en : x # s /\ (old.en[x].kind \notin {"lo", "hc"} \/ old.en[x].of # s)}
StopEnds ==
    (last.op = "stop") =>
        /\ \A x \in KidsOf(L, last.e) : L.en[x].conn # "connected" \/ old.en[last.e].srv = "stopped"
        /\ L.en[last.e].srv = "stopped"
        /\ old.en[last.e].srv # "stopped" => (SERVER \in DOMAIN L.reg => L.reg[SERVER] # last.e)
OthersKept == (last.op \in {"stop", "unlink", "despawn"} /\ Was(last.e).kind = "rs") =>
    \A x \in Others(last.e) : x \in DOMAIN L.en /\ L.en[x] = old.en[x]
UnlinkEnds == (last.op = "unlink" /\ Was(last.e).link # "unlinked") =>
    IF Was(last.e).kind = "rs" THEN KidsOf(L, last.e) = {} ELSE L.en[last.e].conn = "disconnected"
(* who connects is registered, and stays so until his end or until someone else connects under his identity *)
NowOn == \A e \in DOMAIN L.en : (L.en[e].conn = "connected" /\ (e \notin DOMAIN old.en \/ old.en[e].conn # "connected"))
            => (L.en[e].rid \in DOMAIN L.reg /\ L.reg[L.en[e].rid] = e)
StaysOn == \A p \in DOMAIN old.reg :
    LET e == old.reg[p] IN
        \/ p \in DOMAIN L.reg /\ L.reg[p] = e
        \/ p \in DOMAIN L.reg /\ L.reg[p] # e /\ (L.reg[p] \notin DOMAIN old.en \/ old.en[L.reg[p]] # L.en[L.reg[p]])
        \/ e \notin DOMAIN L.en \/ L.en[e].conn = "disconnected" \/ L.en[e].srv = "stopped"
StepOk == NowOn /\ StaysOn /\ StopEnds /\ OthersKept /\ UnlinkEnds
EachStep == [][StepOk']_vars
(* a removed entity is in no table *)
NoGhost == \A p \in DOMAIN L.reg : L.reg[p] \in DOMAIN L.en
HostOk == \A h \in DOMAIN L.en : (L.en[h].host /\ L.en[h].conn = "connected") => (L.en[h].of \in DOMAIN L.en /\ L.en[h].rid = HOSTID)
=============================================================================
