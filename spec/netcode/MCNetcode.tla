------------------------------ MODULE MCNetcode ------------------------------
(* One server, a few connection attempts, and a network that keeps every packet ever  *)
(* sent and delivers any of them, any number of times, in any order, to any link.      *)
(* Built from the same operators as NetcodeTrace.                                      *)
EXTENDS NetcodeCore, Json

CONSTANTS Att,             \* the attempts: records [id, ud, tmo, life, valid, hostile, na]
          Addr,            \* Addr[a]: the address attempt a uses
          MaxSlots, MaxTicks, MaxLinks, MaxPay, MaxConn, Spoof, Stops, LogOps, MaxOps
Step == 462
NA == Len(Att)

VARIABLES cl, lk, ad, pk, cseq, sseq, t, ep, stopping, npay, sent, ups, est, tick, ncon, ops
vars == <<cl, lk, ad, pk, cseq, sseq, t, ep, stopping, npay, sent, ups, est, tick, ncon, ops>>

A2 == <<[id |-> 1, ud |-> 1, tmo |-> 1000, life |-> 30000, valid |-> TRUE, hostile |-> FALSE, na |-> 1],
        [id |-> 2, ud |-> 2, tmo |-> 1000, life |-> 30000, valid |-> TRUE, hostile |-> FALSE, na |-> 1]>>
ASame == <<[id |-> 1, ud |-> 1, tmo |-> 1000, life |-> 30000, valid |-> TRUE, hostile |-> FALSE, na |-> 1],
           [id |-> 1, ud |-> 2, tmo |-> 1000, life |-> 30000, valid |-> TRUE, hostile |-> FALSE, na |-> 1]>>
ABad == <<[id |-> 1, ud |-> 1, tmo |-> 1000, life |-> 1000, valid |-> TRUE, hostile |-> FALSE, na |-> 2],
          [id |-> 2, ud |-> 2, tmo |-> 1000, life |-> 30000, valid |-> FALSE, hostile |-> FALSE, na |-> 1]>>
A3 == <<[id |-> 1, ud |-> 1, tmo |-> 1000, life |-> 30000, valid |-> TRUE, hostile |-> FALSE, na |-> 2],
        [id |-> 1, ud |-> 2, tmo |-> 3000, life |-> 30000, valid |-> TRUE, hostile |-> FALSE, na |-> 1],
        [id |-> 2, ud |-> 3, tmo |-> 1000, life |-> 30000, valid |-> TRUE, hostile |-> FALSE, na |-> 1],
        [id |-> 3, ud |-> 4, tmo |-> 1000, life |-> 30000, valid |-> FALSE, hostile |-> FALSE, na |-> 1]>>
Diff2 == <<1, 2>>
One2 == <<1, 1>>
Mix4 == <<1, 1, 2, 3>>

Op(o) == IF LogOps THEN ops' = ops \o o ELSE UNCHANGED ops
Init == /\ cl = [a \in 1..NA |-> NewClient] /\ lk = <<>> /\ ad = <<>> /\ pk = {} /\ cseq = [a \in 1..NA |-> 0]
        /\ sseq = <<>> /\ t = 0 /\ ep = 1 /\ stopping = FALSE /\ npay = 0 /\ sent = {} /\ ups = {} /\ est = {}
        /\ tick = 0 /\ ncon = 0 /\ ops = <<>>

C(a, kind, seq, x, e) == [dir |-> "c", a |-> a, kind |-> kind, seq |-> seq, x |-> x, ep |-> e]
Sp(a, kind, seq, x, L) == [dir |-> "s", a |-> a, kind |-> kind, seq |-> seq, x |-> x, ep |-> ep]
None == [dir |-> "x", a |-> 0, kind |-> 0, seq |-> 0, x |-> 0, ep |-> 0]
Deliv(p, o) == IF p = None THEN <<>> ELSE <<o>>

Connect(a) ==
    /\ cl[a] = NewClient /\ ncon < MaxConn
    /\ cl' = [cl EXCEPT ![a] = CConnect([@ EXCEPT !.t = t])] /\ ncon' = ncon + 1
    /\ Op(<<[op |-> "connect", a |-> a]>>)
    /\ UNCHANGED <<lk, ad, pk, cseq, sseq, t, ep, stopping, npay, sent, ups, est, tick>>
CDisc(a) ==
    /\ Alive(cl[a].st) /\ Stops
    /\ cl' = [cl EXCEPT ![a] = CDisconnect(@)]
    /\ Op(<<[op |-> "cdisc", a |-> a]>>)
    /\ UNCHANGED <<lk, ad, pk, cseq, sseq, t, ep, stopping, npay, sent, ups, est, tick, ncon>>

CF(a, p, pay) ==
    LET c0 == [cl[a] EXCEPT !.t = t]
        f == CPacket(a, [c |-> c0, ups |-> <<>>], p)
        c1 == CUpdate(Att[a], CSend(f.c))
    IN  [c0 |-> c0, c |-> c1, ups |-> f.ups, q |-> SetToSortSeq(c1.q, LAMBDA x, y : x < y),
         pay |-> pay /\ c1.st = "Connected" /\ npay < MaxPay]
CFrame(a, p, pay) ==
    /\ cl[a].lr # 0 \/ Alive(cl[a].st) \/ cl[a].q # {}
    /\ \E r \in {CF(a, p, pay)} :
        /\ r.c0 # r.c \/ r.ups # <<>> \/ r.pay \/ cl[a].t # t
        /\ pay => r.pay
        /\ cl' = [cl EXCEPT ![a] = [r.c EXCEPT !.q = {}]]
        /\ pk' = pk \cup {C(a, r.q[i], IF r.q[i] >= KEEPALIVE THEN cseq[a] + i ELSE 0, 0, IF r.q[i] = RESPONSE THEN r.c.ep ELSE 0) : i \in DOMAIN r.q}
                     \cup (IF r.pay THEN {C(a, PAYLOAD, cseq[a] + 10, npay + 1, 0)} ELSE {})
        /\ cseq' = [cseq EXCEPT ![a] = @ + (IF r.pay THEN 10 ELSE Len(r.q))]
        /\ npay' = IF r.pay THEN npay + 1 ELSE npay
        /\ sent' = IF r.pay THEN sent \cup {<<a, npay + 1>>} ELSE sent
        /\ ups' = ups \cup {<<"c", <<a, r.c0.idx>>, r.ups[i], Cardinality({u \in ups : u[1] = "c" /\ u[2] = <<a, r.c0.idx>> /\ u[3] = r.ups[i]})>> : i \in DOMAIN r.ups}
        /\ Op(Deliv(p, [op |-> "cdel", a |-> a, dir |-> p.dir, f |-> p.a, kind |-> p.kind, seq |-> p.seq])
              \o <<[op |-> "cframe", a |-> a, pay |-> r.pay]>>)
        /\ UNCHANGED <<lk, ad, sseq, t, ep, stopping, est, tick, ncon>>

LinkAt(A) == {i \in DOMAIN lk : ad[i] = A /\ ~lk[i].gone}
SF1(p, A) ==
    LET new == p # None /\ LinkAt(A) = {}
    IN  [lk |-> IF new THEN Append(lk, NewLink) ELSE lk, ad |-> IF new THEN Append(ad, A) ELSE ad,
         sq |-> IF new THEN Append(sseq, 0) ELSE sseq,
         L |-> IF new THEN Len(lk) + 1 ELSE IF p = None THEN 0 ELSE CHOOSE i \in LinkAt(A) : TRUE]
SF2(n, p) ==
    LET late == {i \in DOMAIN n.lk : TimedOut(Att, n.lk, i, t)}
        lk1 == [i \in DOMAIN n.lk |-> IF i \in late THEN [n.lk[i] EXCEPT !.sess = 0] ELSE n.lk[i]]
        a0 == [lk |-> lk1, owe |-> {}, ups |-> <<>>, disc |-> late, con |-> {}]
    IN  TLCEval(IF p = None THEN a0 ELSE SPacket(Att, MaxSlots, t, ep, a0, n.L, p))
SF3(n, f, pay) ==
    LET lk2 == [i \in DOMAIN f.lk |-> IF i \in f.disc THEN [f.lk[i] EXCEPT !.gone = TRUE, !.pend = 0, !.w = Fresh, !.sess = 0] ELSE f.lk[i]]
        live == {i \in DOMAIN lk2 : ~lk2[i].gone}
        due == {i \in live : lk2[i].sess # 0 /\ t - lk2[i].ls > SendEvery}
        paid == IF pay THEN {i \in live : lk2[i].sess # 0} ELSE {}
        owe == {o \in f.owe : o[1] \in live}
    IN  [lk |-> [i \in DOMAIN lk2 |-> IF i \in due \cup paid THEN [lk2[i] EXCEPT !.ls = t] ELSE lk2[i]],
         out |-> {Sp(o[2], o[3], IF o[3] = KEEPALIVE THEN n.sq[o[1]] + 1 ELSE 0, o[4], o[1]) : o \in owe}
               \cup {Sp(lk2[i].sess, KEEPALIVE, n.sq[i] + 1, Att[lk2[i].sess].id, i) : i \in due}
               \cup {Sp(lk2[i].sess, PAYLOAD, n.sq[i] + 2, npay + i, i) : i \in paid},
         sq |-> [i \in DOMAIN n.sq |-> n.sq[i] + (IF i \in paid THEN 2 ELSE IF i \in due \/ (\E o \in owe : o[1] = i /\ o[3] = KEEPALIVE) THEN 1 ELSE 0)],
         paid |-> paid]
SFrame(p, A, pay) ==
    /\ pay => npay < MaxPay
    /\ \E n \in {SF1(p, A)} : Len(n.lk) <= MaxLinks /\ \E f \in {SF2(n, p)} : \E r \in {SF3(n, f, pay)} :
        /\ pay => r.paid # {}
        /\ r.lk # lk \/ r.out \ pk # {} \/ f.ups # <<>>
        /\ lk' = r.lk /\ ad' = n.ad /\ pk' = pk \cup r.out /\ sseq' = r.sq
        /\ npay' = IF pay THEN npay + Len(r.lk) ELSE npay
        /\ sent' = sent \cup {<<r.lk[i].sess, npay + i>> : i \in r.paid}
        /\ ups' = ups \cup {<<"s", f.ups[i][1], f.ups[i][2], Cardinality({u \in ups : u[1] = "s" /\ u[2] = f.ups[i][1] /\ u[3] = f.ups[i][2]})>> : i \in DOMAIN f.ups}
        /\ est' = est \cup {f.lk[i].sess : i \in f.con}
        /\ Op(Deliv(p, [op |-> "sdel", addr |-> A, dir |-> p.dir, f |-> p.a, kind |-> p.kind, seq |-> p.seq])
              \o <<[op |-> "sframe", pay |-> pay]>>)
        /\ UNCHANGED <<cl, cseq, t, ep, stopping, tick, ncon>>
(* The server stops, telling its clients so, and starts again. *)
Restart ==
    /\ Stops /\ ep < 2
    /\ ep' = ep + 1
    /\ pk' = pk \cup {Sp(lk[i].sess, DISCONNECT, sseq[i] + 1, 0, i) : i \in {j \in DOMAIN lk : lk[j].sess # 0 /\ ~lk[j].gone}}
    /\ lk' = [i \in DOMAIN lk |-> [lk[i] EXCEPT !.gone = @ \/ lk[i].sess # 0, !.sess = 0, !.pend = 0, !.w = Fresh]]
    /\ Op(<<[op |-> "restart"]>>)
    /\ UNCHANGED <<cl, ad, cseq, sseq, t, stopping, npay, sent, ups, est, tick, ncon>>
Tick ==
    /\ tick < MaxTicks /\ tick' = tick + 1 /\ t' = t + Step
    /\ Op(<<[op |-> "tick"]>>)
    /\ UNCHANGED <<cl, lk, ad, pk, cseq, sseq, ep, stopping, npay, sent, ups, est, ncon>>

Addrs == {Addr[i] : i \in DOMAIN Addr}
Next ==
    /\ ~LogOps \/ Len(ops) < MaxOps
    /\ \/ Tick \/ Restart
       \/ \E a \in 1..NA : Connect(a) \/ CDisc(a)
       \/ \E a \in 1..NA : \E p \in {x \in pk : x.dir = "s"} \cup {None} : \E b \in BOOLEAN : CFrame(a, p, b)
       \/ \E p \in {x \in pk : x.dir = "c"} : \E A \in (IF Spoof THEN Addrs ELSE {Addr[p.a]}) : SFrame(p, A, FALSE)
       \/ \E b \in BOOLEAN : SFrame(None, 0, b)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Sess == {i \in DOMAIN lk : lk[i].sess # 0}
(* N01 *)
OnlyValid == \A i \in Sess : Att[lk[i].sess].valid
OnlyAnswered == \A i \in Sess : \E p \in pk : p.dir = "c" /\ p.a = lk[i].sess /\ p.kind = RESPONSE /\ p.ep = ep
ClientTruth == \A a \in 1..NA : cl[a].st = "Connected" => (a \in est /\ cl[a].id = Att[a].id)
(* N02 *)
Slots == Cardinality(Sess) <= MaxSlots
OneEach == \A i, j \in Sess : i # j => Att[lk[i].sess].id # Att[lk[j].sess].id
OnePend == \A i, j \in DOMAIN lk : (i # j /\ lk[i].pend # 0 /\ lk[j].pend # 0) => Att[lk[i].pend].id # Att[lk[j].pend].id
(* N03: nothing is handed up twice in a session, nothing that was not sent by the peer *)
UpOnce == \A u \in ups : u[4] = 0
UpSent == \A u \in ups : u[1] = "c" => <<u[2][1], u[3]>> \in sent
UpFrom == \A u \in ups : u[1] = "s" => \E a \in 1..NA : <<a, u[3]>> \in sent /\ Att[a].valid
(* N04 *)
Gone == \A i \in DOMAIN lk : lk[i].gone => lk[i].sess = 0
Emit == ~LogOps \/ Len(ops) < MaxOps \/ PrintT("@SCRIPT@" \o ToJson(ops))
=============================================================================
