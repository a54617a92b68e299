--------------------------- MODULE NetcodeTrace ---------------------------
(* Conformance: accepts a recorded execution of a netcode server and its clients     *)
(* under a hostile network iff it is a behaviour allowed by N01..N05. `Prop` selects *)
(* whose clauses bite; the state is followed in any case.                            *)
EXTENDS NetcodeCore, Json, IOUtils

CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, S
vars == <<l, S>>
Ev == Log[l]
(* N05 speaks of everything hostile packets could disturb *)
G(ps, clause, cond) ==
    IF Prop \in ps \/ Prop = "N05"
    THEN IF cond THEN TRUE ELSE PrintT("CLAUSE " \o Prop \o ": " \o clause) /\ FALSE
    ELSE TRUE

New(max) == [t |-> 0, ep |-> 1, up |-> "up", max |-> max, att |-> <<>>, cl |-> <<>>, lk |-> <<>>, pk |-> <<>>, owe |-> {},
             sp |-> [x \in {} |-> 0]]
Init == l = 1 /\ S = New(1)
Noise == [dir |-> "x", a |-> 0, kind |-> 0, seq |-> 0, x |-> 0, ep |-> 0]
Pkt(n) == IF n \in 1..Len(S.pk) THEN S.pk[n] ELSE Noise

Reset == Ev.k = "reset" /\ S' = New(Ev.max)
NewAtt == /\ Ev.k = "new"
          /\ S' = [S EXCEPT !.att = Append(@, [id |-> Ev.id, ud |-> Ev.ud, tmo |-> Ev.tmo, life |-> Ev.life, valid |-> Ev.valid,
                                               hostile |-> Ev.hostile, na |-> Ev.na]),
                            !.cl = Append(@, NewClient)]
Connect == Ev.k = "connect" /\ S' = [S EXCEPT !.cl[Ev.a] = CConnect(@)]
CDisc == Ev.k = "cdisc" /\ S' = [S EXCEPT !.cl[Ev.a] = CDisconnect(@)]
AddLink == Ev.k = "link" /\ S' = [S EXCEPT !.lk = Append(@, NewLink)]
Stop == Ev.k = "stop" /\ S' = [S EXCEPT !.up = "stopping",
            !.owe = {o \in @ : S.lk[o[1]].sess = 0} \cup {<<L, S.lk[L].sess, DISCONNECT, 0>> : L \in {i \in DOMAIN S.lk : S.lk[i].sess # 0 /\ ~S.lk[i].gone}},
            !.lk = [i \in DOMAIN @ |-> IF ~@[i].gone THEN [@[i] EXCEPT !.sess = 0] ELSE @[i]]]
Start == Ev.k = "start" /\ S' = [S EXCEPT !.up = "up"]
Kill == Ev.k = "kill" /\ S' = [S EXCEPT !.lk[Ev.l].gone = TRUE, !.lk[Ev.l].pend = 0]

-----------------------------------------------------------------------------
CRecvStep ==
    LET a == Ev.a
        c0 == [S.cl[a] EXCEPT !.t = @ + Ev.dt]
        f == FoldLeft(LAMBDA acc, n : CPacket(a, acc, Pkt(n)), [c |-> c0, ups |-> <<>>], Ev.in)
        c1 == CUpdate(S.att[a], CSend(f.c))
        hostile == S.att[a].hostile
    IN  [ok |->
         /\ G({"N01"}, "a client is connected only after its server confirmed it",
              Ev.st = "Connected" => c1.st = "Connected")
         /\ G({"N01"}, "the client learns the identity its token names",
              Ev.st = "Connected" => Ev.cid = S.att[a].id /\ Ev.cid = c1.id)
         /\ G({"N02"}, "a refused client ends in the denied state",
              (c1.st = "Denied") <=> (Ev.st = "Denied"))
         /\ G({"N04"}, "a connecting client advances, and ends in the right state at the right time",
              Ev.st = c1.st /\ Ev.idx = c1.idx)
         /\ G({"N04", "N01"}, "the reported connection state is the client's", Ev.mk = Marker(Ev.st))
         /\ G({"N03"}, "payloads handed up are those of the session, once each", Ev.up = f.ups)
       , S |-> [S EXCEPT !.cl[a] = c1]]

CSendStep ==
    LET a == Ev.a
        c == S.cl[a]
        kinds == {Ev.out[i][1] : i \in DOMAIN Ev.out}
        small == SelectSeq(Ev.pay, LAMBDA p : p[2] <= 1200)
        pays == IF c.st = "Connected" THEN [i \in DOMAIN small |-> small[i][1]] ELSE <<>>
        sent == SelectSeq(Ev.out, LAMBDA o : o[1] = PAYLOAD)
    IN  [ok |->
         /\ G({"N04"}, "the regular packets of the handshake, keep-alives and disconnect notices are sent", c.q \subseteq kinds)
         /\ G({"N03"}, "payloads are sent in a session only, under its key", [i \in DOMAIN sent |-> sent[i][3]] = pays)
         /\ G({"N03"}, "every packet is sealed with the token's key", 99 \notin kinds)
       , S |-> [S EXCEPT !.pk = @ \o [i \in DOMAIN Ev.out |->
                    [dir |-> "c", a |-> a, kind |-> Ev.out[i][1], seq |-> Ev.out[i][2], x |-> Ev.out[i][3], ep |-> c.ep]],
                  !.cl[a].q = {}, !.cl[a].ls = IF pays # <<>> THEN c.t ELSE @]]

-----------------------------------------------------------------------------
SRecvStep ==
    LET t == S.t + Ev.dt
        obsC == {Ev.conn[i][1] : i \in DOMAIN Ev.conn}
        wildNow == {Ev.in[i][1] : i \in {j \in DOMAIN Ev.in : Ev.in[j][2] < 0
                        /\ (S.lk[Ev.in[j][1]].sess = -Ev.in[j][2] \/ S.lk[Ev.in[j][1]].pend = -Ev.in[j][2])}}
        lkW == [i \in DOMAIN S.lk |-> IF i \in wildNow THEN [S.lk[i] EXCEPT !.wild = TRUE] ELSE S.lk[i]]
        \* whoever holds the key of a misbehaving session may end or establish it as he likes
        lk0 == [i \in DOMAIN lkW |->
                  IF ~lkW[i].wild THEN lkW[i]
                  ELSE IF i \in obsC THEN [lkW[i] EXCEPT !.sess = IF @ = 0 THEN lkW[i].pend ELSE @]
                  ELSE IF lkW[i].gone THEN lkW[i] ELSE [lkW[i] EXCEPT !.sess = 0]]
        late == {i \in DOMAIN lk0 : TimedOut(S.att, lk0, i, t)}
        lk1 == [i \in DOMAIN lk0 |-> IF i \in late THEN [lk0[i] EXCEPT !.sess = 0] ELSE lk0[i]]
        f == FoldLeft(LAMBDA acc, d : TLCEval(SPacket(S.att, S.max, t, S.ep, acc, d[1], Pkt(d[2]))),
                      [lk |-> lk1, owe |-> S.owe, ups |-> <<>>, disc |-> late, con |-> {}], Ev.in)
        wild == {i \in DOMAIN lk0 : lk0[i].wild}
        stopping == S.up = "stopping"
        expC == IF stopping THEN {} ELSE {i \in DOMAIN f.lk : f.lk[i].sess # 0 /\ ~f.lk[i].gone /\ i \notin f.disc} \ wild
        obs == obsC \ wild
        was == {i \in DOMAIN S.lk : S.lk[i].sess # 0}
        dead == {Ev.dead[i] : i \in DOMAIN Ev.dead}
        upsOf(L, u) == SelectSeq(u, LAMBDA x : x[1] = L)
        lk2 == [i \in DOMAIN f.lk |->
                  IF i \in f.disc \/ i \in dead THEN [f.lk[i] EXCEPT !.gone = TRUE]
                  ELSE f.lk[i]]
    IN  [ok |->
         /\ G({"N01"}, "only who answered the challenge for a valid token is connected", (obs \ expC) \ was = {})
         /\ G({"N01"}, "identity and user data are those of the token",
              \A i \in DOMAIN Ev.conn : LET L == Ev.conn[i][1]  a == f.lk[L].sess IN
                 /\ (a # 0) => (Ev.conn[i][2] = S.att[a].id /\ Ev.conn[i][3] = S.att[a].ud)
                 /\ Ev.conn[i][2] >= 0 /\ Ev.conn[i][3] >= 0)
         /\ G({"N02"}, "no more clients than slots", Len(Ev.conn) <= S.max)
         /\ G({"N02"}, "one session per identity",
              \A i, j \in DOMAIN Ev.conn : i # j => Ev.conn[i][2] # Ev.conn[j][2])
         /\ G({"N02", "N04"}, "who answers the challenge while there is room is connected", (expC \ was) \subseteq obs)
         /\ G({"N04", "N02"}, "sessions last until they time out or are closed by a notice", (expC \cap was) \subseteq obs)
         /\ G({"N04"}, "sessions end when timed out or closed", (obs \ expC) \cap was = {})
         /\ G({"N04"}, "the link of a session that ended is removed",
              stopping \/ \A L \in (f.disc \cap was) : S.lk[L].gone \/ L \in dead \/ L \in wild)
         /\ G({"N05"}, "no link is removed without reason",
              stopping \/ \A L \in dead : L \in f.disc \/ L \in wild)
         /\ G({"N03"}, "payloads handed up are those of the session, once each",
              stopping \/ \A L \in (DOMAIN f.lk) \ wild :
                L \in f.disc \/ S.lk[L].gone \/ upsOf(L, Ev.up) = upsOf(L, f.ups))
         /\ G({"N03"}, "nothing is handed up outside a session",
              \A i \in DOMAIN Ev.up : LET L == Ev.up[i][1] IN
                 L \in wild \/ \E j \in DOMAIN f.ups : f.ups[j] = Ev.up[i])
       , S |-> [S EXCEPT !.t = t,
                  !.lk = IF stopping THEN [i \in DOMAIN lk2 |-> [lk2[i] EXCEPT !.sess = 0, !.pend = 0, !.w = Fresh, !.wild = FALSE]] ELSE lk2,
                  !.owe = IF stopping THEN {} ELSE f.owe,
                  !.ep = IF stopping THEN @ + 1 ELSE @,
                  !.up = IF stopping THEN "down" ELSE @]]

SSendStep ==
    LET outs == {<<Ev.out[i][1], Ev.out[i][2], Ev.out[i][3], Ev.out[i][5]>> : i \in DOMAIN Ev.out}
        dead == {Ev.dead[i] : i \in DOMAIN Ev.dead}
        live == {L \in DOMAIN S.lk : ~S.lk[L].gone /\ ~S.lk[L].wild}
        conn == {L \in live : S.lk[L].sess # 0}
        \* what the application queued, for connected clients
        pay == SelectSeq(Ev.pay, LAMBDA p : p[1] \in conn /\ p[3] <= 1200)
        sent == SelectSeq(Ev.out, LAMBDA o : o[3] = PAYLOAD /\ ~S.lk[o[1]].wild)
        talk == {Ev.out[i][1] : i \in {j \in DOMAIN Ev.out : Ev.out[j][3] \in {KEEPALIVE, PAYLOAD, DISCONNECT}}}
    IN  [ok |->
         /\ G({"N02"}, "who is refused is told so", \A o \in S.owe : (o[3] = DENIED /\ o[1] \in live) => o \in outs)
         /\ G({"N02"}, "nobody is refused without reason",
              \A o \in outs : (o[3] = DENIED /\ o[1] \in live) => o \in S.owe)
         /\ G({"N04"}, "a valid request is answered by a challenge, a response by a confirmation, a stop by notices",
              \A o \in S.owe : (o[3] # DENIED /\ o[1] \in live) => o \in outs)
         /\ G({"N01"}, "challenges go to holders of valid tokens only",
              \A o \in outs : (o[3] = CHALLENGE /\ o[1] \in live) => o \in S.owe)
         /\ G({"N01"}, "confirmations name the identity of the token",
              \A o \in outs : o[3] = KEEPALIVE => o[2] # 0 /\ o[4] = S.att[o[2]].id)
         /\ G({"N03"}, "each payload goes once to its session, sealed with its key",
              [i \in DOMAIN sent |-> <<sent[i][1], sent[i][5], sent[i][2]>>]
                = [i \in DOMAIN pay |-> <<pay[i][1], pay[i][2], S.lk[pay[i][1]].sess>>])
         /\ G({"N03"}, "every packet is sealed with the key of a token", \A o \in outs : o[3] # 99)
         /\ G({"N04"}, "keep-alives are sent when due",
              \A L \in conn : S.up = "up" /\ S.t - S.lk[L].ls > SendEvery => L \in talk)
       , S |-> [S EXCEPT !.pk = @ \o [i \in DOMAIN Ev.out |->
                    [dir |-> "s", a |-> Ev.out[i][2], kind |-> Ev.out[i][3], seq |-> Ev.out[i][4], x |-> Ev.out[i][5], ep |-> S.ep]],
                  !.owe = {},
                  !.lk = [i \in DOMAIN @ |->
                     LET x == IF i \in talk THEN [@[i] EXCEPT !.ls = S.t] ELSE @[i]
                     IN IF i \in dead THEN [x EXCEPT !.gone = TRUE] ELSE x]]]

Next ==
    /\ l <= Len(Log) /\ l' = l + 1
    /\ \/ Reset \/ NewAtt \/ Connect \/ CDisc \/ AddLink \/ Stop \/ Start \/ Kill
       \/ (Ev.k = "crecv" /\ \E r \in {CRecvStep} : r.ok /\ S' = TLCEval(r.S))
       \/ (Ev.k = "csend" /\ \E r \in {CSendStep} : r.ok /\ S' = TLCEval(r.S))
       \/ (Ev.k = "srecv" /\ \E r \in {SRecvStep} : r.ok /\ S' = TLCEval(r.S))
       \/ (Ev.k = "ssend" /\ \E r \in {SSendStep} : r.ok /\ S' = TLCEval(r.S))
       \/ (Ev.k = "end" /\ UNCHANGED S)
View == l
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log) \/ (PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
