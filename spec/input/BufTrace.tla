------------------------------ MODULE BufTrace ------------------------------
(* Conformance of the input buffer, of the messages made from it and of what a receiver makes of  *)
(* them with BufDefs (I01, I02, I03).                                                            *)
EXTENDS BufDefs, Json, IOUtils

CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S
vars == <<l, S>>
Ev == Log[l]
G(ps, clause, cond) ==
    IF Prop \in ps THEN IF cond THEN TRUE ELSE PrintT("CLAUSE " \o Prop \o ": " \o clause) /\ FALSE
    ELSE TRUE

(* b: a buffer by itself; w: the sender's; R: the receiver; v: the input the receiver simulates with *)
New == [b |-> Empty, w |-> Empty, R |-> [b |-> Empty, lr |-> NT], v |-> 0, client |-> TRUE]
Init == l = 1 /\ S = New

(* what the buffer answers is what the history says *)
Same(B) ==
    LET q == Ev.q
    IN  /\ q.len = Len(B.h)
        /\ \A i \in 1..Len(q.get) : q.get[i] = Get(B, q.lo + i - 1) /\ q.pred[i] = Predict(B, q.lo + i - 1)
        /\ q.last = LastOf(B)
        /\ q.lv = q.last
        /\ q.lt = IF q.last = None THEN NT ELSE EndOf(B)
Shows(ps, B) == G(ps, "each tick reads as it was set, a gap as what came before it, the future as the last input", Same(B))

Plain(B, ok) == [ok |-> ok /\ Shows({"I01"}, B), S |-> [S EXCEPT !.b = B]]
Got(x) == G({"I01"}, "taking a tick out gives its input", Ev.r = x)

SimStep ==
    LET b == S.R.b
        x == IF S.client THEN Get(b, Ev.t) ELSE Predict(b, Ev.t)
        v == IF x = None THEN S.v ELSE x
        nb == IF S.client THEN (IF x = None THEN SetTo(b, Ev.t, v) ELSE b) ELSE PopKeep(b, Ev.t - 1)
    IN  [ok |-> /\ G({"I03"}, "a tick is simulated with the input received for it, without one with the last", Ev.v = v)
                /\ Shows({"I01", "I03"}, nb),
         S |-> [S EXCEPT !.R.b = nb, !.v = v]]

RecvStep ==
    LET m == Resolve(Ev.states)
        nr == Take(S.R, m, Ev.end)
        bad == Wrong(S.R, m, Ev.end)
    IN  [ok |-> /\ G({"I03"}, "the first tick that is not as predicted is found", bad # {} => Ev.mm # NT /\ Ev.mm <= Min(bad))
                /\ G({"I03"}, "no tick that is as predicted, and none that was received before, is found",
                     Ev.mm # NT => Ev.mm \in bad \/ (Ev.mm \in News(S.R, m, Ev.end) /\ S.R.lr < S.R.b.st))
                /\ G({"I03"}, "the last tick received never goes back", Ev.lr = nr.lr)
                /\ Shows({"I03"}, nr.b),
         S |-> [S EXCEPT !.R = nr]]

BuildStep ==
    LET w == S.w
        none == w.st = NT \/ FirstOf(w, Ev.num, Ev.end) > Ev.end
    IN  [ok |-> /\ G({"I02"}, "a message says something as soon as there is something to say", Ev.some = ~none)
                /\ G({"I02"}, "a message says what was pressed at each of the last ticks",
                     ~none => Ev.states[1] # SameAs /\ Resolve(Ev.states) = Says(w, Ev.num, Ev.end)),
         S |-> S]

Step ==
    CASE Ev.k = "reset" -> [ok |-> TRUE, S |-> [New EXCEPT !.client = (Ev.kind = "pipe" /\ Ev.flav = "client")]]
      [] Ev.k = "gap" -> [ok |-> G({"I01"}, "a long gap reads as what came before it", Ev.before = Ev.v /\ Ev.pred = Ev.v /\ Ev.at = Ev.w), S |-> S]
      [] Ev.k = "set" -> Plain(SetTo(S.b, Ev.t, Ev.v), TRUE)
      [] Ev.k = "empty" -> Plain(SetTo(S.b, Ev.t, None), TRUE)
      [] Ev.k = "setclip" -> Plain(Upto(SetTo(S.b, Ev.t, Ev.v), Ev.t), TRUE)
      [] Ev.k = "clip" -> Plain(Upto(S.b, Ev.t), TRUE)
      [] Ev.k = "ext" -> Plain(Extend(S.b, Ev.a, Ev.z), TRUE)
      [] Ev.k = "pop" -> Plain(PopTo(S.b, Ev.t), Got(Get(S.b, Ev.t)))
      [] Ev.k = "popk" -> Plain(PopKeep(S.b, Ev.t), Got(PopKeepGives(S.b, Ev.t)))
      [] Ev.k = "w" -> [ok |-> TRUE, S |-> [S EXCEPT !.w = SetTo(S.w, Ev.t, Ev.v)]]
      [] Ev.k = "wpop" -> [ok |-> TRUE, S |-> [S EXCEPT !.w = PopTo(S.w, Ev.t)]]
      [] Ev.k = "build" -> BuildStep
      [] Ev.k = "recv" -> RecvStep
      [] Ev.k = "sim" -> SimStep
      [] Ev.k = "rpop" -> [ok |-> Shows({"I01", "I03"}, PopTo(S.R.b, Ev.t)), S |-> [S EXCEPT !.R.b = PopTo(S.R.b, Ev.t)]]
      [] Ev.k = "panic" -> [ok |-> PrintT("CLAUSE panic: " \o Ev.msg) /\ FALSE, S |-> S]
Next == l <= Len(Log) /\ l' = l + 1 /\ \E r \in {Step} : r.ok /\ S' = TLCEval(r.S)
Spec == Init /\ [][Next]_vars
View == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Log) THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
