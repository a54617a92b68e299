-------------------------------- MODULE MCWait --------------------------------
(* Exhaustive check of the prediction window (a clock that stops while it has to wait, any       *)
(* history of confirmations) and of the input delay (every configuration and latency).           *)
EXTENDS SyncDefs
CONSTANTS Window, MaxTick, MaxQ
VARIABLES w, cur, conf, depth, seen
vars == <<w, cur, conf, depth, seen>>
Init == w = Wait0 /\ cur = 0 /\ conf = <<>> /\ depth = 0 /\ seen = FALSE
Look == \E r \in {WaitStep(w, cur, conf, Window)} : w' = r.w /\ depth' = r.depth /\ seen' = TRUE /\ UNCHANGED <<cur, conf>>
\* the clock runs unless it is told to wait; it is looked at after every tick
Tick == seen /\ ~w.waiting /\ cur < MaxTick /\ cur' = cur + 1 /\ seen' = FALSE /\ UNCHANGED <<w, conf, depth>>
Confirm == \E k \in {x \in 0..cur : IF conf = <<>> THEN TRUE ELSE x > conf[1]} : conf' = <<k>> /\ UNCHANGED <<w, cur, depth, seen>>
Next == Look \/ Tick \/ Confirm
Spec == Init /\ [][Next]_vars /\ WF_vars(Look) /\ SF_vars(Tick) /\ WF_vars(Confirm)
Front == IF conf = <<>> THEN 0 ELSE conf[1]
\* never further ahead than the window (one tick if there is none)
Bounded == cur - Front <= Most(Window, 1)
\* it stops exactly at the window, and goes on only after the lead has dropped by the hysteresis
Stops == [][Look => ( /\ (~w.waiting /\ w'.waiting) => depth' >= Window
                      /\ (w.waiting /\ ~w'.waiting) => depth' <= Most(Window - HYST, 0)
                      /\ (conf # <<>> /\ depth' >= Most(Window, 1)) => w'.waiting )]_vars
\* with confirmations coming in it gets to the end
Runs == <>(cur = MaxTick)
\* the laws of the delay
ASSUME \A min \in 0..4, mb \in 0..5, mp \in 0..4 : min <= mb => \A q \in 0..MaxQ :
    LET d == [min |-> min, mb |-> mb, mp |-> mp]
        g == Delay(d, q)
        need == IF mp = 0 THEN q + 2 ELSE q
    IN  /\ g >= min
        /\ g <= Most(mb, need - mp)
        /\ g + mp >= need
        /\ q > 0 => g >= Delay(d, q - 1)
        /\ need <= mb + mp => g <= mb
===============================================================================
