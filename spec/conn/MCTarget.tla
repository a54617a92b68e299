------------------------------ MODULE MCTarget ------------------------------
(* The laws of targets, of resolution and of the topology, on all small instances *)
EXTENDS ConnDefs
CONSTANT Kind
Peers == 0..2
U == 0..3
Lists == UNION {[1..n -> Peers] : n \in 0..2}
Targets == [neg : BOOLEAN, ids : Lists]
Norm(t) == Den(t, U)
Regs == UNION {[D -> 0..3] : D \in SUBSET Peers}
E1 == [e : {0}, cl : BOOLEAN, sv : BOOLEAN, hc : BOOLEAN, lo : {-1, 1}, pp : 0..3, cn : BOOLEAN, st : BOOLEAN]
E2 == [e : {1}, cl : BOOLEAN, sv : BOOLEAN, hc : BOOLEAN, lo : {-1, 0}, pp : 0..3, cn : BOOLEAN, st : BOOLEAN]
VARIABLE c
Init == \/ Kind = "set" /\ c \in Targets \X Targets
        \/ Kind = "res" /\ c \in Targets \X Regs
        \/ Kind = "topo" /\ c \in E1 \X E2
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
a == c[1]  b == c[2]
Co(s) == U \ s
SetLaws == Kind = "set" =>
    /\ SetOp("inv", a, b, U) = Co(Norm(a))
    /\ Co(SetOp("union", a, b, U)) = Co(Norm(a)) \cap Co(Norm(b))
    /\ SetOp("excl", a, b, U) = SetOp("inter", a, [b EXCEPT !.neg = ~@], U)
    /\ SetOp("inter", a, a, U) = Norm(a) /\ SetOp("union", a, a, U) = Norm(a)
    \* a peer nobody mentioned is targeted exactly by complements
    /\ (3 \in Norm(a)) = a.neg
ResLaws == Kind = "res" =>
    LET cl == 0..2 IN
    /\ Recipients(a, cl, b) \cap Recipients([a EXCEPT !.neg = ~@], cl, b) = {}
    /\ Recipients(a, cl, b) \cup Recipients([a EXCEPT !.neg = ~@], cl, b) = cl
    /\ \A p \in DOMAIN b : (b[p] \in cl /\ \A q \in DOMAIN b \ {p} : b[q] # b[p]) => ((b[p] \in Recipients(a, cl, b)) = (p \in Norm(a)))
TopoLaws == Kind = "topo" =>
    LET m == Mode({a, b})  sole == Mode({a}) IN
    /\ (m[1] = "client") => (\E x \in {a, b} : x.e = m[2][1] /\ x.cl /\ x.cn /\ x.pp = 0)
    /\ (m[1] \in {"server", "host"}) => (\E x \in {a, b} : x.e = m[2][1] /\ x.sv /\ x.st)
    /\ (m[1] = "p2p") => (~\E x \in {a, b} : x.sv /\ x.st)
    \* an entity that plays no ready part does not change the role of the application
    /\ (~b.cn /\ ~b.st /\ b.pp < 2) => m = sole
    /\ Cardinality({i \in 1..5 : Roles(m)[i]}) <= 2 /\ (Roles(m)[3] => Roles(m)[2]) /\ (Roles(m)[4] => Roles(m)[2])
==============================================================================
