------------------------------ MODULE CurvesTrace ------------------------------
(* Checks recorded marches, polylines and hulls against Curves.               *)
EXTENDS Curves, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, m, L
vars == <<t, i, m, L>>

Evs == Traces[t].ev
E == Evs[i]
Is(n) == i <= Len(Evs) /\ E.e = n
NoMarch == [nx |-> 0]
Init == t \in 1..Len(Traces) /\ i = 1 /\ m = NoMarch /\ L = <<>>
Idle == m = NoMarch

Xy(p) == <<p[1], p[2]>>
Emits(s) == /\ CNear(LocXY(m, PLoc(m, s[1], s[2])), E.a) /\ CNear(LocXY(m, PLoc(m, s[1], s[3])), E.b)
            /\ IdOk(m.ids, PLoc(m, s[1], s[2]), E.a[3]) /\ IdOk(m.ids, PLoc(m, s[1], s[3]), E.b[3])
HullOk(H) == /\ H \in Hulls(PtSetOf(E.v), E.tol)
             /\ Convex(H)
             /\ E.tol = 0 => Covers(H, PtSetOf(E.v))
             /\ E.v[E.first + 1] = H[1]

Next ==
    /\ t' = t /\ i' = i + 1
    /\ \/ Is("march") /\ Idle /\ m' = March0(E.bb, E.nx, E.ny, E.t, E.hard = 1) /\ L' = <<>>
       \/ Is("sm") /\ ~Idle /\ L' = L
          /\ \E p \in { p \in Grid(m) : CNear(GridXY(m, p), E.p) } :
                /\ p \in DOMAIN m.val => m.val[p] = E.v
                /\ m' = Sample(m, p, E.v)
       \/ Is("sg") /\ ~Idle /\ L' = L /\ E.ud = 1
          /\ \E s \in Emissions(m) : Holds(Emits(s)) /\ m' = Emit(m, s, E.a[3], E.b[3])
       \/ Is("mend") /\ ~Idle /\ Holds(MarchDone(m)) /\ Holds(Closed(m)) /\ BagOf(E.ls) = L /\ m' = NoMarch /\ L' = L
       \/ Is("add") /\ BagOf(E.ls) \in Collect(L, E.a, E.b) /\ L' = BagOf(E.ls) /\ m' = m
       \/ Is("pls") /\ Idle /\ L' = <<>> /\ m' = m
       \/ Is("cl") /\ Idle /\ (E.r = 1) = (Len(E.v) > 1 /\ E.v[1] = E.v[Len(E.v)]) /\ UNCHANGED <<L, m>>
       \/ Is("sv") /\ Idle /\ E.same = 1 /\ E.r \in SimplifyVertexes(E.v, E.cs) /\ UNCHANGED <<L, m>>
       \/ Is("sc") /\ Idle /\ E.same = 1 /\ E.r \in SimplifyCurves(E.v, E.tol) /\ Holds(Within(E.v, E.r, E.tol))
          /\ UNCHANGED <<L, m>>
       \/ Is("hull") /\ Idle /\ Holds(HullOk(E.r)) /\ UNCHANGED <<L, m>>
       \/ Is("poly") /\ Idle /\ Len(E.r) >= 3 /\ UNCHANGED <<L, m>>
          /\ Holds(Convex(E.r) /\ Covers(E.r, PtSetOf(E.v)) /\ PtSetOf(E.r) \subseteq PtSetOf(E.v) /\ E.n = Len(E.r))
Spec == Init /\ [][Next]_vars
Accepting == i = Len(Evs) + 1 /\ Idle
Report == Accepting => PrintT(<<"ACC", Traces[t].id>>)
Furthest == IF i >= TLCGet(1) THEN TLCSet(1, i) /\ PrintT(<<"AT", i, "", "", <<>> >>) ELSE TRUE
DiagInit == Init /\ TLCSet(1, 0)
DiagSpec == DiagInit /\ [][Next]_vars
===============================================================================
