------------------------------- MODULE DetTrace --------------------------------
(* Checks recorded interleavings of simulations against Spaces.                *)
EXTENDS Spaces, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, w, watch
vars == <<t, i, w, watch>>

Evs == Traces[t].ev
E == Evs[i]
Is(n) == i <= Len(Evs) /\ E.e = n
Init == t \in 1..Len(Traces) /\ i = 1 /\ w = Fresh /\ watch = FALSE

Seen == [ s \in { E.seen[k][1] : k \in 1..Len(E.seen) } |-> E.seen[CHOOSE k \in 1..Len(E.seen) : E.seen[k][1] = s][2] ]
\* where the other spaces are watched, all of them are
Calm == /\ Undisturbed(w, Seen)
                /\ watch => { s \in Idle(w) : w.state[s] # "-" } \subseteq DOMAIN Seen

Next ==
    /\ t' = t /\ i' = i + 1
    /\ \/ Is("phase") /\ Idle(w) = Spaces(w) /\ w' = Forget(w) /\ watch' = (E.watch = 1)
       \/ Is("new") /\ E.s \notin Spaces(w) /\ w' = Create(w, E.s) /\ watch' = watch
       \/ Is("beg") /\ E.s \in Idle(w) /\ Calm /\ w' = Begin(w, E.s, E.op) /\ watch' = watch
       \/ Is("mid") /\ E.s \in Spaces(w) \ Idle(w) /\ Calm /\ UNCHANGED <<w, watch>>
       \/ Is("end") /\ E.s \in Spaces(w) \ Idle(w) /\ Calm /\ CanEnd(w, E.s, E.res)
          /\ w' = End(w, E.s, E.res, E.st) /\ watch' = watch
Spec == Init /\ [][Next]_vars
Accepting == i = Len(Evs) + 1 /\ Idle(w) = Spaces(w)
Report == Accepting => PrintT(<<"ACC", Traces[t].id>>)
Furthest == IF i >= TLCGet(1) THEN TLCSet(1, i) /\ PrintT(<<"AT", i, "", "", <<>> >>) ELSE TRUE
DiagInit == Init /\ TLCSet(1, 0)
DiagSpec == DiagInit /\ [][Next]_vars
===============================================================================
