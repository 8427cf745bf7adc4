------------------------------- MODULE AlgTrace --------------------------------
(* Checks recorded answers of vectors, boxes and transforms against Algebra.  *)
EXTENDS Algebra, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Evs == Traces[t].ev
Init == t \in 1..Len(Traces) /\ i = 1
Next == /\ t' = t /\ i' = i + 1 /\ i <= Len(Evs) /\ Evs[i].e = "v" /\ OpOk(Evs[i].o, Evs[i].a, Evs[i].r) = TRUE
Spec == Init /\ [][Next]_<<t, i>>
Report == i = Len(Evs) + 1 => PrintT(<<"ACC", Traces[t].id>>)
Furthest == IF i >= TLCGet(1) THEN TLCSet(1, i) /\ PrintT(<<"AT", i, "", "", <<>> >>) ELSE TRUE
DiagInit == Init /\ TLCSet(1, 0)
DiagSpec == DiagInit /\ [][Next]_<<t, i>>
===============================================================================
