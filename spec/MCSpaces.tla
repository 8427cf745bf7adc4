------------------------------- MODULE MCSpaces --------------------------------
(* A small program with several spaces, each a deterministic machine behind    *)
(* some state; with Shared, a register the machines have in common that the    *)
(* outcome of an operation depends on.  Without it every interleaving is       *)
(* accepted by Spaces; with it some interleaving is rejected.                  *)
EXTENDS Spaces, TLC
CONSTANTS S, Ops, Steps, Shared
VARIABLES w, mach, reg, ok, n
vars == <<w, mach, reg, ok, n>>

Init == /\ w = [Fresh EXCEPT !.at = [s \in S |-> 0], !.busy = [s \in S |-> NoOp], !.state = [s \in S |-> "-"]]
        /\ mach = [s \in S |-> <<>>] /\ reg = 0 /\ ok = TRUE /\ n = 0
View(s) == ToString(mach[s])
Look == [s \in { s \in S : mach[s] # <<>> } |-> View(s)]
Beg(s, op) == s \in Idle(w) /\ n < Steps /\ n' = n + 1 /\ w' = Begin(w, s, op) /\ ok' = (ok /\ Undisturbed(w, Look)) /\ UNCHANGED <<mach, reg>>
Fin(s) == /\ s \notin Idle(w) /\ ok
          /\ LET x == IF Shared THEN (reg + Len(mach[s])) % 2 ELSE Len(mach[s]) % 2
                 m1 == Append(mach[s], <<w.busy[s], x>>)
                 r == ToString(m1)
             IN /\ mach' = [mach EXCEPT ![s] = m1]
                /\ ok' = (Undisturbed(w, Look) /\ CanEnd(w, s, r))
                /\ w' = End(w, s, r, r)
          /\ reg' = IF Shared THEN reg + 1 ELSE reg
          /\ n' = n
Next == \E s \in S : Fin(s) \/ \E op \in Ops : Beg(s, op)
Spec == Init /\ [][Next]_vars

Accepted == ok
\* spaces with the same history are in the same node, and the node tells the whole history
SameNode == \A s, s2 \in Idle(w) : (mach[s] = mach[s2]) => w.at[s] = w.at[s2]
Single == \A k, l \in 1..Len(w.edge) : w.edge[k] = w.edge[l] => k = l
===============================================================================
