-------------------------------- MODULE Spaces ---------------------------------
(* Several simulations in one program.  What a space does is a function of the *)
(* operations performed on it: histories are the nodes of a tree, and whatever *)
(* was observed at the end of an operation is a property of the node, the same *)
(* for every space that gets there, whatever else happens in between.  While   *)
(* an operation runs, the observable state of every other space stays the same.*)
EXTENDS Naturals, Sequences, FiniteSets

NoOp == ""
Fresh == [edge |-> <<>>, what |-> <<>>, at |-> <<>>, busy |-> <<>>, state |-> <<>>]
Spaces(w) == DOMAIN w.at
Idle(w) == { s \in Spaces(w) : w.busy[s] = NoOp }

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* the idle spaces look as they did when their last operation ended            *)
Undisturbed(w, seen) == \A s \in DOMAIN seen : s \in Idle(w) => seen[s] = w.state[s]

Create(w, s) == [w EXCEPT !.at = Put(@, s, 0), !.busy = Put(@, s, NoOp), !.state = Put(@, s, "-")]
Forget(w) == [w EXCEPT !.at = <<>>, !.busy = <<>>, !.state = <<>>]

Begin(w, s, op) == [w EXCEPT !.busy[s] = op]

(* the node reached from n by op, 0 if no space has been there                 *)
Node(w, n, op) == LET K == { k \in 1..Len(w.edge) : w.edge[k] = <<n, op>> } IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
CanEnd(w, s, res) == LET k == Node(w, w.at[s], w.busy[s]) IN IF k = 0 THEN TRUE ELSE w.what[k] = res
End(w, s, res, st) ==
    LET k == Node(w, w.at[s], w.busy[s])
        new == k = 0
        w1 == IF new THEN [w EXCEPT !.edge = Append(@, <<w.at[s], w.busy[s]>>), !.what = Append(@, res)] ELSE w
    IN [w1 EXCEPT !.at[s] = IF new THEN Len(w1.edge) ELSE k, !.busy[s] = NoOp, !.state[s] = st]
===============================================================================
