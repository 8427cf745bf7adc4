------------------------------ MODULE Geometry ------------------------------
(* Exact planar geometry of the collision shapes of cp: circles, thick        *)
(* segments and rounded convex polygons, in integer coordinates.              *)
(*                                                                            *)
(* A shape is a convex core (1, 2 or more vertices, counter-clockwise) and a  *)
(* radius.  A pose is a position and an index in the rotation table, whose    *)
(* entries are exact rotations by multiples of a 3-4-5 triangle's angles, so  *)
(* that local coordinates which are multiples of 5 stay integers.             *)
(*                                                                            *)
(* Predicates that a floating point implementation decides by comparing two   *)
(* equal numbers (exact tangency) have the value 2: either answer is allowed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* evaluates b as a value: TLC would explore the disjunctions of a conjunct of an action one by one
Holds(b) == b = TRUE

\* <<5 cos, 5 sin>>
RotTable == << <<5,0>>, <<4,3>>, <<3,4>>, <<0,5>>, <<-3,4>>, <<-4,3>>,
               <<-5,0>>, <<-4,-3>>, <<-3,-4>>, <<0,-5>>, <<3,-4>>, <<4,-3>> >>

GMin(a, b) == IF a < b THEN a ELSE b
GMax(a, b) == IF a > b THEN a ELSE b
GAbs(a) == IF a < 0 THEN -a ELSE a

VSub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
VAdd(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Dot(p, q) == p[1] * q[1] + p[2] * q[2]
Cross(p, q) == p[1] * q[2] - p[2] * q[1]
LenSq(p) == Dot(p, p)

\* 12 entries, rot is 0..11
RotV(v, rot) ==
    LET c == RotTable[rot + 1] IN
    IF rot = 0 THEN v
    ELSE << (c[1] * v[1] - c[2] * v[2]) \div 5, (c[2] * v[1] + c[1] * v[2]) \div 5 >>

Place(v, pose) == VAdd(RotV(v, pose[3]), <<pose[1], pose[2]>>)
\* a segment between equal points is a circle
Core(vs, pose) == IF Len(vs) = 2 /\ vs[1] = vs[2] THEN <<Place(vs[1], pose)>>
                  ELSE TLCEval([i \in 1..Len(vs) |-> Place(vs[i], pose)])

\* a bounding box is <<l, b, r, t>>
RECURSIVE MinC(_, _, _), MaxC(_, _, _)
MinC(P, c, n) == IF n = 1 THEN P[1][c] ELSE GMin(P[n][c], MinC(P, c, n - 1))
MaxC(P, c, n) == IF n = 1 THEN P[1][c] ELSE GMax(P[n][c], MaxC(P, c, n - 1))
BBox(P, r) == << MinC(P, 1, Len(P)) - r, MinC(P, 2, Len(P)) - r,
                 MaxC(P, 1, Len(P)) + r, MaxC(P, 2, Len(P)) + r >>
BBHit(a, b) == a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]
BBStrict(a, b) == a[1] < b[3] /\ b[1] < a[3] /\ a[2] < b[4] /\ b[2] < a[4]
\* 0, 1, or 2 when the boxes only touch
BBMeets(a, b) == IF BBStrict(a, b) THEN 1 ELSE IF BBHit(a, b) THEN 2 ELSE 0

\* edges of a core as pairs of points; a 2-vertex core has one edge
Edges(P) == IF Len(P) = 1 THEN {}
            ELSE IF Len(P) = 2 THEN { <<P[1], P[2]>> }
            ELSE { <<P[i], P[(i % Len(P)) + 1]>> : i \in 1..Len(P) }
Perp(v) == <<-v[2], v[1]>>
Axes(P) == { Perp(VSub(e[2], e[1])) : e \in Edges(P) } \cup
           (IF Len(P) = 2 THEN { VSub(P[2], P[1]) } ELSE {})
RECURSIVE ProjMin(_, _, _), ProjMax(_, _, _)
ProjMin(P, a, n) == IF n = 1 THEN Dot(P[1], a) ELSE GMin(Dot(P[n], a), ProjMin(P, a, n - 1))
ProjMax(P, a, n) == IF n = 1 THEN Dot(P[1], a) ELSE GMax(Dot(P[n], a), ProjMax(P, a, n - 1))

\* the cores are disjoint / have no common interior point (only for Len >= 3)
Apart(P, Q) ==
    IF Len(P) = 1 /\ Len(Q) = 1 THEN P[1] # Q[1]
    ELSE \E a \in Axes(P) \cup Axes(Q) :
            \/ ProjMax(P, a, Len(P)) < ProjMin(Q, a, Len(Q))
            \/ ProjMax(Q, a, Len(Q)) < ProjMin(P, a, Len(P))
TouchOnly(P, Q) ==
    \/ Len(P) < 3 /\ Len(Q) < 3
    \/ \E a \in Axes(P) \cup Axes(Q) :
            \/ ProjMax(P, a, Len(P)) <= ProjMin(Q, a, Len(Q))
            \/ ProjMax(Q, a, Len(Q)) <= ProjMin(P, a, Len(P))

\* squared distance of a point and a segment as a fraction <<num, den>>
PSDist(p, a, b) ==
    LET d == VSub(b, a)
        t == Dot(VSub(p, a), d)
        L == LenSq(d)
    IN IF t <= 0 \/ L = 0 THEN << LenSq(VSub(p, a)), 1 >>
       ELSE IF t >= L THEN << LenSq(VSub(p, b)), 1 >>
       ELSE << Cross(d, VSub(p, a)) * Cross(d, VSub(p, a)), L >>
\* all candidate squared distances between two disjoint cores
Dists(P, Q) ==
    { << LenSq(VSub(P[i], Q[j])), 1 >> : i \in 1..Len(P), j \in 1..Len(Q) } \cup
    { PSDist(P[i], e[1], e[2]) : i \in 1..Len(P), e \in Edges(Q) } \cup
    { PSDist(Q[j], e[1], e[2]) : j \in 1..Len(Q), e \in Edges(P) }

\* do the core P with radius r and the core Q with radius s overlap? 0, 1, or 2 (tangent)
Overlap(P, r, Q, s) ==
    LET R == r + s IN
    IF BBMeets(BBox(P, r), BBox(Q, s)) = 0 THEN 0
    ELSE IF ~Apart(P, Q)
         THEN IF ~TouchOnly(P, Q) THEN 1
              ELSE IF R > 0 THEN 1 ELSE 2
    ELSE LET D == Dists(P, Q) IN
         IF \E d \in D : d[1] < R * R * d[2] THEN 1
         ELSE IF \A d \in D : d[1] > R * R * d[2] THEN 0
         ELSE 2
=============================================================================
