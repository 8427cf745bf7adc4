-------------------------------- MODULE Curves --------------------------------
(* Marching squares, polylines and convex hulls.                              *)
(*                                                                            *)
(* March: the state holds the samples taken so far and the pieces of boundary *)
(* emitted so far.  A grid edge whose ends are on different sides of the      *)
(* threshold is crossed; around a cell (counter-clockwise) crossings alternate*)
(* between leaving the inside and entering it, and every piece of boundary    *)
(* runs from a leaving to an entering crossing of one cell, so that the       *)
(* inside is on its left.                                                     *)
EXTENDS Geometry, FiniteSetsExt

PtSetOf(s) == { s[i] : i \in 1..Len(s) }
F == 256  \* coordinates are in units of 1/F
CNear(a, b) == GAbs(a[1] - b[1]) <= 1 /\ GAbs(a[2] - b[2]) <= 1
CDiv(a, b) == IF b < 0 THEN (-2 * a - b) \div (-2 * b) ELSE (2 * a + b) \div (2 * b)

March0(bb, nx, ny, t, hard) ==
    [bb |-> bb, nx |-> nx, ny |-> ny, t |-> t, hard |-> hard, val |-> <<>>, segs |-> {}, ids |-> {}]
Grid(m) == (1..m.nx) \X (1..m.ny)
Cells(m) == (1..(m.nx - 1)) \X (1..(m.ny - 1))
\* numerator of a grid coordinate, over nx - 1 or ny - 1
GX(m, i) == m.bb[1] * (m.nx - 1) + (m.bb[3] - m.bb[1]) * (i - 1)
GY(m, j) == m.bb[2] * (m.ny - 1) + (m.bb[4] - m.bb[2]) * (j - 1)
GridXY(m, p) == << CDiv(F * GX(m, p[1]), m.nx - 1), CDiv(F * GY(m, p[2]), m.ny - 1) >>

Inside(m, p) == m.val[p] > m.t
\* corners and edges of a cell, counter-clockwise: edge k leads from corner k to the next
Corner(c, k) == CASE k = 1 -> c [] k = 2 -> <<c[1] + 1, c[2]>> [] k = 3 -> <<c[1] + 1, c[2] + 1>> [] k = 4 -> <<c[1], c[2] + 1>>
EdgeOf(c, k) == CASE k = 1 -> <<"h", c[1], c[2]>> [] k = 2 -> <<"v", c[1] + 1, c[2]>>
                  [] k = 3 -> <<"h", c[1], c[2] + 1>> [] k = 4 -> <<"v", c[1], c[2]>>
NextK(k) == (k % 4) + 1
Known(m, c) == \A k \in 1..4 : Corner(c, k) \in DOMAIN m.val
Leaving(m, c) == { k \in 1..4 : Inside(m, Corner(c, k)) /\ ~Inside(m, Corner(c, NextK(k))) }
Entering(m, c) == { k \in 1..4 : ~Inside(m, Corner(c, k)) /\ Inside(m, Corner(c, NextK(k))) }
EdgeEnds(e) == << <<e[2], e[3]>>, IF e[1] = "h" THEN <<e[2] + 1, e[3]>> ELSE <<e[2], e[3] + 1>> >>
\* where a crossing is: soft crossings of an edge with a sample equal to the threshold are at that sample
Loc(m, e) ==
    LET q == EdgeEnds(e) IN
    IF ~m.hard /\ m.val[q[1]] = m.t THEN <<"p", q[1][1], q[1][2]>>
    ELSE IF ~m.hard /\ m.val[q[2]] = m.t THEN <<"p", q[2][1], q[2][2]>>
    ELSE e
\* the fraction of the way along edge e as <<num, den>>
Frac(m, e) ==
    LET q == EdgeEnds(e) IN
    IF m.hard THEN <<1, 2>> ELSE << m.t - m.val[q[1]], m.val[q[2]] - m.val[q[1]] >>
LocXY(m, l) ==
    CASE l[1] = "p" -> GridXY(m, <<l[2], l[3]>>)
      [] l[1] = "c" -> << CDiv(F * (GX(m, l[2]) + GX(m, l[2] + 1)), 2 * (m.nx - 1)),
                          CDiv(F * (GY(m, l[3]) + GY(m, l[3] + 1)), 2 * (m.ny - 1)) >>
      [] l[1] = "h" -> LET f == Frac(m, l) IN
                       << CDiv(F * (GX(m, l[2]) * f[2] + (m.bb[3] - m.bb[1]) * f[1]), (m.nx - 1) * f[2]),
                          GridXY(m, <<l[2], l[3]>>)[2] >>
      [] l[1] = "v" -> LET f == Frac(m, l) IN
                       << GridXY(m, <<l[2], l[3]>>)[1],
                          CDiv(F * (GY(m, l[3]) * f[2] + (m.bb[4] - m.bb[2]) * f[1]), (m.ny - 1) * f[2]) >>

\* a piece is <<cell, from, to>>; ends are edge numbers 1..4 or 0 for the centre of the cell
PLoc(m, c, k) == IF k = 0 THEN <<"c", c[1], c[2]>> ELSE Loc(m, EdgeOf(c, k))
Pieces(m, c) ==
    LET mine == { s \in m.segs : s[1] = c }
        P == Leaving(m, c) \ { s[2] : s \in mine }
        N == Entering(m, c) \ { s[3] : s \in mine }
    IN { <<c, p, n>> : p \in { p \in P : TRUE }, n \in { n \in N : TRUE } } \cup
       (IF m.hard THEN { <<c, p, 0>> : p \in P } \cup { <<c, 0, n>> : n \in N } ELSE {})
Opposite(p, n) == GAbs(p - n) = 2
CanEmit(m, s) == IF m.hard THEN s[2] = 0 \/ s[3] = 0 \/ Opposite(s[2], s[3])
                 ELSE PLoc(m, s[1], s[2]) # PLoc(m, s[1], s[3])
Emissions(m) == { s \in UNION { Pieces(m, c) : c \in { c \in Cells(m) : Known(m, c) } } : CanEmit(m, s) }
IdOk(ids, l, id) == \A x \in ids : (x[1] = l) = (x[2] = id)

Sample(m, p, v) == [m EXCEPT !.val = (p :> v) @@ @]
Emit(m, s, ia, ib) == [m EXCEPT !.segs = @ \cup {s},
                                !.ids = @ \cup { <<PLoc(m, s[1], s[2]), ia>>, <<PLoc(m, s[1], s[3]), ib>> }]
\* everything has been sampled and emitted; pieces of length zero are left out
CellDone(m, c) ==
    LET mine == { s \in m.segs : s[1] = c }
        P == Leaving(m, c) \ { s[2] : s \in mine }
        N == Entering(m, c) \ { s[3] : s \in mine }
    IN IF m.hard THEN P = {} /\ N = {} /\ Cardinality({ s \in mine : s[2] = 0 }) = Cardinality({ s \in mine : s[3] = 0 })
       ELSE /\ Cardinality(P) = Cardinality(N)
            /\ \E f \in [P -> N] : /\ \A p \in P : PLoc(m, c, p) = PLoc(m, c, f[p])
                                   /\ \A p, q \in P : p # q => f[p] # f[q]
MarchDone(m) == DOMAIN m.val = Grid(m) /\ \A c \in Cells(m) : CellDone(m, c)

\* the boundary is closed except where it leaves the sampled box
OnBorder(m, l) == \/ l[1] = "h" /\ l[3] \in {1, m.ny}
                  \/ l[1] = "v" /\ l[2] \in {1, m.nx}
                  \/ l[1] = "p" /\ (l[2] \in {1, m.nx} \/ l[3] \in {1, m.ny})
Starts(m, l) == Cardinality({ s \in m.segs : PLoc(m, s[1], s[2]) = l })
EndsAt(m, l) == Cardinality({ s \in m.segs : PLoc(m, s[1], s[3]) = l })
AllLocs(m) == { PLoc(m, s[1], s[2]) : s \in m.segs } \cup { PLoc(m, s[1], s[3]) : s \in m.segs }
Closed(m) == \A l \in AllLocs(m) : OnBorder(m, l) \/ Starts(m, l) = EndsAt(m, l)

--------------------------------------------------------------------------------
(* polyline sets: bags of sequences of points *)
BagOf(s) == [ l \in { s[i] : i \in 1..Len(s) } |-> Cardinality({ i \in 1..Len(s) : s[i] = l }) ]
BAdd(b, l) == IF l \in DOMAIN b THEN [b EXCEPT ![l] = @ + 1] ELSE (l :> 1) @@ b
BSub(b, l) == IF b[l] > 1 THEN [b EXCEPT ![l] = @ - 1] ELSE [x \in DOMAIN b \ {l} |-> b[x]]
\* a segment starts a line, extends one at either end, closes one, or joins two
Collect(L, v, w) ==
    LET before == { l \in DOMAIN L : l[Len(l)] = v }
        after == { l \in DOMAIN L : l[1] = w }
    IN IF before = {} /\ after = {} THEN { BAdd(L, <<v, w>>) }
       ELSE IF after = {} THEN { BAdd(BSub(L, b), Append(b, w)) : b \in before }
       ELSE IF before = {} THEN { BAdd(BSub(L, a), <<v>> \o a) : a \in after }
       ELSE { BAdd(BSub(L, b), Append(b, w)) : b \in before \cap after } \cup
            { BAdd(BSub(BSub(L, x[1]), x[2]), x[1] \o x[2]) :
                 x \in { x \in before \X after : x[1] # x[2] \/ L[x[1]] > 1 } }
\* all edges of a bag of lines, with multiplicity
EdgeCount(L, v, w) ==
    FoldSet(LAMBDA l, n : n + L[l] * Cardinality({ i \in 1..(Len(l) - 1) : l[i] = v /\ l[i + 1] = w }), 0, DOMAIN L)

\* how the direction at b, between a and c, compares with the tolerance whose squared cosine is cs[1] / cs[2]:
\* 1 when the line turns by less, 0 when by more, 2 when the two are equal
Straight(a, b, c, cs) ==
    LET u == VSub(a, b)
        v == VSub(c, b)
        d == Dot(u, v)
        L == LenSq(u) * LenSq(v)
    IN IF d >= 0 THEN 0
       ELSE IF d * d * cs[2] > cs[1] * L THEN 1
       ELSE IF d * d * cs[2] = cs[1] * L THEN 2 ELSE 0
RECURSIVE VertexRun(_, _, _, _)
\* the sequences the vertices from the i-th on may be reduced to, after those in R
VertexRun(V, i, R, cs) ==
    IF i > Len(V) THEN {R}
    ELSE LET n == Len(R)
             s == Straight(R[n - 1], R[n], V[i], cs)
         IN (IF s # 1 THEN VertexRun(V, i + 1, Append(R, V[i]), cs) ELSE {}) \cup
            (IF s # 0 THEN VertexRun(V, i + 1, [R EXCEPT ![n] = V[i]], cs) ELSE {})
\* of a closed line the first vertex may go as well
SimplifyVertexes(V, cs) ==
    LET R0 == VertexRun(V, 3, <<V[1], V[2]>>, cs) IN
    UNION { LET n == Len(R)
                s == IF V[1] = V[Len(V)] THEN Straight(R[n - 1], R[1], R[2], cs) ELSE 0
            IN (IF s # 1 THEN {R} ELSE {}) \cup
               (IF s # 0 THEN { SubSeq([R EXCEPT ![1] = R[n - 1]], 1, n - 1) } ELSE {}) : R \in R0 }

FracLess(a, b) == a[1] * b[2] < b[1] * a[2]
\* the vertices strictly between two others of a line; those of a closed line go around
Between(s, e, n) == IF s < e THEN (s + 1)..(e - 1) ELSE ((s + 1)..n) \cup (1..(e - 1))
RECURSIVE Peucker(_, _, _, _, _)
\* what may be kept between the vertices s and e of V (n of them), tolerance tol / 4
Peucker(V, n, s, e, tol) ==
    LET I == Between(s, e, n) IN
    IF I = {} THEN { <<>> }
    ELSE LET D == TLCEval([i \in I |-> PSDist(V[i], V[s], V[e])])
             far == { i \in I : \A j \in I : ~FracLess(D[i], D[j]) }
             m == D[CHOOSE i \in far : TRUE]
             over == 16 * m[1] - tol * tol * m[2]
         IN (IF over <= 0 THEN { <<>> } ELSE {}) \cup
            (IF over >= 0
             THEN UNION { { x[1] \o << V[i] >> \o x[2] : x \in Peucker(V, n, s, i, tol) \X Peucker(V, n, i, e, tol) } : i \in far }
             ELSE {})
\* the leftmost (lowest) and rightmost (highest) of the first n points
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Leftmost(V, n) == { i \in 1..n : \A j \in 1..n : ~Before(V[j], V[i]) }
Rightmost(V, n) == { i \in 1..n : \A j \in 1..n : ~Before(V[i], V[j]) }
SimplifyCurves(V, tol) ==
    LET n == Len(V) IN
    IF V[1] = V[n]
    THEN UNION { { << V[x[1]] >> \o y[1] \o << V[x[2]] >> \o y[2] \o << V[x[1]] >> :
                       y \in Peucker(V, n - 1, x[1], x[2], tol) \X Peucker(V, n - 1, x[2], x[1], tol) } :
                 x \in Leftmost(V, n - 1) \X Rightmost(V, n - 1) }
    ELSE { << V[1] >> \o x \o << V[n] >> : x \in Peucker(V, n, 1, n, tol) }
\* every vertex of V is within tol / 4 of the line R
Within(V, R, tol) ==
    \A i \in 1..Len(V) : \E j \in 1..(Len(R) - 1) :
        LET d == PSDist(V[i], R[j], R[j + 1]) IN 16 * d[1] <= tol * tol * d[2]

--------------------------------------------------------------------------------
(* convex hulls *)
\* does p lie beyond the line from a to b (on its right) by more than tol / 4? 0, 1, or 2 when by exactly that much
Beyond(p, a, b, tol) ==
    LET c == Cross(VSub(p, a), VSub(b, a))
        d == 16 * c * c - tol * tol * LenSq(VSub(b, a))
    IN IF c <= 0 THEN 0 ELSE IF d > 0 THEN 1 ELSE IF d = 0 THEN 2 ELSE 0
RECURSIVE HullChain(_, _, _, _)
\* the vertices that may be found between a and b among the points S
HullChain(a, S, b, tol) ==
    LET yes == { p \in S : Beyond(p, a, b, tol) = 1 }
        tie == { p \in S : Beyond(p, a, b, tol) = 2 }
        H(p) == Cross(VSub(p, a), VSub(b, a))
    IN UNION { IF C = {} THEN { <<>> }
               ELSE UNION { { x[1] \o <<p>> \o x[2] : x \in HullChain(a, C \ {p}, p, tol) \X HullChain(p, C \ {p}, b, tol) } :
                            p \in { p \in C : \A q \in C : H(q) <= H(p) } } :
               C \in { yes \cup x : x \in SUBSET tie } }
Hulls(S, tol) ==
    LET a == CHOOSE p \in S : \A q \in S : p = q \/ Before(p, q)
        b == CHOOSE p \in S : \A q \in S : p = q \/ Before(q, p)
    IN IF a = b THEN { <<a>> }
       ELSE { <<a>> \o x[1] \o <<b>> \o x[2] : x \in HullChain(a, S, b, tol) \X HullChain(b, S, a, tol) }
\* H is a convex polygon (or a point, or two), counter-clockwise, with S in it
Convex(H) == \A i \in 1..Len(H) : LET b == H[(i % Len(H)) + 1]
                                      c == H[((i + 1) % Len(H)) + 1]
                                  IN Len(H) < 3 \/ Cross(VSub(b, H[i]), VSub(c, b)) >= 0
Covers(H, S) == \A i \in 1..Len(H) : \A p \in S : Cross(VSub(H[(i % Len(H)) + 1], H[i]), VSub(p, H[i])) >= 0
\* the outline without vertices in the middle of an edge, as a set
Corners(H) == { H[i] : i \in { i \in 1..Len(H) :
                  LET a == H[IF i = 1 THEN Len(H) ELSE i - 1]
                      b == H[(i % Len(H)) + 1]
                  IN Len(H) < 3 \/ Cross(VSub(H[i], a), VSub(b, H[i])) # 0 } }
===============================================================================
