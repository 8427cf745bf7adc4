-------------------------------- MODULE Query --------------------------------
(* What the geometric queries answer, in fixed point: lengths and positions   *)
(* are in units of 1/Q, directions are unit vectors times U, fractions are    *)
(* times AU.  Answers of the implementation are rounded to these units, so    *)
(* comparisons allow a few of them.                                           *)
EXTENDS Geometry

Q == 128
U == 10000
AU == 100000
Tol == 5

RECURSIVE SqrtSearch(_, _, _)
SqrtSearch(n, lo, hi) == \* lo^2 <= n < hi^2
    IF hi - lo <= 1 THEN lo
    ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN SqrtSearch(n, m, hi) ELSE SqrtSearch(n, lo, m)
ISqrt(n) == SqrtSearch(n, 0, IF n < 1048576 THEN 1025 ELSE 46341)
\* c / sqrt(n) for 0 <= c <= sqrt(n) * 30000, to about one unit
DivSqrt(c, n) == LET s == ISqrt(n)
                     d == c \div s
                 IN d - (d * ((n - s * s) \div 2)) \div (s * s)
Len2(p) == LET n == LenSq(p)
               s == ISqrt(n) IN IF n - s * s > s THEN s + 1 ELSE s

Scaled(P) == TLCEval([i \in 1..Len(P) |-> <<P[i][1] * Q, P[i][2] * Q>>])
\* distance from the point X to the segment AB
FPS(X, A, B) ==
    LET d == VSub(B, A)
        p == VSub(X, A)
        t == Dot(p, d)
        L == LenSq(d)
    IN IF t <= 0 \/ L = 0 THEN Len2(p)
       ELSE IF t >= L THEN Len2(VSub(X, B))
       ELSE DivSqrt(GAbs(Cross(d, p)), L)
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
MaxOf(s) == CHOOSE x \in s : \A y \in s : x >= y
InCore(X, F) == Len(F) >= 3 /\ \A e \in Edges(F) : Cross(VSub(e[2], e[1]), VSub(X, e[1])) >= 0
EdgeDist(X, F) == IF Len(F) = 1 THEN Len2(VSub(X, F[1])) ELSE MinOf({ FPS(X, e[1], e[2]) : e \in Edges(F) })
\* signed distance from X to the surface of the shape with the scaled core F and radius r (units)
SDist(X, F, r) == IF InCore(X, F) THEN -EdgeDist(X, F) - r ELSE EdgeDist(X, F) - r

Near(a, b, tol) == GAbs(a - b) <= tol
NearV(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)
IsUnit(n) == GAbs(n[1]) <= U + 1 /\ GAbs(n[2]) <= U + 1 /\ Near(LenSq(n), U * U, 3 * U)
RDiv(a, b) == (2 * a + b) \div (2 * b)
\* X moved by l units along n
Along(X, n, l) == << X[1] + RDiv(n[1] * l, U), X[2] + RDiv(n[2] * l, U) >>
\* pt is on the surface and n the outward normal there
OnSurface(pt, F, r) == Near(SDist(pt, F, r), 0, Tol)
Outward(pt, n, F, r) == IsUnit(n) /\ Near(SDist(Along(pt, n, 2 * Q), F, r), 2 * Q, Tol)

--------------------------------------------------------------------------------
(* point queries: distance D, point pt and gradient g for the point X *)
PointAnswer(X, F, r, D, pt, g) ==
    /\ Near(D, SDist(X, F, r), Tol)
    /\ OnSurface(pt, F, r)
    /\ Outward(pt, g, F, r)
    /\ NearV(X, Along(pt, g, D), Tol)

(* segment queries: the circle with radius q (units) moves from A to B *)
\* distance between the segment AB and the core F
FSegDist(A, B, F) ==
    LET seg == <<A, B>>
        opp(s, t) == (s <= 0 /\ t >= 0) \/ (s >= 0 /\ t <= 0)
        crosses(e) == /\ opp(Cross(VSub(B, A), VSub(e[1], A)), Cross(VSub(B, A), VSub(e[2], A)))
                      /\ opp(Cross(VSub(e[2], e[1]), VSub(A, e[1])), Cross(VSub(e[2], e[1]), VSub(B, e[1])))
                      /\ Cross(VSub(B, A), VSub(e[2], e[1])) # 0
    IN IF InCore(A, F) \/ InCore(B, F) THEN 0
       ELSE MinOf({ EdgeDist(A, F), EdgeDist(B, F) } \cup
                  { FPS(F[i], A, B) : i \in 1..Len(F) } \cup
                  { IF crosses(e) THEN 0 ELSE 1000000 : e \in Edges(F) })
\* a and b are integer points here, to keep the products small
AtI(a, b, al) == << a[1] * Q + RDiv((b[1] - a[1]) * al * 16, AU \div 8), a[2] * Q + RDiv((b[2] - a[2]) * al * 16, AU \div 8) >>
\* in: the circle overlaps the shape already at the start (0, 1, 2 undecided)
HitAnswer(a, b, q, F, r, in, al, pt, n) ==
    LET C == AtI(a, b, al) IN
    \/ /\ in # 0 /\ al = 0 /\ OnSurface(pt, F, r)
    \/ /\ in # 1 /\ al >= 0 /\ al <= AU
       /\ Outward(pt, n, F, r)
       /\ OnSurface(pt, F, r)
       /\ NearV(C, Along(pt, n, q), Tol)
       /\ Dot(n, VSub(b, a)) <= 140
\* the moving circle overlaps the shape clearly before it reaches C
ClearlyBefore(A, C, q, F, r) == FSegDist(A, C, F) < q + r - 8

--------------------------------------------------------------------------------
(* contacts: normal n and points [ax, ay, bx, by, d] between F, r and G, s *)
RECURSIVE FProjMin(_, _, _, _), FProjMax(_, _, _, _)
\* projections on a unit vector, relative to the point O
FProjMin(F, n, O, k) == LET v == RDiv(Dot(VSub(F[k], O), n), U) IN IF k = 1 THEN v ELSE GMin(v, FProjMin(F, n, O, k - 1))
FProjMax(F, n, O, k) == LET v == RDiv(Dot(VSub(F[k], O), n), U) IN IF k = 1 THEN v ELSE GMax(v, FProjMax(F, n, O, k - 1))
\* how far G is ahead of F along n (negative when they have to be moved apart)
Gap(F, G, n) == FProjMin(G, n, F[1], Len(G)) - FProjMax(F, n, F[1], Len(F))
\* the same along an axis of any length, given by integers
AxisGap(P, PP, a) ==
    LET O == P[1]
        g == ProjMin([i \in 1..Len(PP) |-> VSub(PP[i], O)], a, Len(PP)) - ProjMax([i \in 1..Len(P) |-> VSub(P[i], O)], a, Len(P))
        m == DivSqrt(GAbs(g) * Q * 16, LenSq(a) * 256)
    IN IF g < 0 THEN -m ELSE m
\* the distance of the cores, or minus the shortest translation that separates them
CoreSep(P, PP) ==
    IF Apart(P, PP)
    THEN MinOf({ FPS(<<P[i][1] * Q, P[i][2] * Q>>, <<e[1][1] * Q, e[1][2] * Q>>, <<e[2][1] * Q, e[2][2] * Q>>) : i \in 1..Len(P), e \in Edges(PP) } \cup
               { FPS(<<PP[i][1] * Q, PP[i][2] * Q>>, <<e[1][1] * Q, e[1][2] * Q>>, <<e[2][1] * Q, e[2][2] * Q>>) : i \in 1..Len(PP), e \in Edges(P) } \cup
               { Len2(<<(P[i][1] - PP[j][1]) * Q, (P[i][2] - PP[j][2]) * Q>>) : i \in 1..Len(P), j \in 1..Len(PP) })
    ELSE LET ax == Axes(P) \cup Axes(PP) IN
         IF ax = {} THEN 0 ELSE MaxOf({ AxisGap(P, PP, a) : a \in ax } \cup { AxisGap(P, PP, <<-a[1], -a[2]>>) : a \in ax })
ContactAnswer(P, r, PP, s, n, pts) ==
    LET F == Scaled(P)
        G == Scaled(PP)
        R == (r + s) * Q
        deep == MinOf({ pts[i][5] : i \in 1..Len(pts) })
        pa(i) == << pts[i][1], pts[i][2] >>
        pb(i) == << pts[i][3], pts[i][4] >>
    IN /\ Len(pts) \in 1..2
       /\ IsUnit(n)
       /\ Near(Gap(F, G, n) - R, deep, Tol)
       /\ Near(CoreSep(P, PP) - R, deep, Tol)
       /\ \A i \in 1..Len(pts) : /\ pts[i][5] <= Tol
                                 /\ Near(RDiv(Dot(VSub(pb(i), pa(i)), n), U), pts[i][5], Tol)
       /\ \E i \in 1..Len(pts) : /\ pts[i][5] <= deep + Tol
                                 /\ OnSurface(pa(i), F, r * Q)
                                 /\ OnSurface(pb(i), G, s * Q)
=============================================================================
