------------------------------ MODULE MCAlgebra --------------------------------
(* The laws that the answers of Algebra obey, exhaustively for small          *)
(* arguments: what the operations are for, rather than how they are computed. *)
EXTENDS Algebra
CONSTANTS Side, Entries
VARIABLES kind, x
vars == <<kind, x>>
G == -Side..Side
V == G \X G
Boxes == { p \in G \X G \X G \X G : p[1] <= p[3] /\ p[2] <= p[4] }
Mats == Entries \X Entries \X Entries \X Entries \X Entries \X Entries

Init == \/ kind = "vec" /\ x \in { <<v>> : v \in V }
        \/ kind \in {"box", "ray"} /\ x \in { <<p>> : p \in Boxes }
        \/ kind = "mat" /\ x \in { <<m>> : m \in Mats }
Next == /\ Len(x) = 1 /\ kind' = kind
        /\ \/ kind \in {"vec", "ray"} /\ \E v, w \in V : x' = <<x[1], v, w>>
           \/ kind = "box" /\ \E p \in Boxes : x' = <<x[1], p>>
           \/ kind = "mat" /\ \E m \in Mats : x' = <<x[1], m>>
Spec == Init /\ [][Next]_vars

VecOk == (kind = "vec" /\ Len(x) > 1) => LET u == x[1]
                             v == x[2]
                             w == x[3]
                             z == <<-v[1], -v[2]>> IN
    /\ Unturn(Turn(u, v), v) = Scaled(u, Sq(v)) /\ Turn(u, v) = Turn(v, u)
    /\ Sq(Turn(u, v)) = Sq(u) * Sq(v)                  \* rotating by a unit vector keeps lengths
    /\ Turn(Turn(u, v), w) = Turn(u, Turn(v, w))
    /\ Dot(u, Perp(u)) = 0 /\ Cross(u, v) = Dot(Perp(u), v) /\ Perp(RPerp(u)) = u /\ Cross(u, v) = -Cross(v, u)
    /\ Near(LengthOf(u) * (LengthOf(u) \div 64), FF(Sq(u)) * 64, 40 * 4096)
    /\ NearV(FScale(UnitOf(u), LengthOf(u)), Scaled(u, 512), 4)
    \* the closest point of a segment is no further than any other
    /\ LET c == Closest(u, v, w)
           d(q) == Sq(Sub(q, Scaled(u, 512)))
       IN \A k \in 0..4 : d(c) <= d([i \in {1, 2} |-> 128 * (v[i] * k + w[i] * (4 - k))]) + 4096
    /\ Closest(u, v, w) = Closest(u, w, v) \/ NearV(Closest(u, v, w), Closest(u, w, v), 1)
    \* a projection leaves a rest at right angles
    /\ v # <<0, 0>> => FAbs(Dot(Sub(Scaled(u, 512), Proj(u, v)), v)) <= 8
    \* no longer than the length, and the same direction
    /\ \A l \in 0..Side : LET s == Shorten(u, l) IN FLen(s) <= F(l) + 4 /\ (Sq(u) <= l * l => s = Scaled(u, 512))
                                                     /\ FAbs(Cross(s, u)) <= 16 /\ Dot(s, u) >= -4
BoxOk == (kind = "box" /\ Len(x) > 1) => LET p == x[1]
                             q == x[2]
                             m == BMerge(p, q) IN
    /\ BMeets(p, q) = (\E v \in V : BHolds(p, BPoint(v)) /\ BHolds(q, BPoint(v)))
    /\ BMeets(p, q) = BMeets(q, p)
    /\ BHolds(p, q) = (\A v \in V : BHolds(q, BPoint(v)) => BHolds(p, BPoint(v)))
    /\ BHolds(m, p) /\ BHolds(m, q) /\ BArea(m) >= BArea(p)
    /\ \A b \in {p, q, <<-Side, -Side, Side, Side>>} : BHolds(b, p) /\ BHolds(b, q) => BHolds(b, m)
    /\ BArea(p) >= 0
RayOk == (kind = "ray" /\ Len(x) > 1) => LET p == x[1]
                             a == x[2]
                             b == x[3]
                             e == Enter(p, a, b)
                             \* the point at n / d of the way, d times over, is inside
                             in(n, d) == \A i \in {1, 2} : LET c == a[i] * d + (b[i] - a[i]) * n IN p[i] * d <= c /\ c <= p[i + 2] * d IN
    IF e[1] = Miss THEN \A k \in 0..12 : ~in(k, 12)
    ELSE /\ e[2] >= 0 /\ e[2] <= e[3]
         /\ in(e[2], e[3])
         /\ \A k \in 0..12 : k * e[3] < 12 * e[2] => ~in(k, 12)
MatOk == (kind = "mat" /\ Len(x) > 1) => LET m == x[1]
                             n == x[2] IN
    /\ \A v \in {<<0, 0>>, <<1, 0>>, <<-1, 2>>} : Image(Compose(m, n, 1), v, 1) = Image(m, Image(n, v, 1), 1)
    /\ Compose(Adj(m, 1), m, 1) = <<Det(m), 0, 0, Det(m), 0, 0>>
    /\ LET b == <<-1, 0, 2, 1>>
           c == Bounds({ Image(m, p, 1) : p \in Corners(b) })
       IN \A v \in (-1..2) \X (0..1) : BHolds(c, BPoint(Image(m, v, 1)))
===============================================================================
