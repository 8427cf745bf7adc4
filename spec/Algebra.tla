------------------------------- MODULE Algebra --------------------------------
(* Vectors, bounding boxes and transforms: what each operation answers.       *)
(* Arguments are integers, counted in eighths (below 49 in size); answers are *)
(* in fixed point with 12 binary places, where what the arguments determine   *)
(* exactly is exact.                                                           *)
EXTENDS Fixed

F(x) == 512 * x                       \* an argument as an answer
FF(x) == 64 * x                       \* a product of two arguments
Clip(x, lo, hi) == FClamp(x, lo, hi)
MinOf(Q) == LET x == CHOOSE x \in Q : \A y \in Q : x <= y IN x
MaxOf(Q) == LET x == CHOOSE x \in Q : \A y \in Q : x >= y IN x
Rounded(a, b) == LET q == a \div b
                     r == a % b
                 IN IF r >= b - r THEN q + 1 ELSE q
RDiv(a, b) == IF b < 0 THEN Rounded(-a, -b) ELSE Rounded(a, b)   \* a / b, rounded

\* ---------------------------------------------------------------- vectors
Add(u, v) == <<u[1] + v[1], u[2] + v[2]>>
Sub(u, v) == <<u[1] - v[1], u[2] - v[2]>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Perp(v) == <<-v[2], v[1]>>
RPerp(v) == <<v[2], -v[1]>>
Turn(u, v) == <<Dot(u, <<v[1], -v[2]>>), u[1] * v[2] + u[2] * v[1]>>      \* complex product
Unturn(u, v) == <<Dot(u, v), u[2] * v[1] - u[1] * v[2]>>
Sq(v) == Dot(v, v)
\* the length of v, k times over, for a large k
Times(q) == IF q <= 127 THEN 4096 ELSE IF q <= 2047 THEN 1024 ELSE 256
RootK(q) == LET k == Times(q) IN ISqrt(q * k * k)
LengthOf(v) == RDiv(512 * RootK(Sq(v)), Times(Sq(v)))
UnitOf(v) == IF v = <<0, 0>> THEN <<0, 0>>
             ELSE LET q == Sq(v) IN [i \in {1, 2} |-> RDiv(v[i] * 4096 * Times(q), RootK(q))]
\* v scaled down to the length l if it is longer
Shorten(v, l) == IF Sq(v) > l * l THEN LET q == Sq(v) IN [i \in {1, 2} |-> RDiv(512 * l * v[i] * Times(q), RootK(q))]
                 ELSE [i \in {1, 2} |-> F(v[i])]
\* the point of the segment a b closest to p
Closest(p, a, b) == LET d == Sub(a, b)
                        n == Dot(d, Sub(p, b))
                    IN IF n <= 0 THEN <<F(b[1]), F(b[2])>>
                       ELSE IF n >= Sq(d) THEN <<F(a[1]), F(a[2])>>
                       ELSE [i \in {1, 2} |-> F(b[i]) + RDiv(512 * d[i] * n, Sq(d))]
Proj(v, u) == [i \in {1, 2} |-> RDiv(u[i] * Dot(v, u) * 512, Sq(u))]
\* from the direction at angle a and length m towards that at angle b and length n, turned by x out of |b - a|
Slerp(a, b, m, n, x) ==
    LET w == FAbs(F(b) - F(a))
        u == FCS(F(a))
        v == FCS(F(b))
        s1 == FCS(w - x)[2]
        s2 == FCS(x)[2]
        s == FCS(w)[2]
    IN [i \in {1, 2} |-> FDiv(FMul(FMul(u[i], F(m)), s1) + FMul(FMul(v[i], F(n)), s2), s)]
At(a, m) == FScale(FCS(F(a)), F(m))

\* ------------------------------------------------- boxes <<l, b, r, t>>
BMeets(p, q) == p[1] <= q[3] /\ q[1] <= p[3] /\ p[2] <= q[4] /\ q[2] <= p[4]
BHolds(p, q) == p[1] <= q[1] /\ q[3] <= p[3] /\ p[2] <= q[2] /\ q[4] <= p[4]
BPoint(v) == <<v[1], v[2], v[1], v[2]>>
BMerge(p, q) == <<FMin(p[1], q[1]), FMin(p[2], q[2]), FMax(p[3], q[3]), FMax(p[4], q[4])>>
BArea(p) == (p[3] - p[1]) * (p[4] - p[2])
\* the part of the segment from a in direction d inside a slab: <<n, d>> stands for n / d, d > 0
Slab(x, d, lo, hi) == IF d > 0 THEN << <<lo - x, d>>, <<hi - x, d>> >> ELSE << <<x - hi, -d>>, <<x - lo, -d>> >>
Less(p, q) == p[1] * q[2] < q[1] * p[2]
Miss == "miss"
Either == "either"
\* where the segment enters the box: a fraction, Miss, or Either for a corner it only touches
Enter(p, a, b) ==
    LET d == Sub(b, a)
        sx == Slab(a[1], d[1], p[1], p[3])
        sy == Slab(a[2], d[2], p[2], p[4])
        out(i, lo, hi) == a[i] < lo \/ hi < a[i]
        ok(s) == s[2][1] >= 0 /\ s[1][1] <= s[1][2]
        at(n) == IF n[1] < 0 THEN <<0, 1>> ELSE n
    IN IF (d[1] = 0 /\ out(1, p[1], p[3])) \/ (d[2] = 0 /\ out(2, p[2], p[4])) THEN <<Miss, 0, 1>>
       ELSE IF d[1] = 0 /\ d[2] = 0 THEN <<"hit", 0, 1>>
       ELSE IF d[1] = 0 THEN (IF ok(sy) THEN <<"hit">> \o at(sy[1]) ELSE <<Miss, 0, 1>>)
       ELSE IF d[2] = 0 THEN (IF ok(sx) THEN <<"hit">> \o at(sx[1]) ELSE <<Miss, 0, 1>>)
       ELSE LET n == IF Less(sx[1], sy[1]) THEN sy[1] ELSE sx[1]
                x == IF Less(sx[2], sy[2]) THEN sx[2] ELSE sy[2]
            IN IF Less(x, n) \/ ~ok(<<n, x>>) THEN <<Miss, 0, 1>>
               ELSE IF ~Less(n, x) THEN <<Either>> \o at(n) ELSE <<"hit">> \o at(n)
Wrapped(x, lo, hi, y) == y >= lo /\ y <= hi /\ (y - x) % (hi - lo) = 0

\* ------------------- transforms <<a, b, c, d, tx, ty>>: (x, y) to (a x + c y + tx, b x + d y + ty)
\* entries in some unit; Image gives the product of the units
Image(m, p, u) == <<m[1] * p[1] + m[3] * p[2] + m[5] * u, m[2] * p[1] + m[4] * p[2] + m[6] * u>>
Linear(m, p) == <<m[1] * p[1] + m[3] * p[2], m[2] * p[1] + m[4] * p[2]>>
\* first n, then m; u is one in the units of n
Compose(m, n, u) == Linear(m, <<n[1], n[2]>>) \o Linear(m, <<n[3], n[4]>>) \o Image(m, <<n[5], n[6]>>, u)
Det(m) == m[1] * m[4] - m[3] * m[2]
\* Det times the inverse; u is one in the units of m
Adj(m, u) == << m[4] * u, -(m[2] * u), -(m[3] * u), m[1] * u, m[3] * m[6] - m[5] * m[4], m[5] * m[2] - m[1] * m[6] >>
Inv(m) == LET n == Adj(m, 8) IN [i \in 1..6 |-> RDiv(4096 * n[i], Det(m))]
RotM(x) == LET r == FCS(F(x)) IN <<r[1], r[2], -r[2], r[1]>>
RigidM(v, x) == RotM(x) \o <<F(v[1]), F(v[2])>>
\* p - R(-x) v
RigidInv(v, x) == LET r == FCS(F(x))
                      q == FUnrot(r, <<F(v[1]), F(v[2])>>)
                  IN <<r[1], -r[2], r[2], r[1], -q[1], -q[2]>>
\* scaled by s along the unit vector at the angle x, leaving the point p where it is
Axial(x, p, s) == LET n == FCS(F(x))
                      k == F(s) - S
                      q == FMul(n[1], F(p[1])) + FMul(n[2], F(p[2]))
                      c(y, z) == FMul(FMul(y, z), k)
                  IN <<S + c(n[1], n[1]), c(n[1], n[2]), c(n[1], n[2]), S + c(n[2], n[2]), -FMul(FMul(n[1], q), k), -FMul(FMul(n[2], q), k)>>
Corners(p) == {<<p[1], p[2]>>, <<p[3], p[2]>>, <<p[3], p[4]>>, <<p[1], p[4]>>}
Bounds(Q) == << MinOf({q[1] : q \in Q}), MinOf({q[2] : q \in Q}), MaxOf({q[1] : q \in Q}), MaxOf({q[2] : q \in Q}) >>

\* ------------------------------------------------------------ the answers
Scaled(v, k) == [i \in 1..Len(v) |-> v[i] * k]
All(r, v, tol) == Len(r) = Len(v) /\ \A i \in 1..Len(v) : Near(r[i], v[i], tol)
Truth(r, b) == r = <<IF b THEN 1 ELSE 0>>
P(a, i) == <<a[i], a[i + 1]>>
B(a, i) == <<a[i], a[i + 1], a[i + 2], a[i + 3]>>
M(a, i) == <<a[i], a[i + 1], a[i + 2], a[i + 3], a[i + 4], a[i + 5]>>
Box(r, v) == All(r, Scaled(v, 512), 0)

OpOk(o, a, r) ==
    CASE o = "add" -> All(r, Scaled(Add(P(a, 1), P(a, 3)), 512), 0)
      [] o = "sub" -> All(r, Scaled(Sub(P(a, 1), P(a, 3)), 512), 0)
      [] o = "neg" -> All(r, <<-F(a[1]), -F(a[2])>>, 0)
      [] o = "clone" -> All(r, <<F(a[1]), F(a[2])>>, 0)
      [] o = "equal" -> Truth(r, P(a, 1) = P(a, 3))
      [] o = "mult" -> All(r, Scaled(P(a, 1), 64 * a[3]), 0)
      [] o = "dot" -> All(r, <<FF(Dot(P(a, 1), P(a, 3)))>>, 0)
      [] o = "cross" -> All(r, <<FF(Cross(P(a, 1), P(a, 3)))>>, 0)
      [] o = "perp" -> All(r, Scaled(Perp(P(a, 1)), 512), 0)
      [] o = "rperp" -> All(r, Scaled(RPerp(P(a, 1)), 512), 0)
      [] o = "rotate" -> All(r, Scaled(Turn(P(a, 1), P(a, 3)), 64), 0)
      [] o = "unrotate" -> All(r, Scaled(Unturn(P(a, 1), P(a, 3)), 64), 0)
      [] o = "project" -> All(r, Proj(P(a, 1), P(a, 3)), 1)
      [] o = "lensq" -> All(r, <<FF(Sq(P(a, 1)))>>, 0)
      [] o = "len" -> All(r, <<LengthOf(P(a, 1))>>, 2)
      [] o = "dist" -> All(r, <<LengthOf(Sub(P(a, 1), P(a, 3)))>>, 2)
      [] o = "distsq" -> All(r, <<FF(Sq(Sub(P(a, 1), P(a, 3))))>>, 0)
      [] o = "near" -> Truth(r, Sq(Sub(P(a, 1), P(a, 3))) < a[5] * a[5])
      [] o = "norm" -> All(r, UnitOf(P(a, 1)), 3)
      [] o = "forangle" -> All(r, FCS(F(a[1])), 3)
      [] o = "toangle" -> /\ Len(r) = 1 /\ FAbs(r[1]) <= 12869
                          /\ IF P(a, 1) = <<0, 0>> THEN r = <<0>>
                             ELSE NearV(FCS(r[1]), UnitOf(P(a, 1)), 5)
      [] o = "lerp" -> All(r, << 64 * (a[1] * (8 - a[5]) + a[3] * a[5]), 64 * (a[2] * (8 - a[5]) + a[4] * a[5]) >>, 0)
      [] o = "clamp" -> All(r, Shorten(P(a, 1), a[3]), 3)
      [] o = "lerpc" -> All(r, FV(Scaled(P(a, 1), 512), Shorten(Sub(P(a, 3), P(a, 1)), a[5])), 3)
      [] o = "slerp" -> IF a[1] = a[2] THEN All(r, FScale(FCS(F(a[1])), 64 * (a[3] * (8 - a[5]) + a[4] * a[5])), 8)
                        ELSE All(r, Slerp(a[1], a[2], a[3], a[4], 64 * a[5] * FAbs(a[2] - a[1])), 60)
      [] o = "slerpc" -> IF FAbs(a[1] - a[2]) <= a[5]
                         THEN All(r, At(a[2], a[4]), 8) \/ (a[5] = 0 /\ All(r, At(a[1], a[3]), 8))
                         ELSE All(r, Slerp(a[1], a[2], a[3], a[4], F(a[5])), 60)
      [] o = "closest" -> All(r, Closest(P(a, 1), P(a, 3), P(a, 5)), 1)
      [] o = "sclamp" -> All(r, <<F(Clip(a[1], a[2], a[3]))>>, 0)
      [] o = "sclamp01" -> All(r, <<F(Clip(a[1], 0, 8))>>, 0)
      [] o = "slerp1" -> All(r, <<64 * (a[1] * (8 - a[3]) + a[2] * a[3])>>, 0)
      [] o = "slerpc1" -> All(r, <<F(a[1] + Clip(a[2] - a[1], -a[3], a[3]))>>, 0)
      [] o = "bext" -> Box(r, <<a[1] - a[3], a[2] - a[4], a[1] + a[3], a[2] + a[4]>>)
      [] o = "bcirc" -> Box(r, <<a[1] - a[3], a[2] - a[3], a[1] + a[3], a[2] + a[3]>>)
      [] o = "bmeet" -> Truth(r, BMeets(B(a, 1), B(a, 5)))
      [] o = "bhold" -> Truth(r, BHolds(B(a, 1), B(a, 5)))
      [] o = "bholdv" -> Truth(r, BHolds(B(a, 1), BPoint(P(a, 5))))
      [] o = "bmerge" -> Box(r, BMerge(B(a, 1), B(a, 5)))
      [] o = "bexpand" -> Box(r, BMerge(B(a, 1), BPoint(P(a, 5))))
      [] o = "bcenter" -> All(r, <<256 * (a[1] + a[3]), 256 * (a[2] + a[4])>>, 0)
      [] o = "barea" -> All(r, <<FF(BArea(B(a, 1)))>>, 0)
      [] o = "bmarea" -> All(r, <<FF(BArea(BMerge(B(a, 1), B(a, 5))))>>, 0)
      [] o = "bprox" -> All(r, <<512 * (FAbs(a[1] + a[3] - a[5] - a[7]) + FAbs(a[2] + a[4] - a[6] - a[8]))>>, 0)
      [] o = "boffset" -> Box(r, <<a[1] + a[5], a[2] + a[6], a[3] + a[5], a[4] + a[6]>>)
      [] o = "bclamp" -> All(r, <<F(Clip(a[5], a[1], a[3])), F(Clip(a[6], a[2], a[4]))>>, 0)
      [] o = "bwrap" -> /\ Len(r) = 2 /\ \A i \in {1, 2} : r[i] % 512 = 0
                        /\ Wrapped(a[5], a[1], a[3], r[1] \div 512) /\ Wrapped(a[6], a[2], a[4], r[2] \div 512)
      [] o = "bray" -> LET e == Enter(B(a, 1), P(a, 5), P(a, 7)) IN   \* -1 for no hit
                       IF e[1] = Miss THEN r = <<-1>>
                       ELSE IF e[1] = Either /\ r = <<-1>> THEN TRUE
                       ELSE Len(r) = 1 /\ r[1] >= 0 /\ Near(r[1], RDiv(4096 * e[2], e[3]), 1)
      [] o = "bseg" -> LET e == Enter(B(a, 1), P(a, 5), P(a, 7)) IN
                       IF e[1] = Either THEN r \in {<<0>>, <<1>>} ELSE Truth(r, e[1] # Miss)
      [] o = "tid" -> All(r, <<S, 0, 0, S, 0, 0>>, 0)
      [] o = "tnew" -> All(r, Scaled(M(a, 1), 512), 0)
      [] o = "tmove" -> All(r, <<S, 0, 0, S, F(a[1]), F(a[2])>>, 0)
      [] o = "tscale" -> All(r, <<F(a[1]), 0, 0, F(a[2]), 0, 0>>, 0)
      [] o = "trot" -> All(r, RotM(a[1]) \o <<0, 0>>, 3)
      [] o = "trigid" -> All(r, RigidM(P(a, 2), a[1]), 3)
      [] o = "trinv" -> All(r, RigidInv(P(a, 2), a[1]), 40)
      [] o = "tinv" -> All(r, Inv(M(a, 1)), 1)
      [] o = "tmul" -> All(r, Scaled(Compose(M(a, 1), M(a, 7), 8), 64), 0)
      [] o = "tpoint" -> All(r, Scaled(Image(M(a, 1), P(a, 7), 8), 64), 0)
      [] o = "tvect" -> All(r, Scaled(Linear(M(a, 1), P(a, 7)), 64), 0)
      [] o = "tbb" -> All(r, Scaled(Bounds({ Image(M(a, 1), p, 8) : p \in Corners(B(a, 7)) }), 64), 0)
      [] o = "twrap" -> LET n == Compose(Adj(M(a, 7), 8), Compose(M(a, 1), M(a, 7), 8), 64) IN
                        All(r, [i \in 1..6 |-> RDiv(64 * n[i], Det(M(a, 7)))], 1)
      [] o = "tortho" -> All(r, <<RDiv(65536, a[3] - a[1]), 0, 0, RDiv(65536, a[4] - a[2]),
                                  RDiv(-(4096 * (a[3] + a[1])), a[3] - a[1]), RDiv(-(4096 * (a[4] + a[2])), a[4] - a[2])>>, 1)
      [] o = "tbone" -> LET d == Sub(P(a, 3), P(a, 1)) IN
                        All(r, Scaled(<<d[1], d[2], -d[2], d[1], a[1], a[2]>>, 512), 0)
      [] o = "taxis" -> All(r, Axial(a[1], P(a, 2), a[4]), 80)
      [] OTHER -> FALSE
===============================================================================
