-------------------------------- MODULE Fixed ---------------------------------
(* Fixed point arithmetic, 12 binary places, within TLC's 32 bit integers.    *)
(* Operands stay below 128 (2^19 units), products below 2^19.  Results that   *)
(* would leave the range, which only a broken implementation asks for, are    *)
(* held at its end.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

S == 4096
FAbs(a) == IF a < 0 THEN -a ELSE a
FMin(a, b) == IF a < b THEN a ELSE b
FMax(a, b) == IF a > b THEN a ELSE b
FClamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Near(a, b, tol) == FAbs(a - b) <= tol

\* products of a number with one below 2^19 units
FMul0(a, b) == (a \div S) * b + ((a % S) * b + S \div 2) \div S
Big == 536870912
Most(a, b) == IF (a < 0) = (b < 0) THEN Big ELSE -Big
FMul1(a, b) == IF b = 0 THEN 0
               ELSE IF FAbs(b) >= 524288 \/ FAbs(a) \div S > Big \div FAbs(b) THEN Most(a, b) ELSE FMul0(a, b)
FMul(a, b) == IF FAbs(a) < FAbs(b) THEN FMul1(b, a) ELSE FMul1(a, b)
\* a * S / b for |b| < 2^26, digit by digit
FDivP(a, b) == LET q == a \div b
                   r == a % b
                   q1 == (r * 16) \div b
                   r1 == (r * 16) % b
                   q2 == (r1 * 16) \div b
                   r2 == (r1 * 16) % b
               IN q * S + q1 * 256 + q2 * 16 + (r2 * 16 + b \div 2) \div b
FDivB(a, b) == IF FAbs(a \div b) >= 131072 THEN Most(a, b)
               ELSE IF b >= 67108864 THEN FDivP(a \div 64, b \div 64) ELSE FDivP(a, b)
FDiv(a, b) == IF b = 0 THEN Most(a, 1) ELSE IF b < 0 THEN FDivB(-a, -b) ELSE FDivB(a, b)

RECURSIVE Newton(_, _, _)
Newton(x, y, n) == IF n = 0 THEN y ELSE LET z == (y + x \div y) \div 2 IN IF z >= y THEN y ELSE Newton(x, z, n - 1)
\* the integer square root of 0 <= x < 2^31
ISqrt(x) == IF x <= 0 THEN 0
            ELSE Newton(x, IF x < 256 THEN 16 ELSE IF x < 65536 THEN 256 ELSE IF x < 16777216 THEN 4096 ELSE 46340, 40)
FSqrt(x) == IF x < 524288 THEN ISqrt(x * S) ELSE ISqrt(x) * 64
FLen(v) == LET m == FMax(FAbs(v[1]), FAbs(v[2])) IN
           IF m < 30000 THEN ISqrt(v[1] * v[1] + v[2] * v[2])
           ELSE IF m < 240000 THEN 8 * ISqrt((v[1] \div 8) * (v[1] \div 8) + (v[2] \div 8) * (v[2] \div 8))
           ELSE IF m >= 4000000 THEN 65536 * ISqrt((v[1] \div 65536) * (v[1] \div 65536) + (v[2] \div 65536) * (v[2] \div 65536))
           ELSE 128 * ISqrt((v[1] \div 128) * (v[1] \div 128) + (v[2] \div 128) * (v[2] \div 128))

FV(a, b) == <<a[1] + b[1], a[2] + b[2]>>
FSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
FNeg(a) == <<-a[1], -a[2]>>
FScale(v, k) == <<FMul(v[1], k), FMul(v[2], k)>>
FDot(a, b) == FMul(a[1], b[1]) + FMul(a[2], b[2])
FCross(a, b) == FMul(a[1], b[2]) - FMul(a[2], b[1])
FPerp(v) == <<-v[2], v[1]>>
FUnit(v) == LET l == FLen(v) IN <<FDiv(v[1], l), FDiv(v[2], l)>>
FRot(r, v) == <<FMul(r[1], v[1]) - FMul(r[2], v[2]), FMul(r[2], v[1]) + FMul(r[1], v[2])>>
FUnrot(r, v) == <<FMul(r[1], v[1]) + FMul(r[2], v[2]), FMul(r[1], v[2]) - FMul(r[2], v[1])>>
NearV(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)
Norm1(v) == FAbs(v[1]) + FAbs(v[2])

\* angles, in units of 2^-15 inside
T15 == 32768
M15(a, b) == (a * b + T15 \div 2) \div T15
Reduce(a) == IF FAbs(a) > 2000000 THEN 0 ELSE LET k == (a * 1000 + 12867963) \div 25735927 IN a - (k * 25735927 + 500) \div 1000
Quarter(a) ==
    LET x == Reduce(a) * 2
        x2 == M15(x, x)
        x3 == M15(x2, x)
        x4 == M15(x2, x2)
        x5 == M15(x4, x)
        x6 == M15(x3, x3)
        x7 == M15(x6, x)
    IN << T15 - x2 \div 2 + x4 \div 24 - x6 \div 720, x - x3 \div 6 + x5 \div 120 - x7 \div 5040 >>
Twice(cs) == << T15 - 2 * M15(cs[2], cs[2]), 2 * M15(cs[1], cs[2]) >>
\* <<cos, sin>> of an angle below 200
FCS(a) == LET cs == Twice(Twice(Quarter(a))) IN << (cs[1] + 4) \div 8, (cs[2] + 4) \div 8 >>

RECURSIVE PowI(_, _)
PowI(b, n) == IF n = 0 THEN S ELSE IF n % 2 = 1 THEN FMul(b, PowI(b, n - 1)) ELSE LET h == PowI(b, n \div 2) IN FMul(h, h)
\* e^-x for x >= 0
FExpN(x) == IF x >= 9 * S THEN 0
            ELSE LET y == x \div 2   \* x / 16 at scale 2^15
                     e == T15 - y + M15(y, y) \div 2 - M15(M15(y, y), y) \div 6 + M15(M15(y, y), M15(y, y)) \div 24
                     e2 == M15(e, e)
                     e4 == M15(e2, e2)
                     e8 == M15(e4, e4)
                 IN (M15(e8, e8) + 4) \div 8
=============================================================================
