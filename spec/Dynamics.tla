------------------------------- MODULE Dynamics --------------------------------
(* The motion of rigid bodies: integration, contact response, joints and mass *)
(* properties.  Numbers are fixed point (Fixed.tla).  The state holds bodies   *)
(* with the values observed last, shapes, joints, and the overlaps the next    *)
(* step has to correct.                                                        *)
(*                                                                             *)
(* A step moves every awake body by its velocity (and corrects overlaps),      *)
(* integrates the velocities, and then applies impulses.  What the impulses    *)
(* are is not computed: they are read off the change of the velocities and     *)
(* must satisfy the laws of the contact or joint they belong to (direction,    *)
(* equal and opposite, the velocity they aim at or the limit they are held     *)
(* at).  For bodies in larger groups the laws of momentum remain.              *)
EXTENDS Fixed

Inf == -1
Dyn == 0  Kin == 1  Sta == 2

BodyOf(l) == [p |-> <<l[1], l[2]>>, pos |-> <<l[3], l[4]>>, a |-> l[5], rot |-> <<l[6], l[7]>>,
              v |-> <<l[8], l[9]>>, w |-> l[10], f |-> <<l[11], l[12]>>, t |-> l[13],
              m |-> l[14], i |-> l[15], cog |-> <<l[16], l[17]>>, ty |-> l[18]]

\* the pose a body shows is one pose
Consistent(r) == /\ NearV(r.rot, FCS(r.a), 3)
                 /\ NearV(r.pos, FSub(r.p, FRot(r.rot, r.cog)), 3)
                 /\ (r.ty # Dyn) = (r.m = Inf)
                 /\ r.ty # Dyn => r.i = Inf

ToWorld(r, pt) == FV(r.pos, FRot(r.rot, pt))
ToLocal(r, pt) == FUnrot(r.rot, FSub(pt, r.pos))
VelAt(v, w, r) == FV(v, FScale(FPerp(r), w))
Kinetic(r) == (IF r.v = <<0, 0>> THEN 0 ELSE FMul(FDot(r.v, r.v), r.m)) + (IF r.w = 0 THEN 0 ELSE FMul(FMul(r.w, r.w), r.i))

\* ---------------------------------------------------------------- mass

Pi == 12868
RECURSIVE PolyA(_, _), PolyC(_, _, _), PolyI(_, _), PolyP(_, _)
Nx(V, k) == V[(k % Len(V)) + 1]
ICross(p, q) == p[1] * q[2] - p[2] * q[1]
IDot(p, q) == p[1] * q[1] + p[2] * q[2]
PolyA(V, k) == IF k = 0 THEN 0 ELSE ICross(V[k], Nx(V, k)) + PolyA(V, k - 1)
PolyC(V, c, k) == IF k = 0 THEN 0 ELSE (V[k][c] + Nx(V, k)[c]) * ICross(V[k], Nx(V, k)) + PolyC(V, c, k - 1)
PolyI(V, k) == IF k = 0 THEN 0
               ELSE ICross(V[k], Nx(V, k)) * (IDot(V[k], V[k]) + IDot(V[k], Nx(V, k)) + IDot(Nx(V, k), Nx(V, k))) + PolyI(V, k - 1)
PolyP(V, k) == IF k = 0 THEN 0 ELSE FLen(<<1024 * (Nx(V, k)[1] - V[k][1]), 1024 * (Nx(V, k)[2] - V[k][2])>>) + PolyP(V, k - 1)
\* vertices in quarters
Quarters(V) == [k \in 1..Len(V) |-> <<V[k][1] \div 1024, V[k][2] \div 1024>>]
DivR(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b
PolyCentroid(V) == LET Q == Quarters(V) A == 3 * PolyA(Q, Len(Q)) IN
                   << FDiv(PolyC(Q, 1, Len(Q)), A) \div 4, FDiv(PolyC(Q, 2, Len(Q)), A) \div 4 >>
\* per unit of mass, about the origin
PolyMoment0(V) == LET Q == Quarters(V) IN FDiv(PolyI(Q, Len(Q)), 6 * PolyA(Q, Len(Q))) \div 16
PolyArea(V, r) == LET Q == Quarters(V) IN FMul(r, FMul(Pi, r) + PolyP(Q, Len(Q))) + PolyA(Q, Len(Q)) * 128
Dist(a, b) == FLen(FSub(b, a))
SegMoment(V, r) == LET l == Dist(V[1], V[2]) + 2 * r IN (FMul(l, l) + 4 * FMul(r, r)) \div 12

\* area, centre and moment about it per unit of mass
Info(s) == IF s.k = "c" THEN [area |-> FMul(Pi, FMul(s.r, s.r)), c |-> s.v[1], i |-> FMul(s.r, s.r) \div 2]
           ELSE IF s.k = "s" THEN [area |-> FMul(s.r, FMul(Pi, s.r) + 2 * Dist(s.v[1], s.v[2])),
                                   c |-> <<(s.v[1][1] + s.v[2][1]) \div 2, (s.v[1][2] + s.v[2][2]) \div 2>>,
                                   i |-> SegMoment(s.v, s.r)]
           ELSE LET c == PolyCentroid(s.v) IN [area |-> PolyArea(s.v, s.r), c |-> c, i |-> PolyMoment0(s.v) - FDot(c, c)]

RECURSIVE SumOf(_, _)
SumOf(f, D) == IF D = {} THEN 0 ELSE LET d == CHOOSE x \in D : TRUE IN f[d] + SumOf(f, D \ {d})
RECURSIVE SumV(_, _)
SumV(f, D) == IF D = {} THEN <<0, 0>> ELSE LET d == CHOOSE x \in D : TRUE IN FV(f[d], SumV(f, D \ {d}))

\* mass, centre of gravity and moment of a set of shapes
MassOf(sh, D0) ==
    LET D == { s \in D0 : sh[s].m > 0 } IN
    IF D = {} THEN [m |-> 0, c |-> <<0, 0>>, i |-> 0]
    ELSE LET inf == [s \in D |-> Info(sh[s])]
             M == SumOf([s \in D |-> sh[s].m], D)
             C == SumV([s \in D |-> FScale(inf[s].c, FDiv(sh[s].m, M))], D)
             I == SumOf([s \in D |-> FMul(inf[s].i + FDot(FSub(inf[s].c, C), FSub(inf[s].c, C)), sh[s].m)], D)
         IN [m |-> M, c |-> C, i |-> I]

ShapesOf(w, k) == { s \in DOMAIN w.s : w.s[s].on /\ w.s[s].b = k }
\* the body after its shapes' masses have been added up; pose and motion stay
Accum(w, k, r) == IF r.ty # Dyn THEN r
                  ELSE LET x == MassOf(w.s, ShapesOf(w, k)) IN
                       [r EXCEPT !.m = x.m, !.i = x.i, !.cog = x.c, !.p = FV(r.pos, FRot(r.rot, x.c))]

\* equality up to rounding; o is the body before, which may have been pushed at a point that is not known exactly
Same(o, n, x) == /\ NearV(n.p, x.p, 6) /\ NearV(n.pos, x.pos, 6) /\ Near(n.a, x.a, 1) /\ NearV(n.rot, x.rot, 3)
              /\ NearV(n.v, x.v, 6 + Norm1(x.v) \div 2000)
              /\ Near(n.w, x.w, 6 + FAbs(x.w) \div 500
                                + (IF o.ty # Dyn \/ o.m = 0 \/ o.i = 0 THEN 0 ELSE FDiv(FMul(Norm1(FSub(n.v, o.v)), o.m), o.i) \div 800))
              /\ NearV(n.f, x.f, 8 + Norm1(x.f) \div 3000) /\ Near(n.t, x.t, 24 + FMul(Norm1(n.f) + Norm1(x.f), 6))
              /\ Near(n.m, x.m, 3 + x.m \div 2000) /\ Near(n.i, x.i, 30 + x.i \div 300) /\ NearV(n.cog, x.cog, 5) /\ n.ty = x.ty

\* ---------------------------------------------------------------- calls on a body

Push(r, J, pt) == IF r.ty # Dyn THEN r
                  ELSE LET d == FSub(pt, r.p) IN
                       [r EXCEPT !.v = FV(r.v, <<FDiv(J[1], r.m), FDiv(J[2], r.m)>>), !.w = r.w + FDiv(FCross(d, J), r.i)]
Pull(r, F, pt) == [r EXCEPT !.f = FV(r.f, F), !.t = r.t + FCross(FSub(pt, r.p), F)]

\* what a call k with arguments x makes of body b of world w; n is what is observed
After(w, b, k, x, n) ==
    LET r == w.b[b] IN
    CASE k = "setv" -> [r EXCEPT !.v = <<x[1], x[2]>>]
      [] k = "setw" -> [r EXCEPT !.w = x[1]]
      [] k = "setpos" -> [r EXCEPT !.pos = <<x[1], x[2]>>, !.p = FV(<<x[1], x[2]>>, FRot(r.rot, r.cog))]
      [] k = "setangle" -> [r EXCEPT !.a = x[1], !.rot = n.rot, !.pos = FSub(r.p, FRot(n.rot, r.cog))]
      [] k = "setforce" -> [r EXCEPT !.f = <<x[1], x[2]>>]
      [] k = "settorque" -> [r EXCEPT !.t = x[1]]
      [] k = "forceW" -> Pull(r, <<x[1], x[2]>>, <<x[3], x[4]>>)
      [] k = "forceL" -> Pull(r, FRot(r.rot, <<x[1], x[2]>>), ToWorld(r, <<x[3], x[4]>>))
      [] k = "impW" -> Push(r, <<x[1], x[2]>>, <<x[3], x[4]>>)
      [] k = "impL" -> Push(r, FRot(r.rot, <<x[1], x[2]>>), ToWorld(r, <<x[3], x[4]>>))
      [] k = "setmass" -> [r EXCEPT !.m = x[1]]
      [] k = "setmoment" -> [r EXCEPT !.i = x[1]]
      [] k = "type" -> IF x[1] = r.ty THEN r
                       ELSE IF x[1] = Dyn THEN Accum(w, b, [r EXCEPT !.ty = Dyn])
                       ELSE [r EXCEPT !.ty = x[1], !.m = Inf, !.i = Inf, !.v = <<0, 0>>, !.w = 0]
      [] OTHER -> r

\* what a question k about body r gives
Answer(r, k, x) ==
    CASE k = "l2w" -> ToWorld(r, x)
      [] k = "w2l" -> ToLocal(r, x)
      [] k = "vw" -> VelAt(r.v, r.w, FSub(x, r.p))
      [] k = "vl" -> VelAt(r.v, r.w, FSub(ToWorld(r, x), r.p))
      [] k = "ke" -> <<IF r.ty # Dyn THEN (IF r.v = <<0, 0>> /\ r.w = 0 THEN 0 ELSE Big) ELSE Kinetic(r), 0>>
AnswerTol(r, k, x) == IF k = "ke" THEN (IF r.ty # Dyn THEN 0 ELSE 40 + Kinetic(r) \div 200)
                      ELSE 8 + (Norm1(x) + Norm1(r.pos)) \div 1024 + FMul(FAbs(r.w), 4)

\* ---------------------------------------------------------------- a step

Secs(x, q) == IF FAbs(x) > 33554432 THEN (x \div 64) * q ELSE (x * q + 32) \div 64          \* x * dt, dt = q/64
SecsV(v, q) == <<Secs(v[1], q), Secs(v[2], q)>>

Moving(w, k) == w.b[k].ty # Sta /\ w.in[k]
Finite(w, k) == w.b[k].ty = Dyn /\ w.in[k]

\* the displacement of a body beyond the one its velocity explains
Half(x, h) == IF FAbs(x) > 33554432 THEN (x \div 128) * h ELSE (x * h + 64) \div 128
Extra(w, k, n, q) == LET h == IF w.cf[k][2] = 1 THEN q ELSE 2 * q IN
                     << FSub(FSub(n.p, w.b[k].p), << Half(w.b[k].v[1], h), Half(w.b[k].v[2], h) >>),
                        n.a - w.b[k].a - Half(w.b[k].w, h) >>

\* velocities after integration, before any impulse
Gravity(w, k) == IF w.cf[k][1] = 1 THEN <<w.g[1] \div 2, w.g[2] \div 2>> ELSE w.g
Integrate(w, k, v, om, q, dmp) ==
    LET r == w.b[k] IN
    IF ~Moving(w, k) THEN <<v, om>>
    ELSE IF r.ty = Kin THEN (IF w.cf[k][1] = 1 THEN << <<S, S \div 2>>, S \div 4 >> ELSE <<v, om>>)
    ELSE << FV(FScale(v, dmp), SecsV(FV(Gravity(w, k), <<FDiv(r.f[1], r.m), FDiv(r.f[2], r.m)>>), q)),
            FMul(om, dmp) + Secs(FDiv(r.t, r.i), q) >>

\* how well these are known, given the rounding of damping, masses and forces
VT(w, k, v) == 6 + Norm1(w.b[k].v) \div 6000 + Norm1(FSub(v, w.b[k].v)) \div w.b[k].m
WT(w, k, om) == 6 + FAbs(w.b[k].w) \div 6000 + FAbs(om - w.b[k].w) \div w.b[k].i

\* ---- contacts: [sa, sb, solved, nx, ny, count, points (8), Jx, Jy]
ContactOf(w, N, l) ==
    LET a == w.s[l[1]].b
        b == w.s[l[2]].b
        pt(k) == [r1 |-> FSub(<<l[3 + 4 * k], l[4 + 4 * k]>>, N[a].p), r2 |-> FSub(<<l[5 + 4 * k], l[6 + 4 * k]>>, N[b].p),
                  d |-> (l[5 + 4 * k] - l[3 + 4 * k]) , p1 |-> <<l[3 + 4 * k], l[4 + 4 * k]>>, p2 |-> <<l[5 + 4 * k], l[6 + 4 * k]>>]
    IN [t |-> "arb", sa |-> l[1], sb |-> l[2], a |-> a, b |-> b, n |-> <<l[4], l[5]>>, J |-> FNeg(<<l[15], l[16]>>),
        pts |-> [k \in 1..l[6] |-> pt(k)],
        e |-> FMul(w.s[l[1]].e, w.s[l[2]].e), u |-> FMul(w.s[l[1]].u, w.s[l[2]].u),
        sv |-> FSub(w.s[l[2]].sv, w.s[l[1]].sv)]
Depth(c, k) == FDot(FSub(c.pts[k].p2, c.pts[k].p1), c.n)
Tangent(c) == FPerp(c.n)

\* does a pair of shapes get a response?
Responds(w, l) == /\ ~w.s[l[1]].sensor /\ ~w.s[l[2]].sensor /\ ~w.s[l[1]].rej /\ ~w.s[l[2]].rej
                  /\ (w.b[w.s[l[1]].b].ty = Dyn \/ w.b[w.s[l[2]].b].ty = Dyn)

\* the contact points of circles are where they belong
CirclePoint(w, N, s, p, dir) ==
    w.s[s].k = "c" => NearV(p, FV(ToWorld(N[w.s[s].b], w.s[s].v[1]), FScale(dir, w.s[s].r)), 12)
PlacesOk(w, N, c) ==
    /\ Near(FDot(c.n, c.n), S, 6)
    /\ ~w.s[c.sa].adj /\ ~w.s[c.sb].adj => \A k \in 1..Len(c.pts) :
                                /\ CirclePoint(w, N, c.sa, c.pts[k].p1, c.n)
                                /\ CirclePoint(w, N, c.sb, c.pts[k].p2, FNeg(c.n))

\* relative velocity of two bodies at a point
Rel(va, wa, vb, wb, r1, r2) == FSub(VelAt(vb, wb, r2), VelAt(va, wa, r1))

\* tolerances: rounding of the positions, velocities and masses involved
VTol(r1, r2, wa, wb, vr) == 14 + (2 * (Norm1(r1) + Norm1(r2)) + 3 * (FAbs(wa) + FAbs(wb)) + 6 * Norm1(vr)) \div S
JTol(m) == IF m = Inf THEN 0 ELSE 8 + FMul(m, 8)
TTol(i, T, r, J) == 16 + FMul(i, 8) + FMul(Norm1(J), 6) + FMul(Norm1(r), T)

\* P: velocities before the impulses, N: after.  The impulse on b.
Impulse(w, P, N, a, b) == IF Finite(w, b) THEN FScale(FSub(N[b].v, P[b][1]), w.b[b].m)
                          ELSE FNeg(FScale(FSub(N[a].v, P[a][1]), w.b[a].m))
ImpTol(w, a, b) == FMax(JTol(IF Finite(w, a) THEN w.b[a].m ELSE Inf), JTol(IF Finite(w, b) THEN w.b[b].m ELSE Inf))
\* equal and opposite, and turning the bodies as its points of attack demand; tq is a torque on b beyond it, on a minus ta
Opposite(w, P, N, a, b, J, r1, r2, ta, tb) ==
    LET T == 2 * ImpTol(w, a, b) IN
    /\ Finite(w, a) => /\ NearV(FScale(FSub(N[a].v, P[a][1]), w.b[a].m), FNeg(J), T)
                       /\ Near(FMul(N[a].w - P[a][2], w.b[a].i), ta - FCross(r1, J), TTol(w.b[a].i, ImpTol(w, a, b), r1, J))
    /\ Finite(w, b) => /\ NearV(FScale(FSub(N[b].v, P[b][1]), w.b[b].m), J, T)
                       /\ Near(FMul(N[b].w - P[b][2], w.b[b].i), tb + FCross(r2, J), TTol(w.b[b].i, ImpTol(w, a, b), r2, J))

RelN(N, c, k) == Rel(N[c.a].v, N[c.a].w, N[c.b].v, N[c.b].w, c.pts[k].r1, c.pts[k].r2)
RelO(w, c, k) == Rel(w.b[c.a].v, w.b[c.a].w, w.b[c.b].v, w.b[c.b].w, c.pts[k].r1, c.pts[k].r2)
CTol(w, N, c, k) == VTol(c.pts[k].r1, c.pts[k].r2, FMax(FAbs(N[c.a].w), FAbs(w.b[c.a].w)), FMax(FAbs(N[c.b].w), FAbs(w.b[c.b].w)),
                         FV(<<Norm1(RelO(w, c, k)), 0>>, <<Norm1(RelN(N, c, k)), 0>>))

InvM(w, k) == IF Finite(w, k) THEN FDiv(S, w.b[k].m) ELSE 0
InvI(w, k) == IF Finite(w, k) THEN FDiv(S, w.b[k].i) ELSE 0

\* how an impulse along d at point k changes the velocity along e at point l
Couple(w, c, k, d, l, e) ==
    FMul(FDot(d, e), InvM(w, c.a) + InvM(w, c.b))
    + FMul(FMul(FCross(c.pts[k].r1, d), FCross(c.pts[l].r1, e)), InvI(w, c.a))
    + FMul(FMul(FCross(c.pts[k].r2, d), FCross(c.pts[l].r2, e)), InvI(w, c.b))
\* Impulses are found by improving them one after the other.  With a few dozen rounds that is good enough
\* where the impulse at one point does not undo most of what the others do.
Settles(w, c) ==
    LET K == 1..Len(c.pts)
        n == c.n
        t == Tangent(c)
        u1 == FMax(S, c.u)
        most(x) == (x \div 4) * 3
    IN \/ Len(c.pts) = 1 /\ (c.u = 0 \/ (w.it >= 4 /\ FAbs(Couple(w, c, 1, n, 1, t)) < 40))
       \/ /\ w.it >= 40
          /\ \A y \in K :
                LET nn == SumOf([z \in K |-> IF z = y THEN 0 ELSE FAbs(Couple(w, c, y, n, z, n))], K)
                    nt == IF c.u = 0 THEN 0 ELSE SumOf([z \in K |-> FAbs(Couple(w, c, y, n, z, t))], K)
                    tn == IF c.u = 0 THEN 0 ELSE SumOf([z \in K |-> FAbs(Couple(w, c, y, t, z, n))], K)
                IN /\ nn + FMul(u1, nt) <= most(Couple(w, c, y, n, y, n))
                   /\ tn <= most(Couple(w, c, y, t, y, t))

\* in every case: contacts push, and friction is limited by the push
ConeOk(w, c) ==
    LET Jn == FDot(c.J, c.n)
        Jt == FDot(c.J, Tangent(c))
        T == 8 + Norm1(c.J) \div 400
    IN Jn >= -T /\ FAbs(Jt) <= FMul(c.u, Jn) + T

\* a contact that is the only thing acting on its bodies
ContactLaw(w, P, N, c) ==
    LET J == Impulse(w, P, N, c.a, c.b)
        T == 2 * ImpTol(w, c.a, c.b) + Norm1(J) \div 400
        Jn == FDot(J, c.n)
        Jt == FDot(J, Tangent(c))
        one == Len(c.pts) = 1
        vn(k) == FDot(RelN(N, c, k), c.n) + FMul(c.e, FDot(RelO(w, c, k), c.n))
        vt(k) == FDot(FV(RelN(N, c, k), c.sv), Tangent(c))
        tol(k) == CTol(w, N, c, k) + (IF one THEN 0 ELSE 60)
        enough == Settles(w, c)
    IN /\ NearV(c.J, J, T)
       /\ one => Opposite(w, P, N, c.a, c.b, J, c.pts[1].r1, c.pts[1].r2, 0, 0)
       /\ Jn >= -T /\ FAbs(Jt) <= FMul(c.u, Jn) + T
       \* nothing approaches any more, and a contact that pushes separates at the rate of the elasticity
       /\ enough => /\ \A k \in 1..Len(c.pts) : vn(k) >= -tol(k)
                    /\ Jn > T => \E k \in 1..Len(c.pts) : Near(vn(k), 0, tol(k))
       /\ (enough /\ one) =>
             LET lim == FMul(c.u, Jn) IN
             /\ FAbs(Jt) < lim - T => Near(vt(1), 0, tol(1))
             /\ Jt > T => vt(1) <= tol(1)
             /\ Jt < -T => vt(1) >= -tol(1)

\* the overlap the next step corrects
PendOf(w, E, c, alone) ==
    [a |-> c.a, b |-> c.b, n |-> c.n, pts |-> c.pts, alone |-> alone, q |-> E.q,
     want |-> [k \in 1..Len(c.pts) |-> FMul(E.cb, FMax(0, -(Depth(c, k) + w.slop)))],
     ma |-> w.b[c.a].m, ia |-> w.b[c.a].i, mb |-> w.b[c.b].m, ib |-> w.b[c.b].i,
     fa |-> Finite(w, c.a), fb |-> Finite(w, c.b), settles |-> Len(c.pts) = 1 \/ Settles(w, c)]
\* X: extra displacements <<d, angle>>
PendLaw(x, X, q) ==
    LET d(k) == FDot(Rel(X[x.a][1], X[x.a][2], X[x.b][1], X[x.b][2], x.pts[k].r1, x.pts[k].r2), x.n)
        want(k) == (x.want[k] * q) \div x.q
        I == IF x.fb THEN FScale(X[x.b][1], x.mb) ELSE FNeg(FScale(X[x.a][1], x.ma))
        m == FMax(IF x.fa THEN x.ma ELSE 0, IF x.fb THEN x.mb ELSE 0)
        T == JTol(m)
        tol == 10 + (IF Len(x.pts) = 1 THEN 0 ELSE 20)
    IN /\ x.fa => NearV(FScale(X[x.a][1], x.ma), FNeg(I), T)
       /\ FDot(I, x.n) >= -T
       /\ Near(FDot(I, FPerp(x.n)), 0, T)
       /\ x.settles =>
             /\ \A k \in 1..Len(x.pts) : d(k) >= want(k) - tol
             /\ FDot(I, x.n) > T => \E k \in 1..Len(x.pts) : Near(d(k), want(k), tol)
             /\ (\A k \in 1..Len(x.pts) : want(k) = 0) => NearV(I, <<0, 0>>, T)
       /\ Len(x.pts) = 1 => /\ x.fa => Near(FMul(X[x.a][2], x.ia), -FCross(x.pts[1].r1, I), TTol(x.ia, T, x.pts[1].r1, I))
                            /\ x.fb => Near(FMul(X[x.b][2], x.ib), FCross(x.pts[1].r2, I), TTol(x.ib, T, x.pts[1].r2, I))

\* ---- joints
MaxImp(j, q) == IF j.mf = Inf THEN 500000000 ELSE Secs(j.mf, q)
Bias(j, err, rate) == LET x == -FMul(err, rate) IN IF j.mb = Inf THEN x ELSE FClamp(x, -j.mb, j.mb)
BiasV(j, err, rate) == LET x == FNeg(FScale(err, rate)) IN
                       IF j.mb = Inf \/ FLen(x) <= j.mb THEN x ELSE FScale(FUnit(x), j.mb)

Arm(N, j, k, c) == LET r == N[k] IN FRot(r.rot, FSub(<<j.p[c], j.p[c + 1]>>, r.cog))
\* a scalar impulse x that may lie between lo and hi and aims at a residual of zero; positive residuals ask for more
Scalar(x, lo, hi, res, T, tol) ==
    /\ x >= lo - T /\ x <= hi + T
    /\ x > lo + T => res >= -tol
    /\ x < hi - T => res <= tol

\* scalar joints along n between points r1 and r2
LineLaw(w, P, N, E, id, j, r1, r2, n, err, lo, hi) ==
    LET J == Impulse(w, P, N, j.a, j.b)
        T == 2 * ImpTol(w, j.a, j.b) + Norm1(J) \div 400
        Jn == FDot(J, n)
        vr == Rel(N[j.a].v, N[j.a].w, N[j.b].v, N[j.b].w, r1, r2)
        tol == VTol(r1, r2, N[j.a].w, N[j.b].w, FV(<<Norm1(vr), 0>>, <<Norm1(Rel(P[j.a][1], P[j.a][2], P[j.b][1], P[j.b][2], r1, r2)), 0>>))
               + FMul(E.ec[id], 5) + FAbs(err) \div 2000
    IN /\ Near(FDot(J, FPerp(n)), 0, T)
       /\ Opposite(w, P, N, j.a, j.b, J, r1, r2, 0, 0)
       /\ Scalar(Jn, lo, hi, Bias(j, err, E.ec[id]) - FDot(vr, n), T, tol)
       /\ Near(E.ji[id], FAbs(Jn), T)

Nothing(w, P, N, E, id, j) ==
    /\ \A k \in {j.a, j.b} : Finite(w, k) => NearV(N[k].v, P[k][1], 8) /\ Near(N[k].w, P[k][2], 8)
    /\ E.ji[id] = 0

Slack(N, j) == LET r1 == Arm(N, j, j.a, 1) r2 == Arm(N, j, j.b, 3) IN FSub(FV(N[j.b].p, r2), FV(N[j.a].p, r1))

PinLaw(w, P, N, E, id, j) ==
    LET d == Slack(N, j) l == FLen(d) jm == MaxImp(j, E.q) IN
    LineLaw(w, P, N, E, id, j, Arm(N, j, j.a, 1), Arm(N, j, j.b, 3), FUnit(d), l - j.p[5], -jm, jm)

SlideLaw(w, P, N, E, id, j) ==
    LET d == Slack(N, j)
        l == FLen(d)
        r1 == Arm(N, j, j.a, 1)
        r2 == Arm(N, j, j.b, 3)
        jm == MaxImp(j, E.q)
    IN \/ l >= j.p[6] - 4 /\ LineLaw(w, P, N, E, id, j, r1, r2, FUnit(d), FMax(0, l - j.p[6]), -jm, 0)
       \/ l <= j.p[5] + 4 /\ LineLaw(w, P, N, E, id, j, r1, r2, FNeg(FUnit(d)), FMax(0, j.p[5] - l), -jm, 0)
       \/ l <= j.p[6] + 4 /\ l >= j.p[5] - 4 /\ Nothing(w, P, N, E, id, j)

\* an impulse held at its limit is what is left of one that would have satisfied the joint
AtLimit(res, got, T) == FDot(res, got) >= -T /\ Near(FCross(res, got), 0, T)

PivotLike(w, P, N, E, id, j, r1, r2, err) ==
    LET J == Impulse(w, P, N, j.a, j.b)
        T == 2 * ImpTol(w, j.a, j.b) + Norm1(J) \div 400
        vr == Rel(N[j.a].v, N[j.a].w, N[j.b].v, N[j.b].w, r1, r2)
        vp == Rel(P[j.a][1], P[j.a][2], P[j.b][1], P[j.b][2], r1, r2)
        tol == VTol(r1, r2, N[j.a].w, N[j.b].w, FV(<<Norm1(vr), 0>>, <<Norm1(vp), 0>>)) + FMul(E.ec[id], 6) + Norm1(err) \div 2000
        res == FSub(BiasV(j, err, E.ec[id]), vr)
        jm == MaxImp(j, E.q)
        L == FLen(J)
    IN /\ Opposite(w, P, N, j.a, j.b, J, r1, r2, 0, 0)
       /\ L <= jm + T
       /\ L < jm - T => NearV(res, <<0, 0>>, tol)
       /\ L >= jm - T => AtLimit(res, FSub(vr, vp), FMul(tol * 2, Norm1(res) + Norm1(vr) + Norm1(vp)) + tol)
       /\ Near(E.ji[id], L, T)

PivotLaw(w, P, N, E, id, j) == PivotLike(w, P, N, E, id, j, Arm(N, j, j.a, 1), Arm(N, j, j.b, 3), Slack(N, j))

\* K t for the groove: how velocities answer an impulse
Answering(w, a, b, r1, r2, t) ==
    FV(FScale(t, InvM(w, a) + InvM(w, b)),
       FV(FScale(FPerp(r1), FMul(FCross(r1, t), InvI(w, a))), FScale(FPerp(r2), FMul(FCross(r2, t), InvI(w, b)))))

GrooveLaw(w, P, N, E, id, j) ==
    LET A == N[j.a]
        ga == FV(A.p, FRot(A.rot, FSub(<<j.p[1], j.p[2]>>, A.cog)))
        gb == FV(A.p, FRot(A.rot, FSub(<<j.p[3], j.p[4]>>, A.cog)))
        r2 == Arm(N, j, j.b, 5)
        pt == FV(N[j.b].p, r2)
        dir == FUnit(FSub(gb, ga))
        n == FPerp(dir)
        s == FDot(FSub(pt, ga), dir)
        len == FLen(FSub(gb, ga))
        jm == MaxImp(j, E.q)
        J == Impulse(w, P, N, j.a, j.b)
        T == 2 * ImpTol(w, j.a, j.b) + Norm1(J) \div 400
        L == FLen(J)
        along(at) ==
            LET r1 == FSub(at, A.p)
                err == FSub(pt, at)
                vr == Rel(A.v, A.w, N[j.b].v, N[j.b].w, r1, r2)
                vp == Rel(P[j.a][1], P[j.a][2], P[j.b][1], P[j.b][2], r1, r2)
                tol == VTol(r1, r2, A.w, N[j.b].w, FV(<<Norm1(vr), 0>>, <<Norm1(vp), 0>>)) + FMul(E.ec[id], 6)
                res == FSub(BiasV(j, err, E.ec[id]), vr)
            IN [r1 |-> r1, err |-> err, res |-> res, tol |-> tol]
        mid == along(FV(ga, FScale(dir, s)))
        \* an impulse across the groove, while the point may slide along it
        slides(x) == /\ Near(FDot(J, dir), 0, T)
                     /\ Opposite(w, P, N, j.a, j.b, J, x.r1, r2, 0, 0)
                     /\ L <= jm + T
                     /\ L < jm - T => Near(FCross(x.res, FUnit(Answering(w, j.a, j.b, x.r1, r2, dir))), 0, 3 * x.tol + Norm1(x.res) \div 200)
                     /\ Near(E.ji[id], L, T)
        \* at an end of the groove the joint also keeps the point from leaving it: the impulse may point inwards
        atEnd(x, at, sg) == \/ slides(x)
                            \/ sg * FDot(J, dir) >= -T /\ PivotLike(w, P, N, E, id, j, x.r1, r2, x.err)
    IN \/ s >= -6 /\ s <= len + 6 /\ slides(mid)
       \/ s <= 6 /\ atEnd(along(ga), ga, 1)
       \/ s >= len - 6 /\ atEnd(along(gb), gb, -1)

SpringLaw(w, P, N, E, id, j) ==
    LET d == Slack(N, j)
        l == FLen(d)
        n == FUnit(d)
        r1 == Arm(N, j, j.a, 1)
        r2 == Arm(N, j, j.b, 3)
        f == IF j.p[8] = 1 THEN j.p[6] ELSE FMul(j.p[5] - l, j.p[6])
        js == Secs(f, E.q)
        I == FScale(n, js)
        hit(k, r, sg) == IF ~Finite(w, k) THEN P[k]
                         ELSE Integrate(w, k, FV(w.b[k].v, FScale(FScale(I, sg), InvM(w, k))),
                                        w.b[k].w + FMul(FMul(FCross(r, I), sg), InvI(w, k)), E.q, E.dmp)
        Q == [k \in DOMAIN P |-> IF k = j.a THEN hit(k, r1, -S) ELSE IF k = j.b THEN hit(k, r2, S) ELSE P[k]]
        J == Impulse(w, Q, N, j.a, j.b)
        T == 2 * ImpTol(w, j.a, j.b) + Norm1(J) \div 400 + Secs(FMul(j.p[6], 12), E.q)
        vr == FDot(Rel(N[j.a].v, N[j.a].w, N[j.b].v, N[j.b].w, r1, r2), n)
        vq == FDot(Rel(Q[j.a][1], Q[j.a][2], Q[j.b][1], Q[j.b][2], r1, r2), n)
        kk == FDot(Answering(w, j.a, j.b, r1, r2, n), n)
        ex == FExpN(FMul(Secs(j.p[7], E.q), kk))
        tol == VTol(r1, r2, N[j.a].w, N[j.b].w, <<FAbs(vr) + 2 * FAbs(vq), 0>>) + FMul(kk, T)
        turn(k, r, sg) == Finite(w, k) => Near(FMul(N[k].w - Q[k][2], w.b[k].i), FMul(FCross(r, J), sg),
                                               TTol(w.b[k].i, T, r, J) + FMul(Norm1(r), T))
    IN /\ Near(FDot(J, FPerp(n)), 0, T)
       /\ Finite(w, j.a) => NearV(FScale(FSub(N[j.a].v, Q[j.a][1]), w.b[j.a].m), FNeg(J), T)
       /\ turn(j.a, r1, -S) /\ turn(j.b, r2, S)
       /\ Near(vr, FMul(vq, ex), tol)
       /\ Near(E.ji[id], js + FDot(J, n), 2 * T)

\* torques: the one on b; the one on a is minus it, divided by the ratio for gears
Torque(w, P, N, a, b, ratio) == IF Finite(w, b) THEN FMul(N[b].w - P[b][2], w.b[b].i)
                                ELSE -FMul(FMul(N[a].w - P[a][2], w.b[a].i), ratio)
TorTol(w, a, b) == 16 + FMax(IF Finite(w, a) THEN FMul(w.b[a].i, 8) ELSE 0, IF Finite(w, b) THEN FMul(w.b[b].i, 8) ELSE 0)
Straight(w, P, N, a, b) == \A k \in {a, b} : Finite(w, k) => NearV(N[k].v, P[k][1], 8)

\* rel: relative angular velocity wanted minus actual, sg: its sign for the torque
TurnLaw(w, P, N, E, id, j, ratio, res, lo, hi, tol) ==
    LET t == Torque(w, P, N, j.a, j.b, ratio)
        T == 2 * TorTol(w, j.a, j.b) + FAbs(t) \div 400
    IN /\ Straight(w, P, N, j.a, j.b)
       /\ (Finite(w, j.a) /\ Finite(w, j.b)) => Near(FMul(FMul(N[j.a].w - P[j.a][2], w.b[j.a].i), ratio), -t, T + FMul(FAbs(ratio), T))
       /\ Scalar(t, lo, hi, res, T, tol)
       /\ Near(E.ji[id], FAbs(t), T)
WTol(E, id, x) == 12 + FMul(E.ec[id], 3) + FAbs(x) \div 1000

RotaryLaw(w, P, N, E, id, j) ==
    LET d == N[j.b].a - N[j.a].a
        wr == N[j.b].w - N[j.a].w
        jm == MaxImp(j, E.q)
        \* the angle is beyond the limit by err (positive above)
        pull(err, lo, hi) == TurnLaw(w, P, N, E, id, j, S, Bias(j, err, E.ec[id]) - wr, lo, hi, WTol(E, id, wr))
    IN \/ d >= j.p[2] - 3 /\ pull(d - j.p[2], -jm, 0)
       \/ d <= j.p[1] + 3 /\ pull(d - j.p[1], 0, jm)
       \/ d <= j.p[2] + 3 /\ d >= j.p[1] - 3 /\ Nothing(w, P, N, E, id, j)

\* E.ja: the angle the ratchet has clicked to
RatchetLaw(w, P, N, E, id, j) ==
    LET d == N[j.b].a - N[j.a].a
        wr == N[j.b].w - N[j.a].w
        jm == MaxImp(j, E.q)
        rt == j.p[2]
        pos == rt > 0
        diff == j.ang - d
        back(x) == IF pos THEN x > 0 ELSE x < 0
        floor == (IF pos THEN (d - j.p[1]) \div rt ELSE (j.p[1] - d) \div (-rt)) * rt + j.p[1]
        clicks == {floor, floor + rt, floor - rt}
    IN \/ (back(diff) \/ FAbs(diff) <= 3) /\ Near(E.ja[id], j.ang, 1)
          /\ TurnLaw(w, P, N, E, id, j, S, Bias(j, -diff, E.ec[id]) - wr, IF pos THEN 0 ELSE -jm, IF pos THEN jm ELSE 0, WTol(E, id, wr))
       \/ (~back(diff) \/ FAbs(diff) <= 3) /\ Nothing(w, P, N, E, id, j)
          /\ \E x \in clicks : Near(E.ja[id], x, 4) /\ (x = floor \/ FAbs(d - x) <= 4 \/ FAbs(d - x - rt) <= 4)

GearLaw(w, P, N, E, id, j) ==
    LET ratio == j.p[2]
        err == FMul(N[j.b].a, ratio) - N[j.a].a - j.p[1]
        wr == FMul(N[j.b].w, ratio) - N[j.a].w
        jm == MaxImp(j, E.q)
        res == Bias(j, err, E.ec[id]) - wr
    IN TurnLaw(w, P, N, E, id, j, ratio, IF ratio < 0 THEN -res ELSE res, -jm, jm,
               WTol(E, id, wr) + 3 * FMul(E.ec[id], 1 + FAbs(ratio) \div 1000 + FAbs(N[j.b].a) \div 4096) + (2 * FAbs(ratio)) \div S)

MotorLaw(w, P, N, E, id, j) ==
    LET wr == N[j.b].w - N[j.a].w
        jm == MaxImp(j, E.q)
    IN TurnLaw(w, P, N, E, id, j, S, -j.p[1] - wr, -jm, jm, 12 + FAbs(wr) \div 1000)

RotSpringLaw(w, P, N, E, id, j) ==
    LET f == IF j.p[4] = 1 THEN j.p[2] ELSE FMul(N[j.a].a - N[j.b].a - j.p[1], j.p[2])
        js == Secs(f, E.q)
        hit(k, sg) == IF ~Finite(w, k) THEN P[k]
                      ELSE Integrate(w, k, w.b[k].v, w.b[k].w + sg * FMul(js, InvI(w, k)), E.q, E.dmp)
        Q == [k \in DOMAIN P |-> IF k = j.a THEN hit(k, -1) ELSE IF k = j.b THEN hit(k, 1) ELSE P[k]]
        t == Torque(w, Q, N, j.a, j.b, S)
        kk == InvI(w, j.a) + InvI(w, j.b)
        T == 2 * TorTol(w, j.a, j.b) + FAbs(t) \div 400 + Secs(FMul(j.p[2], 8), E.q)
        wr == N[j.b].w - N[j.a].w
        wq == Q[j.b][2] - Q[j.a][2]
        ex == FExpN(FMul(Secs(j.p[3], E.q), kk))
    IN /\ Straight(w, P, N, j.a, j.b)
       /\ (Finite(w, j.a) /\ Finite(w, j.b)) => Near(FMul(N[j.a].w - Q[j.a][2], w.b[j.a].i), -t, T)
       /\ Near(wr, FMul(wq, ex), 14 + FMul(kk, T) + FAbs(wq) \div 500)
       /\ Near(E.ji[id], js + t, 2 * T)

JointLaw(w, P, N, E, id) ==
    LET j == w.j[id] IN
    CASE j.k = "pin" -> PinLaw(w, P, N, E, id, j)
      [] j.k = "slide" -> SlideLaw(w, P, N, E, id, j)
      [] j.k = "pivot" -> PivotLaw(w, P, N, E, id, j)
      [] j.k = "groove" -> GrooveLaw(w, P, N, E, id, j)
      [] j.k = "spring" -> SpringLaw(w, P, N, E, id, j)
      [] j.k = "rlimit" -> RotaryLaw(w, P, N, E, id, j)
      [] j.k = "ratchet" -> RatchetLaw(w, P, N, E, id, j)
      [] j.k = "gear" -> GearLaw(w, P, N, E, id, j)
      [] j.k = "motor" -> MotorLaw(w, P, N, E, id, j)
      [] j.k = "rspring" -> RotSpringLaw(w, P, N, E, id, j)

\* ---- groups of bodies that act on each other
RECURSIVE Grow(_, _)
Grow(links, D) == LET x == D \cup UNION { l \in links : l \cap D # {} } IN IF x = D THEN D ELSE Grow(links, x)

\* the parts of the judgement about a step
StepParts(w, E) ==
    LET Ids == DOMAIN w.b
        N == [k \in Ids |-> BodyOf(E.st[k])]
        P == [k \in Ids |-> Integrate(w, k, w.b[k].v, w.b[k].w, E.q, E.dmp)]
        Fin == { k \in Ids : Finite(w, k) }
        arbs == { ContactOf(w, N, E.ar[x]) : x \in { y \in 1..Len(E.ar) : E.ar[y][3] = 1 } }
        js == { id \in DOMAIN w.j : w.j[id].on }
        ends == { {c.a, c.b} : c \in arbs } \cup { {w.j[id].a, w.j[id].b} : id \in js }
        links == { e \cap Fin : e \in ends }
        On(k) == { c \in arbs : k \in {c.a, c.b} }
        Jo(k) == { id \in js : k \in {w.j[id].a, w.j[id].b} }
        groups == { Grow(links, {k}) : k \in Fin }
        pended == UNION { {x.a, x.b} : x \in w.pend }
        X == [k \in Ids |-> IF Moving(w, k) THEN Extra(w, k, N[k], E.q) ELSE << <<0, 0>>, 0 >>]
        dp(k) == FScale(FSub(N[k].v, P[k][1]), w.b[k].m)
        free == { k \in Fin : On(k) = {} /\ Jo(k) = {} }
        \* poses
        p1 == \A k \in Ids :
                 IF ~Moving(w, k) THEN \A x \in 1..7 : E.st[k][x] = w.raw[k][x]
                 ELSE k \notin pended => NearV(X[k][1], <<0, 0>>, 3) /\ Near(X[k][2], 0, 3)
        p2 == \A k \in Ids : Consistent(N[k]) /\ \A x \in 14..18 : E.st[k][x] = w.raw[k][x]
        \* velocities and forces
        p3 == /\ \A k \in free : NearV(N[k].v, P[k][1], VT(w, k, P[k][1])) /\ Near(N[k].w, P[k][2], WT(w, k, P[k][2]))
              /\ \A k \in Ids \ Fin : NearV(N[k].v, P[k][1], 0) /\ Near(N[k].w, P[k][2], 0)
              /\ \A k \in Ids : IF k \in Fin THEN N[k].f = <<0, 0>> /\ N[k].t = 0 ELSE N[k].f = w.b[k].f /\ N[k].t = w.b[k].t
        \* momentum
        p4 == \A G \in groups :
                 LET C == UNION { On(k) : k \in G }
                     Js == UNION { Jo(k) : k \in G }
                     closed == (\A c \in C : {c.a, c.b} \subseteq G) /\ (\A id \in Js : {w.j[id].a, w.j[id].b} \subseteq G)
                     T == SumOf([k \in G |-> 8 + FMul(w.b[k].m, VT(w, k, P[k][1]) + 2)], G)
                     mid == w.b[CHOOSE k \in G : TRUE].p
                     mom == SumV([k \in G |-> dp(k)], G)
                     spin == SumOf([k \in G |-> FCross(FSub(N[k].p, mid), dp(k)) + FMul(N[k].w - P[k][2], w.b[k].i)], G)
                     sT == SumOf([k \in G |-> FMul(Norm1(FSub(N[k].p, mid)), 8 + FMul(w.b[k].m, VT(w, k, P[k][1]) + 2)) + FMul(w.b[k].i, WT(w, k, P[k][2]) + 2) + 16 + FMul(Norm1(dp(k)), 8)], G)
                     central == /\ \A id \in Js : w.j[id].k \in {"pin", "slide", "spring", "rlimit", "ratchet", "motor", "rspring"}
                                /\ \A c \in C : c.u = 0 /\ ~w.s[c.sa].adj /\ ~w.s[c.sb].adj
                     one == \A c \in C : Len(c.pts) = 1
                     onB(k, c) == IF c.b = k THEN c.J ELSE FNeg(c.J)
                     tq(k, c) == IF c.b = k THEN FCross(c.pts[1].r2, c.J) ELSE -FCross(c.pts[1].r1, c.J)
                 IN /\ closed => NearV(mom, <<0, 0>>, T)
                    /\ (closed /\ central) => Near(spin, 0, sT)
                    /\ Js = {} => \A k \in G :
                          LET I == SumV([c \in C |-> IF k \in {c.a, c.b} THEN onB(k, c) ELSE <<0, 0>>], C)
                              t == SumOf([c \in C |-> IF k \in {c.a, c.b} THEN tq(k, c) ELSE 0], C)
                              n == SumOf([c \in C |-> Norm1(c.J)], C)
                          IN /\ NearV(dp(k), I, 8 + FMul(w.b[k].m, VT(w, k, P[k][1]) + 2) + 4 * Cardinality(C) + n \div 1000)
                             /\ one => Near(FMul(N[k].w - P[k][2], w.b[k].i), t,
                                            FMul(w.b[k].i, WT(w, k, P[k][2]) + 2) + 4 + 30 * Cardinality(C) + n \div 400)
        \* contacts
        p5 == /\ \A x \in 1..Len(E.ar) : (E.ar[x][3] = 1) = Responds(w, E.ar[x])
              /\ \A c \in arbs : PlacesOk(w, N, c) /\ ConeOk(w, c)
              /\ \A G \in groups : LET C == UNION { On(k) : k \in G } IN
                    (Cardinality(C) = 1 /\ UNION { Jo(k) : k \in G } = {}) => \A c \in C : ContactLaw(w, P, N, c)
        \* overlaps
        p6 == \A x \in w.pend : x.alone => PendLaw(x, X, E.q)
        \* joints
        p7 == \A G \in groups : LET Js == UNION { Jo(k) : k \in G } IN
                 (Cardinality(Js) = 1 /\ UNION { On(k) : k \in G } = {}) => \A id \in Js : JointLaw(w, P, N, E, id)
        \* update functions and constraint callbacks
        due(c) == { k \in Ids : Moving(w, k) /\ w.cf[k][c] = 1 }
        p8 == /\ { E.vf[x][1] : x \in 1..Len(E.vf) } = due(1) /\ Len(E.vf) = Cardinality(due(1))
              /\ \A x \in 1..Len(E.vf) : NearV(<<E.vf[x][2], E.vf[x][3]>>, w.g, 0) /\ E.vf[x][4] = E.dmp /\ E.vf[x][5] = E.q
              /\ { E.pf[x][1] : x \in 1..Len(E.pf) } = due(2) /\ Len(E.pf) = Cardinality(due(2))
              /\ \A x \in 1..Len(E.pf) : E.pf[x][2] = E.q
        p9 == /\ \A id \in js : E.jc[id] = <<1, 1>>
              /\ \A id \in DOMAIN w.j \ js : E.jc[id] = <<0, 0>>
        \* contacts that have just begun and neither bounce nor rub take energy away
        p10 == \A G \in groups :
                  LET C == UNION { On(k) : k \in G }
                      plain == /\ C # {} /\ UNION { Jo(k) : k \in G } = {}
                               /\ \A c \in C : c.e = 0 /\ c.u = 0
                               /\ \A c \in C : \A x \in w.pend : {x.a, x.b} # {c.a, c.b}
                               /\ \A c \in C : \A k \in {c.a, c.b} : k \in G \/ (w.b[k].v = <<0, 0>> /\ w.b[k].w = 0)
                      en(v, om, k) == FMul(FDot(v, v), w.b[k].m) + FMul(FMul(om, om), w.b[k].i)
                      eT(k) == 16 + FMul(w.b[k].m, FMul(2 * (Norm1(P[k][1]) + Norm1(N[k].v)), VT(w, k, P[k][1]) + 4))
                               + FMul(w.b[k].i, FMul(2 * (FAbs(P[k][2]) + FAbs(N[k].w)), WT(w, k, P[k][2]) + 4))
                  IN plain => SumOf([k \in G |-> en(N[k].v, N[k].w, k)], G) <=
                              SumOf([k \in G |-> en(P[k][1], P[k][2], k) + eT(k)], G)
    IN <<p1, p2, p3, p4, p5, p6, p7, p8, p9, p10>>

\* the overlaps left by a step
PendAfter(w, E) ==
    LET N == [k \in DOMAIN w.b |-> BodyOf(E.st[k])]
        arbs == { ContactOf(w, N, E.ar[x]) : x \in { y \in 1..Len(E.ar) : E.ar[y][3] = 1 } }
        busy(k, c) == Finite(w, k) => \A d \in arbs \ {c} : k \notin {d.a, d.b}
    IN { PendOf(w, E, c, busy(c.a, c) /\ busy(c.b, c)) : c \in arbs }
=============================================================================
