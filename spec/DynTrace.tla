------------------------------- MODULE DynTrace --------------------------------
(* Checks recorded motions against Dynamics.tla.                              *)
EXTENDS Dynamics, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, w
vars == <<t, i, w>>

Evs == Traces[t].ev
E == Evs[i]
Is(n) == i <= Len(Evs) /\ E.e = n
Yes(b) == b = TRUE
Init == t \in 1..Len(Traces) /\ i = 1 /\ w = [b |-> <<>>]
Started == w.b # <<>>

Set(x) == [x EXCEPT !.b = [k \in 1..Len(E.st) |-> BodyOf(E.st[k])], !.raw = E.st]
\* every body but these is what it was
Others(D) == Len(E.st) = Len(w.raw) /\ \A k \in DOMAIN w.b \ D : E.st[k] = w.raw[k]
Steady(k) == Consistent(BodyOf(E.st[k]))
\* a body whose type or mass changes owes nothing exact to its last contact
Loose(x, k) == [x EXCEPT !.pend = { IF k \in {p.a, p.b} THEN [p EXCEPT !.alone = FALSE] ELSE p : p \in x.pend }]

Pts(v) == [k \in 1..Len(v) |-> <<v[k][1], v[k][2]>>]
ShapeOf == [b |-> E.b, k |-> E.k, v |-> Pts(E.v), r |-> E.r, e |-> E.el, u |-> E.u, sv |-> <<E.sv[1], E.sv[2]>>, m |-> E.m,
            sensor |-> E.fl[1] = 1, rej |-> E.fl[2] = 1, adj |-> E.fl[6] = 1, on |-> TRUE]
JointOf == [k |-> E.k, a |-> E.a, b |-> E.b, p |-> E.p, mf |-> E.mf, mb |-> E.mb, on |-> TRUE, ang |-> E.ja]

\* what the constructor worked out from the poses
JointBorn(x, j) ==
  /\ j.mf = Inf /\ j.mb = Inf
  /\ (j.k = "pivot" /\ E.pv # <<>>) \/ \A k \in 1..Len(E.asked) : j.p[k] = E.asked[k]
  /\
    CASE j.k = "pin" -> LET d == Slack(x.b, j) IN Near(j.p[5], FLen(d), 4)
      [] j.k = "pivot" -> E.pv = <<>> \/ (/\ NearV(ToWorld(x.b[j.a], <<j.p[1], j.p[2]>>), <<E.pv[1], E.pv[2]>>, 6)
                                          /\ NearV(ToWorld(x.b[j.b], <<j.p[3], j.p[4]>>), <<E.pv[1], E.pv[2]>>, 6))
      [] j.k = "ratchet" -> Near(j.ang, x.b[j.b].a - x.b[j.a].a, 1)
      [] OTHER -> TRUE

\* shapes after a call on one of them
ShapeAfter(s) == CASE E.k = "mass" -> [s EXCEPT !.m = E.a[1]]
                   [] E.k = "dens" -> [s EXCEPT !.m = FMul(Info(s).area, E.a[1])]
                   [] E.k = "rad" -> [s EXCEPT !.r = E.a[1]]
                   [] E.k = "verts" -> [s EXCEPT !.v = Pts(E.v)]
                   [] E.k = "e" -> [s EXCEPT !.e = E.a[1]]
                   [] E.k = "u" -> [s EXCEPT !.u = E.a[1]]
                   [] E.k = "sv" -> [s EXCEPT !.sv = <<E.a[1], E.a[2]>>]
                   [] E.k = "rm" -> [s EXCEPT !.on = FALSE]
                   [] OTHER -> s
Massive(s) == s.m > 0 \/ (E.k = "mass")
ShapeStep(s, s1, x) ==
    LET k == s.b
        chg == E.k \in {"mass", "dens"} \/ (E.k \in {"rad", "verts", "rm"} /\ s.m > 0)
        want == IF chg THEN Accum(x, k, w.b[k]) ELSE w.b[k]
        n == BodyOf(E.st[k])
    IN /\ Others({k})
       /\ IF chg THEN Same(w.b[k], n, want) ELSE E.st[k] = w.raw[k]
       /\ Consistent(n)
       /\ E.k \in {"mass", "dens", "rad", "verts"} =>
             LET f == Info(s1) IN /\ Near(E.in[1], s1.m, 4 + s1.m \div 1000)
                                  /\ Near(E.in[2], f.area, 10 + f.area \div 1000)
                                  /\ NearV(<<E.in[3], E.in[4]>>, f.c, 4)
                                  /\ Near(E.in[5], FMul(s1.m, f.i), 20 + FMul(s1.m, f.i) \div 300)

JointAfter(j) == CASE E.k = "mf" -> [j EXCEPT !.mf = E.a[1]]
                   [] E.k = "mb" -> [j EXCEPT !.mb = E.a[1]]
                   [] E.k = "p" -> [j EXCEPT !.p = E.a]
                   [] E.k = "rm" -> [j EXCEPT !.on = FALSE]
                   [] OTHER -> j

Formula ==
    CASE E.k = "areac" -> Near(E.r, FMul(Pi, FAbs(FMul(E.a[1], E.a[1]) - FMul(E.a[2], E.a[2]))), 12 + FAbs(E.r) \div 2000)
      [] E.k = "areas" -> Near(E.r, FMul(E.a[1], FMul(Pi, E.a[1]) + 2 * Dist(Pts(E.v)[1], Pts(E.v)[2])), 12 + FAbs(E.r) \div 2000)
      [] E.k = "areap" -> Near(E.r, PolyArea(Pts(E.v), E.a[1]), 12 + FAbs(E.r) \div 2000)
      [] E.k = "momc" -> Near(E.r, FMul(E.a[1], (FMul(E.a[2], E.a[2]) + FMul(E.a[3], E.a[3])) \div 2
                                                + FDot(<<E.a[4], E.a[5]>>, <<E.a[4], E.a[5]>>)), 24 + FAbs(E.r) \div 1000)
      [] E.k = "momb" -> Near(E.r, FMul(E.a[1], (FMul(E.a[2], E.a[2]) + FMul(E.a[3], E.a[3])) \div 12
                                                + FDot(<<E.a[4], E.a[5]>>, <<E.a[4], E.a[5]>>)), 24 + FAbs(E.r) \div 1000)
      [] E.k = "moms" -> LET V == Pts(E.v) c == <<(V[1][1] + V[2][1]) \div 2, (V[1][2] + V[2][2]) \div 2>> IN
                         Near(E.r, FMul(E.a[1], SegMoment(V, E.a[2]) + FDot(c, c)), 24 + FAbs(E.r) \div 1000)
      [] E.k = "momp" -> LET V == Pts(E.v) W == [k \in 1..Len(V) |-> FV(V[k], <<E.a[2], E.a[3]>>)] IN
                         Near(E.r, FMul(E.a[1], PolyMoment0(W)), 40 + FAbs(E.r) \div 500)
      [] E.k = "cent" -> NearV(<<E.r, E.r2>>, PolyCentroid(Pts(E.v)), 3)
      [] OTHER -> FALSE

\* what the properties of the space and its shapes are said to be
Told ==
    /\ <<E.g[1], E.g[2]>> = w.g /\ E.damp = E.was /\ E.dt = E.q /\ Len(E.s) = Len(w.s)
    /\ \A k \in DOMAIN w.s : LET s == w.s[k] l == E.s[k] f == Info(s) IN
          /\ l[1] = k /\ l[2] = s.b /\ l[3] = s.e /\ l[4] = s.u /\ l[5] = s.r /\ (l[6] = 1) = s.sensor /\ l[10] = (IF s.on THEN 1 ELSE 0)
          /\ Near(l[7], s.m, 4 + s.m \div 1000) /\ Near(l[8], f.area, 10 + f.area \div 1000)
          /\ f.area > S \div 4 => Near(FMul(l[9], l[8]), l[7], 8 + l[7] \div 500 + l[8] \div S)

(* drawings *)
Bit(n, k) == (n \div k) % 2 = 1
At2(k, a, b) == ToWorld(w.b[k], <<a, b>>)
EndA(j) == At2(j.a, j.p[1], j.p[2])
EndB(j) == At2(j.b, j.p[3], j.p[4])
DTol == 8
Drawn == SelectSeq(w.j, LAMBDA j : j.on)
RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Flat(Tail(l))
\* the dots and lines a constraint asks for
JDots(j) == CASE j.k \in {"pin", "slide", "pivot", "spring"} -> << EndA(j), EndB(j) >>
              [] j.k = "groove" -> << At2(j.b, j.p[5], j.p[6]) >>
              [] OTHER -> <<>>
JSegs(j) == CASE j.k \in {"pin", "slide"} -> << EndA(j) \o EndB(j) >>
              [] j.k = "groove" -> << EndA(j) \o At2(j.a, j.p[3], j.p[4]) >>
              [] OTHER -> <<>>
Springs == SelectSeq(Drawn, LAMBDA j : j.k = "spring")
Close(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], DTol)
Rev(a) == IF Len(a) = 4 THEN <<a[3], a[4], a[1], a[2]>> ELSE a
Like(a, b) == Close(a, b) \/ Close(a, Rev(b))
Same2(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], 2)
HowMany(l, x) == Cardinality({ k \in 1..Len(l) : Like(l[k], x) })
\* as many of l near everything in want as there are in want
Covered(l, want) == \A k \in 1..Len(want) :
    HowMany(l, want[k]) >= Cardinality({ x \in 1..Len(want) : Same2(want[x], want[k]) \/ Same2(want[x], Rev(want[k])) })
Spare(l, want) == SelectSeq(l, LAMBDA x : ~\E k \in 1..Len(want) : Like(x, want[k]))
\* a line on its way along a spring
ByLine(x, a, b) == LET d == FSub(b, a) l == FLen(d) r == FSub(x, a) IN
                   /\ FAbs(FCross(d, r)) <= FMul(l, 7 * S) + 64
                   /\ FDot(d, r) >= -64 - l \div 8 /\ FDot(d, r) <= FDot(d, d) + 64 + l \div 8
Zigzag(l) ==
    IF Len(Springs) = 0 THEN l = <<>> ELSE
    \/ \E k \in 1..Len(Springs) : FLen(FSub(EndB(Springs[k]), EndA(Springs[k]))) < S \div 8  \* too short to be drawn
    \/ /\ \A x \in 1..Len(l) : \E k \in 1..Len(Springs) : LET a == EndA(Springs[k]) b == EndB(Springs[k]) IN
              ByLine(<<l[x][1], l[x][2]>>, a, b) /\ ByLine(<<l[x][3], l[x][4]>>, a, b)
       \* every spring's line leaves its ends, and goes on
       /\ \A k \in 1..Len(Springs) : \A e \in { EndA(Springs[k]), EndB(Springs[k]) } :
              \E x \in 1..Len(l) : Close(<<l[x][1], l[x][2]>>, e) \/ Close(<<l[x][3], l[x][4]>>, e)
       /\ \A x \in 1..Len(l) : \A e \in { <<l[x][1], l[x][2]>>, <<l[x][3], l[x][4]>> } :
              \/ \E k \in 1..Len(Springs) : Close(e, EndA(Springs[k])) \/ Close(e, EndB(Springs[k]))
              \/ \E y \in (1..Len(l)) \ {x} : Close(e, <<l[y][1], l[y][2]>>) \/ Close(e, <<l[y][3], l[y][4]>>)
DrawParts ==
    LET on == { s \in DOMAIN w.s : w.s[s].on }
        dots == Flat([k \in 1..Len(Drawn) |-> JDots(Drawn[k])])
        segs == Flat([k \in 1..Len(Drawn) |-> JSegs(Drawn[k])])
        lines == [k \in 1..Len(E.cp) |-> E.cp[k].v]
    IN << E.bad = 0
          /\ IF Bit(E.fl, 1) THEN Len(E.sh) = Cardinality(on) /\ { E.sh[k].id : k \in 1..Len(E.sh) } = on ELSE E.sh = <<>>,
          IF Bit(E.fl, 2)
          THEN /\ Len(E.dots) = Len(dots) /\ Covered(E.dots, dots)
               /\ Covered(E.segs, segs)
               /\ (Springs = <<>> => Len(E.segs) = Len(segs))
               /\ Zigzag(Spare(E.segs, segs))
          ELSE E.dots \o E.segs = <<>>,
          IF Bit(E.fl, 4) THEN Len(E.ct) = Len(lines) /\ Covered(E.ct, lines) ELSE E.ct = <<>> >>

AllOk(l) == \A k \in 1..Len(l) : l[k]

\* numbers out of all proportion (or not numbers at all) belong to no behaviour
Sane(l) == \A k \in 1..Len(l) : \A c \in 1..Len(l[k]) : FAbs(l[k][c]) < 134217728
Next ==
    /\ t' = t /\ i' = i + 1
    /\ i <= Len(Evs) /\ ("st" \in DOMAIN E => Sane(E.st)) /\ ("ar" \in DOMAIN E => Sane(E.ar))
    /\ \/ /\ Is("init") /\ ~Started
          /\ Len(E.st) = 1 /\ BodyOf(E.st[1]).ty = Sta /\ Yes(Steady(1))
          /\ w' = [b |-> <<BodyOf(E.st[1])>>, raw |-> E.st, g |-> <<E.g[1], E.g[2]>>, it |-> E.it, slop |-> E.slop,
                   in |-> <<TRUE>>, cf |-> <<<<0, 0>>>>, s |-> <<>>, j |-> <<>>, pend |-> {}]
       \/ /\ Is("body") /\ Started
          /\ Len(E.st) = Len(w.raw) + 1 /\ \A k \in DOMAIN w.b : E.st[k] = w.raw[k]
          /\ LET n == BodyOf(E.st[Len(E.st)]) IN
             /\ Yes(/\ Consistent(n) /\ n.ty = E.ty /\ E.ty = Dyn => n.m = E.p[1] /\ n.i = E.p[2]
                    /\ n.cog = <<0, 0>> /\ n.p = n.pos /\ n.pos = <<E.p[3], E.p[4]>> /\ n.a = E.p[5]
                    /\ n.v = <<E.p[6], E.p[7]>> /\ n.w = E.p[8] /\ n.f = <<0, 0>> /\ n.t = 0)
             /\ w' = [Set(w) EXCEPT !.in = Append(w.in, E.in = 1), !.cf = Append(w.cf, <<0, 0>>)]
       \/ /\ Is("op") /\ Started
          /\ LET n == BodyOf(E.st[E.b]) IN
             /\ Yes(Others({E.b}) /\ Same(w.b[E.b], n, After(w, E.b, E.k, E.a, n)) /\ Consistent(n))
             /\ LET x == Set(w) IN
                w' = CASE E.k = "vfn" -> [x EXCEPT !.cf[E.b][1] = E.a[1]]
                       [] E.k = "pfn" -> [x EXCEPT !.cf[E.b][2] = E.a[1]]
                       [] E.k = "in" -> [x EXCEPT !.in[E.b] = (E.a[1] = 1)]
                       [] E.k \in {"type", "setmass", "setmoment"} -> Loose(x, E.b)
                       [] OTHER -> x
       \/ /\ Is("sp") /\ Started /\ E.st = w.raw
          /\ w' = CASE E.k = "g" -> [w EXCEPT !.g = <<E.a[1], E.a[2]>>]
                    [] E.k = "slop" -> [w EXCEPT !.slop = E.a[1]]
                    [] E.k = "it" -> [w EXCEPT !.it = E.a[1]]
                    [] OTHER -> w
       \/ /\ Is("shape") /\ Started /\ E.id = Len(w.s) + 1
          /\ LET x == [w EXCEPT !.s = Append(w.s, ShapeOf)]
                 n == BodyOf(E.st[E.b]) IN
             /\ Yes(Others({E.b}) /\ Consistent(n)
                    /\ IF E.m > 0 THEN Same(w.b[E.b], n, Accum(x, E.b, w.b[E.b])) ELSE E.st[E.b] = w.raw[E.b])
             /\ w' = Loose(Set(x), E.b)
       \/ /\ Is("sop") /\ Started
          /\ LET s == w.s[E.id]
                 s1 == ShapeAfter(s)
                 x == [w EXCEPT !.s[E.id] = s1]
             IN /\ Yes(ShapeStep(s, s1, x)) /\ w' = Loose(Set(x), s.b)
       \/ /\ Is("joint") /\ Started /\ E.id = Len(w.j) + 1 /\ E.st = w.raw
          /\ Yes(JointBorn(w, JointOf))
          /\ w' = [w EXCEPT !.j = Append(w.j, JointOf)]
       \/ /\ Is("jop") /\ Started /\ E.st = w.raw
          /\ LET j == JointAfter(w.j[E.id]) IN /\ E.got = <<j.mf, j.mb, E.eb>>
                                             /\ w' = [w EXCEPT !.j[E.id] = j]
       \/ /\ Is("q") /\ Started /\ UNCHANGED w /\ E.st = w.raw
          /\ Yes(NearV(<<E.r[1], E.r[2]>>, Answer(w.b[E.b], E.k, <<E.a[1], E.a[2]>>), AnswerTol(w.b[E.b], E.k, <<E.a[1], E.a[2]>>)))
       \/ /\ Is("draw") /\ Started /\ UNCHANGED w /\ E.st = w.raw /\ Yes(AllOk(DrawParts))
       \/ /\ Is("get") /\ Started /\ UNCHANGED w /\ E.st = w.raw /\ Yes(Told)
       \/ /\ Is("f") /\ UNCHANGED w /\ Yes(Formula)
       \/ /\ Is("step") /\ Started
          /\ IF E.q = 0 THEN E.st = w.raw /\ E.ar = <<>> /\ E.vf = <<>> /\ E.pf = <<>> /\ UNCHANGED w
             ELSE /\ Yes(Len(E.st) = Len(w.raw) /\ AllOk(StepParts(w, E)))
                  /\ w' = [Set(w) EXCEPT !.pend = PendAfter(w, E),
                                         !.j = [id \in DOMAIN w.j |-> [w.j[id] EXCEPT !.ang = E.ja[id]]]]
Spec == Init /\ [][Next]_vars
Accepting == i = Len(Evs) + 1
Report == Accepting => PrintT(<<"ACC", Traces[t].id>>)
Parts == IF Is("step") /\ Started /\ E.q # 0 THEN (IF Len(E.st) = Len(w.raw) THEN StepParts(w, E) ELSE <<>>)
         ELSE IF Is("draw") /\ Started THEN Append(DrawParts, E.st = w.raw) ELSE <<>>
Furthest == IF i >= TLCGet(1) THEN TLCSet(1, i) /\ PrintT(<<"AT", i, "", "", Parts>>) ELSE TRUE
DiagInit == Init /\ TLCSet(1, 0)
DiagSpec == DiagInit /\ [][Next]_vars
===============================================================================
