------------------------------- MODULE CpTrace --------------------------------
(* Checks recorded executions of the real library against CpWorld: a trace is *)
(* accepted iff some behaviour of CpWorld explains every event of it.         *)
EXTENDS CpWorld, Query, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i
vars == <<w, K, t, i>>

Evs == Traces[t].ev
E == Evs[i]
Is(n) == i <= Len(Evs) /\ E.e = n
Flt(f) == << f[1], f[2], f[3] >>
Bool(n) == n = 1

Init == /\ t \in { n \in 1..Len(Traces) : Len(Traces[n].ev) > 0 /\ Traces[n].ev[1].e = "conf" }
        /\ LET c == Traces[t].ev[1] IN w = World0(c.sleepT, c.idleSp, c.gx, c.gy, c.real = 1)
        /\ K = <<>> /\ i = 2

\* the kinetic energy a step will use for body b
KeUpd(b) == [k \in DOMAIN K |->
               IF K[k].k = "step" /\ K[k].ph = "collide"
               THEN [K[k] EXCEPT !.x.ke = Put(@, b, <<E.ke, E.kex>>)] ELSE K[k]]
KeMap(L) == [b \in { L[j][1] : j \in 1..Len(L) } |->
               LET j == CHOOSE j \in 1..Len(L) : L[j][1] = b IN << L[j][2], L[j][3] >>]

Set(ww) == InUser /\ w' = ww /\ K' = K
SetKe(ww, b) == InUser /\ w' = ww /\ K' = KeUpd(b)

SeqSet(s) == { s[j] : j \in 1..Len(s) }
ArbObs == UNION { { <<b, IF SB(w, p[1]) = b THEN p[1] ELSE p[2], IF SB(w, p[1]) = b THEN p[2] ELSE p[1]>>
                    : p \in Threaded(w, b) } : b \in Bodies(w) }
\* what an observation shows, part by part
ObB(F(_, _)) == \A j \in 1..Len(E.b) : F(E.b[j], w.B[E.b[j][1]])
ObParts ==
    << /\ { E.b[j][1] : j \in 1..Len(E.b) } = Bodies(w)
       /\ ObB(LAMBDA o, b : b.in = Bool(o[2]))
       /\ SeqSet(E.s) = { s \in DOMAIN w.S : w.S[s].in }
       /\ SeqSet(E.c) = { c \in DOMAIN w.C : w.C[c].in },
       ObB(LAMBDA o, b : b.ty = o[3]),
       ObB(LAMBDA o, b : (b.comp # 0) = Bool(o[4])),
       ObB(LAMBDA o, b : b.ty # "S" => b.idle = o[5]),
       ObB(LAMBDA o, b : ~w.real => b.x = o[6] /\ b.y = o[7]),
       /\ { << E.a[j][1], E.a[j][2], E.a[j][3] >> : j \in 1..Len(E.a) } = ArbObs
       /\ Len(E.a) = Cardinality(ArbObs) >>
Observe == Holds(\A j \in 1..6 : ObParts[j]) /\ w' = w /\ K' = K

(* geometric queries *)
Fx(s) == Scaled(SCore(w, s))
Rx(s) == w.S[s].r * Q
Q4(p) == << p[1] * (Q \div 4), p[2] * (Q \div 4) >>
PQ1(s, X) == PointAnswer(X, Fx(s), Rx(s), E.d, E.pt, E.g)
\* where a shape that is only grazed is hit cannot be told
HitOk(q, s) == \/ Overlap(SCore(w, s), w.S[s].r, << q.a, q.b >>, q.r) = 2
               \/ HitAnswer(q.a, q.b, q.r * Q, Fx(s), Rx(s), Overlap(SCore(w, s), w.S[s].r, << q.a >>, q.r), E.al, E.pt, E.n)
Contacts(s, t_, n, pts) ==
    LET o == Overlap(SCore(w, s), w.S[s].r, SCore(w, t_), w.S[t_].r) IN
    IF Len(pts) = 0 THEN o # 1
    ELSE o # 0 /\ ContactAnswer(SCore(w, s), w.S[s].r, SCore(w, t_), w.S[t_].r, n, pts)
Cands(f) == { s \in Eligible(w, f) : ~w.S[s].sen }
Is1(c) == { s \in DOMAIN c : c[s] = 1 }
Is2(c) == { s \in DOMAIN c : c[s] = 2 }
Nearest ==
    LET X == Q4(E.p)
        c == Cands(Flt(E.f))
        D == [s \in c |-> SDist(X, Fx(s), Rx(s))]
    IN IF E.s = 0 THEN \A s \in c : D[s] >= E.max * Q - Tol
       ELSE /\ E.s \in c
            /\ PQ1(E.s, X)
            /\ E.d <= E.max * Q + Tol
            /\ \A s \in c : D[s] >= E.d - Tol
FirstHit ==
    LET c == CoreHits(w, << E.a, E.b >>, E.r, Flt(E.f)) IN
    IF E.s = 0 THEN \A s \in Cands(Flt(E.f)) : c[s] # 1
    ELSE /\ E.s \in Cands(Flt(E.f)) /\ c[E.s] # 0
         /\ HitOk(E, E.s)
         /\ LET A == << E.a[1] * Q, E.a[2] * Q >>
                C == AtI(E.a, E.b, E.al) IN
            \A s \in Cands(Flt(E.f)) \ {E.s} : c[s] = 1 /\ E.al > 0 => ~ClearlyBefore(A, C, E.r * Q, Fx(s), Rx(s))
\* shapes a probe touches
ProbeHits(ww, s) ==
    LET c == CoreHits(ww, SCore(ww, s), ww.S[s].r, ww.S[s].f) IN [ o \in DOMAIN c \ {s} |-> c[o] ]
VisitOk ==
    LET x == Top.x IN
    IF x = <<>> THEN VisitCall(E.v)
    ELSE LET q == Evs[x.at] IN
         CASE x.q = "sq" -> Holds(HitOk(q, E.v)) /\ VisitCall(E.v)
           [] x.q = "shq" -> /\ E.n = <<>> \/ Len(E.pts) > 0
                             /\ Holds(E.n = <<>> \/ Contacts(x.s, E.v, E.n, E.pts))
                             /\ VisitX(E.v, [x EXCEPT !.hit = @ \/ ~(w.S[x.s].sen \/ w.S[E.v].sen)])

(* drawings *)
Bit(n, k) == (n \div k) % 2 = 1
Und(es) == { {e[1], e[2]} : e \in es }
DrawnAs(d) ==
    LET F == Fx(d.id) n == Len(F) IN
    /\ d.r = Rx(d.id)
    /\ CASE d.k = "c" -> /\ Len(w.S[d.id].v) = 1 /\ d.v = F
                         /\ LET c == RotTable[w.B[SB(w, d.id)].r + 1] IN Near(d.d[1], c[1] * 2000, 1) /\ Near(d.d[2], c[2] * 2000, 1)
         [] d.k = "s" -> Len(w.S[d.id].v) = 2 /\ d.v \in (IF n = 1 THEN {F \o F} ELSE {F, <<F[2], F[1]>>})
         [] d.k = "p" -> n >= 3 /\ Len(d.v) = n /\ Und(Edges(d.v)) = Und(Edges(F))
         [] OTHER -> FALSE
Times(s, x) == Cardinality({ k \in 1..Len(s) : s[k] = x \/ s[k] = <<x[3], x[4], x[1], x[2]>> })
SameLines(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Times(a, a[k]) = Times(b, a[k])
\* what is drawn of the shapes, the constraints and the contacts
DrawParts ==
    LET on == { s \in DOMAIN w.S : w.S[s].in }
        acts == { p \in DOMAIN w.A : w.A[p].act }
        seen == SelectSeq(E.cp, LAMBDA c : <<c.s[1], c.s[2]>> \in acts)
    IN << E.bad = 0
          /\ IF Bit(E.fl, 1) THEN /\ Len(E.sh) = Cardinality(on) /\ { E.sh[k].id : k \in 1..Len(E.sh) } = on
                                  /\ w.real \/ \A k \in 1..Len(E.sh) : DrawnAs(E.sh[k])
             ELSE E.sh = <<>>,
          IF Bit(E.fl, 2) THEN (\E c \in DOMAIN w.C : w.C[c].in) \/ E.dots \o E.segs = <<>> ELSE E.dots \o E.segs = <<>>,
          IF Bit(E.fl, 4)
          THEN /\ SameLines(E.ct, [k \in 1..Len(seen) |-> seen[k].v])
               /\ \A p \in acts : Cardinality({ k \in 1..Len(seen) : <<seen[k].s[1], seen[k].s[2]>> = p }) \in 1..2
          ELSE E.ct = <<>> >>

HandlerOk(t1, t2) == ~\E h \in w.H.pr : {h.t1, h.t2} = {t1, t2}
Consume ==
    \/ Is("body") /\ Set(NewBody(w, E.id, E.ty, E.m, E.x, E.y, E.r, Bool(E.mv)))
    \/ Is("shape") /\ Set(NewShape(w, E.id, [b |-> E.b, r |-> E.r, v |-> E.v, sen |-> Bool(E.sen), ct |-> E.ct,
                                            f |-> Flt(E.f), in |-> FALSE, pose |-> <<0, 0, 0>>]))
    \/ Is("con") /\ Set(NewCon(w, E.id, E.a, E.b, Bool(E.col), E.cb))
    \/ Is("addB") /\ Set(AddB(w, E.id))
    \/ Is("rmB") /\ Set(RmB(w, E.id))
    \/ Is("addS") /\ Set(AddS(w, E.id))
    \/ Is("addC") /\ Set(AddC(w, E.id))
    \/ Is("rmC") /\ Set(RmC(w, E.id))
    \/ Is("setType") /\ SetKe([SetType(w, E.id, E.ty, Bool(E.mv)) EXCEPT !.B[E.id].m = E.m], E.id)
    \/ Is("setPos") /\ Set(SetPos(w, E.id, E.x, E.y))
    \/ Is("setRot") /\ Set(SetRot(w, E.id, E.r))
    \/ Is("setVel") /\ SetKe(SetVel(w, E.id, E.x, E.y), E.id)
    \/ Is("touch") /\ SetKe(Activate(w, E.id), E.id)
    \/ Is("touchC") /\ LET w1 == Activate(Activate(w, w.C[E.id].a), w.C[E.id].b) IN
                       Set(IF E.col < 0 THEN w1 ELSE [w1 EXCEPT !.C[E.id].col = Bool(E.col)])
    \/ Is("setSen") /\ Set([Activate(w, SB(w, E.id)) EXCEPT !.S[E.id].sen = Bool(E.n)])
    \/ Is("setFil") /\ Set([Activate(w, SB(w, E.id)) EXCEPT !.S[E.id].f = Flt(E.f)])
    \/ Is("setCt") /\ Set([Activate(w, SB(w, E.id)) EXCEPT !.S[E.id].ct = E.t])
    \/ Is("grav") /\ Set(SetGravity(w, E.x, E.y))
    \/ Is("reidx") /\ Set(CachePose(w, E.id))
    \/ Is("reshape") /\ Set(CachePose([w EXCEPT !.S[E.id].v = E.v, !.S[E.id].r = E.r], E.id))
    \/ Is("hash") /\ Set(w)
    \/ Is("hp") /\ HandlerOk(E.t1, E.t2) /\
                   Set([w EXCEPT !.H.pr = @ \cup {[t1 |-> E.t1, t2 |-> E.t2, id |-> E.id, fl |-> E.fl]}])
    \/ Is("hw") /\ Set([w EXCEPT !.H.wd = @ \cup {[t |-> E.t, id |-> E.id, fl |-> E.fl]}])
    \/ Is("hq") /\ Set(w) /\ IF E.k = "hp" THEN \E h \in w.H.pr : {h.t1, h.t2} = {E.t1, E.t2} /\ h.id = E.id
                             ELSE \E h \in w.H.wd : h.t = E.t1 /\ h.id = E.id
    \/ Is("post") /\ E.r = (IF PostOk(w, E.key) THEN 1 ELSE 0) /\ Set(AddPost(w, E.key, E.id))
    \/ Is("step0") /\ Set(w)
    \/ Is("step") /\ StepCall(E.dt, KeMap(E.ke))
    \/ Is("rmS") /\ RmSCall(E.id)
    \/ Is("each") /\ IF E.k = "bb"
                     THEN LET H == QueryHits(w, <<E.bb[1], E.bb[2], E.bb[3], E.bb[4]>>, Flt(E.f)) IN
                          EachCall("bb", Is1(H), Is2(H))
                     ELSE IF E.k = "sq"
                     THEN LET H == CoreHits(w, << E.a, E.b >>, E.r, Flt(E.f)) IN
                          QueryCall(w, Is1(H), Is2(H), [q |-> "sq", at |-> i])
                     ELSE IF E.k = "shq"
                     THEN LET w1 == CachePose(w, E.id)
                              H == ProbeHits(w1, E.id) IN
                          QueryCall(w1, Is1(H), Is2(H), [q |-> "shq", at |-> i, s |-> E.id, hit |-> FALSE])
                     ELSE EachCall(E.k, EachSet(w, E.k, E.id), {})
    \/ Is("vis") /\ VisitOk
    \/ Is("sbb") /\ E.bb = SBox(w, E.s) /\ Set(w)
    \/ Is("pq") /\ E.same = 1 /\ Holds(PQ1(E.s, Q4(E.p))) /\ Set(w)
    \/ Is("pn") /\ Holds(Nearest) /\ Set(w)
    \/ Is("sq1") /\ LET o == Overlap(SCore(w, E.s), w.S[E.s].r, << E.a, E.b >>, E.r) IN
                     Holds(IF E.hit = 1 THEN o # 0 /\ HitOk(E, E.s) ELSE E.hit = 0 /\ o # 1)
                  /\ Set(w)
    \/ Is("sf") /\ Holds(FirstHit) /\ Set(w)
    \/ Is("draw") /\ Holds(\A k \in 1..3 : DrawParts[k]) /\ Set(w)
    \/ Is("col") /\ Holds(Contacts(E.s, E.t, E.n, E.pts)) /\ Set(w)
    \/ Is("cb") /\ PairCall(E.k, [h |-> E.h, s1 |-> E.s1, s2 |-> E.s2], E.ud, E.nud)
                /\ LET a == w'.A[Pair(E.s1, E.s2)] IN
                   /\ Holds(E.cp # <<>> /\ E.k <= 2 => Contacts(E.s1, E.s2, E.cn, E.cp))
                   /\ (E.fc = 1) = (a.st = "first")
                   /\ (E.cnt = 1) = (a.st \in {"first", "normal", "ignore"})
    \/ Is("cp") /\ ConCall(E.k, E.id)
    \/ Is("run") /\ RunCall(E.id, E.key)
    \/ Is("ret") /\ (PairReturn(E.v = 1, E.ign = 1) \/ UserReturn)
    \/ Is("end") /\ CallEnd /\ ("res" \in DOMAIN E => (E.res = 1) = Top.x.hit)
    \/ Is("ob") /\ Observe

Next == \/ Consume /\ i' = i + 1 /\ t' = t
        \/ Advance /\ UNCHANGED <<t, i>>

Spec == Init /\ [][Next]_vars

Accepting == i = Len(Evs) + 1 /\ K = <<>>
Report == /\ Accepting => PrintT(<<"ACC", Traces[t].id>>)
          \* too many ties to go on: what was followed so far is accepted
          /\ GivesUp => PrintT(<<"ACC", Traces[t].id>>) /\ PrintT(<<"CUT", i, Traces[t].id>>)
\* single trace, one worker: how far it gets, and what the specification was doing there
Furthest == IF i >= TLCGet(1)
            THEN /\ TLCSet(1, i)
                 /\ PrintT(<<"AT", i, Top.k, Top.ph, IF Is("ob") /\ InUser THEN ObParts
                                               ELSE IF Is("draw") /\ InUser THEN DrawParts
                                               ELSE IF Is("cb") /\ E.cp # <<>> /\ E.k <= 2 /\ Pair(E.s1, E.s2) \in DOMAIN w.A
                                               THEN << Contacts(E.s1, E.s2, E.cn, E.cp) >> ELSE <<>> >>)
            ELSE TRUE
DiagInit == Init /\ TLCSet(1, 0)
DiagSpec == DiagInit /\ [][Next]_vars
Show == IF i >= TLCGet(1) THEN TLCSet(1, i) /\ PrintT(<<"ST", i, w, K>>) ELSE TRUE
===============================================================================
