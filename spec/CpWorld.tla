------------------------------- MODULE CpWorld -------------------------------
(* The state of a space and its transitions: membership, body types, cached   *)
(* shape poses, broad/narrow phase outcome, arbiters (collision pairs) and    *)
(* their callbacks, sleeping components, locking and post-step callbacks.     *)
(*                                                                            *)
(* The world is one record w so that transitions compose as functions; K is   *)
(* the stack of calls in progress (a step, an iteration, a query, a shape     *)
(* removal, and the user callbacks running inside them).  A user callback is  *)
(* two actions (call and return), and any operation the API allows may happen *)
(* between them.                                                              *)
EXTENDS Geometry, TLC

VARIABLES w, K

Persist == 3      \* steps a separated pair keeps its arbiter

--------------------------------------------------------------------------------
(* the record *)
World0(slp, isp, gx, gy, real) ==
    [ B |-> (0 :> [in |-> TRUE, ty |-> "S", m |-> 0, x |-> 0, y |-> 0, r |-> 0, mv |-> FALSE,
                   vx |-> 0, vy |-> 0, comp |-> 0, idle |-> 0, ro |-> FALSE]),
      real |-> real,
      S |-> <<>>, C |-> <<>>, A |-> <<>>,
      H |-> [pr |-> {}, wd |-> {}],
      stamp |-> 0, ties |-> 0, lock |-> 0, skip |-> FALSE, q |-> <<>>,
      slp |-> slp, isp |-> isp, gx |-> gx, gy |-> gy ]

Put(f, k, v) == (k :> v) @@ f
Drop(f, D) == [k \in DOMAIN f \ D |-> f[k]]

Bodies(ww) == DOMAIN ww.B
SB(ww, s) == ww.S[s].b
PairB(ww, p) == {SB(ww, p[1]), SB(ww, p[2])}
Other(ww, p, b) == IF SB(ww, p[1]) = b THEN SB(ww, p[2]) ELSE SB(ww, p[1])
Asleep(ww, b) == ww.B[b].comp # 0
Quiet(ww, b) == ww.B[b].ty = "S" \/ Asleep(ww, b)
QuietPair(ww, p) == Quiet(ww, SB(ww, p[1])) /\ Quiet(ww, SB(ww, p[2]))
Threaded(ww, b) == { p \in DOMAIN ww.A : ww.A[p].thr /\ b \in PairB(ww, p) }
Pair(s, t) == IF s < t THEN <<s, t>> ELSE <<t, s>>
Awake(ww, b) == ww.B[b].ty = "D" /\ ww.B[b].in /\ ~Asleep(ww, b)

\* the world as a value: TLC keeps the functions inside a record unevaluated, one within the other
Eval(ww) == [ww EXCEPT !.B = TLCEval(@), !.S = TLCEval(@), !.A = TLCEval(@)]

--------------------------------------------------------------------------------
(* waking up *)
\* the arbiters of bodies that are back in the simulation become current again
Restore(ww, ms) ==
    [ww EXCEPT
       !.B = [b \in DOMAIN @ |-> IF b \in ms THEN [@[b] EXCEPT !.ro = FALSE] ELSE @[b]],
       !.A = [p \in DOMAIN @ |->
                IF @[p].sv /\ PairB(ww, p) \cap ms # {}
                THEN [@[p] EXCEPT !.sv = FALSE, !.act = TRUE, !.stamp = ww.stamp, !.st = IF @ = "first" THEN "normal" ELSE @]
                ELSE @[p]]]

\* wake a whole component; while the space is locked only the bodies' state changes
\* and the rest is done when it is unlocked
Unsleep(ww, comp) ==
    LET ms == TLCEval({ b \in Bodies(ww) : ww.B[b].comp = comp })
        w1 == Eval([ww EXCEPT
                 !.A = [p \in DOMAIN @ |->
                          IF ~@[p].sv /\ @[p].st # "cached" /\ QuietPair(ww, p) /\ PairB(ww, p) \cap ms # {}
                          THEN [@[p] EXCEPT !.stamp = ww.stamp] ELSE @[p]],
                 !.B = [b \in DOMAIN @ |->
                          IF b \in ms THEN [@[b] EXCEPT !.comp = 0, !.idle = 0, !.ro = TRUE] ELSE @[b]]])
    IN IF ww.lock = 0 THEN Restore(w1, ms) ELSE w1

ZeroIdle(ww, bs) ==
    [ww EXCEPT !.B = [b \in DOMAIN @ |->
        IF b \in bs /\ @[b].ty = "D" THEN [@[b] EXCEPT !.idle = 0] ELSE @[b]]]

\* any interaction with a dynamic body
Activate(ww, b) ==
    IF ww.B[b].ty # "D" THEN ww
    ELSE LET w1 == Eval(IF Asleep(ww, b) THEN Unsleep(ww, ww.B[b].comp) ELSE ww)
             near == TLCEval({ Other(w1, p, b) : p \in Threaded(w1, b) })
         IN ZeroIdle(w1, {b} \cup near)

RECURSIVE ActivateAll(_, _)
ActivateAll(ww, bs) ==
    IF bs = {} THEN ww
    ELSE LET b == CHOOSE b \in bs : TRUE IN ActivateAll(Eval(Activate(ww, b)), bs \ {b})

\* whatever touches a static body, or just one shape of it (s # 0)
ActivateStatic(ww, b, s) ==
    ActivateAll(ww, { Other(ww, p, b) : p \in { p \in Threaded(ww, b) : s = 0 \/ s \in {p[1], p[2]} } })

--------------------------------------------------------------------------------
(* operations that are not calls with callbacks *)
NewBody(ww, id, ty, m, x, y, r, mv) ==
    [ww EXCEPT !.B = Put(@, id, [in |-> FALSE, ty |-> ty, m |-> m, x |-> x, y |-> y, r |-> r, mv |-> mv,
                                 vx |-> 0, vy |-> 0, comp |-> 0, idle |-> 0, ro |-> FALSE])]
NewShape(ww, id, rec) == [ww EXCEPT !.S = Put(@, id, rec)]
NewCon(ww, id, a, b, col, cb) ==
    [ww EXCEPT !.C = Put(@, id, [a |-> a, b |-> b, col |-> col, cb |-> cb, in |-> FALSE])]

AddB(ww, b) == [ww EXCEPT !.B[b].in = TRUE]
RmB(ww, b) == [Activate(ww, b) EXCEPT !.B[b].in = FALSE]
PoseOf(ww, b) == << ww.B[b].x, ww.B[b].y, ww.B[b].r >>
CachePose(ww, s) == [ww EXCEPT !.S[s].pose = PoseOf(ww, SB(ww, s))]
AddS(ww, s) == [CachePose(Activate(ww, SB(ww, s)), s) EXCEPT !.S[s].in = TRUE]
AddC(ww, c) == [ActivateAll(Activate(ww, ww.C[c].a), {ww.C[c].b}) EXCEPT !.C[c].in = TRUE]
RmC(ww, c) == [Activate(Activate(ww, ww.C[c].a), ww.C[c].b) EXCEPT !.C[c].in = FALSE]
SetPos(ww, b, x, y) == [Activate(ww, b) EXCEPT !.B[b].x = x, !.B[b].y = y]
SetRot(ww, b, r) == [Activate(ww, b) EXCEPT !.B[b].r = r]
SetVel(ww, b, vx, vy) == [Activate(ww, b) EXCEPT !.B[b].vx = vx, !.B[b].vy = vy]

SetType(ww, b, ty, mv) ==
    LET old == ww.B[b].ty
        w0 == IF old = "S" THEN ActivateStatic(ww, b, 0) ELSE Activate(ww, b)
        w1 == IF old = "S" THEN ActivateAll(w0, UNION { {ww.C[c].a, ww.C[c].b} : c \in { c \in DOMAIN ww.C : ww.C[c].in /\ b \in {ww.C[c].a, ww.C[c].b} } })
              ELSE w0
        w2 == [w1 EXCEPT !.B[b].ty = ty, !.B[b].idle = 0, !.B[b].mv = mv,
                         !.B[b].vx = IF ty = "D" THEN @ ELSE 0, !.B[b].vy = IF ty = "D" THEN @ ELSE 0]
    IN IF old = ty THEN ww ELSE IF ty = "D" THEN Activate(w2, b) ELSE w2

Comps(ww) == { ww.B[b].comp : b \in Bodies(ww) } \ {0}
RECURSIVE UnsleepAll(_, _)
UnsleepAll(ww, cs) == IF cs = {} THEN ww
                      ELSE LET c == CHOOSE c \in cs : TRUE
                               r == CHOOSE b \in Bodies(ww) : ww.B[b].comp = c
                           IN UnsleepAll(Eval(Activate(ww, r)), cs \ {c})
SetGravity(ww, x, y) == UnsleepAll([ww EXCEPT !.gx = x, !.gy = y], Comps(ww))

PostKeys(ww) == { ww.q[i].key : i \in 1..Len(ww.q) }
PostOk(ww, key) == key = 0 \/ key \notin PostKeys(ww)
AddPost(ww, key, id) == IF PostOk(ww, key) THEN [ww EXCEPT !.q = Append(@, [key |-> key, id |-> id])] ELSE ww

--------------------------------------------------------------------------------
(* collision handlers *)
NoWild == [id |-> 0, fl |-> <<0, 0, 0, 0>>]
WildOf(ww, t) == IF \E h \in ww.H.wd : h.t = t
                 THEN LET h == CHOOSE h \in ww.H.wd : h.t = t IN [id |-> h.id, fl |-> h.fl]
                 ELSE NoWild
\* what is looked up for the pair p when it is processed; os are the admissible
\* orders of its shapes in the callbacks
Lookup(ww, p) ==
    LET t1 == ww.S[p[1]].ct
        t2 == ww.S[p[2]].ct
        c == { h \in ww.H.pr : (h.t1 = t1 /\ h.t2 = t2) \/ (h.t1 = t2 /\ h.t2 = t1) }
        ws == << WildOf(ww, t1), WildOf(ww, t2) >>
    IN IF c # {}
       THEN LET h == CHOOSE h \in c : TRUE IN
            [k |-> "pair", id |-> h.id, fl |-> h.fl, ws |-> ws,
             os |-> { o \in {<<1, 2>>, <<2, 1>>} :
                        << <<t1, t2>>[o[1]], <<t1, t2>>[o[2]] >> = <<h.t1, h.t2>> }]
       ELSE [k |-> IF ww.H.wd # {} THEN "wild" ELSE "none", id |-> 0, fl |-> <<0, 0, 0, 0>>,
             ws |-> ws, os |-> {<<1, 2>>, <<2, 1>>}]

\* the calls a handler function makes, as sequences of [h, s1, s2]
WCall(wh, fn, s1, s2) == IF wh.id # 0 /\ wh.fl[fn] = 1 THEN << [h |-> wh.id, s1 |-> s1, s2 |-> s2] >> ELSE <<>>
Prog(p, h, fn, o) ==
    LET s1 == p[o[1]]
        s2 == p[o[2]]
        wc == WCall(h.ws[o[1]], fn, s1, s2) \o WCall(h.ws[o[2]], fn, s2, s1)
        own == << [h |-> h.id, s1 |-> s1, s2 |-> s2] >>
    IN CASE h.k = "none" -> <<>>
         [] h.k = "wild" -> wc
         [] h.k = "pair" -> CASE h.fl[fn] = 0 -> wc [] h.fl[fn] = 1 -> own [] OTHER -> wc \o own
Progs(p, h, fn) == { Prog(p, h, fn, o) : o \in h.os }
Silent(p, h, fn) == Progs(p, h, fn) = {<<>>}
\* the value of a handler function from the values rs its calls returned
Result(h, fn, rs) ==
    IF h.k = "pair" /\ h.fl[fn] # 0 THEN rs[Len(rs)]
    ELSE \A i \in 1..Len(rs) : rs[i]

--------------------------------------------------------------------------------
(* which pairs collide *)
InDyn(ww, s) == LET b == ww.B[SB(ww, s)] IN b.ty = "K" \/ (b.ty = "D" /\ b.comp = 0 /\ ~b.ro)
FilterReject(f, g) == \/ f[1] # 0 /\ f[1] = g[1]
                      \/ \A i \in 1..Len(f[2]) : f[2][i] = 0 \/ g[3][i] = 0
                      \/ \A i \in 1..Len(f[2]) : g[2][i] = 0 \/ f[3][i] = 0
JointReject(ww, a, b) == \E c \in DOMAIN ww.C : ww.C[c].in /\ ~ww.C[c].col /\ {ww.C[c].a, ww.C[c].b} = {a, b}
SCore(ww, s) == Core(ww.S[s].v, ww.S[s].pose)
SBox(ww, s) == BBox(SCore(ww, s), ww.S[s].r)
Candidates(ww) ==
    { p \in { <<s, t>> \in (DOMAIN ww.S) \X (DOMAIN ww.S) : s < t } :
        /\ ww.S[p[1]].in /\ ww.S[p[2]].in
        /\ InDyn(ww, p[1]) \/ InDyn(ww, p[2])
        /\ SB(ww, p[1]) # SB(ww, p[2])
        /\ ~FilterReject(ww.S[p[1]].f, ww.S[p[2]].f)
        /\ ~JointReject(ww, SB(ww, p[1]), SB(ww, p[2])) }
Touch(ww, p) == Overlap(SCore(ww, p[1]), ww.S[p[1]].r, SCore(ww, p[2]), ww.S[p[2]].r)
IsSensor(ww, p) == ww.S[p[1]].sen \/ ww.S[p[2]].sen
BothInf(ww, p) == ww.B[SB(ww, p[1])].ty # "D" /\ ww.B[SB(ww, p[2])].ty # "D"

--------------------------------------------------------------------------------
(* frames of the call stack *)
NoCur == [p |-> <<>>, fn |-> 0, prog |-> <<>>, rs |-> <<>>, st |-> ""]
Frame(k, ph, must, may, x) == [k |-> k, ph |-> ph, must |-> must, may |-> may, cur |-> NoCur, x |-> x]
NoFrame == Frame("none", "none", {}, {}, <<>>)
Top == IF K = <<>> THEN NoFrame ELSE K[Len(K)]
Base == SubSeq(K, 1, Len(K) - 1)
SetTop(f) == Append(Base, f)
Idle == K = <<>>

--------------------------------------------------------------------------------
(* a step: begin *)
StepBegin(ww, dt) ==
    LET A1 == [p \in DOMAIN ww.A |->
                 IF ww.A[p].act
                 THEN [ww.A[p] EXCEPT !.st = "normal", !.act = FALSE,
                        !.thr = @ /\ (Asleep(ww, SB(ww, p[1])) \/ Asleep(ww, SB(ww, p[2])))]
                 ELSE ww.A[p]]
        B1 == [b \in DOMAIN ww.B |->
                 IF ww.B[b].mv /\ ww.B[b].in /\ ww.B[b].ty # "S" /\ ~Asleep(ww, b)
                 THEN [ww.B[b] EXCEPT !.x = @ + dt * ww.B[b].vx, !.y = @ + dt * ww.B[b].vy]
                 ELSE ww.B[b]]
        w1 == Eval([ww EXCEPT !.stamp = @ + 1, !.lock = 1, !.A = A1, !.B = B1])
    IN [w1 EXCEPT !.S = [s \in DOMAIN @ |->
            IF @[s].in /\ InDyn(w1, s) THEN [@[s] EXCEPT !.pose = PoseOf(w1, w1.S[s].b)] ELSE @[s]]]
StepFrame(ww, dt, ke) ==
    LET T == TLCEval([p \in Candidates(ww) |-> IF ww.real THEN 2 ELSE Touch(ww, p)])
    IN Frame("step", "collide", { p \in DOMAIN T : T[p] = 1 }, { p \in DOMAIN T : T[p] = 2 },
             [dt |-> dt, ke |-> ke, q0 |-> {}, cons |-> {}])

(* a step: one colliding pair.  fn 1 begin, 2 preSolve, 3 postSolve, 4 separate *)
NewArb == [st |-> "first", stamp |-> 0, ud |-> 0, thr |-> FALSE, act |-> FALSE, sv |-> FALSE, h |-> [k |-> "none"], dm |-> FALSE]
Update(ww, p) ==
    LET a == IF p \in DOMAIN ww.A THEN ww.A[p] ELSE NewArb
    IN [ww EXCEPT !.A = Put(@, p, [a EXCEPT !.st = IF @ = "cached" THEN "first" ELSE @, !.h = Lookup(ww, p)])]
\* the pair is done: it is solved (act) unless rejected
Finish(ww, p, pre) ==
    LET a == ww.A[p]
        ok == a.st # "ignore" /\ pre /\ ~IsSensor(ww, p) /\ ~BothInf(ww, p)
    IN [ww EXCEPT !.A[p] = [a EXCEPT !.act = ok, !.stamp = ww.stamp,
                               !.st = IF ok \/ @ = "ignore" THEN @ ELSE "normal"]]
Ignore(ww, p) == [ww EXCEPT !.A[p].st = "ignore"]
\* go on with pair p at function fn until a callback is due (cur) or the pair is done (NoCur)
\* result is a set of <<world, cur>>: one per admissible order of the shapes
RECURSIVE Go(_, _, _)
Go(ww, p, fn) ==
    LET a == ww.A[p] IN
    IF fn = 1 /\ a.st # "first" THEN Go(ww, p, 2)
    ELSE IF fn = 2 /\ a.st = "ignore" THEN { <<Finish(ww, p, FALSE), NoCur>> }
    ELSE UNION { IF g = <<>>
                 THEN IF fn = 1 THEN Go(ww, p, 2) ELSE { <<Finish(ww, p, TRUE), NoCur>> }
                 ELSE { <<ww, [p |-> p, fn |-> fn, prog |-> g, rs |-> <<>>, st |-> "due"]>> }
               : g \in Progs(p, a.h, fn) }
\* no callback at all for this pair
QuietWork(ww, p) ==
    LET w1 == Update(ww, p)
        a == w1.A[p]
    IN /\ a.st = "first" => Silent(p, a.h, 1)
       /\ a.st = "ignore" \/ Silent(p, a.h, 2)
RECURSIVE QuietAll(_, _)
QuietAll(ww, ps) ==
    IF ps = {} THEN ww
    ELSE LET p == CHOOSE p \in ps : TRUE
             w1 == Eval(Update(ww, p))
         IN QuietAll(Eval(Finish(w1, p, TRUE)), ps \ {p})

(* a step: contact graph, idle times and sleeping *)
ConOn(ww, c) == LET r == ww.C[c] IN
    r.in /\ \A b \in {r.a, r.b} : ~Asleep(ww, b) /\ ~ww.B[b].ro
Thr1000(ww, dt) == \* speed^2 below which a body is idle, times 1000
    1000 * (IF ww.isp # 0 THEN ww.isp * ww.isp ELSE (ww.gx * ww.gx + ww.gy * ww.gy) * dt * dt)
\* 0 idle, 1 moving, 2 cannot be told from the rounded kinetic energy
Moving(ww, b, x) ==
    LET ke == x.ke[b]
        t == ww.B[b].m * Thr1000(ww, x.dt)
    IN IF ke[2] = 1 THEN (IF ke[1] > t THEN 1 ELSE 0)
       ELSE IF ke[1] > t + 1 THEN 1 ELSE IF ke[1] < t - 1 THEN 0 ELSE 2
Movers(ww) == { b \in Bodies(ww) : Awake(ww, b) }

RECURSIVE Flood(_, _, _)
Flood(E, seen, front) ==
    IF front = {} THEN seen
    ELSE LET nxt == { e[2] : e \in { e \in E : e[1] \in front } } \ (seen \cup front)
         IN Flood(E, seen \cup front, nxt)

\* still: bodies taken as idle among the undecided ones; zero: the further neighbours of
\* woken bodies whose idle time is reset, which depends on the order of the pairs
Process(ww, x, still, zero) ==
    LET on == ww.slp >= 0
        w1 == Eval(IF ~on THEN ww ELSE
              [ww EXCEPT !.B = [b \in DOMAIN @ |->
                 IF b \in Movers(ww)
                 THEN [@[b] EXCEPT !.idle =
                        IF Moving(ww, b, x) = 1 \/ (Moving(ww, b, x) = 2 /\ b \notin still) THEN 0 ELSE @ + x.dt]
                 ELSE @[b]]])
        acts == TLCEval({ p \in DOMAIN ww.A : ww.A[p].act })
        hot(b, o) == ww.B[b].ty = "D" /\ (ww.B[o].ty = "K" \/ Asleep(ww, b))
        hit == IF on THEN { b \in UNION { PairB(ww, p) : p \in acts } :
                              \E p \in acts : b \in PairB(ww, p) /\ hot(b, Other(ww, p, b)) } ELSE {}
        w2 == Eval(ZeroIdle(ActivateAll(w1, hit), zero))
        w3 == Eval([w2 EXCEPT !.A = [p \in DOMAIN @ |-> IF p \in acts THEN [@[p] EXCEPT !.thr = TRUE] ELSE @[p]]])
        jk == IF on THEN { b \in Bodies(w3) : \E c \in DOMAIN w3.C : ConOn(w3, c) /\ b \in {w3.C[c].a, w3.C[c].b}
                              /\ \E o \in {w3.C[c].a, w3.C[c].b} : o # b /\ w3.B[o].ty = "K" } ELSE {}
        w4 == Eval(ActivateAll(w3, jk))
        Ds == Movers(w4)
        E == TLCEval({ <<a, b>> \in Ds \X Ds : a # b /\
                 \/ \E p \in DOMAIN w4.A : w4.A[p].thr /\ PairB(w4, p) = {a, b}
                 \/ \E c \in DOMAIN w4.C : w4.C[c].in /\ {w4.C[c].a, w4.C[c].b} = {a, b} })
        compOf == TLCEval([b \in Ds |-> Flood(E, {}, {b})])
        sleepers == TLCEval({ b \in Ds : \A o \in compOf[b] : w4.B[o].idle >= w4.slp })
        least(s) == CHOOSE i \in s : \A j \in s : i <= j
    IN IF ~on THEN w3
       ELSE [w4 EXCEPT
              !.B = [b \in DOMAIN @ |-> IF b \in sleepers THEN [@[b] EXCEPT !.comp = least(compOf[b])] ELSE @[b]],
              !.A = [p \in DOMAIN @ |-> IF @[p].thr /\ PairB(w4, p) \cap sleepers # {}
                                        THEN [@[p] EXCEPT !.sv = TRUE, !.act = FALSE] ELSE @[p]]]
\* bodies next to a woken one
MayZero(ww) ==
    IF ww.slp < 0 THEN {} ELSE
    LET acts == { p \in DOMAIN ww.A : ww.A[p].act }
        hot(b, o) == ww.B[b].ty = "D" /\ (ww.B[o].ty = "K" \/ Asleep(ww, b))
        hit == { b \in UNION { PairB(ww, p) : p \in acts } :
                   \E p \in acts : b \in PairB(ww, p) /\ hot(b, Other(ww, p, b)) }
    IN { b \in Bodies(ww) : ww.B[b].ty = "D" /\ ~Asleep(ww, b) /\ b \notin hit
           /\ \E p \in acts : b \in PairB(ww, p) /\ Other(ww, p, b) \in hit }

\* leave the first locked section of a step
Unlocked(ww) == \* what is pending is done when the last lock is released
    IF ww.lock > 1 THEN [ww EXCEPT !.lock = @ - 1]
    ELSE LET w1 == [ww EXCEPT !.lock = 0] IN Eval(Restore(w1, TLCEval({ b \in Bodies(w1) : w1.B[b].ro })))

(* a step: pairs that stopped touching *)
Ended(ww) == { p \in DOMAIN ww.A : ~ww.A[p].sv /\ ~QuietPair(ww, p) /\ ww.A[p].st # "cached"
                                   /\ ww.stamp - ww.A[p].stamp >= 1 }
QuietSet(ww) == { p \in DOMAIN ww.A : ~ww.A[p].sv /\ QuietPair(ww, p) }
Expire(ww, q0) ==
    LET old == { p \in DOMAIN ww.A : ~ww.A[p].sv /\ ~QuietPair(ww, p) /\ ww.stamp - ww.A[p].stamp >= Persist }
        w1 == [ww EXCEPT !.A = [p \in DOMAIN @ |-> IF p \in old \cap q0 THEN [@[p] EXCEPT !.dm = TRUE] ELSE @[p]]]
    IN [w1 EXCEPT !.A = Drop(@, old \ q0)]
ConCb(ww, k) == { c \in DOMAIN ww.C : ConOn(ww, c) /\ ww.C[c].cb[k] = 1 }

--------------------------------------------------------------------------------
(* Advance: deterministic internal progress of the call on top of the stack once *)
(* no callback of its current phase is outstanding                               *)
QuietPend(ps) == Holds(\A p \in ps : QuietWork(w, p))

\* so many pairs are exactly tangent that the alternatives cannot be explored
TooMany(may) == Holds(Cardinality(may) > 5 \/ w.ties + Cardinality(may) > 10)
GivesUp == Top.k = "step" /\ Top.ph = "collide" /\ Top.cur = NoCur /\ QuietPend(Top.must)
           /\ TooMany({ p \in Top.may : QuietWork(w, p) })

AdvCollide ==
    /\ Top.k = "step" /\ Top.ph = "collide" /\ Top.cur = NoCur
    /\ QuietPend(Top.must)
    /\ LET may == { p \in Top.may : QuietWork(w, p) } IN
       /\ ~TooMany(may)
       /\ \E quiet \in SUBSET may :
           LET w1 == Eval(Unlocked(QuietAll([w EXCEPT !.ties = @ + Cardinality(may)], Top.must \cup quiet))) IN
           \E still \in SUBSET { b \in Movers(w1) : w1.slp >= 0 /\ Moving(w1, b, Top.x) = 2 } :
           \E zero \in SUBSET MayZero(w1) :
             LET w2 == Eval([Process(w1, Top.x, still, zero) EXCEPT !.lock = 1]) IN
             /\ w' = w2
             /\ K' = SetTop([Top EXCEPT !.ph = "filter", !.must = Ended(w2), !.may = {}, !.x.q0 = QuietSet(w2)])

\* separations without a callback
AdvFilter ==
    /\ Top.k = "step" /\ Top.ph = "filter" /\ Top.cur = NoCur
    /\ \A p \in Top.must : Silent(p, w.A[p].h, 4)
    /\ LET w1 == [w EXCEPT !.A = [p \in DOMAIN @ |-> IF p \in Top.must THEN [@[p] EXCEPT !.st = "cached"] ELSE @[p]]]
           w2 == Expire(w1, Top.x.q0)
       IN /\ w' = w2
          /\ K' = SetTop([Top EXCEPT !.ph = "cpre", !.must = ConCb(w2, 1), !.x.cons = ConCb(w2, 2)])
AdvCPre ==
    /\ Top.k = "step" /\ Top.ph = "cpre" /\ Top.must = {}
    /\ K' = SetTop([Top EXCEPT !.ph = "cpost", !.must = Top.x.cons])
    /\ UNCHANGED w
AdvCPost ==
    /\ Top.k = "step" /\ Top.ph = "cpost" /\ Top.must = {}
    /\ K' = SetTop([Top EXCEPT !.ph = "psolve", !.must = { p \in DOMAIN w.A : w.A[p].act /\ ~Silent(p, w.A[p].h, 3) }])
    /\ UNCHANGED w

\* the end of any locked call: post-step callbacks run when the last lock is gone
\* (and not when they are already being run)
Close ==
    /\ \/ Top.k = "step" /\ Top.ph = "psolve" /\ Top.cur = NoCur /\ Top.must = {}
       \/ Top.k \in {"each", "rms"} /\ Top.ph = "vis" /\ Top.cur = NoCur /\ Top.must = {}
    /\ LET w1 == Unlocked(w) IN
       IF w1.lock = 0 /\ ~w1.skip
       THEN /\ w' = [w1 EXCEPT !.skip = TRUE]
            /\ K' = SetTop([Top EXCEPT !.ph = "drain"])
       ELSE /\ w' = w1
            /\ K' = SetTop([Top EXCEPT !.ph = "done"])
CloseFree == \* iterations over a body, which do not lock
    /\ Top.k = "free" /\ Top.ph = "vis" /\ Top.must = {}
    /\ K' = SetTop([Top EXCEPT !.ph = "done"])
    /\ UNCHANGED w
Drained ==
    /\ Top.ph = "drain" /\ w.q = <<>>
    /\ w' = [w EXCEPT !.skip = FALSE]
    /\ K' = SetTop([Top EXCEPT !.ph = "done"])
Advance == /\ K # <<>>
           /\ Top.k \in {"step", "each", "rms", "free"}
           /\ AdvCollide \/ AdvFilter \/ AdvCPre \/ AdvCPost \/ Close \/ CloseFree \/ Drained

--------------------------------------------------------------------------------
(* callbacks: call.  c is the call [h, s1, s2] *)
CallBegins(p, fn) == \* a callback of pair p is made now
    \/ /\ Top.k = "step" /\ Top.ph = "collide" /\ Top.cur = NoCur /\ fn \in {1, 2}
       /\ p \in Top.must \cup Top.may
    \/ /\ Top.k = "step" /\ Top.ph = "filter" /\ Top.cur = NoCur /\ fn = 4 /\ p \in Top.must
    \/ /\ Top.k = "step" /\ Top.ph = "psolve" /\ Top.cur = NoCur /\ fn = 3 /\ p \in Top.must
    \/ /\ Top.k = "rms" /\ Top.ph = "vis" /\ Top.cur = NoCur /\ fn = 4 /\ p \in Top.must
\* <<world, cur>> with a due call, after starting pair p
Starts(p, fn) ==
    IF fn \in {1, 2} THEN Go(Update(w, p), p, 1)
    ELSE LET w1 == IF fn = 4 THEN [w EXCEPT !.A[p].st = IF Top.k = "rms" THEN "gone" ELSE "cached"] ELSE w
         IN { <<w1, [p |-> p, fn |-> fn, prog |-> g, rs |-> <<>>, st |-> "due"]>> : g \in Progs(p, w.A[p].h, fn) }
Called(ww, cur) == \* the due call is made: a callback frame on top
    /\ w' = ww
    /\ K' = Append(SetTop([Top EXCEPT !.must = @ \ {cur.p}, !.may = @ \ {cur.p}, !.cur = [cur EXCEPT !.st = "in"]]),
                   Frame("cb", "in", {}, {}, [p |-> cur.p]))
CallDue(ww, cur, fn, c) == cur.st = "due" /\ cur.fn = fn /\ cur.prog # <<>> /\ Head(cur.prog) = c
\* user data: kept as long as the pair's arbiter lives, which is at least as long as the
\* pair touches or is within the persistence window
UdOk(a, ud) == Holds(ud = a.ud \/ (a.dm /\ ud = 0))
Tag(ww, p, ud, nud) == [ww EXCEPT !.A[p].ud = IF ud = 0 THEN nud ELSE ud, !.A[p].dm = FALSE]
PairCall(fn, c, ud, nud) ==
    LET p == Pair(c.s1, c.s2) IN
    \/ /\ Top.cur # NoCur /\ Top.cur.p = p
       /\ CallDue(w, Top.cur, fn, c)
       /\ UdOk(w.A[p], ud)
       /\ Called(Tag(w, p, ud, nud), Top.cur)
    \/ /\ CallBegins(p, fn)
       /\ \E s \in Starts(p, fn) :
            /\ CallDue(s[1], s[2], fn, c)
            /\ UdOk(s[1].A[p], ud)
            /\ Called(Tag(s[1], p, ud, nud), s[2])
IsFirst(p) == w.A[p].st = "first"
HasPoints(p) == w.A[p].st \in {"first", "normal", "ignore"}

(* callbacks: return *)
Under == K[Len(K) - 1]
SetUnder(f) == Append(SubSeq(K, 1, Len(K) - 2), f)
\* v is the returned value; ign whether arb.Ignore() was called before returning
PairReturn(v, ign) ==
    /\ Top.k = "cb"
    /\ LET cur == Under.cur
           c1 == [cur EXCEPT !.prog = Tail(@), !.rs = Append(@, v), !.st = "due"]
           p == cur.p
           w1 == IF ign THEN Ignore(w, p) ELSE w
           a == w.A[p]
           res == Result(a.h, cur.fn, c1.rs)
           out(ww, cc) == /\ w' = ww
                          /\ K' = SetUnder([Under EXCEPT !.cur = cc])
       IN IF c1.prog # <<>> THEN out(w1, c1)
          ELSE CASE cur.fn = 1 -> \E s \in Go(IF res THEN w1 ELSE Ignore(w1, p), p, 2) : out(s[1], s[2])
                 [] cur.fn = 2 -> out(Finish(w1, p, res), NoCur)
                 [] OTHER -> out(w1, NoCur)

(* constraint callbacks *)
ConCall(k, c) ==
    /\ Top.k = "step" /\ Top.ph = (IF k = 1 THEN "cpre" ELSE "cpost") /\ c \in Top.must
    /\ K' = Append(SetTop([Top EXCEPT !.must = @ \ {c}]), Frame("user", "in", {}, {}, [p |-> <<>>]))
    /\ UNCHANGED w
(* a post-step callback *)
RunCall(id, key) ==
    /\ Top.ph = "drain" /\ w.q # <<>> /\ Head(w.q).id = id /\ Head(w.q).key = key
    /\ w' = [w EXCEPT !.q = Tail(@)]
    /\ K' = Append(K, Frame("user", "in", {}, {}, [p |-> <<>>]))
(* a visit of an iteration or query *)
VisitX(v, x) ==
    /\ Top.k \in {"each", "free"} /\ Top.ph = "vis" /\ v \in Top.must \cup Top.may
    /\ K' = Append(SetTop([Top EXCEPT !.must = @ \ {v}, !.may = @ \ {v}, !.x = x]), Frame("user", "in", {}, {}, [p |-> <<>>]))
    /\ UNCHANGED w
VisitCall(v) == VisitX(v, Top.x)
UserReturn == Top.k = "user" /\ K' = Base /\ UNCHANGED w

(* calls with callbacks *)
InUser == Top.k \in {"none", "cb", "user"}     \* user code is running
StepCall(dt, ke) ==
    /\ w.lock = 0 /\ InUser
    /\ LET w1 == Eval(StepBegin(w, dt)) IN
       /\ w' = w1
       /\ K' = Append(K, StepFrame(w1, dt, ke))
RmSCall(s) ==
    /\ w.lock = 0 /\ InUser /\ w.S[s].in
    /\ LET b == SB(w, s)
           w1 == Eval(IF w.B[b].ty = "S" THEN ActivateStatic(w, b, s) ELSE Activate(w, b))
           mine == { p \in DOMAIN w1.A : s \in {p[1], p[2]} /\ ~w1.A[p].sv }
           live == { p \in mine : w1.A[p].st # "cached" }
           loud == { p \in live : ~Silent(p, w1.A[p].h, 4) }
       IN /\ w' = [w1 EXCEPT !.lock = 1, !.S[s].in = FALSE]
          /\ K' = Append(K, Frame("rms", "vis", loud, {}, [s |-> s]))
EachCall(k, vs, may) ==
    /\ InUser
    /\ IF k \in {"bS", "bC", "bA"}
       THEN /\ w' = w /\ K' = Append(K, Frame("free", "vis", vs, may, <<>>))
       ELSE /\ w' = [w EXCEPT !.lock = @ + 1] /\ K' = Append(K, Frame("each", "vis", vs, may, <<>>))
\* a query with an outcome: x.hit says whether it is true so far
QueryCall(ww, vs, may, x) ==
    /\ InUser
    /\ w' = [ww EXCEPT !.lock = @ + 1]
    /\ K' = Append(K, Frame("each", "vis", vs, may, x))
CallEnd == \* the call on top returns
    /\ K # <<>> /\ Top.ph = "done"
    /\ w' = IF Top.k = "rms"
            THEN [w EXCEPT !.A = Drop(@, { p \in DOMAIN @ : Top.x.s \in {p[1], p[2]} })]
            ELSE w
    /\ K' = Base

\* what an iteration visits
EachSet(ww, k, id) ==
    CASE k = "B" -> { b \in Bodies(ww) : ww.B[b].in /\ b # 0 }
      [] k = "S" -> { s \in DOMAIN ww.S : ww.S[s].in }
      [] k = "C" -> { c \in DOMAIN ww.C : ConOn(ww, c) }
      [] k = "bS" -> { s \in DOMAIN ww.S : ww.S[s].in /\ SB(ww, s) = id }
      [] k = "bC" -> { c \in DOMAIN ww.C : ww.C[c].in /\ id \in {ww.C[c].a, ww.C[c].b} }
      [] k = "bA" -> { <<IF SB(ww, p[1]) = id THEN p[1] ELSE p[2], IF SB(ww, p[1]) = id THEN p[2] ELSE p[1]>>
                        : p \in Threaded(ww, id) }
Eligible(ww, f) == { s \in DOMAIN ww.S : ww.S[s].in /\ ~FilterReject(ww.S[s].f, f) }
\* boxes that touch meet; only the boxes of turned shapes are known no better than to rounding
QueryHits(ww, bb, f) ==
    [ s \in Eligible(ww, f) |-> IF ww.S[s].pose[3] = 0 /\ BBHit(SBox(ww, s), bb) THEN 1 ELSE BBMeets(SBox(ww, s), bb) ]
\* shapes overlapping the core P with radius r
CoreHits(ww, P, r, f) ==
    [ s \in Eligible(ww, f) |-> Overlap(SCore(ww, s), ww.S[s].r, P, r) ]
=============================================================================
