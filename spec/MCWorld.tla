------------------------------- MODULE MCWorld --------------------------------
(* Small programs that use a space: everything CpWorld allows them to do and   *)
(* see is explored, and what the properties promise their user is checked on   *)
(* the way (Sound).  Every program that leads to a new step of the exploration *)
(* can be printed as a scenario, which the harness replays on the library.     *)
EXTENDS CpWorld, Json

CONSTANTS Scene,  \* the set of bodies and of operations
          Max,    \* operations after the scene is built
          Every,  \* one of how many histories is printed, 0 for none
          Seed,   \* which of them
          Diverse \* how many histories leading to the same state are told apart

VARIABLES hist, \* operations so far
          beh,  \* what the callbacks did, other than the usual
          cnt,  \* calls so far of every callback
          bs,   \* what the callbacks in progress still do
          g,    \* what the user has seen
          hsh   \* of the history
vars == <<w, K, hist, beh, cnt, bs, g, hsh>>

--------------------------------------------------------------------------------
(* operations, as the harness knows them *)
B_(id, k, x, m) == << [o |-> "body", id |-> id, k |-> k, x |-> x, y |-> 0, m |-> m], [o |-> "addB", id |-> id] >>
S_(id, b, ct) == << [o |-> "shape", id |-> id, b |-> b, k |-> "c", v |-> <<<<0, 0>>>>, r |-> 5, t1 |-> ct], [o |-> "addS", id |-> id] >>
W_(id, t, fl) == << [o |-> "hw", id |-> id, t1 |-> t, fl |-> fl] >>
Each(k, id, ops) == [o |-> "each", k |-> k, id |-> id, bb |-> <<-60, -60, 60, 60>>,
                     beh |-> << [fn |-> 0, n |-> 0, ret |-> 1, ign |-> 0, ops |-> ops] >>]
H_(id, t1, t2, fl) == << [o |-> "hp", id |-> id, t1 |-> t1, t2 |-> t2, fl |-> fl] >>
C_(id, a, b, nocol, fl) == << [o |-> "con", id |-> id, k |-> "pivot", a |-> a, b |-> b, n |-> nocol, fl |-> fl] >>
Act(o, id) == [o |-> o, id |-> id]
Pos(id, x) == [o |-> "setPos", id |-> id, x |-> x, y |-> 0]
Vel(id, x) == [o |-> "setVel", id |-> id, x |-> x, y |-> 0]
Type(id, k) == [o |-> "setType", id |-> id, k |-> k]
Sen(id, x) == [o |-> "setSen", id |-> id, n |-> x]
Step1 == [o |-> "step", n |-> 1]
Touch_(id) == [o |-> "touch", id |-> id, name |-> "activate"]
Col(id, x) == [o |-> "touchC", id |-> id, n |-> x, name |-> "col"]
Grav(y) == [o |-> "grav", x |-> 0, y |-> y]
Post(key, id, ops) == [o |-> "post", n |-> key, id |-> id, ops |-> ops]
Full == <<1, 1, 1, 1>>
Norm == [fn |-> 0, n |-> 0, ret |-> 1, ign |-> 0, ops |-> <<>>]

Prefix ==
    CASE Scene = "pair" -> H_(11, 1, 2, Full) \o B_(1, "D", 0, 1) \o B_(2, "D", 6, 1) \o S_(1, 1, 1) \o S_(2, 2, 2)
      [] Scene = "three" -> H_(11, 1, 2, Full) \o H_(12, 3, 2, <<1, 2, 0, 1>>)
                            \o B_(1, "D", 0, 1) \o B_(2, "D", 6, 1) \o B_(3, "K", 12, 0)
                            \o S_(1, 1, 1) \o S_(2, 2, 2) \o S_(3, 3, 3)
      [] Scene = "sleep" -> H_(11, 1, 2, Full) \o H_(12, 2, 3, Full)
                            \o B_(1, "D", 0, 1) \o B_(2, "D", 6, 1) \o B_(3, "D", 12, 1)
                            \o S_(1, 1, 1) \o S_(2, 2, 2) \o S_(3, 3, 3) \o C_(1, 1, 3, 0, <<1, 1>>)
      [] Scene = "ground" -> H_(11, 1, 2, Full) \o H_(12, 2, 3, Full)
                            \o B_(1, "D", 0, 1) \o B_(2, "D", 6, 1) \o B_(3, "S", 12, 0)
                            \o S_(1, 1, 1) \o S_(2, 2, 2) \o S_(3, 3, 3)
      [] Scene = "types" -> H_(11, 1, 2, Full) \o B_(1, "D", 0, 1) \o B_(2, "D", 6, 1)
                            \o S_(1, 1, 1) \o S_(2, 2, 2) \o C_(1, 1, 2, 1, <<1, 0>>)
      [] Scene = "post" -> H_(11, 1, 2, Full) \o B_(1, "D", 0, 1) \o B_(2, "D", 6, 1) \o S_(1, 1, 1) \o S_(2, 2, 2)
      [] Scene = "wild" -> H_(11, 2, 1, <<0, 2, 1, 0>>) \o W_(21, 1, Full) \o W_(22, 2, <<1, 1, 0, 1>>)
                           \o B_(1, "D", 0, 1) \o B_(2, "D", 6, 1) \o S_(1, 1, 1) \o S_(2, 2, 2) \o S_(3, 2, 3)
      [] Scene = "iter" -> H_(11, 1, 2, Full) \o B_(1, "D", 0, 1) \o B_(2, "D", 6, 1) \o S_(1, 1, 1) \o S_(2, 2, 2) \o S_(4, 1, 3)
                           \o C_(1, 1, 2, 0, <<0, 0>>)
Ghosts == Scene \in {"pair", "wild", "three"}
Slp == CASE Scene \in {"pair", "three", "wild"} -> -1 [] OTHER -> 1
Gy == 0
Isp == 1

\* what the program may do next
Menu ==
    CASE Scene = "pair" -> << Step1, Pos(2, 6), Pos(2, 40), Act("rmS", 2), Act("addS", 2), Sen(1, 1), Sen(1, 0) >>
      [] Scene = "three" -> << Step1, Pos(2, 6), Pos(2, 40), Act("rmS", 2), Act("addS", 2), Act("rmS", 3), Act("addS", 3), Vel(3, 12), Vel(3, 0) >>
      [] Scene = "sleep" -> << Step1, Pos(2, 6), Pos(2, 40), Touch_(1), Touch_(2), Act("rmS", 2), Act("addS", 2), Act("addC", 1), Act("rmC", 1),
                               Vel(1, 3), Vel(1, 0), Grav(1), Grav(0) >>
      [] Scene = "ground" -> << Step1, Pos(2, 6), Pos(2, 40), Touch_(1), Pos(3, 12), Pos(3, 40), Act("rmS", 3), Act("addS", 3),
                                Type(3, "K"), Type(3, "S"), Type(3, "D"), Vel(2, 3), Vel(2, 0) >>
      [] Scene = "types" -> << Step1, Type(1, "D"), Type(1, "K"), Type(1, "S"), Type(2, "D"), Type(2, "K"), Act("addC", 1), Act("rmC", 1),
                               Col(1, 1), Col(1, 0), Pos(2, 40), Pos(2, 6) >>
      [] Scene = "post" -> << Step1, Pos(2, 6), Pos(2, 40), Act("addS", 2), Act("rmS", 2), Touch_(1) >>
      [] Scene = "wild" -> << Step1, Pos(2, 6), Pos(2, 40), Act("rmS", 3), Act("addS", 3), Act("rmS", 2), Act("addS", 2) >>
      [] Scene = "iter" -> << Step1, Each("B", 0, << Touch_(2) >>), Each("bS", 1, << Act("rmS", 4) >>), Each("bC", 1, << Act("rmC", 1) >>),
                              Each("bb", 0, << Post(1, 1, << Act("rmS", 2), Act("addS", 4) >>) >>), Each("S", 0, << Post(0, 2, << Pos(1, 40), Step1 >>) >>),
                              Each("bA", 2, << Touch_(1) >>), Act("addS", 4), Act("addS", 2), Act("addC", 1), Pos(1, 0) >>
\* what a callback fn of handler h may do
Behs(h, fn) ==
    CASE Scene \in {"pair", "three"} ->
             CASE fn \in {1, 2} -> { Norm, [Norm EXCEPT !.ret = 0], [Norm EXCEPT !.ign = 1] }
               [] OTHER -> { Norm }
      [] Scene = "wild" -> IF fn \in {1, 2} /\ h # 11 THEN { Norm, [Norm EXCEPT !.ret = 0] } ELSE { Norm }
      [] Scene = "iter" -> { Norm }
      [] Scene = "post" ->
             { Norm, [Norm EXCEPT !.ops = << Post(1, 1, << Act("rmS", 2), Act("addS", 2) >>) >>],
                     [Norm EXCEPT !.ops = << Post(1, 1, << Act("rmS", 2) >>), Post(1, 2, << Touch_(1) >>), Post(0, 3, << Pos(2, 40), Step1 >>) >>],
                     [Norm EXCEPT !.ops = << Post(2, 4, << Post(2, 5, << Touch_(2) >>) >>) >>] }
      [] OTHER -> { Norm, [Norm EXCEPT !.ops = << Touch_(2) >>] } \cup (IF fn = 1 THEN { [Norm EXCEPT !.ret = 0] } ELSE {})

--------------------------------------------------------------------------------
AllF == <<0, <<1, 1, 1>>, <<1, 1, 1>>>>
InB(ww, b) == ww.B[b].in
Free == w.lock = 0 \* things may be added and removed
InRms == Holds(\E k \in DOMAIN K : K[k].k = "rms")
\* the type changes that leave no constraint between two bodies of infinite mass
ConOk(ww, b, ty) == \A c \in DOMAIN ww.C : ww.C[c].in /\ b \in {ww.C[c].a, ww.C[c].b} =>
                       ty = "D" \/ \E o \in {ww.C[c].a, ww.C[c].b} \ {b} : ww.B[o].ty = "D"
Legal(o) ==
    CASE o.o = "step" -> w.lock = 0 /\ ~InRms /\ \A b \in Bodies(w) : w.B[b].mv => w.B[b].x + w.B[b].vx \in -40..40
      [] o.o = "addB" -> Free /\ ~InB(w, o.id)
      [] o.o = "rmS" -> Free /\ ~InRms /\ w.S[o.id].in
      [] o.o = "addS" -> Free /\ ~InRms /\ ~w.S[o.id].in /\ InB(w, SB(w, o.id))
      [] o.o = "addC" -> Free /\ ~w.C[o.id].in /\ \E b \in {w.C[o.id].a, w.C[o.id].b} : w.B[b].ty = "D"
      [] o.o = "rmC" -> Free /\ w.C[o.id].in
      [] o.o = "setType" -> Free /\ ~InRms /\ w.B[o.id].ty # o.k /\ ConOk(w, o.id, o.k)
      [] o.o = "setSen" -> w.lock = 0 /\ w.S[o.id].sen # (o.n = 1)
      [] o.o = "setPos" -> w.B[o.id].x # o.x
      [] o.o = "setVel" -> w.B[o.id].ty # "S" /\ w.B[o.id].vx # o.x
      [] o.o = "touchC" -> w.C[o.id].col # (o.n = 1)
      [] o.o = "grav" -> w.gy # o.y
      [] OTHER -> TRUE
\* those that are over at once
Do(ww, o) ==
    CASE o.o = "body" -> NewBody(ww, o.id, o.k, o.m, o.x, o.y, 0, o.k # "D")
      [] o.o = "shape" -> NewShape(ww, o.id, [b |-> o.b, r |-> o.r, v |-> o.v, sen |-> FALSE, ct |-> o.t1, f |-> AllF, in |-> FALSE, pose |-> <<0, 0, 0>>])
      [] o.o = "con" -> NewCon(ww, o.id, o.a, o.b, o.n = 0, o.fl)
      [] o.o = "hp" -> [ww EXCEPT !.H.pr = @ \cup {[t1 |-> o.t1, t2 |-> o.t2, id |-> o.id, fl |-> o.fl]}]
      [] o.o = "hw" -> [ww EXCEPT !.H.wd = @ \cup {[t |-> o.t1, id |-> o.id, fl |-> o.fl]}]
      [] o.o = "addB" -> AddB(ww, o.id)
      [] o.o = "addS" -> AddS(ww, o.id)
      [] o.o = "addC" -> AddC(ww, o.id)
      [] o.o = "rmC" -> RmC(ww, o.id)
      [] o.o = "setPos" -> SetPos(ww, o.id, o.x, o.y)
      [] o.o = "setVel" -> SetVel(ww, o.id, o.x, o.y)
      [] o.o = "setType" -> LET w1 == SetType(ww, o.id, o.k, o.k # "D") IN
                            IF o.k = "D" /\ w1.B[o.id].m = 0 THEN [w1 EXCEPT !.B[o.id].m = 1] ELSE w1
      [] o.o = "setSen" -> [Activate(ww, SB(ww, o.id)) EXCEPT !.S[o.id].sen = (o.n = 1)]
      [] o.o = "touch" -> Activate(ww, o.id)
      [] o.o = "touchC" -> [Activate(Activate(ww, ww.C[o.id].a), ww.C[o.id].b) EXCEPT !.C[o.id].col = (o.n = 1)]
      [] o.o = "grav" -> SetGravity(ww, o.x, o.y)
      [] o.o = "post" -> AddPost(ww, o.n, o.id)
      [] OTHER -> ww
RECURSIVE DoAll(_, _)
DoAll(ww, s) == IF s = <<>> THEN ww ELSE DoAll(Eval(Do(ww, Head(s))), Tail(s))

KE(ww) == [b \in { b \in Bodies(ww) : ww.B[b].ty = "D" } |->
             << 1000 * ww.B[b].m * (ww.B[b].vx * ww.B[b].vx + ww.B[b].vy * ww.B[b].vy), 1 >>]
PostOps(id) == \* what the post-step callback id does
    LET bhs == UNION { Behs(11, fn) : fn \in 1..4 } \cup UNION { { Menu[j].beh[1] : j \in { j \in DOMAIN Menu : Menu[j].o = "each" } } }
        all == UNION { { bh.ops[j] : j \in DOMAIN bh.ops } : bh \in bhs }
        in == UNION { { o.ops[j] : j \in DOMAIN o.ops } : o \in { o \in all : o.o = "post" } }
    IN (CHOOSE o \in { o \in all \cup in : o.o = "post" } : o.id = id).ops

--------------------------------------------------------------------------------
(* what the user sees: the contacts open, those silenced, those let through in  *)
(* this step, the post-step callbacks pending; bad collects broken promises     *)
Mark(gg, why, ok) == IF ok THEN gg ELSE [gg EXCEPT !.bad = @ \cup {why}]
Wakes(o) == \* bodies an operation acts on
    CASE o.o \in {"setPos", "setVel", "touch"} -> {o.id}
      [] o.o \in {"addS", "rmS", "setSen"} -> {SB(w, o.id)}
      [] o.o \in {"addC", "rmC", "touchC"} -> {w.C[o.id].a, w.C[o.id].b}
      [] o.o = "setType" -> {o.id}
      [] o.o = "grav" -> Bodies(w)
      [] OTHER -> {}
\* acting on a body wakes everything it slept with
Woken(gg, o, ww) ==
    LET cs == { w.B[b].comp : b \in { b \in Wakes(o) : w.B[b].ty = "D" } } \ {0} IN
    Mark(gg, "C11", \A b \in Bodies(w) : w.B[b].comp \in cs => ww.B[b].comp = 0)
Seen(gg, fn, p, a, ret, ign) ==
    CASE fn = 1 -> LET g1 == Mark(gg, "begin", p \notin gg.open) IN
                   [g1 EXCEPT !.open = @ \cup {p}, !.new = @ \cup {p}, !.ign = IF ret = 0 \/ ign = 1 THEN @ \cup {p} ELSE @ \ {p}]
      [] fn = 2 -> LET g1 == Mark(Mark(gg, "preSolve", p \in gg.open /\ p \notin gg.ign), "twice", p \notin gg.pre \cup gg.no) IN
                   IF ret = 1 /\ ign = 0 THEN [g1 EXCEPT !.pre = @ \cup {p}]
                   ELSE [g1 EXCEPT !.ign = IF ign = 1 THEN @ \cup {p} ELSE @, !.no = @ \cup {p}]
      [] fn = 3 -> LET g1 == Mark(gg, "postSolve", p \in gg.pre \cup gg.slept /\ ~IsSensor(w, p) /\ ~BothInf(w, p)) IN [g1 EXCEPT !.pre = @ \ {p}, !.slept = @ \ {p}]
      [] fn = 4 -> LET g1 == Mark(Mark(gg, "separate", p \in gg.open), "asleep", Top.k = "rms" \/ ~QuietPair(w, p)) IN
                   [g1 EXCEPT !.open = @ \ {p}, !.ign = @ \ {p}]
Loud(p) == ~Silent(p, Lookup(w, p), 1) /\ ~Silent(p, Lookup(w, p), 4)

--------------------------------------------------------------------------------
Init == /\ w = DoAll(World0(Slp, Isp, 0, Gy, FALSE), Prefix)
        /\ K = <<>> /\ hist = <<>> /\ beh = <<>> /\ cnt = [x \in {} |-> 0] /\ bs = <<>> /\ hsh = 0
        /\ g = [open |-> {}, ign |-> {}, pre |-> {}, no |-> {}, slept |-> {}, quiet |-> {}, new |-> {}, step |-> FALSE, bad |-> {}, due |-> <<>>,
                gone |-> [p \in {} |-> 0]]
\* the pairs whose contact is no longer remembered, and for how long (so that what happens then is explored too)
Age == [p \in { p \in DOMAIN g.gone : g.gone[p] < 1 } |-> g.gone[p] + 1]
Gone == [p \in (DOMAIN w.A \cup DOMAIN g.gone) \ DOMAIN w'.A |-> IF p \in DOMAIN g.gone THEN g.gone[p] ELSE 0]

Perform(o) ==
    CASE o.o = "step" -> StepCall(o.n, KE(w))
      [] o.o = "rmS" -> RmSCall(o.id)
      [] o.o = "each" -> EachCall(o.k, IF o.k = "bb" THEN Eligible(w, AllF) ELSE EachSet(w, o.k, o.id), {})
      [] OTHER -> w' = Eval(Do(w, o)) /\ K' = K
Noted(o) ==
    LET g1 == Woken(g, o, w') IN
    CASE o.o = "step" -> [g1 EXCEPT !.pre = {}, !.no = {}, !.new = {}, !.step = TRUE,
                                           !.slept = { p \in DOMAIN w.A : w.A[p].sv },
                                           !.gone = Age,
                                           !.quiet = { p \in g1.open : QuietPair(w, p) }]
      [] o.o = "each" -> g1
      [] o.o = "post" -> [g1 EXCEPT !.step = FALSE, !.due = IF PostOk(w, o.n) THEN Append(@, o.id) ELSE @]
      [] OTHER -> [g1 EXCEPT !.step = FALSE]
\* the program goes on
Operate ==
    /\ K = <<>> /\ Len(hist) < Max
    /\ \E j \in DOMAIN Menu :
         /\ Legal(Menu[j])
         /\ Perform(Menu[j])
         /\ g' = Noted(Menu[j])
         /\ hist' = Append(hist, Menu[j]) /\ hsh' = (hsh * 31 + j) % 100003
    /\ UNCHANGED <<beh, cnt, bs>>
\* a callback goes on with what it does
Inside ==
    /\ bs # <<>> /\ Top.k \in {"cb", "user"} /\ bs[Len(bs)].ops # <<>>
    /\ LET o == Head(bs[Len(bs)].ops) IN
       /\ bs' = [bs EXCEPT ![Len(bs)].ops = Tail(@)]
       /\ IF Legal(o) THEN Perform(o) /\ g' = Noted(o) ELSE UNCHANGED <<w, K, g>>
    /\ UNCHANGED <<hist, beh, cnt, hsh>>
Count(x) == IF x \in DOMAIN cnt THEN cnt[x] + 1 ELSE 1
Pairs == IF Top.k \in {"step", "rms"} THEN Top.must \cup Top.may \cup (IF Top.cur = NoCur THEN {} ELSE {Top.cur.p}) ELSE {}
Call ==
    \E p \in Pairs : \E fn \in 1..4 : \E h \in { x.id : x \in w.H.pr \cup w.H.wd } : \E sw \in {TRUE, FALSE} : \E ud \in {0, 1} :
      /\ PairCall(fn, [h |-> h, s1 |-> IF sw THEN p[2] ELSE p[1], s2 |-> IF sw THEN p[1] ELSE p[2]], ud, IF fn = 4 THEN 0 ELSE 1)
      /\ LET a == w'.A[p] IN
         \E bh \in Behs(h, fn) :
           LET x == <<h, fn>> IN
           /\ cnt' = Put(cnt, x, Count(x))
           /\ beh' = IF bh = Norm THEN beh ELSE Append(beh, [bh EXCEPT !.fn = fn, !.n = Count(x)] @@ [h |-> h])
           /\ hsh' = (hsh * 31 + 100 + 10 * fn + bh.ret + 2 * bh.ign + 4 * Len(bh.ops)) % 100003
           /\ bs' = Append(bs, bh)
           /\ g' = IF Scene = "wild" THEN g ELSE \* two handlers may see the same
                   Mark(Mark(Seen(g, fn, p, a, bh.ret, bh.ign), "handler", h = Lookup(w, p).id),
                        "first", fn # 4 => (a.st = "first") = (p \in g.new \/ fn = 1))
      /\ UNCHANGED hist
Calls2 ==
    \/ \E v \in IF Top.k \in {"each", "free"} THEN Top.must \cup Top.may ELSE {} :
         VisitCall(v) /\ bs' = Append(bs, hist[Len(hist)].beh[1]) /\ g' = g
    \/ \E k \in {1, 2} : \E c \in DOMAIN w.C : ConCall(k, c) /\ bs' = Append(bs, Norm) /\ g' = g
    \/ \E q \in { w.q[j] : j \in DOMAIN w.q } :
         /\ RunCall(q.id, q.key)
         /\ bs' = Append(bs, [Norm EXCEPT !.ops = PostOps(q.id)])
         /\ g' = Mark([g EXCEPT !.due = IF @ = <<>> THEN @ ELSE Tail(@)], "C09", w.lock = 0 /\ g.due # <<>> /\ Head(g.due) = q.id)
Back ==
    /\ bs # <<>> /\ bs[Len(bs)].ops = <<>>
    /\ LET bh == bs[Len(bs)] IN PairReturn(bh.ret = 1, bh.ign = 1) \/ UserReturn
    /\ bs' = SubSeq(bs, 1, Len(bs) - 1)
    /\ UNCHANGED <<hist, beh, cnt, g, hsh>>
Finish1 == CallEnd /\ UNCHANGED <<hist, beh, cnt, bs, g, hsh>>
Internal == Advance /\ (g' = IF Ghosts THEN [g EXCEPT !.gone = Gone] ELSE g) /\ UNCHANGED <<hist, beh, cnt, bs, hsh>>
Over == K = <<>> /\ Len(hist) = Max /\ UNCHANGED vars

Next == \/ Operate \/ Inside \/ Call
        \/ Calls2 /\ UNCHANGED <<hist, beh, cnt, hsh>>
        \/ Back \/ Finish1 \/ Internal \/ Over
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
(* the properties *)
Touching == { p \in Candidates(w) : Touch(w, p) = 1 }
\* after a step (nothing happened since)
AfterStep == K = <<>> /\ g.step
Promises == g.bad = {}
C03 == AfterStep /\ Scene # "wild" =>
                    /\ \A p \in Touching : Loud(p) => p \in g.open
                    \* (of a pair that falls asleep in the step in which it parts, this is noticed when it wakes up)
                    /\ \A p \in g.open : p \in Touching \/ QuietPair(w, p) \/ p \in g.quiet
C08 == K = <<>> => \A p \in DOMAIN w.A : w.S[p[1]].in /\ w.S[p[2]].in
C09 == K = <<>> => w.lock = 0 /\ ~w.skip /\ w.q = <<>> /\ g.due = <<>>
Joined(b, o) == \/ \E p \in DOMAIN w.A : w.A[p].thr /\ PairB(w, p) = {b, o}
                \/ \E c \in DOMAIN w.C : w.C[c].in /\ {w.C[c].a, w.C[c].b} = {b, o}
Ds == { b \in Bodies(w) : InB(w, b) /\ w.B[b].ty = "D" }
C10 == AfterStep =>
         /\ w.slp < 0 => \A b \in Bodies(w) : w.B[b].comp = 0
         /\ \A b \in Bodies(w) : w.B[b].comp # 0 => b \in Ds /\ w.B[b].idle >= w.slp
         /\ \A b, o \in Ds : Joined(b, o) => w.B[b].comp = w.B[o].comp
         /\ \A b \in Ds : w.B[b].comp = 0 /\ w.slp >= 0 =>
               \E o \in Flood({ <<x, y>> \in Ds \X Ds : Joined(x, y) }, {}, {b}) : w.B[o].idle < w.slp
\* no body that slept is awake alone
C11 == K = <<>> => \A b \in Bodies(w) : w.B[b].comp # 0 => w.B[w.B[b].comp].comp = w.B[b].comp
C24 == AfterStep => \A p \in DOMAIN w.A :
         /\ w.A[p].thr = (w.A[p].act \/ w.A[p].sv)
         /\ w.A[p].sv => \E b \in PairB(w, p) : Asleep(w, b)
         /\ w.A[p].act => p \in Touching
Sound == Promises /\ C03 /\ C08 /\ C09 /\ C10 /\ C11 /\ C24

--------------------------------------------------------------------------------
(* states that behave alike *)
RelA == [p \in DOMAIN w.A |-> [w.A[p] EXCEPT !.stamp = GMin(w.stamp - @, Persist)]]
View == << [w EXCEPT !.stamp = 0, !.ties = 0, !.A = RelA,
                     !.B = [b \in DOMAIN @ |-> [@[b] EXCEPT !.idle = GMin(@, GMax(w.slp, 0))]]],
           K, bs, g, hsh % Diverse >>

\* the history as a scenario; a few more steps show what it left behind
WithBeh(o) == IF o.o \in {"hp", "hw"} /\ \E j \in DOMAIN beh : beh[j].h = o.id
              THEN o @@ [beh |-> SelectSeq(beh, LAMBDA x : x.h = o.id)] ELSE o
Suffix == << Step1, Step1, [o |-> "each", k |-> "S"], [o |-> "each", k |-> "B"], Step1, Step1 >>
Script == [id |-> Scene, fam |-> "world", sleepT |-> Slp, idleSp |-> Isp, gx |-> 0, gy |-> Gy, hash |-> IF hsh % 3 = 0 THEN <<10, 97>> ELSE <<>>,
           ops |-> [j \in DOMAIN Prefix |-> WithBeh(Prefix[j])] \o hist \o Suffix]
Print1 == IF Every > 0 /\ K # <<>> /\ K' = <<>> /\ (hsh' \div Diverse) % Every = Seed % Every THEN PrintT("SCRIPT " \o ToJson(Script')) ELSE TRUE
===============================================================================
