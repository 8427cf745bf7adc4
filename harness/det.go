package main

// Several simulations in one program: instances of sub-scenarios run interleaved one operation (or callback) at a
// time, in parallel, and in another process; what each did is recorded operation by operation.

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"

	cp "github.com/jakecoffman/cp/v2"
)

// bits collects exact values.
type bits struct{ b []byte }

func (h *bits) f(v ...float64) {
	for _, x := range v {
		h.b = binary.LittleEndian.AppendUint64(h.b, math.Float64bits(x))
	}
}
func (h *bits) v(v ...cp.Vector) {
	for _, x := range v {
		h.f(x.X, x.Y)
	}
}
func (h *bits) s(s string) { h.b = append(append(h.b, s...), 0) }
func (h *bits) i(n int)    { h.b = binary.LittleEndian.AppendUint64(h.b, uint64(n)) }
func (h *bits) sum() string {
	x := sha256.Sum256(h.b)
	return hex.EncodeToString(x[:6])
}

func (h *bits) body(b *cp.Body, id func(*cp.Shape) int) {
	h.v(b.Position(), b.Velocity(), b.Force(), b.Rotation(), b.CenterOfGravity())
	h.f(b.Angle(), b.AngularVelocity(), b.Torque(), b.Mass(), b.Moment())
	h.i(b.GetType())
	h.i(b2i(b.IsSleeping()))
	if b.GetType() != cp.BODY_STATIC {
		h.f(b.IdleTime())
	}
	b.EachArbiter(func(arb *cp.Arbiter) {
		a, c := arb.Shapes()
		h.i(id(a))
		h.i(id(c))
		set := arb.ContactPointSet()
		h.i(set.Count)
		h.v(set.Normal, arb.TotalImpulse())
		for k := 0; k < set.Count; k++ {
			h.v(set.Points[k].PointA, set.Points[k].PointB)
			h.f(set.Points[k].Distance)
		}
	})
}

func (h *bits) shape(s *cp.Shape) {
	bb := s.BB()
	h.f(bb.L, bb.B, bb.R, bb.T, s.Friction(), s.Elasticity(), s.Mass())
}

// instance is a running sub-scenario.
type instance struct {
	id     int
	sub    Op
	gate   func(in *instance, kind, op string) // called by the sub-scenario
	rec    *recorder
	from   int // events up to here are accounted for
	static func() string
	log    []string // operations and their results
	mids   int
	born   bool // an operation has ended
}

func (in *instance) at(kind, op string) {
	if in.gate != nil {
		in.gate(in, kind, op)
	}
}

// result of what happened since the last operation ended
func (in *instance) result() (res, st string) {
	h := &bits{}
	for _, e := range in.rec.ev[in.from:] {
		h.s(e)
	}
	in.from = in.rec.len()
	st = in.static()
	h.s(st)
	return h.sum(), st
}

func opKey(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	x := sha256.Sum256(b)
	return hex.EncodeToString(x[:4])
}

func subScript(op Op) *Script {
	if op.K == "crowd" {
		return &Script{ID: "crowd", Fam: "crowd", Seed: int64(op.N)}
	}
	l := families[op.K].gen(int64(op.N), 1, op.Name)
	return &l[0]
}

func (in *instance) run() {
	sc := subScript(in.sub)
	in.rec = &recorder{}
	in.static = func() string { return "-" }
	defer func() {
		if r := recover(); r != nil {
			in.rec.add(fmt.Sprint("panic: ", r))
			in.static = func() string { return "panic" }
			in.at("end", "")
		}
	}()
	switch in.sub.K {
	case "world":
		worldOf(sc, in.rec, in)
	case "dyn":
		dynOf(sc, in.rec, in)
	case "crowd":
		crowd(int64(in.sub.N), in)
	}
}

// solo runs a sub-scenario on its own: the operations and what they gave
func solo(sub Op) []string {
	var log []string
	cur := ""
	in := &instance{sub: sub}
	in.gate = func(in *instance, kind, op string) {
		switch kind {
		case "beg":
			cur = op
		case "end":
			r, st := in.result()
			log = append(log, cur+" "+r+" "+st)
		}
	}
	in.run()
	return log
}

type yielded struct {
	in       *instance
	kind, op string
}

func runDet(sc *Script, out *recorder) {
	r := rand.New(rand.NewSource(sc.Seed))
	next := 1
	var subs []Op
	for _, op := range sc.Ops {
		for k := 0; k < op.M; k++ {
			subs = append(subs, op)
		}
	}
	// one at a time, at random
	out.add(`{"e":"phase","watch":1}`)
	ch := make(chan yielded)
	var live []*instance
	resume := map[*instance]chan struct{}{}
	all := []*instance{}
	busy := map[int]bool{}
	start := func(sub Op) {
		in := &instance{id: next, sub: sub}
		next++
		c := make(chan struct{})
		resume[in] = c
		rr := rand.New(rand.NewSource(sc.Seed*31 + int64(in.id)))
		in.static = func() string { return "-" }
		in.gate = func(in *instance, kind, op string) {
			if kind == "mid" {
				in.mids++
				if in.mids > 60 || rr.Intn(4) != 0 {
					return
				}
			}
			ch <- yielded{in, kind, op}
			<-c
		}
		live = append(live, in)
		all = append(all, in)
		out.add(fmt.Sprintf(`{"e":"new","s":%d}`, in.id))
		go func() {
			<-c
			in.run()
			ch <- yielded{in, "done", ""}
		}()
	}
	seen := func() string {
		var l []string
		for _, in := range all {
			if !busy[in.id] && in.born {
				l = append(l, fmt.Sprintf(`[%d,"%s"]`, in.id, in.static()))
			}
		}
		return "[" + strings.Join(l, ",") + "]"
	}
	// some spaces are made while others are well under way
	late := 0
	for k, s := range subs {
		if k > 0 && r.Intn(3) == 0 {
			late++
			continue
		}
		start(s)
	}
	rest := subs[len(subs)-late:]
	for len(live) > 0 || len(rest) > 0 {
		if len(rest) > 0 && (len(live) == 0 || r.Intn(40) == 0) {
			start(rest[0])
			rest = rest[1:]
			continue
		}
		k := r.Intn(len(live))
		if r.Intn(3) == 0 { // stay with the first for a while
			k = 0
		}
		in := live[k]
		resume[in] <- struct{}{}
		y := <-ch
		switch y.kind {
		case "beg":
			out.add(fmt.Sprintf(`{"e":"beg","s":%d,"op":"%s","seen":%s}`, in.id, y.op, seen()))
			busy[in.id] = true
		case "mid":
			out.add(fmt.Sprintf(`{"e":"mid","s":%d,"seen":%s}`, in.id, seen()))
		case "end":
			res, st := in.result()
			out.add(fmt.Sprintf(`{"e":"end","s":%d,"res":"%s","st":"%s","seen":%s}`, in.id, res, st, seen()))
			busy[in.id] = false
			in.born = true
		case "done":
			live = append(live[:k], live[k+1:]...)
		}
	}
	dump := func(logs [][]string) {
		out.add(`{"e":"phase","watch":0}`)
		for _, l := range logs {
			id := next
			next++
			out.add(fmt.Sprintf(`{"e":"new","s":%d}`, id))
			for _, x := range l {
				f := strings.Fields(x)
				out.add(fmt.Sprintf(`{"e":"beg","s":%d,"op":"%s","seen":[]}`, id, f[0]))
				out.add(fmt.Sprintf(`{"e":"end","s":%d,"res":"%s","st":"%s","seen":[]}`, id, f[1], f[2]))
			}
		}
	}
	// at the same time
	var wg sync.WaitGroup
	logs := make([][]string, len(subs))
	for k := range subs {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			if k%2 == 1 {
				runtime.Gosched()
			}
			logs[k] = solo(subs[k])
		}(k)
	}
	wg.Wait()
	dump(logs)
	// in a process of its own
	b, _ := json.Marshal(sc)
	cmd := exec.Command(os.Args[0], "solo")
	cmd.Stdin = strings.NewReader(string(b))
	o, err := cmd.Output()
	if err != nil {
		panic("solo: " + err.Error())
	}
	var l2 [][]string
	if err := json.Unmarshal(o, &l2); err != nil {
		panic(err)
	}
	dump(l2)
}

func soloMain() {
	var sc Script
	if err := json.NewDecoder(os.Stdin).Decode(&sc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var l [][]string
	for k := len(sc.Ops) - 1; k >= 0; k-- {
		l = append(l, solo(sc.Ops[k]))
	}
	json.NewEncoder(os.Stdout).Encode(l)
}

func genDet(seed int64, n int, arg string) []Script {
	var res []Script
	for k := 0; k < n; k++ {
		s := seed*1000003 + int64(k)
		r := rand.New(rand.NewSource(s))
		sc := Script{ID: fmt.Sprintf("det-%s-%d-%d", arg, seed, k), Fam: "det", Seed: s}
		for j := 0; j < 1+r.Intn(3); j++ {
			op := Op{O: "sub", N: r.Intn(1 << 30), M: 1 + r.Intn(2)}
			if j == 0 {
				op.M = 2
			}
			kind := arg
			if kind == "" {
				kind = []string{"world", "world", "dyn", "crowd"}[r.Intn(4)]
			}
			op.K = kind
			switch kind {
			case "world":
				op.Name = []string{"", "sleep", "calls", "hash", "move", "real", "geo", "shq", "seg"}[r.Intn(9)]
			case "dyn":
				op.Name = []string{"free", "mass", "contact", "island", "joint"}[r.Intn(5)]
			}
			sc.Ops = append(sc.Ops, op)
		}
		res = append(res, sc)
	}
	return res
}

// crowd: many bodies, joints and contacts, steps like those of a game; nothing but reproducibility is asked of it
func crowd(seed int64, in *instance) {
	r := rand.New(rand.NewSource(seed))
	sp := cp.NewSpace()
	var bs []*cp.Body
	var ss []*cp.Shape
	var cs []*cp.Constraint
	ends := map[*cp.Constraint][2]*cp.Body{}
	sid := map[*cp.Shape]int{}
	id := func(s *cp.Shape) int { return sid[s] }
	in.static = func() string {
		h := &bits{}
		for _, b := range bs {
			h.body(b, id)
		}
		for _, s := range ss {
			h.shape(s)
		}
		for _, c := range cs {
			h.f(c.Class.GetImpulse())
		}
		return h.sum()
	}
	n := 0
	do := func(name string, f func()) {
		n++
		in.at("beg", fmt.Sprintf("%d.%d.%s", seed, n, name))
		f()
		in.at("end", "")
	}
	ev := func(f string, a ...interface{}) { in.rec.add(fmt.Sprintf(f, a...)) }
	fl := func(a, b float64) float64 { return a + (b-a)*r.Float64() }
	calls := 0
	big := r.Intn(4) == 0
	do("space", func() {
		sp.Iterations = uint(1 + r.Intn(12))
		sp.SetGravity(cp.Vector{X: fl(-20, 20), Y: -fl(0, 300)})
		if r.Intn(2) == 0 {
			sp.SleepTimeThreshold = fl(0.05, 0.6)
			sp.IdleSpeedThreshold = fl(0, 20)
		}
		if r.Intn(3) == 0 {
			sp.SetDamping(fl(0.3, 1))
		}
		if r.Intn(3) == 0 {
			sp.UseSpatialHash(fl(5, 40), 1+r.Intn(300))
		}
		if r.Intn(4) == 0 {
			sp.SetCollisionSlop(fl(0, 0.5))
		}
		h := sp.NewCollisionHandler(1, 2)
		log := func(k int) func(*cp.Arbiter) {
			return func(a *cp.Arbiter) {
				x, y := a.Shapes()
				ev("cb %d %d %d", k, sid[x], sid[y])
				if calls++; calls%37 == 0 {
					in.at("mid", "")
				}
			}
		}
		h.BeginFunc = func(a *cp.Arbiter, _ *cp.Space, _ interface{}) bool { log(1)(a); return true }
		h.SeparateFunc = func(a *cp.Arbiter, _ *cp.Space, _ interface{}) { log(4)(a) }
		wh := sp.NewWildcardCollisionHandler(3)
		wh.PreSolveFunc = func(a *cp.Arbiter, _ *cp.Space, _ interface{}) bool { log(2)(a); return calls%5 != 0 }
		wh.PostSolveFunc = func(a *cp.Arbiter, _ *cp.Space, _ interface{}) { log(3)(a) }
		wh.SeparateFunc = func(a *cp.Arbiter, _ *cp.Space, _ interface{}) { log(5)(a) }
		for k := 0; k < 4; k++ {
			s := sp.AddShape(cp.NewSegment(sp.StaticBody, cp.Vector{X: float64(50*k - 100)}, cp.Vector{X: float64(50*k - 50), Y: fl(-10, 10)}, fl(0, 3)))
			ss = append(ss, s)
			sid[s] = len(ss)
			s.SetFriction(fl(0, 1))
			s.SetCollisionType(cp.CollisionType(r.Intn(4)))
		}
	})
	add := func() {
		m := fl(0.5, 5)
		var b *cp.Body
		if r.Intn(10) == 0 {
			b = cp.NewKinematicBody()
			b.SetVelocity(fl(-20, 20), 0)
		} else {
			b = cp.NewBody(m, m*fl(5, 60))
			b.SetVelocity(fl(-60, 60), fl(-60, 60))
			b.SetAngularVelocity(fl(-5, 5))
		}
		b.SetPosition(cp.Vector{X: fl(-90, 90), Y: fl(5, 120)})
		b.SetAngle(fl(-4, 4))
		sp.AddBody(b)
		bs = append(bs, b)
		for k := 0; k < 1+r.Intn(2); k++ {
			var s *cp.Shape
			o := cp.Vector{X: fl(-4, 4), Y: fl(-4, 4)}
			switch r.Intn(4) {
			case 0:
				s = cp.NewCircle(b, fl(1, 8), o)
			case 1:
				s = cp.NewSegment(b, o, cp.Vector{X: fl(-12, 12), Y: fl(-12, 12)}, fl(0, 3))
			case 2:
				s = cp.NewBox(b, fl(2, 16), fl(2, 16), fl(0, 2))
			default:
				var v []cp.Vector
				for j := 0; j < 3+r.Intn(6); j++ {
					v = append(v, cp.Vector{X: fl(-9, 9), Y: fl(-9, 9)})
				}
				s = cp.NewPolyShape(b, len(v), v, cp.NewTransformIdentity(), fl(0, 1))
			}
			s.SetFriction(fl(0, 1.2))
			s.SetElasticity(fl(0, 1))
			s.SetCollisionType(cp.CollisionType(r.Intn(4)))
			if r.Intn(12) == 0 {
				s.SetSensor(true)
			}
			sp.AddShape(s)
			ss = append(ss, s)
			sid[s] = len(ss)
		}
	}
	pick := func() *cp.Body { return bs[r.Intn(len(bs))] }
	nb := 10 + r.Intn(25)
	if big {
		nb = 80 + r.Intn(150)
	}
	do("fill", func() {
		for k := 0; k < nb; k++ {
			add()
		}
	})
	join := func() {
		a, b := pick(), pick()
		if a == b || a.GetType() != cp.BODY_DYNAMIC && b.GetType() != cp.BODY_DYNAMIC || !sp.ContainsBody(a) || !sp.ContainsBody(b) {
			return
		}
		o := cp.Vector{X: fl(-3, 3), Y: fl(-3, 3)}
		var c *cp.Constraint
		switch r.Intn(7) {
		case 0:
			c = cp.NewPinJoint(a, b, o, cp.Vector{})
		case 1:
			c = cp.NewSlideJoint(a, b, o, cp.Vector{}, 2, 30)
		case 2:
			c = cp.NewPivotJoint(a, b, a.Position())
		case 3:
			c = cp.NewDampedSpring(a, b, o, cp.Vector{}, 15, fl(1, 60), fl(0, 5))
		case 4:
			c = cp.NewRotaryLimitJoint(a, b, -1, 1)
		case 5:
			c = cp.NewSimpleMotor(a, b, fl(-3, 3))
		default:
			c = cp.NewGearJoint(a, b, 0, 2)
		}
		c.SetMaxForce(fl(1000, 1e5))
		sp.AddConstraint(c)
		cs = append(cs, c)
		ends[c] = [2]*cp.Body{a, b}
	}
	if r.Intn(2) == 0 {
		do("joints", func() {
			for k := 0; k < nb/6; k++ {
				join()
			}
		})
	}
	rounds := 12
	if big {
		rounds = 6
	}
	for k := 0; k < rounds; k++ {
		switch r.Intn(9) {
		case 0:
			do("add", add)
		case 1:
			do("remove", func() {
				b := pick()
				if !sp.ContainsBody(b) {
					return
				}
				for _, c := range append([]*cp.Constraint{}, cs...) {
					if (ends[c][0] == b || ends[c][1] == b) && sp.ContainsConstraint(c) {
						sp.RemoveConstraint(c)
					}
				}
				for _, s := range ss {
					if s.Body() == b && sp.ContainsShape(s) {
						sp.RemoveShape(s)
					}
				}
				sp.RemoveBody(b)
			})
		case 2:
			do("query", func() {
				sp.BBQuery(cp.BB{L: -40, B: -10, R: 40, T: 60}, cp.SHAPE_FILTER_ALL, func(s *cp.Shape, _ interface{}) { ev("bb %d", sid[s]) }, nil)
				sp.SegmentQuery(cp.Vector{X: -100, Y: fl(0, 50)}, cp.Vector{X: 100, Y: fl(0, 50)}, fl(0, 2), cp.SHAPE_FILTER_ALL,
					func(s *cp.Shape, p, n cp.Vector, a float64, _ interface{}) { ev("sq %d %x %x %x", sid[s], p, n, a) }, nil)
				i := sp.SegmentQueryFirst(cp.Vector{X: fl(-50, 50), Y: 100}, cp.Vector{X: fl(-50, 50), Y: -20}, 0, cp.SHAPE_FILTER_ALL)
				ev("sf %d %x %x", sid[i.Shape], i.Point, i.Alpha)
				q := sp.PointQueryNearest(cp.Vector{X: fl(-50, 50), Y: fl(0, 50)}, 30, cp.SHAPE_FILTER_ALL)
				ev("pn %d %x", sid[q.Shape], q.Distance)
			})
		case 3:
			do("push", func() {
				b := pick()
				if b.GetType() == cp.BODY_DYNAMIC {
					b.ApplyImpulseAtWorldPoint(cp.Vector{X: fl(-200, 200), Y: fl(-200, 200)}, b.Position().Add(cp.Vector{X: fl(-3, 3)}))
				}
			})
		case 4:
			do("join", join)
		case 5:
			do("each", func() {
				sp.EachBody(func(b *cp.Body) { h := &bits{}; h.body(b, id); ev("b %s", h.sum()) })
				sp.EachShape(func(s *cp.Shape) { ev("s %d", sid[s]) })
			})
		}
		steps := 1 + r.Intn(12)
		for j := 0; j < steps; j++ {
			do("step", func() { sp.Step(1.0 / 60) })
		}
	}
}
