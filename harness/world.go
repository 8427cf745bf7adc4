package main

// World family: runs a script of operations against a real space and records
// the trace of every call, callback and observable result.

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	cp "github.com/jakecoffman/cp/v2"
)

// Beh is what the n-th call of a callback does (n = 0: every call).
type Beh struct {
	Fn  int  `json:"fn,omitempty"`
	N   int  `json:"n,omitempty"`
	Ret int  `json:"ret"`
	Ign int  `json:"ign,omitempty"`
	Ops []Op `json:"ops,omitempty"`
}

// Op is one operation of a script; which fields matter depends on O.
type Op struct {
	O    string    `json:"o"`
	ID   int       `json:"id,omitempty"`
	B    int       `json:"b,omitempty"`
	A    int       `json:"a,omitempty"`
	K    string    `json:"k,omitempty"`
	V    [][]int   `json:"v,omitempty"`
	R    int       `json:"r,omitempty"`
	X    int       `json:"x,omitempty"`
	Y    int       `json:"y,omitempty"`
	N    int       `json:"n,omitempty"`
	M    int       `json:"m,omitempty"`
	T1   int       `json:"t1,omitempty"`
	T2   int       `json:"t2,omitempty"`
	Fl   []int     `json:"fl,omitempty"`
	F    *Filter   `json:"f,omitempty"`
	BB   []int     `json:"bb,omitempty"`
	Beh  []Beh     `json:"beh,omitempty"`
	Ops  []Op      `json:"ops,omitempty"`
	Name string    `json:"name,omitempty"`
	FV   []float64 `json:"fv,omitempty"`
}

type Filter struct {
	G int   `json:"g"`
	C []int `json:"c"`
	M []int `json:"m"`
}

// Script is one scenario.
type Script struct {
	ID     string `json:"id"`
	Fam    string `json:"fam"`
	SleepT int    `json:"sleepT"`
	IdleSp int    `json:"idleSp"`
	GX     int    `json:"gx"`
	GY     int    `json:"gy"`
	Hash   []int  `json:"hash,omitempty"`
	Geo    int    `json:"geo,omitempty"`  // record contacts
	Real   int    `json:"real,omitempty"` // default integration functions: positions are not tracked
	Seed   int64  `json:"seed,omitempty"`
	Ops    []Op   `json:"ops"`
}

var bitPos = []uint{0, 7, 31}

func (f *Filter) cp() cp.ShapeFilter {
	if f == nil {
		return cp.ShapeFilter{Group: 0, Categories: cp.ALL_CATEGORIES, Mask: cp.ALL_CATEGORIES}
	}
	bits := func(v []int) uint {
		var r uint
		for i, b := range v {
			if b != 0 {
				r |= 1 << bitPos[i]
			}
		}
		return r
	}
	return cp.ShapeFilter{Group: uint(f.G), Categories: bits(f.C), Mask: bits(f.M)}
}

func (f *Filter) js() string {
	if f == nil {
		return "[0,[1,1,1],[1,1,1]]"
	}
	return fmt.Sprintf("[%d,%s,%s]", f.G, ints(f.C), ints(f.M))
}

func ints(v []int) string {
	s := make([]string, len(v))
	for i, x := range v {
		s[i] = fmt.Sprint(x)
	}
	return "[" + strings.Join(s, ",") + "]"
}

func intss(v [][]int) string {
	s := make([]string, len(v))
	for i, x := range v {
		s[i] = ints(x)
	}
	return "[" + strings.Join(s, ",") + "]"
}

type wBody struct {
	id  int
	b   *cp.Body
	ty  string
	m   int
	mv  bool // moves by its velocity
	rot int
}
type wShape struct {
	id     int
	s      *cp.Shape
	body   *wBody
	in     bool
	rmving bool
	v      []cp.Vector
}
type wCon struct {
	id   int
	c    *cp.Constraint
	a, b *wBody
	kind string
	in   bool
}

type ctx struct {
	kind   string // "top", "cb", "run", "vis"
	lock   int
	free   string // inside an iteration over a body: its kind
	rms    bool
	subj   int
	curArb *cp.Arbiter
}

type World struct {
	sc     *Script
	space  *cp.Space
	bodies map[int]*wBody
	shapes map[int]*wShape
	cons   map[int]*wCon
	out    *recorder
	stack  []ctx
	hreg   map[string]bool
	nud    int
	calls  int
	hfl    map[int][]int
	fcalls map[string]int
	quiet  int // operations that were not followed by an observation
	limit  int
	in     *instance // one of several simulations
}

func (w *World) mid() {
	if w.in != nil {
		w.in.at("mid", "")
	}
}

func (w *World) ev(format string, args ...interface{}) {
	w.out.add(fmt.Sprintf(format, args...))
}

func (w *World) top() ctx   { return w.stack[len(w.stack)-1] }
func (w *World) push(c ctx) { w.stack = append(w.stack, c) }
func (w *World) pop()       { w.stack = w.stack[:len(w.stack)-1] }
func (w *World) canMut() bool { // adding and removing things
	t := w.top()
	return t.lock == 0 && !t.rms && t.free == ""
}

const keCap = 1000000000

func ke(b *cp.Body) (int, int) {
	k := b.KineticEnergy() * 1000
	if k != k || k > keCap {
		return keCap, 0
	}
	f := math.Floor(k)
	ex := 0
	if f == k && f/1000 == b.KineticEnergy() {
		ex = 1
	}
	return int(f), ex
}

func (w *World) keList() string {
	var s []string
	for _, id := range sortedB(w.bodies) {
		b := w.bodies[id]
		if b.ty == "D" {
			k, e := ke(b.b)
			s = append(s, fmt.Sprintf("[%d,%d,%d]", id, k, e))
		}
	}
	return "[" + strings.Join(s, ",") + "]"
}

func sortedB(m map[int]*wBody) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
func sortedS(m map[int]*wShape) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
func sortedC(m map[int]*wCon) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func bodyID(b *cp.Body) int {
	if b == nil {
		return -1
	}
	if wb, ok := b.UserData.(*wBody); ok {
		return wb.id
	}
	return -1
}
func shapeID(s *cp.Shape) int {
	if s == nil {
		return -1
	}
	if ws, ok := s.UserData.(*wShape); ok {
		return ws.id
	}
	return -1
}

func rnd(f float64) int {
	if f != f || math.Abs(f) > 1e6 {
		return 999999999
	}
	return int(math.Round(f))
}

var rotTab = [][2]float64{{5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}}

func rotAngle(r int) float64 { return math.Atan2(rotTab[r][1], rotTab[r][0]) }

func (w *World) inBody(b *wBody) bool { return b.id == 0 || w.space.ContainsBody(b.b) }

func (w *World) ob() {
	var bs, ss, cs, as []string
	for _, id := range sortedB(w.bodies) {
		b := w.bodies[id]
		in, sl := 0, 0
		if w.inBody(b) {
			in = 1
		}
		if b.b.IsSleeping() {
			sl = 1
		}
		ty := []string{"D", "K", "S"}[b.b.GetType()]
		idle := 0
		if ty != "S" {
			idle = rnd(b.b.IdleTime())
		}
		p := b.b.Position()
		x, y := rnd(p.X), rnd(p.Y)
		if w.sc.Real != 0 {
			x, y = 0, 0
		} else if math.Abs(p.X-float64(x)) > 1e-6 || math.Abs(p.Y-float64(y)) > 1e-6 {
			x = 888888888
		}
		bs = append(bs, fmt.Sprintf(`[%d,%d,"%s",%d,%d,%d,%d]`, id, in, ty, sl, idle, x, y))
		n := 0
		b.b.EachArbiter(func(arb *cp.Arbiter) {
			n++
			if n > 10000 {
				panic("contact list of a body does not end")
			}
			s1, s2 := arb.Shapes()
			as = append(as, fmt.Sprintf("[%d,%d,%d]", id, shapeID(s1), shapeID(s2)))
		})
	}
	for _, id := range sortedS(w.shapes) {
		if w.space.ContainsShape(w.shapes[id].s) {
			ss = append(ss, fmt.Sprint(id))
		}
	}
	for _, id := range sortedC(w.cons) {
		if w.space.ContainsConstraint(w.cons[id].c) {
			cs = append(cs, fmt.Sprint(id))
		}
	}
	w.ev(`{"e":"ob","b":[%s],"s":[%s],"c":[%s],"a":[%s]}`, strings.Join(bs, ","), strings.Join(ss, ","), strings.Join(cs, ","), strings.Join(as, ","))
}

func (w *World) behOf(list []Beh, key string, fn int) Beh {
	w.fcalls[key]++
	n := w.fcalls[key]
	res := Beh{Ret: 1}
	for _, b := range list {
		if b.Fn == fn && (b.N == n || b.N == 0) {
			res = b
			if b.N == n {
				break
			}
		}
	}
	return res
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// one call of a collision callback
func (w *World) pairCB(fn int, id int, arb *cp.Arbiter, space *cp.Space, data interface{}, beh []Beh) bool {
	h := -1
	if v, ok := data.(int); ok {
		h = v
	}
	if space != w.space {
		h = -2
	}
	s1, s2 := arb.Shapes()
	b1, b2 := arb.Bodies()
	if s1.Body() != b1 || s2.Body() != b2 {
		h = -3
	}
	ud := 0
	if v, ok := arb.UserData.(int); ok {
		ud = v
	}
	nud := 0
	if ud == 0 && fn != 4 {
		w.nud++
		nud = w.nud
		arb.UserData = nud
	}
	cs := `"cn":[],"cp":[]`
	if w.sc.Geo != 0 && fn != 4 && small(s1) && small(s2) {
		set := arb.ContactPointSet()
		cs = contactSet("cn", "cp", &set)
		if arb.Normal() != set.Normal {
			h = -4
		}
	}
	w.ev(`{"e":"cb","k":%d,"h":%d,"s1":%d,"s2":%d,"ud":%d,"nud":%d,"fc":%d,"cnt":%d,%s}`, fn, h, shapeID(s1), shapeID(s2), ud, nud, b2i(arb.IsFirstContact()), b2i(arb.Count() > 0), cs)
	bh := w.behOf(beh, fmt.Sprintf("h%d.%d", id, fn), fn)
	t := w.top()
	w.push(ctx{kind: "cb", lock: t.lock + 1, rms: t.rms || t.kind == "rms", curArb: arb})
	w.mid()
	w.runOps(bh.Ops)
	w.pop()
	ign := 0
	if bh.Ign != 0 && (fn == 1 || fn == 2) {
		arb.Ignore()
		ign = 1
	}
	w.ev(`{"e":"ret","v":%d,"ign":%d}`, bh.Ret, ign)
	return bh.Ret != 0
}

func (w *World) installHandler(h *cp.CollisionHandler, op Op, wild bool) {
	id, fl, beh := op.ID, op.Fl, op.Beh
	h.UserData = id
	mk := func(fn int) func(arb *cp.Arbiter, space *cp.Space, data interface{}) bool {
		return func(arb *cp.Arbiter, space *cp.Space, data interface{}) bool {
			if fl[fn-1] == 2 {
				switch fn {
				case 1:
					arb.CallWildcardBeginA(space)
					arb.CallWildcardBeginB(space)
				case 2:
					arb.CallWildcardPreSolveA(space)
					arb.CallWildcardPreSolveB(space)
				case 3:
					arb.CallWildcardPostSolveA(space)
					arb.CallWildcardPostSolveB(space)
				case 4:
					arb.CallWildcardSeparateA(space)
					arb.CallWildcardSeparateB(space)
				}
			}
			return w.pairCB(fn, id, arb, space, data, beh)
		}
	}
	mkv := func(fn int) func(arb *cp.Arbiter, space *cp.Space, data interface{}) {
		f := mk(fn)
		return func(arb *cp.Arbiter, space *cp.Space, data interface{}) { f(arb, space, data) }
	}
	if fl[0] != 0 {
		h.BeginFunc = mk(1)
	}
	if fl[1] != 0 {
		h.PreSolveFunc = mk(2)
	}
	if fl[2] != 0 {
		h.PostSolveFunc = mkv(3)
	}
	if fl[3] != 0 {
		h.SeparateFunc = mkv(4)
	}
	w.hfl[id] = fl
}

func (w *World) shapeOf(op Op, b *wBody) *cp.Shape {
	v := make([]cp.Vector, len(op.V))
	for i, p := range op.V {
		v[i] = cp.Vector{X: float64(p[0]), Y: float64(p[1])}
	}
	r := float64(op.R)
	switch op.K {
	case "c":
		return cp.NewCircle(b.b, r, v[0])
	case "s":
		return cp.NewSegment(b.b, v[0], v[1], r)
	case "b":
		// v is a box given counter-clockwise from its lower left corner... as NewBox2 wants it
		l, bt, rr, t := v[0].X, v[0].Y, v[0].X, v[0].Y
		for _, p := range v {
			l, rr = math.Min(l, p.X), math.Max(rr, p.X)
			bt, t = math.Min(bt, p.Y), math.Max(t, p.Y)
		}
		return cp.NewBox2(b.b, cp.BB{L: l, B: bt, R: rr, T: t}, r)
	case "h":
		return cp.NewPolyShape(b.b, len(v), v, cp.NewTransformIdentity(), r)
	default:
		return cp.NewPolyShapeRaw(b.b, len(v), v, r)
	}
}

func (w *World) makeCon(op Op, a, b *wBody) *cp.Constraint {
	o := cp.Vector{}
	pa, pb := a.b.Position(), b.b.Position()
	switch op.K {
	case "pin":
		return cp.NewPinJoint(a.b, b.b, o, o)
	case "slide":
		return cp.NewSlideJoint(a.b, b.b, o, o, 0, 1000)
	case "pivot":
		return cp.NewPivotJoint(a.b, b.b, pa.Add(pb).Mult(0.5))
	case "groove":
		return cp.NewGrooveJoint(a.b, b.b, cp.Vector{X: -500, Y: 0}, cp.Vector{X: 500, Y: 0}, o)
	case "spring":
		return cp.NewDampedSpring(a.b, b.b, o, o, pa.Distance(pb), 0.5, 0.25)
	case "rspring":
		return cp.NewDampedRotarySpring(a.b, b.b, 0, 0.5, 0.25)
	case "limit":
		return cp.NewRotaryLimitJoint(a.b, b.b, -7, 7)
	case "ratchet":
		return cp.NewRatchetJoint(a.b, b.b, 0, 1)
	case "gear":
		return cp.NewGearJoint(a.b, b.b, b.b.Angle()-a.b.Angle(), 1)
	default:
		return cp.NewSimpleMotor(a.b, b.b, 0)
	}
}

// touch a body through one of the mutators
func (w *World) touch(name string, b *wBody, s *wShape) {
	bb := b.b
	switch name {
	case "force":
		bb.SetForce(bb.Force())
	case "torque":
		bb.SetTorque(0)
	case "mass":
		bb.SetMass(float64(b.m))
	case "moment":
		bb.SetMoment(bb.Moment())
	case "angle":
		bb.SetAngle(bb.Angle())
	case "angvel":
		bb.SetAngularVelocity(bb.AngularVelocity())
	case "velvec":
		bb.SetVelocityVector(bb.Velocity())
	case "forceat":
		bb.ApplyForceAtWorldPoint(cp.Vector{}, bb.Position())
	case "forceatl":
		bb.ApplyForceAtLocalPoint(cp.Vector{}, cp.Vector{})
	case "impat":
		bb.ApplyImpulseAtWorldPoint(cp.Vector{}, bb.Position())
	case "impatl":
		bb.ApplyImpulseAtLocalPoint(cp.Vector{}, cp.Vector{})
	case "friction":
		s.s.SetFriction(s.s.Friction())
	case "elasticity":
		s.s.SetElasticity(s.s.Elasticity())
	case "surfacev":
		s.s.SetSurfaceV(cp.Vector{})
	default:
		bb.Activate()
	}
}

var bodyTouches = []string{"force", "torque", "mass", "moment", "angle", "angvel", "velvec", "forceat", "forceatl", "impat", "impatl", "activate"}
var shapeTouches = []string{"friction", "elasticity", "surfacev"}

func noPos(_ *cp.Body, _ float64)                         {}
func noVel(_ *cp.Body, _ cp.Vector, _ float64, _ float64) {}

// runOps runs operations; at the top level each is followed by an observation
func (w *World) runOps(ops []Op) {
	for _, op := range ops {
		if w.out.len() > w.limit {
			return
		}
		top := w.in != nil && w.top().kind == "top"
		if top {
			w.in.at("beg", opKey(op))
		}
		done := w.runOp(op)
		if top {
			w.in.at("end", "")
		}
		if done && w.top().kind == "top" {
			if w.sc.Geo == 2 && strings.Contains(" pq pn sq1 sf col sbb each reidx setRot ", " "+op.O+" ") {
				if w.quiet++; w.quiet%10 != 0 {
					continue
				}
			}
			w.ob()
		}
	}
}

func (w *World) conOK(except *wBody, ty string) bool {
	for _, c := range w.cons {
		if c.in && (c.a == except || c.b == except) {
			o := c.a
			if o == except {
				o = c.b
			}
			if o.ty != "D" && ty != "D" {
				return false
			}
		}
	}
	return true
}

// runOp runs one operation if it is legal now
func (w *World) runOp(op Op) bool {
	t := w.top()
	sp := w.space
	switch op.O {
	case "body":
		if w.bodies[op.ID] != nil || op.ID == 0 {
			return false
		}
		b := &wBody{id: op.ID, ty: op.K, m: op.M, mv: op.N == 1}
		switch op.K {
		case "D":
			b.b = cp.NewBody(float64(op.M), float64(op.M))
			if w.sc.Real == 0 {
				if !b.mv {
					b.b.SetPositionUpdateFunc(noPos)
				}
				if op.Name != "g" || b.mv {
					b.b.SetVelocityUpdateFunc(noVel)
				}
			}
		case "K":
			b.b = cp.NewKinematicBody()
			b.mv = true
			if op.R == 1 {
				// made dynamic first
				b.b = cp.NewBody(1, 1)
				b.b.SetType(cp.BODY_KINEMATIC)
			}
		case "S":
			b.b = cp.NewStaticBody()
			b.mv = true
		}
		b.b.UserData = b
		b.b.SetPosition(cp.Vector{X: float64(op.X), Y: float64(op.Y)})
		b.rot = op.A
		if op.A != 0 {
			b.b.SetAngle(rotAngle(op.A))
		}
		w.bodies[op.ID] = b
		w.ev(`{"e":"body","id":%d,"ty":"%s","m":%d,"x":%d,"y":%d,"r":%d,"mv":%d}`, op.ID, op.K, op.M, op.X, op.Y, op.A, b2i(b.mv))
		return true
	case "shape":
		b := w.bodies[op.B]
		if b == nil || w.shapes[op.ID] != nil {
			return false
		}
		s := &wShape{id: op.ID, body: b}
		for _, p := range op.V {
			s.v = append(s.v, vec(p))
		}
		s.s = w.shapeOf(op, b)
		s.s.UserData = s
		s.s.SetCollisionType(cp.CollisionType(op.T1))
		if b.ty == "D" && b.mv {
			op.N = 1
		}
		s.s.SetSensor(op.N == 1)
		s.s.SetFilter(op.F.cp())
		w.shapes[op.ID] = s
		w.ev(`{"e":"shape","id":%d,"b":%d,"r":%d,"v":%s,"ct":%d,"sen":%d,"f":%s}`, op.ID, op.B, op.R, intss(op.V), op.T1, op.N, op.F.js())
		return true
	case "con":
		a, b := w.bodies[op.A], w.bodies[op.B]
		if a == nil || b == nil || a == b || w.cons[op.ID] != nil || (a.ty == "D" && a.mv) || (b.ty == "D" && b.mv) {
			return false
		}
		c := &wCon{id: op.ID, a: a, b: b, kind: op.K}
		c.c = w.makeCon(op, a, b)
		c.c.UserData = c
		if op.N == 1 {
			c.c.SetCollideBodies(false)
		}
		cbs := op.Fl
		if len(cbs) != 2 {
			cbs = []int{0, 0}
		}
		beh := op.Beh
		mk := func(k int) func(c2 *cp.Constraint, space *cp.Space) {
			return func(c2 *cp.Constraint, space *cp.Space) {
				id := op.ID
				if c2 != c.c || space != w.space {
					id = -1
				}
				w.ev(`{"e":"cp","k":%d,"id":%d}`, k, id)
				bh := w.behOf(beh, fmt.Sprintf("c%d.%d", op.ID, k), k)
				w.push(ctx{kind: "cb", lock: w.top().lock + 1})
				w.mid()
				w.runOps(bh.Ops)
				w.pop()
				w.ev(`{"e":"ret","v":1,"ign":0}`)
			}
		}
		if cbs[0] != 0 {
			c.c.PreSolve = mk(1)
		}
		if cbs[1] != 0 {
			c.c.PostSolve = mk(2)
		}
		w.cons[op.ID] = c
		w.ev(`{"e":"con","id":%d,"a":%d,"b":%d,"col":%d,"cb":%s}`, op.ID, op.A, op.B, 1-op.N, ints(cbs))
		return true
	case "addB":
		b := w.bodies[op.ID]
		if b == nil || !w.canMut() || w.inBody(b) {
			return false
		}
		sp.AddBody(b.b)
		w.ev(`{"e":"addB","id":%d}`, op.ID)
		return true
	case "rmB":
		b := w.bodies[op.ID]
		if b == nil || b.id == 0 || !w.canMut() || !w.inBody(b) {
			return false
		}
		for _, s := range w.shapes {
			if s.body == b && s.in {
				return false
			}
		}
		for _, c := range w.cons {
			if c.in && (c.a == b || c.b == b) {
				return false
			}
		}
		sp.RemoveBody(b.b)
		w.ev(`{"e":"rmB","id":%d}`, op.ID)
		return true
	case "addS":
		s := w.shapes[op.ID]
		if s == nil || s.in || s.rmving || !w.canMut() || !w.inBody(s.body) {
			return false
		}
		sp.AddShape(s.s)
		s.in = true
		w.ev(`{"e":"addS","id":%d}`, op.ID)
		return true
	case "rmS":
		s := w.shapes[op.ID]
		if s == nil || !s.in || s.rmving {
			return false
		}
		if !w.canMut() && !(t.free == "bS" && t.lock == 0 && !t.rms) {
			return false
		}
		s.rmving = true
		w.ev(`{"e":"rmS","id":%d}`, op.ID)
		w.push(ctx{kind: "rms", lock: t.lock, rms: true})
		sp.RemoveShape(s.s)
		w.pop()
		s.in, s.rmving = false, false
		w.ev(`{"e":"end"}`)
		return true
	case "addC":
		c := w.cons[op.ID]
		if c == nil || c.in || !w.canMut() || !w.inBody(c.a) || !w.inBody(c.b) || (c.a.ty != "D" && c.b.ty != "D") {
			return false
		}
		sp.AddConstraint(c.c)
		c.in = true
		w.ev(`{"e":"addC","id":%d}`, op.ID)
		return true
	case "rmC":
		c := w.cons[op.ID]
		if c == nil || !c.in {
			return false
		}
		if !w.canMut() && !(t.free == "bC" && t.lock == 0 && !t.rms && t.subj == op.ID) {
			return false
		}
		sp.RemoveConstraint(c.c)
		c.in = false
		w.ev(`{"e":"rmC","id":%d}`, op.ID)
		return true
	case "setType":
		b := w.bodies[op.ID]
		if b == nil || b.id == 0 || t.lock != 0 || t.rms || t.free != "" || !w.conOK(b, op.K) {
			return false
		}
		b.b.SetType(map[string]int{"D": 0, "K": 1, "S": 2}[op.K])
		if op.K == "D" && b.ty != "D" {
			m := b.m
			if m == 0 {
				m, b.m = 1, 1
			}
			b.b.SetMass(float64(m))
			b.b.SetMoment(float64(m))
			if w.sc.Real == 0 {
				b.mv = false
				b.b.SetPositionUpdateFunc(noPos)
			}
		}
		b.ty = op.K
		k, e := ke(b.b)
		if b.ty != "D" {
			k, e = 0, 1
		}
		w.ev(`{"e":"setType","id":%d,"ty":"%s","m":%d,"ke":%d,"kex":%d,"mv":%d}`, op.ID, op.K, b.m, k, e, b2i(b.mv))
		return true
	case "setPos":
		b := w.bodies[op.ID]
		if b == nil || b.id == 0 {
			return false
		}
		b.b.SetPosition(cp.Vector{X: float64(op.X), Y: float64(op.Y)})
		w.ev(`{"e":"setPos","id":%d,"x":%d,"y":%d}`, op.ID, op.X, op.Y)
		return true
	case "setRot":
		b := w.bodies[op.ID]
		if b == nil || b.id == 0 || w.sc.Real != 0 {
			return false
		}
		b.rot = op.R
		b.b.SetAngle(rotAngle(op.R))
		w.ev(`{"e":"setRot","id":%d,"r":%d}`, op.ID, op.R)
		return true
	case "setVel":
		b := w.bodies[op.ID]
		if b == nil || b.ty == "S" {
			return false
		}
		b.b.SetVelocity(float64(op.X), float64(op.Y))
		k, e := ke(b.b)
		if b.ty != "D" {
			k, e = 0, 1
		}
		w.ev(`{"e":"setVel","id":%d,"x":%d,"y":%d,"ke":%d,"kex":%d}`, op.ID, op.X, op.Y, k, e)
		return true
	case "touch":
		b := w.bodies[op.ID]
		var s *wShape
		if op.B != 0 {
			s = w.shapes[op.B]
			if s == nil {
				return false
			}
			b = s.body
		}
		if b == nil || b.ty != "D" && (op.Name == "mass" || op.Name == "moment") {
			return false
		}
		w.touch(op.Name, b, s)
		k, e := ke(b.b)
		if b.ty != "D" {
			k, e = 0, 1
		}
		w.ev(`{"e":"touch","id":%d,"ke":%d,"kex":%d,"n":"%s"}`, b.id, k, e, op.Name)
		return true
	case "touchC":
		c := w.cons[op.ID]
		if c == nil {
			return false
		}
		col := -1
		switch op.Name {
		case "maxforce":
			c.c.SetMaxForce(c.c.MaxForce())
		case "maxbias":
			c.c.SetMaxBias(c.c.MaxBias())
		case "errbias":
			c.c.SetErrorBias(c.c.ErrorBias())
		default:
			c.c.SetCollideBodies(op.N == 1)
			col = op.N
		}
		w.ev(`{"e":"touchC","id":%d,"col":%d}`, op.ID, col)
		return true
	case "setSen":
		s := w.shapes[op.ID]
		if s == nil {
			return false
		}
		if t.lock > 0 || (s.body.ty == "D" && s.body.mv && op.N == 0) {
			return false
		}
		s.s.SetSensor(op.N == 1)
		w.ev(`{"e":"setSen","id":%d,"n":%d}`, op.ID, op.N)
		return true
	case "setFil":
		s := w.shapes[op.ID]
		if s == nil || t.lock > 0 {
			return false
		}
		s.s.SetFilter(op.F.cp())
		w.ev(`{"e":"setFil","id":%d,"f":%s}`, op.ID, op.F.js())
		return true
	case "setCt":
		s := w.shapes[op.ID]
		if s == nil || t.lock > 0 {
			return false
		}
		s.s.SetCollisionType(cp.CollisionType(op.T1))
		w.ev(`{"e":"setCt","id":%d,"t":%d}`, op.ID, op.T1)
		return true
	case "grav":
		sp.SetGravity(cp.Vector{X: float64(op.X), Y: float64(op.Y)})
		w.ev(`{"e":"grav","x":%d,"y":%d}`, op.X, op.Y)
		return true
	case "reidx":
		s := w.shapes[op.ID]
		if s == nil || !s.in || !w.canMut() {
			return false
		}
		sp.ReindexShape(s.s)
		w.ev(`{"e":"reidx","id":%d}`, op.ID)
		return true
	case "reshape":
		s := w.shapes[op.ID]
		if s == nil || s.rmving || !w.canMut() || s.body.b.IsSleeping() {
			return false
		}
		v := make([]cp.Vector, len(op.V))
		for i, p := range op.V {
			v[i] = vec(p)
		}
		switch c := s.s.Class.(type) {
		case *cp.Circle:
			c.SetRadius(float64(op.R))
		case *cp.Segment:
			c.SetEndpoints(v[0], v[1])
			c.SetRadius(float64(op.R))
		case *cp.PolyShape:
			c.SetVertsRaw(len(v), v)
			c.SetRadius(float64(op.R))
		}
		s.v = v
		if s.in {
			sp.ReindexShape(s.s)
		} else {
			s.s.CacheBB()
		}
		w.ev(`{"e":"reshape","id":%d,"r":%d,"v":%s}`, op.ID, op.R, intss(op.V))
		return true
	case "hash":
		if !w.canMut() {
			return false
		}
		sp.UseSpatialHash(float64(op.X), op.Y)
		w.ev(`{"e":"hash"}`)
		return true
	case "hp", "hw":
		if t.lock > 0 {
			return false
		}
		a, b := op.T1, op.T2
		if a > b {
			a, b = b, a
		}
		key := fmt.Sprintf("%s.%d.%d", op.O, a, b)
		if op.O == "hw" {
			key = fmt.Sprintf("hw.%d", op.T1)
		}
		if w.hreg[key] {
			return false
		}
		w.hreg[key] = true
		fl := op.Fl
		for len(fl) < 4 {
			fl = append(fl, 0)
		}
		op.Fl = fl
		if op.O == "hp" {
			h := sp.NewCollisionHandler(cp.CollisionType(op.T1), cp.CollisionType(op.T2))
			w.installHandler(h, op, false)
			w.ev(`{"e":"hp","id":%d,"t1":%d,"t2":%d,"fl":%s}`, op.ID, op.T1, op.T2, ints(fl))
		} else {
			h := sp.NewWildcardCollisionHandler(cp.CollisionType(op.T1))
			w.installHandler(h, op, true)
			w.ev(`{"e":"hw","id":%d,"t":%d,"fl":%s}`, op.ID, op.T1, ints(fl))
		}
		return true
	case "hq": // registering a pair or type again gives the same handler back
		if t.lock > 0 {
			return false
		}
		a, b := op.T1, op.T2
		if a > b {
			a, b = b, a
		}
		if op.N == 0 {
			if !w.hreg[fmt.Sprintf("hp.%d.%d", a, b)] {
				return false
			}
			h := sp.NewCollisionHandler(cp.CollisionType(op.T1), cp.CollisionType(op.T2))
			id, _ := h.UserData.(int)
			w.ev(`{"e":"hq","k":"hp","t1":%d,"t2":%d,"id":%d}`, op.T1, op.T2, id)
		} else {
			if !w.hreg[fmt.Sprintf("hw.%d", op.T1)] {
				return false
			}
			h := sp.NewWildcardCollisionHandler(cp.CollisionType(op.T1))
			id, _ := h.UserData.(int)
			w.ev(`{"e":"hq","k":"hw","t1":%d,"t2":0,"id":%d}`, op.T1, id)
		}
		return true
	case "post":
		var key interface{}
		if op.N != 0 {
			key = op.N
		}
		id, ops := op.ID, op.Ops
		r := sp.AddPostStepCallback(func(space *cp.Space, k interface{}, data interface{}) {
			kk, _ := k.(int)
			dd, _ := data.(int)
			if space != w.space {
				dd = -1
			}
			w.ev(`{"e":"run","id":%d,"key":%d}`, dd, kk)
			tt := w.top()
			w.push(ctx{kind: "run", lock: 0, rms: tt.rms || tt.kind == "rms"})
			w.mid()
			w.runOps(ops)
			w.pop()
			w.ev(`{"e":"ret","v":1,"ign":0}`)
		}, key, id)
		w.ev(`{"e":"post","key":%d,"id":%d,"r":%d}`, op.N, op.ID, b2i(r))
		return true
	case "step":
		if t.lock != 0 || t.rms || t.free != "" || (t.kind != "top" && t.kind != "run") {
			return false
		}
		if op.N == 0 {
			sp.Step(0)
			w.ev(`{"e":"step0"}`)
			return true
		}
		w.ev(`{"e":"step","dt":%d,"ke":%s}`, op.N, w.keList())
		w.push(ctx{kind: "step", lock: 0})
		sp.Step(float64(op.N))
		w.pop()
		w.ev(`{"e":"end"}`)
		return true
	case "draw":
		if t.lock != 0 || t.rms || t.free != "" || t.kind != "top" {
			return false
		}
		var bs []*cp.Body
		for _, id := range sortedB(w.bodies) {
			bs = append(bs, w.bodies[id].b)
		}
		w.ev(`{"e":"draw",%s}`, drawing(sp, bs, op.N, 128, shapeID))
		return true
	case "each":
		return w.each(op)
	case "pq", "pn", "sq1", "sf", "col", "sbb":
		return w.query(op)
	}
	return false
}

func (w *World) each(op Op) bool {
	t := w.top()
	sp := w.space
	if t.rms && (op.K == "S" || op.K == "sq" || op.K == "shq" || op.K == "bb" || op.K == "bS" || op.K == "bA") {
		return false
	}
	if (op.K == "bS" || op.K == "bC" || op.K == "bA") && w.bodies[op.ID] == nil {
		return false
	}
	if t.kind == "cb" && op.K == "bA" {
		return false
	}
	bb := []int{0, 0, 0, 0}
	if op.K == "bb" {
		if w.sc.Real != 0 || len(op.BB) != 4 {
			return false
		}
		bb = op.BB
		if s := w.shapes[op.ID]; op.N > 0 && s != nil && s.in && small(s.s) { // touching the box of a shape
			b := s.s.BB()
			l, d, r, t := rnd(b.L), rnd(b.B), rnd(b.R), rnd(b.T)
			switch op.N {
			case 1:
				bb = []int{r, d - 1, r + 5, t}
			case 2:
				bb = []int{l - 5, d, l, t + 1}
			case 3:
				bb = []int{l, t, r + 1, t + 5}
			case 4:
				bb = []int{l - 1, d - 5, r, d}
			}
		}
	}
	extra := ""
	var probe *wShape
	if op.K == "sq" {
		if w.sc.Real != 0 || len(op.V) != 2 || !w.allSmall() || t.rms {
			return false
		}
		extra = fmt.Sprintf(`,"a":%s,"b":%s,"r":%d`, ints(op.V[0]), ints(op.V[1]), op.R)
	}
	if op.K == "shq" {
		probe = w.shapes[op.ID]
		if w.sc.Real != 0 || probe == nil || !w.allSmall() || t.rms {
			return false
		}
		if probe.in && !w.fresh(probe) { // the query takes its body's pose; the index hears of it afterwards
			if p := probe.body.b.Position(); !w.canMut() || math.Abs(p.X) > 30 || math.Abs(p.Y) > 30 {
				return false
			}
			op.Beh = nil
			defer func() {
				w.space.ReindexShape(probe.s)
				w.ev(`{"e":"reidx","id":%d}`, op.ID)
			}()
		}
	}
	w.ev(`{"e":"each","k":"%s","id":%d,"bb":%s,"f":%s%s}`, op.K, op.ID, ints(bb), op.F.js(), extra)
	w.calls++
	key := fmt.Sprintf("e%d", w.calls)
	det, res := "", ""
	vis := func(lock int, free string, subj int, v ...int) {
		if len(v) == 1 {
			w.ev(`{"e":"vis","v":%d%s}`, v[0], det)
		} else {
			w.ev(`{"e":"vis","v":%s}`, ints(v))
		}
		bh := w.behOf(op.Beh, key, 0)
		w.push(ctx{kind: "vis", lock: t.lock + lock, free: free, rms: t.rms, subj: subj})
		w.mid()
		w.runOps(bh.Ops)
		w.pop()
		w.ev(`{"e":"ret","v":1,"ign":0}`)
	}
	w.push(ctx{kind: "each", lock: t.lock, rms: t.rms, free: t.free})
	switch op.K {
	case "B":
		sp.EachBody(func(b *cp.Body) { vis(1, t.free, 0, bodyID(b)) })
	case "S":
		sp.EachShape(func(s *cp.Shape) { vis(1, t.free, 0, shapeID(s)) })
	case "C":
		sp.EachConstraint(func(c *cp.Constraint) { vis(1, t.free, 0, c.UserData.(*wCon).id) })
	case "bS":
		w.bodies[op.ID].b.EachShape(func(s *cp.Shape) { vis(0, "bS", 0, shapeID(s)) })
	case "bC":
		w.bodies[op.ID].b.EachConstraint(func(c *cp.Constraint) {
			id := c.UserData.(*wCon).id
			vis(0, "bC", id, id)
		})
	case "bA":
		w.bodies[op.ID].b.EachArbiter(func(a *cp.Arbiter) {
			s1, s2 := a.Shapes()
			vis(0, "bA", 0, shapeID(s1), shapeID(s2))
		})
	case "bb":
		sp.BBQuery(cp.BB{L: float64(bb[0]), B: float64(bb[1]), R: float64(bb[2]), T: float64(bb[3])}, op.F.cp(), func(s *cp.Shape, data interface{}) {
			id := shapeID(s)
			if d, ok := data.(int); !ok || d != 77 {
				id = -1
			}
			vis(1, t.free, 0, id)
		}, 77)
	case "sq":
		sp.SegmentQuery(vec(op.V[0]), vec(op.V[1]), float64(op.R), op.F.cp(), func(s *cp.Shape, point, normal cp.Vector, alpha float64, data interface{}) {
			id := shapeID(s)
			if d, ok := data.(int); !ok || d != 78 {
				id = -1
			}
			det = fmt.Sprintf(`,"al":%d,"pt":%s,"n":%s`, fix(alpha, 100000), fixv(point, 128), fixv(normal, 10000))
			vis(1, t.free, 0, id)
		}, 78)
	case "shq":
		r := sp.ShapeQuery(probe.s, func(s *cp.Shape, points *cp.ContactPointSet) {
			if !small(probe.s) || !small(s) {
				det = `,"n":[],"pts":[]`
			} else {
				det = "," + contactSet("n", "pts", points)
			}
			vis(1, t.free, 0, shapeID(s))
		})
		res = fmt.Sprintf(`,"res":%d`, b2i(r))
	}
	w.pop()
	w.ev(`{"e":"end"%s}`, res)
	return true
}

func runWorld(sc *Script, out *recorder) { worldOf(sc, out, nil) }

func worldOf(sc *Script, out *recorder, in *instance) {
	w := &World{in: in, sc: sc, bodies: map[int]*wBody{}, shapes: map[int]*wShape{}, cons: map[int]*wCon{}, out: out,
		hreg: map[string]bool{}, hfl: map[int][]int{}, fcalls: map[string]int{}, limit: 4000}
	w.push(ctx{kind: "top"})
	if in != nil {
		c := *sc
		c.ID, c.Ops = "", nil
		in.at("beg", opKey(c))
	}
	w.space = cp.NewSpace()
	w.space.Iterations = 5
	w.space.SetGravity(cp.Vector{X: float64(sc.GX), Y: float64(sc.GY)})
	if sc.SleepT >= 0 {
		w.space.SleepTimeThreshold = float64(sc.SleepT)
	}
	w.space.IdleSpeedThreshold = float64(sc.IdleSp)
	if len(sc.Hash) == 2 {
		w.space.UseSpatialHash(float64(sc.Hash[0]), sc.Hash[1])
	}
	sb := &wBody{id: 0, b: w.space.StaticBody, ty: "S", mv: true}
	sb.b.UserData = sb
	w.bodies[0] = sb
	w.ev(`{"e":"conf","sleepT":%d,"idleSp":%d,"gx":%d,"gy":%d,"real":%d}`, sc.SleepT, sc.IdleSp, sc.GX, sc.GY, sc.Real)
	if in != nil {
		in.static = w.static
		in.at("end", "")
	}
	w.runOps(sc.Ops)
}

var _ = rand.Int

// static is the exact observable state of the space between operations
func (w *World) static() string {
	h := &bits{}
	for _, id := range sortedB(w.bodies) {
		h.i(id)
		h.body(w.bodies[id].b, shapeID)
	}
	for _, id := range sortedS(w.shapes) {
		h.i(b2i(w.space.ContainsShape(w.shapes[id].s)))
		h.shape(w.shapes[id].s)
	}
	for _, id := range sortedC(w.cons) {
		h.i(b2i(w.space.ContainsConstraint(w.cons[id].c)))
		h.f(w.cons[id].c.Class.GetImpulse())
	}
	return h.sum()
}
