package main

// Dynamics family: the motion of bodies, contact response, joints and mass properties.

import (
	"fmt"
	"math"
	"strings"

	cp "github.com/jakecoffman/cp/v2"
)

const dynS = 4096

// fx writes a number in fixed point; what does not fit shows as a value no specification has.
func fx(f float64) string { return fmt.Sprint(fxi(f)) }

func fxi(f float64) int {
	if math.IsNaN(f) {
		return 536870913
	}
	r := math.Round(f * dynS)
	if r > 536870912 {
		return 536870912
	}
	if r < -536870912 {
		return -536870912
	}
	return int(r)
}

func fxs(f ...float64) string {
	s := make([]string, len(f))
	for i, x := range f {
		s[i] = fx(x)
	}
	return "[" + strings.Join(s, ",") + "]"
}

func inf(f float64) string {
	if f >= cp.INFINITY {
		return "-1"
	}
	return fx(f)
}

type dynShape struct {
	s    *cp.Shape
	rej  bool
	beg  bool
	adj  bool
	on   bool
	body int
}

type dynJoint struct {
	c         *cp.Constraint
	on        bool
	pre, post int
	cf        bool
	eb        float64 // error bias that was asked for
}

type dyn struct {
	sp     *cp.Space
	out    *recorder
	bs     []*cp.Body
	ss     []*dynShape
	js     []*dynJoint
	sid    map[*cp.Shape]int
	bid    map[*cp.Body]int
	in     map[int]bool
	damp   float64
	cbias  float64
	ar     []string
	arIdx  map[[2]int]int
	vf, pf []string
	dt     int
	in2    *instance
}

func (d *dyn) st() string {
	s := make([]string, len(d.bs))
	for i, b := range d.bs {
		c := b.CenterOfGravity()
		p := b.LocalToWorld(c)
		q := b.Position()
		r := b.Rotation()
		v := b.Velocity()
		f := b.Force()
		s[i] = "[" + strings.Join([]string{fx(p.X), fx(p.Y), fx(q.X), fx(q.Y), fx(b.Angle()), fx(r.X), fx(r.Y), fx(v.X), fx(v.Y), fx(b.AngularVelocity()),
			fx(f.X), fx(f.Y), fx(b.Torque()), inf(b.Mass()), inf(b.Moment()), fx(c.X), fx(c.Y), fmt.Sprint(b.GetType())}, ",") + "]"
	}
	return "[" + strings.Join(s, ",") + "]"
}

// calm: the next step cannot leave the range of the specification unless something is wrong
func (d *dyn) calm() bool {
	for i, b := range d.bs {
		p, v := b.Position(), b.Velocity()
		if math.Abs(p.X) > 60 || math.Abs(p.Y) > 60 || math.Abs(v.X) > 20 || math.Abs(v.Y) > 20 || math.Abs(b.AngularVelocity()) > 14 || math.Abs(b.Angle()) > 60 {
			return false
		}
		if d.in[i+1] && b.GetType() == cp.BODY_DYNAMIC && (b.Mass() < 0.2 || b.Moment() < 0.2 || b.Moment() > 100 || b.Mass() > 30) {
			return false
		}
		if f := b.Force(); math.Abs(f.X) > 100 || math.Abs(f.Y) > 100 || math.Abs(b.Torque()) > 100 {
			return false
		}
	}
	return true
}

func (d *dyn) contact(arb *cp.Arbiter) string {
	a, b := arb.Shapes()
	set := arb.ContactPointSet()
	n := arb.Normal()
	if n != set.Normal {
		n = cp.Vector{X: math.NaN(), Y: math.NaN()}
	}
	x := []string{fmt.Sprint(d.sid[a]), fmt.Sprint(d.sid[b]), "%d", fx(n.X), fx(n.Y), fmt.Sprint(set.Count)}
	for k := 0; k < 2; k++ {
		if k < set.Count {
			p := set.Points[k]
			x = append(x, fx(p.PointA.X), fx(p.PointA.Y), fx(p.PointB.X), fx(p.PointB.Y))
		} else {
			x = append(x, "0", "0", "0", "0")
		}
	}
	return strings.Join(x, ",")
}

func geo(v [][]int) []cp.Vector {
	r := make([]cp.Vector, len(v))
	for i, p := range v {
		r[i] = cp.Vector{X: float64(p[0]) / 4, Y: float64(p[1]) / 4}
	}
	return r
}

func fxv(v []cp.Vector) string {
	s := make([]string, len(v))
	for i, p := range v {
		s[i] = fxs(p.X, p.Y)
	}
	return "[" + strings.Join(s, ",") + "]"
}

func (d *dyn) ja() string {
	s := make([]string, len(d.js))
	for i, j := range d.js {
		s[i] = "0"
		if r, ok := j.c.Class.(*cp.RatchetJoint); ok {
			s[i] = fx(r.Angle)
		}
	}
	return "[" + strings.Join(s, ",") + "]"
}

func jointParams(c *cp.Constraint, fv []float64) []float64 {
	switch j := c.Class.(type) {
	case *cp.PinJoint:
		return []float64{j.AnchorA.X, j.AnchorA.Y, j.AnchorB.X, j.AnchorB.Y, j.Dist}
	case *cp.SlideJoint:
		return []float64{j.AnchorA.X, j.AnchorA.Y, j.AnchorB.X, j.AnchorB.Y, j.Min, j.Max}
	case *cp.PivotJoint:
		return []float64{j.AnchorA.X, j.AnchorA.Y, j.AnchorB.X, j.AnchorB.Y}
	case *cp.GrooveJoint:
		return []float64{j.GrooveA.X, j.GrooveA.Y, j.GrooveB.X, j.GrooveB.Y, j.AnchorB.X, j.AnchorB.Y}
	case *cp.DampedSpring:
		return []float64{j.AnchorA.X, j.AnchorA.Y, j.AnchorB.X, j.AnchorB.Y, j.RestLength, j.Stiffness, j.Damping}
	case *cp.RotaryLimitJoint:
		return []float64{j.Min, j.Max}
	case *cp.RatchetJoint:
		return []float64{j.Phase, j.Ratchet}
	case *cp.SimpleMotor:
		return []float64{j.Rate}
	case *cp.DampedRotarySpring:
		return []float64{j.RestAngle, j.Stiffness, j.Damping}
	}
	return fv
}

// pj writes the parameters of a joint; springs also say whether they have a function of their own
func (d *dyn) pj(j *dynJoint, fv []float64) string {
	p := fxs(jointParams(j.c, fv)...)
	switch j.c.Class.(type) {
	case *cp.DampedSpring, *cp.DampedRotarySpring:
		p = p[:len(p)-1] + fmt.Sprintf(",%d]", b2i(j.cf))
	}
	return p
}

func (d *dyn) newJoint(op Op) (*cp.Constraint, string) {
	a, b := d.bs[op.A-1], d.bs[op.B-1]
	p := op.FV
	v := func(k int) cp.Vector { return cp.Vector{X: p[k], Y: p[k+1]} }
	switch op.K {
	case "pin":
		return cp.NewPinJoint(a, b, v(0), v(2)), "[]"
	case "slide":
		return cp.NewSlideJoint(a, b, v(0), v(2), p[4], p[5]), "[]"
	case "pivot":
		if len(p) == 2 {
			return cp.NewPivotJoint(a, b, v(0)), fxs(p[0], p[1])
		}
		return cp.NewPivotJoint2(a, b, v(0), v(2)), "[]"
	case "groove":
		return cp.NewGrooveJoint(a, b, v(0), v(2), v(4)), "[]"
	case "spring":
		return cp.NewDampedSpring(a, b, v(0), v(2), p[4], p[5], p[6]), "[]"
	case "rlimit":
		return cp.NewRotaryLimitJoint(a, b, p[0], p[1]), "[]"
	case "ratchet":
		return cp.NewRatchetJoint(a, b, p[0], p[1]), "[]"
	case "gear":
		return cp.NewGearJoint(a, b, p[0], p[1]), "[]"
	case "motor":
		return cp.NewSimpleMotor(a, b, p[0]), "[]"
	case "rspring":
		return cp.NewDampedRotarySpring(a, b, p[0], p[1], p[2]), "[]"
	}
	panic("joint " + op.K)
}

func setJoint(c *cp.Constraint, p []float64) {
	v := func(k int) cp.Vector { return cp.Vector{X: p[k], Y: p[k+1]} }
	switch j := c.Class.(type) {
	case *cp.PinJoint:
		j.AnchorA, j.AnchorB, j.Dist = v(0), v(2), p[4]
	case *cp.SlideJoint:
		j.AnchorA, j.AnchorB, j.Min, j.Max = v(0), v(2), p[4], p[5]
	case *cp.PivotJoint:
		j.AnchorA, j.AnchorB = v(0), v(2)
	case *cp.DampedSpring:
		j.AnchorA, j.AnchorB, j.RestLength, j.Stiffness, j.Damping = v(0), v(2), p[4], p[5], p[6]
	case *cp.RotaryLimitJoint:
		j.Min, j.Max = p[0], p[1]
	case *cp.SimpleMotor:
		j.Rate = p[0]
	case *cp.DampedRotarySpring:
		j.RestAngle, j.Stiffness, j.Damping = p[0], p[1], p[2]
	}
}

func (d *dyn) setup(op Op) {
	d.sp = cp.NewSpace()
	sp := d.sp
	p := op.FV // gx gy iterations slop damping collisionBias(0 default)
	sp.SetGravity(cp.Vector{X: p[0], Y: p[1]})
	if p[2] > 0 {
		sp.Iterations = uint(p[2])
	}
	slop := 0.1
	if p[3] >= 0 {
		slop = p[3]
		sp.SetCollisionSlop(slop)
	}
	d.damp = 1
	if p[4] > 0 {
		d.damp = p[4]
		sp.SetDamping(d.damp)
	}
	d.cbias = math.Pow(0.9, 60)
	d.bs = []*cp.Body{sp.StaticBody}
	d.bid = map[*cp.Body]int{sp.StaticBody: 1}
	d.sid = map[*cp.Shape]int{}
	d.in = map[int]bool{}
	// with types, the handlers show some of the pairs in the other order
	pairs := [][2]cp.CollisionType{{0, 0}}
	if op.M == 1 {
		pairs = [][2]cp.CollisionType{{0, 0}, {1, 1}, {1, 0}}
	} else if op.M == 2 {
		pairs = [][2]cp.CollisionType{{0, 0}, {1, 1}, {0, 1}}
	}
	for _, p := range pairs {
		d.handle(sp.NewCollisionHandler(p[0], p[1]))
	}
	d.out.add(fmt.Sprintf(`{"e":"init","g":%s,"it":%d,"slop":%s,"st":%s}`, fxs(p[0], p[1]), sp.Iterations, fx(slop), d.st()))
}

func (d *dyn) handle(h *cp.CollisionHandler) {
	h.BeginFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool {
		a, b := arb.Shapes()
		return !(d.ss[d.sid[a]-1].beg || d.ss[d.sid[b]-1].beg)
	}
	h.PreSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool {
		if d.in2 != nil {
			d.in2.at("mid", "")
		}
		a, b := arb.Shapes()
		x, y := d.ss[d.sid[a]-1], d.ss[d.sid[b]-1]
		d.arIdx[[2]int{d.sid[a], d.sid[b]}] = len(d.ar)
		if x.adj || y.adj {
			d.adjust(arb)
		}
		d.ar = append(d.ar, d.contact(arb))
		return !(x.rej || y.rej)
	}
	h.PostSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) {
		a, b := arb.Shapes()
		k, ok := d.arIdx[[2]int{d.sid[a], d.sid[b]}]
		if !ok {
			d.out.add(`{"e":"odd","why":"a postSolve without preSolve"}`)
			return
		}
		j := arb.TotalImpulse()
		d.ar[k] = fmt.Sprintf(d.ar[k], 1) + "," + fx(j.X) + "," + fx(j.Y)
	}
}

// adjust replaces the contacts by others of the same number; what is not what it was set to is no number.
func (d *dyn) adjust(arb *cp.Arbiter) {
	set := arb.ContactPointSet()
	a := 0.3
	if set.Normal.X > 0.2 {
		a = -0.2
	}
	set.Normal = set.Normal.Rotate(cp.Vector{X: math.Cos(a), Y: math.Sin(a)})
	for k := 0; k < set.Count; k++ {
		p := &set.Points[k]
		p.PointA = p.PointA.Add(cp.Vector{X: 0.125, Y: -0.0625})
		p.PointB = p.PointB.Add(cp.Vector{X: -0.0625, Y: 0.125})
		p.Distance = p.PointB.Sub(p.PointA).Dot(set.Normal)
	}
	arb.SetContactPointSet(&set)
	got := arb.ContactPointSet()
	off := func(v, w cp.Vector) bool { return !(math.Abs(v.X-w.X) < 1e-9 && math.Abs(v.Y-w.Y) < 1e-9) }
	wrong := got.Count != set.Count || off(got.Normal, set.Normal)
	for k := 0; k < set.Count && !wrong; k++ {
		p, q := got.Points[k], set.Points[k]
		wrong = off(p.PointA, q.PointA) || off(p.PointB, q.PointB) || !(math.Abs(p.Distance-q.Distance) < 1e-9)
	}
	if wrong {
		d.out.add(`{"e":"odd","why":"the contacts are not those that were set"}`)
	}
}

// get reads back what was set.
func (d *dyn) get() {
	var l []string
	for k, x := range d.ss {
		s := x.s
		r := 0.0
		switch c := s.Class.(type) {
		case *cp.Circle:
			r = c.Radius()
		case *cp.Segment:
			r = c.Radius()
		case *cp.PolyShape:
			r = c.Radius()
		}
		where := 0
		if s.Space() == d.sp {
			where = 1
		} else if s.Space() != nil {
			where = 2
		}
		l = append(l, fmt.Sprintf("[%d,%d,%s,%s,%s,%d,%s,%s,%s,%d]", k+1, d.bid[s.Body()], fx(s.Elasticity()), fx(s.Friction()), fx(r), b2i(s.Sensor()),
			fx(s.Mass()), fx(s.Area()), fx(s.Density()), where))
	}
	g := d.sp.Gravity()
	dt := d.dt
	if dt != 0 {
		d.out.add(fmt.Sprintf(`{"e":"get","s":[%s],"g":%s,"damp":%s,"was":%s,"dt":%s,"q":%d,"st":%s}`, strings.Join(l, ","), fxs(g.X, g.Y),
			fx(d.sp.Damping()), fx(d.damp), d.dtq(d.sp.TimeStep()), dt, d.st()))
	}
}

func (d *dyn) body(op Op) {
	p := op.FV // m i x y a vx vy w
	var b *cp.Body
	switch op.K {
	case "d":
		b = cp.NewBody(p[0], p[1])
	case "k":
		b = cp.NewKinematicBody()
	case "s":
		b = cp.NewStaticBody()
	}
	b.SetPosition(cp.Vector{X: p[2], Y: p[3]})
	b.SetAngle(p[4])
	b.SetVelocity(p[5], p[6])
	b.SetAngularVelocity(p[7])
	in := op.N == 0
	if in {
		d.sp.AddBody(b)
	}
	d.bs = append(d.bs, b)
	d.bid[b] = len(d.bs)
	d.in[len(d.bs)] = in
	d.out.add(fmt.Sprintf(`{"e":"body","ty":%d,"in":%d,"p":%s,"st":%s}`, b.GetType(), b2i(in), fxs(p...), d.st()))
}

func (d *dyn) shape(op Op) {
	p := op.FV // r e u svx svy m
	b := d.bs[op.B-1]
	v := geo(op.V)
	var s *cp.Shape
	switch op.K {
	case "c":
		s = cp.NewCircle(b, p[0], v[0])
	case "s":
		s = cp.NewSegment(b, v[0], v[1], p[0])
	case "p":
		s = cp.NewPolyShapeRaw(b, len(v), v, p[0])
	}
	if p[5] > 0 {
		s.SetMass(p[5])
	}
	s.SetElasticity(p[1])
	s.SetFriction(p[2])
	s.SetSurfaceV(cp.Vector{X: p[3], Y: p[4]})
	fl := append(append([]int{}, op.Fl...), 0, 0, 0, 0, 0, 0)
	if fl[0] == 1 {
		s.SetSensor(true)
	}
	if fl[3] == 1 { // no collisions
		s.SetFilter(cp.SHAPE_FILTER_NONE)
	}
	if fl[4] == 1 {
		s.SetCollisionType(1)
	}
	d.ss = append(d.ss, &dynShape{s, fl[1] == 1, fl[2] == 1, fl[5] == 1, true, op.B})
	d.sid[s] = len(d.ss)
	d.sp.AddShape(s)
	d.out.add(fmt.Sprintf(`{"e":"shape","id":%d,"b":%d,"k":"%s","v":%s,"r":%s,"el":%s,"u":%s,"sv":%s,"m":%s,"fl":%s,"st":%s}`,
		len(d.ss), op.B, op.K, fxv(v), fx(p[0]), fx(p[1]), fx(p[2]), fxs(p[3], p[4]), fx(p[5]), ints(fl), d.st()))
}

func (d *dyn) call(op Op) {
	b := d.bs[op.B-1]
	p := op.FV
	v := func(k int) cp.Vector { return cp.Vector{X: p[k], Y: p[k+1]} }
	if (op.K == "impW" || op.K == "impL") && b.Moment() < 0.2 {
		return
	}
	switch op.K {
	case "setv":
		if op.N == 1 {
			b.SetVelocityVector(v(0))
		} else {
			b.SetVelocity(p[0], p[1])
		}
	case "setw":
		b.SetAngularVelocity(p[0])
	case "setpos":
		b.SetPosition(v(0))
	case "setangle":
		b.SetAngle(p[0])
	case "setforce":
		b.SetForce(v(0))
	case "settorque":
		b.SetTorque(p[0])
	case "forceW":
		b.ApplyForceAtWorldPoint(v(0), v(2))
	case "forceL":
		b.ApplyForceAtLocalPoint(v(0), v(2))
	case "impW":
		b.ApplyImpulseAtWorldPoint(v(0), v(2))
	case "impL":
		b.ApplyImpulseAtLocalPoint(v(0), v(2))
	case "setmass":
		b.SetMass(p[0])
	case "setmoment":
		b.SetMoment(p[0])
	case "type":
		b.SetType(int(p[0]))
		d.out.add(fmt.Sprintf(`{"e":"op","k":"type","b":%d,"a":[%d],"st":%s}`, op.B, int(p[0]), d.st()))
		return
	case "vfn":
		id := op.B
		if p[0] == 0 {
			b.SetVelocityUpdateFunc(cp.BodyUpdateVelocity)
		} else {
			b.SetVelocityUpdateFunc(func(b *cp.Body, g cp.Vector, damping, dt float64) {
				d.vf = append(d.vf, fmt.Sprintf("[%d,%s,%s,%s,%s]", d.bid[b], fx(g.X), fx(g.Y), fx(damping), d.dtq(dt)))
				if b.GetType() == cp.BODY_DYNAMIC {
					if id%2 == 0 {
						cp.BodyUpdateVelocity(b, g.Mult(0.5), damping, dt)
					} else {
						b.UpdateVelocity(g.Mult(0.5), damping, dt)
					}
				} else {
					b.SetVelocity(1, 0.5)
					b.SetAngularVelocity(0.25)
				}
			})
		}
	case "pfn":
		if p[0] == 0 {
			b.SetPositionUpdateFunc(cp.BodyUpdatePosition)
		} else {
			b.SetPositionUpdateFunc(func(b *cp.Body, dt float64) {
				d.pf = append(d.pf, fmt.Sprintf("[%d,%s]", d.bid[b], d.dtq(dt)))
				cp.BodyUpdatePosition(b, dt/2)
			})
		}
	case "in":
		if (p[0] == 1) == d.in[op.B] {
			return
		}
		if p[0] == 1 {
			d.sp.AddBody(b)
		} else {
			d.sp.RemoveBody(b)
		}
		d.in[op.B] = p[0] == 1
	default:
		panic("call " + op.K)
	}
	a := fxs(p...)
	if op.K == "vfn" || op.K == "pfn" || op.K == "in" {
		a = fmt.Sprintf("[%d]", int(p[0]))
	}
	d.out.add(fmt.Sprintf(`{"e":"op","k":"%s","b":%d,"a":%s,"st":%s}`, op.K, op.B, a, d.st()))
}

func (d *dyn) dtq(dt float64) string {
	if dt*64 == math.Trunc(dt*64) {
		return fmt.Sprint(int(dt * 64))
	}
	return "-1"
}

func (d *dyn) shapeCall(op Op) {
	x := d.ss[op.ID-1]
	if !x.on {
		return
	}
	s := x.s
	p := op.FV
	v := geo(op.V)
	switch op.K {
	case "mass":
		s.SetMass(p[0])
	case "dens":
		s.SetDensity(p[0])
	case "rad":
		switch c := s.Class.(type) {
		case *cp.Circle:
			c.SetRadius(p[0])
		case *cp.Segment:
			c.SetRadius(p[0])
		default:
			return
		}
	case "verts":
		switch c := s.Class.(type) {
		case *cp.Segment:
			v = v[:2]
			c.SetEndpoints(v[0], v[1])
		case *cp.PolyShape:
			c.SetVertsRaw(len(v), v)
		default:
			return
		}
	case "e":
		s.SetElasticity(p[0])
	case "u":
		s.SetFriction(p[0])
	case "sv":
		s.SetSurfaceV(cp.Vector{X: p[0], Y: p[1]})
	case "rm":
		d.sp.RemoveShape(s)
		x.on = false
	}
	c := s.CenterOfGravity()
	d.out.add(fmt.Sprintf(`{"e":"sop","k":"%s","id":%d,"a":%s,"v":%s,"in":%s,"st":%s}`, op.K, op.ID, fxs(p...), fxv(v),
		fxs(s.Mass(), s.Area(), c.X, c.Y, s.Moment()), d.st()))
}

func (d *dyn) joint(op Op) {
	c, pv := d.newJoint(op)
	j := &dynJoint{c: c, on: true, eb: math.Pow(0.9, 60)}
	if len(op.Fl) > 0 && op.Fl[0] == 1 {
		c.SetCollideBodies(false)
	}
	c.PreSolve = func(*cp.Constraint, *cp.Space) { j.pre++ }
	c.PostSolve = func(*cp.Constraint, *cp.Space) { j.post++ }
	if len(op.Fl) > 1 && op.Fl[1] == 1 {
		switch s := c.Class.(type) {
		case *cp.DampedSpring:
			j.cf = true
			s.SpringForceFunc = func(s *cp.DampedSpring, _ float64) float64 { return s.Stiffness }
		case *cp.DampedRotarySpring:
			j.cf = true
			s.SpringTorqueFunc = func(s *cp.DampedRotarySpring, _ float64) float64 { return s.Stiffness }
		}
	}
	d.js = append(d.js, j)
	d.sp.AddConstraint(c)
	ja := "0"
	if r, ok := c.Class.(*cp.RatchetJoint); ok {
		ja = fx(r.Angle)
	}
	d.out.add(fmt.Sprintf(`{"e":"joint","id":%d,"k":"%s","a":%d,"b":%d,"p":%s,"asked":%s,"mf":%s,"mb":%s,"ja":%s,"pv":%s,"st":%s}`,
		len(d.js), op.K, op.A, op.B, d.pj(j, op.FV), fxs(op.FV...), inf(c.MaxForce()), inf(c.MaxBias()), ja, pv, d.st()))
}

func (d *dyn) jointCall(op Op) {
	j := d.js[op.ID-1]
	p := op.FV
	a := fxs(p...)
	switch op.K {
	case "mf", "mb":
		x := p[0]
		if op.K == "mb" && x < 0 && j.eb == 0 {
			return // would correct any error within one step
		}
		if x < 0 {
			x = cp.INFINITY
		}
		if op.K == "mf" {
			j.c.SetMaxForce(x)
		} else {
			j.c.SetMaxBias(x)
		}
		a = "[" + inf(x) + "]"
	case "eb":
		j.c.SetErrorBias(p[0])
		j.eb = p[0]
	case "p":
		setJoint(j.c, p)
		a = d.pj(j, p)
	case "rm":
		if !j.on {
			return
		}
		d.sp.RemoveConstraint(j.c)
		j.on = false
	}
	d.out.add(fmt.Sprintf(`{"e":"jop","k":"%s","id":%d,"a":%s,"got":[%s,%s,%s],"eb":%s,"st":%s}`,
		op.K, op.ID, a, inf(j.c.MaxForce()), inf(j.c.MaxBias()), fx(j.c.ErrorBias()), fx(j.eb), d.st()))
}

func (d *dyn) step(q int) {
	if q != 0 {
		d.dt = q
	}
	d.ar, d.vf, d.pf = nil, nil, nil
	d.arIdx = map[[2]int]int{}
	for _, j := range d.js {
		j.pre, j.post = 0, 0
	}
	dt := float64(q) / 64
	d.sp.Step(dt)
	var ec, ji, jc []string
	for _, j := range d.js {
		r := 0.0
		if q > 0 {
			r = (1 - math.Pow(j.eb, dt)) / dt
		}
		ec = append(ec, fx(r))
		ji = append(ji, fx(j.c.Class.GetImpulse()))
		jc = append(jc, fmt.Sprintf("[%d,%d]", j.pre, j.post))
	}
	for k := range d.ar {
		if strings.Contains(d.ar[k], "%d") {
			d.ar[k] = fmt.Sprintf(d.ar[k], 0) + ",0,0"
		}
		d.ar[k] = "[" + d.ar[k] + "]"
	}
	l := func(s []string) string { return "[" + strings.Join(s, ",") + "]" }
	d.out.add(fmt.Sprintf(`{"e":"step","q":%d,"dmp":%s,"cb":%s,"ec":%s,"ji":%s,"jc":%s,"ja":%s,"ar":%s,"vf":%s,"pf":%s,"st":%s}`, q,
		fx(math.Pow(d.damp, dt)), fx(1-math.Pow(d.cbias, dt)), l(ec), l(ji), l(jc), d.ja(), l(d.ar), l(d.vf), l(d.pf), d.st()))
}

func (d *dyn) query(op Op) {
	b := d.bs[op.B-1]
	var r cp.Vector
	var p cp.Vector
	if len(op.FV) == 2 {
		p = cp.Vector{X: op.FV[0], Y: op.FV[1]}
	}
	switch op.K {
	case "l2w":
		r = b.LocalToWorld(p)
	case "w2l":
		r = b.WorldToLocal(p)
	case "vw":
		r = b.VelocityAtWorldPoint(p)
	case "vl":
		r = b.VelocityAtLocalPoint(p)
	case "ke":
		r.X = b.KineticEnergy()
	}
	d.out.add(fmt.Sprintf(`{"e":"q","k":"%s","b":%d,"a":%s,"r":%s,"st":%s}`, op.K, op.B, fxs(p.X, p.Y), fxs(r.X, r.Y), d.st()))
}

func formula(op Op, out *recorder) {
	p := op.FV
	v := geo(op.V)
	var r, r2 float64
	switch op.K {
	case "areac":
		r = cp.AreaForCircle(p[0], p[1])
	case "areas":
		r = cp.AreaForSegment(v[0], v[1], p[0])
	case "areap":
		r = cp.AreaForPoly(len(v), v, p[0])
	case "momc":
		r = cp.MomentForCircle(p[0], p[1], p[2], cp.Vector{X: p[3], Y: p[4]})
	case "momb": // mass, width, height, centre
		if p[3] == 0 && p[4] == 0 && op.N == 0 {
			r = cp.MomentForBox(p[0], p[1], p[2])
		} else {
			r = cp.MomentForBox2(p[0], cp.BB{L: p[3] - p[1]/2, B: p[4] - p[2]/2, R: p[3] + p[1]/2, T: p[4] + p[2]/2})
		}
	case "moms":
		r = cp.MomentForSegment(p[0], v[0], v[1], p[1])
	case "momp":
		r = cp.MomentForPoly(p[0], len(v), v, cp.Vector{X: p[1], Y: p[2]}, 0)
	case "cent":
		c := cp.CentroidForPoly(len(v), v)
		r, r2 = c.X, c.Y
	}
	out.add(fmt.Sprintf(`{"e":"f","k":"%s","a":%s,"v":%s,"r":%s,"r2":%s}`, op.K, fxs(p...), fxv(v), fx(r), fx(r2)))
}

func (d *dyn) static() string {
	h := &bits{}
	for _, b := range d.bs {
		h.body(b, func(s *cp.Shape) int { return d.sid[s] })
	}
	for _, s := range d.ss {
		h.shape(s.s)
	}
	for _, j := range d.js {
		h.f(j.c.Class.GetImpulse(), j.c.MaxForce(), j.c.MaxBias(), j.c.ErrorBias())
	}
	return h.sum()
}

func runDyn(sc *Script, out *recorder) { dynOf(sc, out, nil) }

func dynOf(sc *Script, out *recorder, in *instance) {
	d := &dyn{out: out}
	if in != nil {
		in.static, d.in2 = d.static, in
	}
	for k, op := range sc.Ops {
		if in != nil {
			if k > 0 {
				in.at("end", "")
			}
			in.at("beg", opKey(op))
		}
		switch op.O {
		case "init":
			d.setup(op)
		case "body":
			d.body(op)
		case "shape":
			d.shape(op)
		case "op":
			d.call(op)
		case "sop":
			d.shapeCall(op)
		case "joint":
			d.joint(op)
		case "jop":
			d.jointCall(op)
		case "q":
			d.query(op)
		case "f":
			formula(op, out)
		case "get":
			d.get()
		case "sp":
			p := op.FV
			switch op.K {
			case "g":
				d.sp.SetGravity(cp.Vector{X: p[0], Y: p[1]})
			case "slop":
				d.sp.SetCollisionSlop(p[0])
			case "damp":
				d.damp = p[0]
				d.sp.SetDamping(p[0])
			case "it":
				d.sp.Iterations = uint(p[0])
			}
			a := fxs(p...)
			if op.K == "it" {
				a = fmt.Sprintf("[%d]", int(p[0]))
			}
			out.add(fmt.Sprintf(`{"e":"sp","k":"%s","a":%s,"st":%s}`, op.K, a, d.st()))
		case "draw":
			out.add(fmt.Sprintf(`{"e":"draw",%s,"st":%s}`, drawing(d.sp, d.bs, op.N, dynS, func(s *cp.Shape) int { return d.sid[s] }), d.st()))
		case "step":
			for k := 0; k < 1+op.M; k++ {
				if !d.calm() {
					if in != nil {
						in.at("end", "")
					}
					return
				}
				d.step(op.N)
			}
		}
	}
	if in != nil {
		in.at("end", "")
	}
}
