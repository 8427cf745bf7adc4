package main

// Algebra family: vectors, bounding boxes, transforms and scalars, one operation per event.

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	cp "github.com/jakecoffman/cp/v2"
)

// alg reads the arguments of an operation, eighths times the scale of the scenario, and scales the answers back.
type alg struct {
	a []int
	k float64
}

func (g alg) u(i int) float64 { return float64(g.a[i]) / 8 }       // a number or an angle
func (g alg) l(i int) float64 { return float64(g.a[i]) / 8 * g.k } // a length
func (g alg) v(i int) cp.Vector {
	return cp.Vector{X: g.l(i), Y: g.l(i + 1)}
}
func (g alg) bb(i int) cp.BB { return cp.NewBB(g.l(i), g.l(i+1), g.l(i+2), g.l(i+3)) }

// t is the transform <<a, b, c, d, tx, ty>>.
func (g alg) t(i int) cp.Transform {
	return cp.NewTransform(g.u(i), g.u(i+2), g.l(i+4), g.u(i+1), g.u(i+3), g.l(i+5))
}
func (g alg) one(f float64) []float64 { return []float64{f} }
func (g alg) len(f float64) []float64 { return []float64{f / g.k} }
func (g alg) sq(f float64) []float64  { return []float64{f / g.k / g.k} }
func (g alg) vec(v cp.Vector) []float64 {
	return []float64{v.X / g.k, v.Y / g.k}
}
func (g alg) vec2(v cp.Vector) []float64 {
	return []float64{v.X / g.k / g.k, v.Y / g.k / g.k}
}
func (g alg) dir(v cp.Vector) []float64 { return []float64{v.X, v.Y} }
func (g alg) box(b cp.BB) []float64     { return []float64{b.L / g.k, b.B / g.k, b.R / g.k, b.T / g.k} }
func (g alg) yes(b bool) []float64      { return []float64{float64(b2i(b)) / dynS} }
func (g alg) tr(t cp.Transform) []float64 {
	x, y, o := t.Vect(cp.Vector{X: 1}), t.Vect(cp.Vector{Y: 1}), t.Point(cp.Vector{})
	return []float64{x.X, x.Y, y.X, y.Y, o.X / g.k, o.Y / g.k}
}
func (g alg) ray(f float64) []float64 {
	if f >= cp.INFINITY {
		return []float64{-1.0 / dynS}
	}
	return []float64{f}
}
func at(a float64, m float64) cp.Vector { return cp.Vector{X: math.Cos(a) * m, Y: math.Sin(a) * m} }

type algOp struct {
	args string // v vector, l length, u number, a angle, t fraction, b box, m matrix, n regular matrix, ...
	f    func(g alg) []float64
}

var algOps = map[string]algOp{
	"add":      {"vv", func(g alg) []float64 { return g.vec(g.v(0).Add(g.v(2))) }},
	"sub":      {"vv", func(g alg) []float64 { return g.vec(g.v(0).Sub(g.v(2))) }},
	"neg":      {"v", func(g alg) []float64 { return g.vec(g.v(0).Neg()) }},
	"clone":    {"v", func(g alg) []float64 { return g.vec(g.v(0).Clone()) }},
	"equal":    {"vv", func(g alg) []float64 { return g.yes(g.v(0).Equal(g.v(2))) }},
	"mult":     {"vu", func(g alg) []float64 { return g.vec(g.v(0).Mult(g.u(2))) }},
	"dot":      {"vv", func(g alg) []float64 { return g.sq(g.v(0).Dot(g.v(2))) }},
	"cross":    {"vv", func(g alg) []float64 { return g.sq(g.v(0).Cross(g.v(2))) }},
	"perp":     {"v", func(g alg) []float64 { return g.vec(g.v(0).Perp()) }},
	"rperp":    {"v", func(g alg) []float64 { return g.vec(g.v(0).ReversePerp()) }},
	"rotate":   {"vv", func(g alg) []float64 { return g.vec2(g.v(0).Rotate(g.v(2))) }},
	"unrotate": {"vv", func(g alg) []float64 { return g.vec2(g.v(0).Unrotate(g.v(2))) }},
	"project":  {"vw", func(g alg) []float64 { return g.vec(g.v(0).Project(g.v(2))) }},
	"lensq":    {"v", func(g alg) []float64 { return g.sq(g.v(0).LengthSq()) }},
	"len":      {"v", func(g alg) []float64 { return g.len(g.v(0).Length()) }},
	"dist":     {"vv", func(g alg) []float64 { return g.len(g.v(0).Distance(g.v(2))) }},
	"distsq":   {"vv", func(g alg) []float64 { return g.sq(g.v(0).DistanceSq(g.v(2))) }},
	"near":     {"vvl", func(g alg) []float64 { return g.yes(g.v(0).Near(g.v(2), g.l(4))) }},
	"norm":     {"v", func(g alg) []float64 { return g.dir(g.v(0).Normalize()) }},
	"forangle": {"a", func(g alg) []float64 { return g.dir(cp.ForAngle(g.u(0))) }},
	"toangle":  {"v", func(g alg) []float64 { return g.one(g.v(0).ToAngle()) }},
	"lerp":     {"vvu", func(g alg) []float64 { return g.vec(g.v(0).Lerp(g.v(2), g.u(4))) }},
	"clamp":    {"vl", func(g alg) []float64 { return g.vec(g.v(0).Clamp(g.l(2))) }},
	"lerpc":    {"vvl", func(g alg) []float64 { return g.vec(g.v(0).LerpConst(g.v(2), g.l(4))) }},
	"slerp": {"ddt", func(g alg) []float64 {
		return g.vec(at(g.u(0), g.l(2)).SLerp(at(g.u(1), g.l(3)), g.u(4)))
	}},
	"slerpc": {"dds", func(g alg) []float64 {
		return g.vec(at(g.u(0), g.l(2)).SlerpConst(at(g.u(1), g.l(3)), g.u(4)))
	}},
	"closest":  {"vvv", func(g alg) []float64 { return g.vec(g.v(0).ClosestPointOnSegment(g.v(2), g.v(4))) }},
	"sclamp":   {"r", func(g alg) []float64 { return g.len(cp.Clamp(g.l(0), g.l(1), g.l(2))) }},
	"sclamp01": {"u", func(g alg) []float64 { return g.one(cp.Clamp01(g.u(0))) }},
	"slerp1":   {"xxu", func(g alg) []float64 { return g.len(cp.Lerp(g.l(0), g.l(1), g.u(2))) }},
	"slerpc1":  {"xxl", func(g alg) []float64 { return g.len(cp.LerpConst(g.l(0), g.l(1), g.l(2))) }},

	"bext":    {"vll", func(g alg) []float64 { return g.box(cp.NewBBForExtents(g.v(0), g.l(2), g.l(3))) }},
	"bcirc":   {"vl", func(g alg) []float64 { return g.box(cp.NewBBForCircle(g.v(0), g.l(2))) }},
	"bmeet":   {"bb", func(g alg) []float64 { return g.yes(g.bb(0).Intersects(g.bb(4))) }},
	"bhold":   {"bb", func(g alg) []float64 { return g.yes(g.bb(0).Contains(g.bb(4))) }},
	"bholdv":  {"bv", func(g alg) []float64 { return g.yes(g.bb(0).ContainsVect(g.v(4))) }},
	"bmerge":  {"bb", func(g alg) []float64 { return g.box(g.bb(0).Merge(g.bb(4))) }},
	"bexpand": {"bv", func(g alg) []float64 { return g.box(g.bb(0).Expand(g.v(4))) }},
	"bcenter": {"b", func(g alg) []float64 { return g.vec(g.bb(0).Center()) }},
	"barea":   {"b", func(g alg) []float64 { return g.sq(g.bb(0).Area()) }},
	"bmarea":  {"bb", func(g alg) []float64 { return g.sq(g.bb(0).MergedArea(g.bb(4))) }},
	"bprox":   {"bb", func(g alg) []float64 { return g.len(g.bb(0).Proximity(g.bb(4))) }},
	"boffset": {"bv", func(g alg) []float64 { return g.box(g.bb(0).Offset(g.v(4))) }},
	"bclamp": {"bv", func(g alg) []float64 {
		v := g.v(4)
		r := g.vec(g.bb(0).ClampVect(&v))
		if v != g.v(4) {
			return nil
		}
		return r
	}},
	"bwrap": {"cv", func(g alg) []float64 { return g.vec(g.bb(0).WrapVect(g.v(4))) }},
	"bray":  {"bvv", func(g alg) []float64 { return g.ray(g.bb(0).SegmentQuery(g.v(4), g.v(6))) }},
	"bseg":  {"bvv", func(g alg) []float64 { return g.yes(g.bb(0).IntersectsSegment(g.v(4), g.v(6))) }},

	"tid":    {"", func(g alg) []float64 { return g.tr(cp.NewTransformIdentity()) }},
	"tnew":   {"m", func(g alg) []float64 { return g.tr(g.t(0)) }},
	"tmove":  {"v", func(g alg) []float64 { return g.tr(cp.NewTransformTranslate(g.v(0))) }},
	"tscale": {"uu", func(g alg) []float64 { return g.tr(cp.NewTransformScale(g.u(0), g.u(1))) }},
	"trot":   {"a", func(g alg) []float64 { return g.tr(cp.NewTransformRotate(g.u(0))) }},
	"trigid": {"av", func(g alg) []float64 { return g.tr(cp.NewTransformRigid(g.v(1), g.u(0))) }},
	"trinv": {"av", func(g alg) []float64 {
		return g.tr(cp.NewTransformRigidInverse(cp.NewTransformRigid(g.v(1), g.u(0))))
	}},
	"tinv":   {"n", func(g alg) []float64 { return g.tr(g.t(0).Inverse()) }},
	"tmul":   {"mm", func(g alg) []float64 { return g.tr(g.t(0).Mult(g.t(6))) }},
	"tpoint": {"mv", func(g alg) []float64 { return g.vec(g.t(0).Point(g.v(6))) }},
	"tvect":  {"mv", func(g alg) []float64 { return g.vec(g.t(0).Vect(g.v(6))) }},
	"tbb":    {"mb", func(g alg) []float64 { return g.box(g.t(0).BB(g.bb(6))) }},
	"twrap":  {"mn", func(g alg) []float64 { return g.tr(g.t(6).Wrap(g.t(0))) }},
	"tortho": {"c", func(g alg) []float64 {
		t := cp.NewTransformIdentity().Ortho(g.bb(0))
		x, y, o := t.Vect(cp.Vector{X: g.k}), t.Vect(cp.Vector{Y: g.k}), t.Point(cp.Vector{})
		return []float64{x.X, x.Y, y.X, y.Y, o.X, o.Y}
	}},
	"tbone": {"vv", func(g alg) []float64 {
		t := cp.NewTransformIdentity().BoneScale(g.v(0), g.v(2))
		x, y, o := t.Vect(cp.Vector{X: 1}), t.Vect(cp.Vector{Y: 1}), t.Point(cp.Vector{})
		return []float64{x.X / g.k, x.Y / g.k, y.X / g.k, y.Y / g.k, o.X / g.k, o.Y / g.k}
	}},
	"taxis": {"avu", func(g alg) []float64 {
		return g.tr(cp.NewTransformIdentity().AxialScale(cp.ForAngle(g.u(0)), g.v(1), g.u(3)))
	}},
}

func runAlg(sc *Script, out *recorder) {
	for _, op := range sc.Ops {
		r := algOps[op.K].f(alg{op.BB, math.Ldexp(1, op.N)})
		out.add(fmt.Sprintf(`{"e":"v","o":"%s","a":%s,"r":%s}`, op.K, ints(op.BB), fxs(r...)))
	}
}

type agen struct {
	*rand.Rand
	sp int
}

func (g *agen) n() int { return g.Intn(2*g.sp+1) - g.sp }
func (g *agen) box(wide int) []int {
	l, b := g.n(), g.n()
	return []int{l, b, l + wide + g.Intn(g.sp+1), b + wide + g.Intn(g.sp+1)}
}
func (g *agen) mat() []int {
	m := []int{g.Intn(33) - 16, g.Intn(33) - 16, g.Intn(33) - 16, g.Intn(33) - 16, g.n(), g.n()}
	if g.Intn(4) == 0 {
		q := [][]int{{8, 0, 0, 8}, {0, 8, -8, 0}, {-8, 0, 0, 8}, {16, 0, 0, 4}, {8, 8, 0, 8}}[g.Intn(5)]
		copy(m, q)
	}
	return m
}

func (g *agen) args(kinds string) (a []int) {
	var prev []int
	for _, k := range kinds {
		switch k {
		case 'v', 'w':
			v := []int{g.n(), g.n()}
			if g.Intn(6) == 0 {
				v[g.Intn(2)] = 0
			}
			if len(prev) > 1 && g.Intn(4) == 0 { // aligned with something before
				i := g.Intn(len(prev) / 2)
				v[0] = prev[2*i]
				if g.Intn(2) == 0 {
					v[1] = prev[2*i+1]
				}
			}
			if k == 'w' && v[0] == 0 && v[1] == 0 {
				v[0] = 1 + g.Intn(g.sp)
			}
			a = append(a, v...)
		case 'x':
			a = append(a, g.n())
		case 'l':
			a = append(a, g.Intn(g.sp+1))
		case 'u':
			a = append(a, g.Intn(33)-16)
		case 'a':
			a = append(a, g.Intn(97)-48)
		case 'b':
			a = append(a, g.box(0)...)
		case 'c':
			a = append(a, g.box(1)...)
		case 'm':
			a = append(a, g.mat()...)
		case 'n':
			m := g.mat()
			for d := m[0]*m[3] - m[1]*m[2]; d < 8 && d > -8; d = m[0]*m[3] - m[1]*m[2] {
				m = g.mat()
			}
			a = append(a, m...)
		case 'r':
			l := g.n()
			a = append(a, g.n(), l, l+g.Intn(g.sp+1))
		case 'd':
			if len(a) == 0 {
				x := g.Intn(60) - 30
				a = append(a, x, x+g.Intn(47)-23, 1+g.Intn(16), 1+g.Intn(16))
				if g.Intn(6) == 0 {
					a[1] = a[0]
				}
			}
		case 't':
			a = append(a, g.Intn(9))
		case 's':
			a = append(a, g.Intn(26))
		}
		prev = a
	}
	return
}

func genAlg(seed int64, n int, arg string) (res []Script) {
	r := rand.New(rand.NewSource(seed))
	var names []string
	for k := range algOps {
		names = append(names, k)
	}
	sort.Strings(names)
	for i := 0; i < n; i++ {
		g := &agen{r, []int{4, 16, 48}[r.Intn(3)]}
		var ops []Op
		k := []int{0, 0, 0, -20, -7, 7, 20}[r.Intn(7)]
		for j := 0; j < 2; j++ {
			for _, o := range names {
				ops = append(ops, Op{O: "v", K: o, BB: g.args(algOps[o].args), N: k})
			}
		}
		res = append(res, Script{ID: fmt.Sprintf("a%d-%d", seed, i), Fam: "alg", Ops: ops})
	}
	return
}
