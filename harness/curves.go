package main

// Curves family: marching squares, polylines and convex hulls.

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	cp "github.com/jakecoffman/cp/v2"
)

const curveScale = 256

func vecs(v [][]int) []cp.Vector {
	r := make([]cp.Vector, len(v))
	for i, p := range v {
		r[i] = cp.Vector{X: float64(p[0]), Y: float64(p[1])}
	}
	return r
}

// exact writes a vector with integer coordinates; others are shown as something no specification has.
func exact(v cp.Vector) string {
	if v.X != math.Trunc(v.X) || v.Y != math.Trunc(v.Y) || math.Abs(v.X) > 1e8 || math.Abs(v.Y) > 1e8 {
		return "[99999999,99999999]"
	}
	return fmt.Sprintf("[%d,%d]", int(v.X), int(v.Y))
}

func exacts(v []cp.Vector) string {
	s := make([]string, len(v))
	for i, x := range v {
		s[i] = exact(x)
	}
	return "[" + strings.Join(s, ",") + "]"
}

func lines(pls *cp.PolyLineSet, f func(cp.Vector) string) string {
	var ls []string
	for _, l := range pls.Lines {
		var s []string
		for _, v := range l.Verts {
			s = append(s, f(v))
		}
		ls = append(ls, "["+strings.Join(s, ",")+"]")
	}
	return "[" + strings.Join(ls, ",") + "]"
}

// squared cosines of the angular tolerances
var cosines = []struct {
	n, d int
	tol  float64
}{{1, 1, 0}, {1, 2, math.Pi / 4}, {16, 25, math.Acos(0.8)}, {9, 25, math.Acos(0.6)}, {99, 100, math.Acos(math.Sqrt(0.99))}, {1, 4, math.Acos(0.5)}}

func runCurves(sc *Script, out *recorder) {
	var pls *cp.PolyLineSet
	for _, op := range sc.Ops {
		switch op.O {
		case "march":
			runMarch(op, out)
		case "pls":
			pls = &cp.PolyLineSet{}
			out.add(`{"e":"pls"}`)
		case "add":
			p := vecs(op.V)
			cp.PolyLineCollectSegment(p[0], p[1], pls)
			out.add(fmt.Sprintf(`{"e":"add","a":%s,"b":%s,"ls":%s}`, exact(p[0]), exact(p[1]), lines(pls, exact)))
		case "sv", "sc":
			in := vecs(op.V)
			pl := &cp.PolyLine{Verts: in}
			var res *cp.PolyLine
			extra := ""
			if op.O == "sv" {
				c := cosines[op.N]
				res = pl.SimplifyVertexes(c.tol)
				extra = fmt.Sprintf(`"cs":[%d,%d]`, c.n, c.d)
			} else {
				res = pl.SimplifyCurves(float64(op.N) / 4)
				extra = fmt.Sprintf(`"tol":%d`, op.N)
			}
			same := len(pl.Verts) == len(op.V)
			for i := range op.V {
				same = same && exact(pl.Verts[i]) == fmt.Sprintf("[%d,%d]", op.V[i][0], op.V[i][1])
			}
			out.add(fmt.Sprintf(`{"e":"%s","v":%s,%s,"r":%s,"same":%d}`, op.O, intss(op.V), extra, exacts(res.Verts), b2i(same)))
			for _, l := range []*cp.PolyLine{pl, res} {
				out.add(fmt.Sprintf(`{"e":"cl","v":%s,"r":%d}`, exacts(l.Verts), b2i(l.IsClosed())))
			}
		case "hull":
			v := vecs(op.V)
			var first int
			pf := &first
			if op.M == 1 {
				pf = nil
			}
			n := cp.ConvexHull(len(v), v, pf, float64(op.N)/4)
			if pf == nil {
				for i, p := range vecs(op.V) {
					if p == v[0] {
						first = i
					}
				}
			}
			out.add(fmt.Sprintf(`{"e":"hull","v":%s,"tol":%d,"r":%s,"first":%d}`, intss(op.V), op.N, exacts(v[:n]), first))
		case "poly":
			// a polygon made of transformed points; op.BB is an integer matrix, column by column
			t := cp.NewTransformTranspose(float64(op.BB[0]), float64(op.BB[2]), float64(op.X), float64(op.BB[1]), float64(op.BB[3]), float64(op.Y))
			w := make([][]int, len(op.V))
			for i, p := range op.V {
				w[i] = []int{op.BB[0]*p[0] + op.BB[2]*p[1] + op.X, op.BB[1]*p[0] + op.BB[3]*p[1] + op.Y}
			}
			body := cp.NewBody(1, 1)
			v := vecs(op.V)
			var poly *cp.PolyShape
			if op.M == 1 {
				poly = cp.NewBox(body, 1, 1, 0).Class.(*cp.PolyShape)
				poly.SetVertsUnsafe(len(v), v, t)
			} else {
				poly = cp.NewPolyShape(body, len(v), v, t, float64(op.R)).Class.(*cp.PolyShape)
			}
			var r []cp.Vector
			for i := 0; i < poly.Count(); i++ {
				r = append(r, poly.Vert(i))
			}
			out.add(fmt.Sprintf(`{"e":"poly","v":%s,"r":%s,"n":%d}`, intss(w), exacts(r), poly.Count()))
		}
	}
}

func runMarch(op Op, out *recorder) {
	bb := cp.BB{L: float64(op.BB[0]), B: float64(op.BB[1]), R: float64(op.BB[2]), T: float64(op.BB[3])}
	hard := b2i(op.K == "hard")
	out.add(fmt.Sprintf(`{"e":"march","bb":%s,"nx":%d,"ny":%d,"t":%d,"hard":%d}`, ints(op.BB), op.X, op.Y, op.N, hard))
	at := func(x, l, r float64, n int) int {
		i := int(math.Round((x - l) / (r - l) * float64(n-1)))
		if i < 0 {
			return 0
		}
		if i > n-1 {
			return n - 1
		}
		return i
	}
	sample := func(p cp.Vector) float64 {
		v := op.V[at(p.Y, bb.B, bb.T, op.Y)][at(p.X, bb.L, bb.R, op.X)]
		out.add(fmt.Sprintf(`{"e":"sm","p":[%d,%d],"v":%d}`, fix(p.X, curveScale), fix(p.Y, curveScale), v))
		return float64(v)
	}
	ids := map[cp.Vector]int{}
	id := func(v cp.Vector) int {
		if ids[v] == 0 {
			ids[v] = len(ids) + 1
		}
		return ids[v]
	}
	var set *cp.PolyLineSet
	emit := func(v0, v1 cp.Vector, pls *cp.PolyLineSet) {
		ok := pls != nil && (set == nil || set == pls)
		set = pls
		out.add(fmt.Sprintf(`{"e":"sg","a":[%d,%d,%d],"b":[%d,%d,%d],"ud":%d}`, fix(v0.X, curveScale), fix(v0.Y, curveScale), id(v0), fix(v1.X, curveScale), fix(v1.Y, curveScale), id(v1), b2i(ok)))
		if op.M == 1 {
			cp.PolyLineCollectSegment(v0, v1, pls)
			out.add(fmt.Sprintf(`{"e":"add","a":%d,"b":%d,"ls":%s}`, id(v0), id(v1), lines(pls, func(v cp.Vector) string { return fmt.Sprint(id(v)) })))
		}
	}
	var res *cp.PolyLineSet
	if hard == 1 {
		res = cp.MarchHard(bb, int64(op.X), int64(op.Y), float64(op.N), emit, sample)
	} else {
		res = cp.MarchSoft(bb, int64(op.X), int64(op.Y), float64(op.N), emit, sample)
	}
	ls := "[]"
	if op.M == 1 {
		ls = lines(res, func(v cp.Vector) string { return fmt.Sprint(id(v)) })
	}
	out.add(fmt.Sprintf(`{"e":"mend","ls":%s}`, ls))
}

// ---------------------------------------------------------------- generation

func genCurves(seed int64, n int, arg string) (res []Script) {
	r := rand.New(rand.NewSource(seed*1000003 + 17))
	add := func(ops []Op) {
		res = append(res, Script{ID: fmt.Sprintf("curves-%s-%d-%d", arg, seed, len(res)), Fam: "curves", Ops: ops})
	}
	switch arg {
	case "grid": // every binary field of 3 x 3 samples, in boxes of varying size and place
		for k := 0; k < 512 && len(res) < n; k++ {
			f := make([][]int, 3)
			for j := range f {
				f[j] = make([]int, 3)
				for i := range f[j] {
					f[j][i] = (k >> uint(3*j+i)) & 1
				}
			}
			for _, h := range []string{"hard", "soft"} {
				add([]Op{marchOp(r, h, 3, 3, 0, f, k%2)})
			}
		}
		return
	case "tri": // every field of 2 x 3 samples below, at and above the threshold
		for k := 0; k < 729 && len(res) < n; k++ {
			nx, ny := 2, 3
			if k%2 == 1 {
				nx, ny = 3, 2
			}
			f := make([][]int, ny)
			q := k
			for j := range f {
				f[j] = make([]int, nx)
				for i := range f[j] {
					f[j][i] = q % 3
					q /= 3
				}
			}
			add([]Op{marchOp(r, "soft", nx, ny, 1, f, 0)})
		}
		return
	case "subsets": // the hull of every set of points of a 3 x 3 grid, in some order, sometimes with repetitions
		for k := 1; k < 512 && len(res) < n; k++ {
			var v [][]int
			for b := 0; b < 9; b++ {
				if k>>uint(b)&1 == 1 {
					v = append(v, []int{b % 3, b / 3})
					if r.Intn(5) == 0 {
						v = append(v, []int{b % 3, b / 3})
					}
				}
			}
			var ops []Op
			for j := 0; j < 3; j++ {
				ops = append(ops, hullOps(r, shuffled(r, v))...)
			}
			add(ops)
		}
		return
	}
	for len(res) < n {
		switch arg {
		case "march":
			var ops []Op
			for k := 0; k < 1+r.Intn(2); k++ {
				nx, ny := 2+r.Intn(5), 2+r.Intn(5)
				f := make([][]int, ny)
				kind, rng := r.Intn(3), 2+r.Intn(8)
				cx, cy := r.Intn(nx), r.Intn(ny)
				for j := range f {
					f[j] = make([]int, nx)
					for i := range f[j] {
						switch kind {
						case 0:
							f[j][i] = r.Intn(rng) - rng/2
						case 1: // smooth
							f[j][i] = 10 - (i-cx)*(i-cx) - (j-cy)*(j-cy)
						case 2:
							f[j][i] = r.Intn(2) * (1 + r.Intn(9))
						}
					}
				}
				t := r.Intn(rng) - rng/2
				if kind == 1 {
					t = r.Intn(10)
				}
				ops = append(ops, marchOp(r, []string{"hard", "soft"}[r.Intn(2)], nx, ny, t, f, r.Intn(2)))
			}
			add(ops)
		case "poly":
			var ops []Op
			ops = append(ops, Op{O: "pls"})
			// edges of a small graph, directed at random, sometimes along a path
			g := 2 + r.Intn(3)
			p := func() []int { return []int{r.Intn(g), r.Intn(2)} }
			var segs [][][]int
			for k := 0; k < 2+r.Intn(12); k++ {
				a, b := p(), p()
				if len(segs) > 0 && r.Intn(2) == 0 {
					q := segs[r.Intn(len(segs))]
					if r.Intn(2) == 0 {
						a = q[1]
					} else {
						b = q[0]
					}
				}
				segs = append(segs, [][]int{a, b})
			}
			if r.Intn(2) == 0 { // a ring, shuffled
				segs = nil
				m := 3 + r.Intn(6)
				for k := 0; k < m; k++ {
					segs = append(segs, [][]int{{k, 0}, {(k + 1) % m, 0}})
				}
				r.Shuffle(m, func(i, j int) { segs[i], segs[j] = segs[j], segs[i] })
			}
			for _, s := range segs {
				if s[0][0] != s[1][0] || s[0][1] != s[1][1] {
					ops = append(ops, Op{O: "add", V: s})
				}
			}
			for k := 0; k < 4; k++ {
				v := randLine(r)
				ops = append(ops, Op{O: "sv", V: v, N: r.Intn(len(cosines))}, Op{O: "sc", V: v, N: r.Intn(24)})
			}
			add(ops)
		case "hull":
			var ops []Op
			for k := 0; k < 4; k++ {
				var v [][]int
				sp := []int{2, 4, 12}[r.Intn(3)]
				for j := 0; j < 1+r.Intn(14); j++ {
					v = append(v, []int{r.Intn(2*sp+1) - sp, r.Intn(2*sp+1) - sp})
				}
				ops = append(ops, hullOps(r, v)...)
			}
			add(ops)
		default:
			panic("unknown profile " + arg)
		}
	}
	return
}

func shuffled(r *rand.Rand, v [][]int) [][]int {
	w := append([][]int(nil), v...)
	r.Shuffle(len(w), func(i, j int) { w[i], w[j] = w[j], w[i] })
	return w
}

func marchOp(r *rand.Rand, kind string, nx, ny, t int, f [][]int, collect int) Op {
	l, b := r.Intn(60)-30, r.Intn(60)-30
	return Op{O: "march", K: kind, X: nx, Y: ny, N: t, V: f, M: collect,
		BB: []int{l, b, l + 1 + r.Intn(40), b + 1 + r.Intn(40)}}
}

func collinear(v [][]int) bool {
	for i := range v {
		for j := range v {
			if (v[i][0]-v[0][0])*(v[j][1]-v[0][1]) != (v[i][1]-v[0][1])*(v[j][0]-v[0][0]) {
				return false
			}
		}
	}
	return true
}

func hullOps(r *rand.Rand, v [][]int) (ops []Op) {
	tol := 0
	if r.Intn(3) == 0 {
		tol = 1 + r.Intn(16)
	}
	ops = append(ops, Op{O: "hull", V: v, N: tol, M: b2i(r.Intn(4) == 0)})
	if !collinear(v) {
		m := [][]int{{1, 0, 0, 1}, {0, 1, -1, 0}, {-1, 0, 0, 1}, {2, 0, 0, -1}, {0, 2, 3, 0}, {1, 1, 0, 1}}[r.Intn(6)]
		ops = append(ops, Op{O: "poly", V: v, BB: m, X: r.Intn(9) - 4, Y: r.Intn(9) - 4, R: r.Intn(2), M: b2i(r.Intn(3) == 0)})
	}
	return
}

// randLine is a polyline without repeated neighbours: wild, nearly straight, monotone, closed or crossing itself.
func randLine(r *rand.Rand) (v [][]int) {
	n := 2 + r.Intn(10)
	sp := []int{3, 12}[r.Intn(2)]
	kind := r.Intn(4)
	for len(v) < n {
		var p []int
		switch kind {
		case 0:
			p = []int{r.Intn(2*sp+1) - sp, r.Intn(2*sp+1) - sp}
		case 1:
			p = []int{len(v)*2 - 11, r.Intn(4)}
		case 2:
			p = []int{len(v) - 5, (len(v) - 5) * (len(v) - 5) / 4}
		case 3:
			p = []int{r.Intn(4), 0}
			if len(v) > 0 {
				q := v[len(v)-1]
				p = []int{q[0] + r.Intn(3) - 1, q[1] + r.Intn(3) - 1}
			}
		}
		if k := len(v); k > 0 && v[k-1][0] == p[0] && v[k-1][1] == p[1] {
			if kind == 1 || kind == 2 {
				n--
			}
			continue
		}
		v = append(v, p)
	}
	if l := v[len(v)-1]; r.Intn(2) == 0 && len(v) > 2 && (v[0][0] != l[0] || v[0][1] != l[1]) {
		v = append(v, []int{v[0][0], v[0][1]})
	}
	return
}
