package main

import (
	"fmt"
	"math/rand"
	"sort"
)

// wgen makes random scenarios of the world family.
type wgen struct {
	r      *rand.Rand
	ns, nb int
	post   int
	prof   wprof
	ty     map[int]string
	of     map[int][]int // shapes of a body
}

type wprof struct {
	loud    bool // every pair has a handler
	sleep   bool
	depth   int
	real    bool
	hashIdx int // percent
	move    int // percent of operations that move a body
	crowd   bool
	geo     int // percent of operations that are geometric queries
	reshape int // percent of operations that change the geometry of a shape
	many    bool
	focus   string // the only kind of geometric queries; few steps, many queries
}

func (g *wgen) p(pct int) bool           { return g.r.Intn(100) < pct }
func (g *wgen) pick(v ...int) int        { return v[g.r.Intn(len(v))] }
func (g *wgen) picks(v ...string) string { return v[g.r.Intn(len(v))] }

func (g *wgen) filter() *Filter {
	f := &Filter{G: g.pick(0, 0, 0, 1, 2), C: []int{1, 1, 1}, M: []int{1, 1, 1}}
	if g.p(60) {
		for i := range f.C {
			f.C[i] = g.r.Intn(2)
		}
	}
	if g.p(60) {
		for i := range f.M {
			f.M[i] = g.r.Intn(2)
		}
	}
	return f
}

var polys = [][][]int{
	{{-10, -10}, {10, -10}, {0, 15}},
	{{-10, 0}, {0, -10}, {10, 0}, {0, 10}},
	{{-15, -5}, {5, -10}, {15, 5}, {0, 15}, {-10, 10}},
	{{0, 0}, {20, 0}, {20, 5}, {0, 5}},
	{{-5, -5}, {5, -5}, {5, 5}, {-5, 5}},
}

func (g *wgen) shape(id, b int) Op {
	op := Op{O: "shape", ID: id, B: b, T1: g.pick(0, 0, 1, 2, 3), N: b2i(g.p(18))}
	if g.p(15) {
		op.F = g.filter()
	}
	o := func() int { return g.pick(0, 0, 0, 5, -5, 10, -10) }
	switch g.r.Intn(6) {
	case 0, 1:
		op.K, op.R = "c", g.pick(4, 7, 10, 13)
		op.V = [][]int{{o(), o()}}
	case 2:
		op.K, op.R = "s", g.pick(0, 1, 3, 6)
		x, y := o(), o()
		op.V = [][]int{{x - g.pick(5, 10, 20), y}, {x + g.pick(5, 10, 20), y + g.pick(0, 0, 10, -15)}}
		if op.R > 0 && g.p(10) { // no longer than a point
			op.V[1] = []int{op.V[0][0], op.V[0][1]}
		}
	case 3:
		op.K, op.R = "b", g.pick(0, 0, 2)
		w, h := g.pick(5, 10, 15), g.pick(5, 10)
		op.V = [][]int{{-w, -h}, {w, -h}, {w, h}, {-w, h}}
	default:
		op.K, op.R = "p", g.pick(0, 0, 3)
		op.V = polys[g.r.Intn(len(polys))]
		if g.prof.focus != "" && g.p(70) {
			op.V, op.R = g.hull(), g.pick(0, 0, 1, 3, 8)
		}
	}
	return op
}

// hull is a random strictly convex polygon, counter-clockwise, of points on a lattice
func (g *wgen) hull() [][]int {
	for {
		var pts [][]int
		for i := 0; i < 3+g.r.Intn(8); i++ {
			pts = append(pts, []int{5 * (g.r.Intn(9) - 4), 5 * (g.r.Intn(9) - 4)})
		}
		sort.Slice(pts, func(i, j int) bool {
			return pts[i][0] < pts[j][0] || pts[i][0] == pts[j][0] && pts[i][1] < pts[j][1]
		})
		var h [][]int
		half := func(at func(i int) []int) {
			from := len(h)
			for i := range pts {
				p := at(i)
				for len(h)-from >= 2 {
					a, b := h[len(h)-2], h[len(h)-1]
					if (b[0]-a[0])*(p[1]-a[1])-(b[1]-a[1])*(p[0]-a[0]) > 0 {
						break
					}
					h = h[:len(h)-1]
				}
				if len(h) == from || h[len(h)-1][0] != p[0] || h[len(h)-1][1] != p[1] {
					h = append(h, p)
				}
			}
			if len(h) > from {
				h = h[:len(h)-1]
			}
		}
		half(func(i int) []int { return pts[i] })
		half(func(i int) []int { return pts[len(pts)-1-i] })
		if len(h) >= 3 {
			return h
		}
	}
}

func (g *wgen) pos() (int, int) {
	if g.prof.focus != "" && g.p(60) {
		return g.r.Intn(61) - 30, g.r.Intn(51) - 25
	}
	return (g.r.Intn(13) - 6) * 6, (g.r.Intn(9) - 4) * 6
}

func (g *wgen) body(id int) Op {
	x, y := g.pos()
	op := Op{O: "body", ID: id, K: g.picks("D", "D", "D", "K", "S"), M: g.pick(1, 2, 3), X: x, Y: y, A: g.pick(0, 0, 0, 1, 3, 5, 7)}
	if op.K == "D" {
		if g.p(12) && !g.prof.real {
			op.N = 1
		}
		if g.p(15) {
			op.Name = "g"
		}
	} else {
		op.R = g.r.Intn(2)
	}
	g.ty[id] = op.K
	return op
}

func (g *wgen) fl() []int {
	fl := make([]int, 4)
	for i := range fl {
		fl[i] = g.pick(0, 1, 1, 1)
	}
	return fl
}

// behaviour of the callbacks of handler functions
func (g *wgen) handlerBeh(depth int) []Beh {
	var res []Beh
	for fn := 1; fn <= 4; fn++ {
		if !g.p(30) {
			continue
		}
		for i := 0; i < 1+g.r.Intn(2); i++ {
			b := Beh{Fn: fn, N: g.pick(0, 1, 2, 3, 4), Ret: 1}
			if fn <= 2 {
				b.Ret = g.pick(0, 1, 1)
				b.Ign = b2i(g.p(15))
			}
			if g.p(60) && depth > 0 {
				b.Ops = g.inner(depth-1, true)
			}
			res = append(res, b)
		}
	}
	return res
}

// operations inside a callback
func (g *wgen) inner(depth int, locked bool) []Op {
	var ops []Op
	for i := 0; i < 1+g.r.Intn(2); i++ {
		ops = append(ops, g.op(depth, locked))
	}
	return ops
}

func (g *wgen) anyB() int { return 1 + g.r.Intn(g.nb) }
func (g *wgen) anyS() int { return 1 + g.r.Intn(g.ns) }
func (g *wgen) anyC() int { return 1 + g.r.Intn(4) }

func (g *wgen) touch() Op {
	if g.p(30) {
		return Op{O: "touch", B: g.anyS(), Name: shapeTouches[g.r.Intn(len(shapeTouches))]}
	}
	return Op{O: "touch", ID: g.anyB(), Name: bodyTouches[g.r.Intn(len(bodyTouches))]}
}

func (g *wgen) postOp(depth int) Op {
	g.post++
	op := Op{O: "post", ID: g.post, N: g.pick(0, 1, 1, 2, 3)}
	if depth > 0 {
		for i := 0; i < g.r.Intn(4); i++ {
			op.Ops = append(op.Ops, g.op(depth-1, false))
		}
	}
	return op
}

// point of a query, in quarters: sometimes where bodies are put
func (g *wgen) qpoint() []int {
	if g.p(40) {
		x, y := g.pos()
		return []int{4 * (x + g.pick(0, 0, 5, -5, 10, -10)), 4 * (y + g.pick(0, 0, 5, -5, 10, -10))}
	}
	return []int{g.r.Intn(401) - 200, g.r.Intn(321) - 160}
}

func (g *wgen) segment() [][]int {
	pt := func() []int {
		p := g.qpoint()
		return []int{p[0] / 4, p[1] / 4}
	}
	a, b := pt(), pt()
	switch g.r.Intn(6) {
	case 0:
		b[0] = a[0]
	case 1:
		b[1] = a[1]
	case 2: // short
		b = []int{a[0] + g.r.Intn(9) - 4, a[1] + g.r.Intn(9) - 4}
	}
	if a[0] == b[0] && a[1] == b[1] {
		b[0]++
	}
	return [][]int{a, b}
}

func (g *wgen) query() Op {
	op := Op{ID: g.anyS()}
	if g.p(20) {
		op.F = g.filter()
	}
	k := g.r.Intn(16)
	if v, ok := map[string][]int{"col": {14}, "pt": {0, 1, 2, 3, 4, 3, 4, 16}, "seg": {6, 6, 6, 8, 8, 11}, "shq": {13}}[g.prof.focus]; ok && g.p(95) {
		k = v[g.r.Intn(len(v))]
	}
	switch k {
	case 16:
		return g.each("bb", 0)
	case 0:
		op.O = "sbb"
	case 1, 2:
		op.O, op.V = "pq", [][]int{g.qpoint()}
	case 3, 4, 5:
		op.O, op.V, op.R = "pn", [][]int{g.qpoint()}, g.pick(0, 1, 5, 15, 40, 300, -1, -3)
		if g.prof.hashIdx > 0 && op.R > 100 {
			op.R = 100
		}
	case 6, 7:
		op.O, op.V, op.R = "sq1", g.segment(), g.pick(0, 0, 0, 1, 3, 6)
	case 8, 9, 10:
		op.O, op.V, op.R = "sf", g.segment(), g.pick(0, 0, 0, 1, 3, 6)
	case 11, 12:
		op.O, op.K, op.V, op.R = "each", "sq", g.segment(), g.pick(0, 0, 0, 1, 3, 6)
	case 13:
		op.O, op.K = "each", "shq"
	default:
		op.O, op.B = "col", g.anyS()
	}
	return op
}

func (g *wgen) op(depth int, locked bool) Op {
	if g.p(g.prof.geo) {
		op := g.query()
		if op.O == "each" && depth > 0 && g.p(30) {
			op.Beh = []Beh{{N: g.pick(0, 1, 2), Ret: 1, Ops: g.inner(depth-1, true)}}
		}
		return op
	}
	k := g.r.Intn(100)
	if locked && k < 62 {
		k = 62 + g.r.Intn(38)
	}
	switch {
	case k < 7:
		return Op{O: "addB", ID: g.anyB()}
	case k < 10:
		return Op{O: "rmB", ID: g.anyB()}
	case k < 18:
		return Op{O: "addS", ID: g.anyS()}
	case k < 28:
		return Op{O: "rmS", ID: g.anyS()}
	case k < 32:
		return Op{O: "addC", ID: g.anyC()}
	case k < 35:
		return Op{O: "rmC", ID: g.anyC()}
	case k < 39:
		return Op{O: "setType", ID: g.anyB(), K: g.picks("D", "D", "K", "S")}
	case k < 43:
		x, y := g.pos()
		return Op{O: "setPos", ID: g.anyB(), X: x, Y: y}
	case k < 45:
		return Op{O: "setRot", ID: g.anyB(), R: g.r.Intn(12)}
	case k < 47:
		return Op{O: "setFil", ID: g.anyS(), F: g.filter()}
	case k < 48:
		return Op{O: "setCt", ID: g.anyS(), T1: g.r.Intn(4)}
	case k < 50:
		return Op{O: "setSen", ID: g.anyS(), N: g.r.Intn(2)}
	case k < 52:
		return Op{O: "reidx", ID: g.anyS()}
	case k < 53:
		if g.prof.hashIdx > 0 {
			return Op{O: "hash", X: g.pick(7, 20, 50), Y: g.pick(1, 11, 101)}
		}
		return Op{O: "step", N: 1}
	case k < 55:
		return Op{O: "grav", X: 0, Y: g.pick(0, 0, -1, 2)}
	case k < 62:
		return Op{O: "step", N: g.pick(1, 1, 1, 2)}
	case k < 68:
		x, y := g.r.Intn(7)-3, g.r.Intn(7)-3
		if g.p(40) {
			x, y = 0, 0
		}
		return Op{O: "setVel", ID: g.anyB(), X: x, Y: y}
	case k < 78:
		return g.touch()
	case k < 80:
		return Op{O: "touchC", ID: g.anyC(), Name: g.picks("maxforce", "maxbias", "errbias", "collide"), N: g.r.Intn(2)}
	case k < 89:
		return g.postOp(depth)
	default:
		return g.each(g.picks("B", "S", "C", "bS", "bC", "bA", "bb", "B", "S"), depth)
	}
}

func (g *wgen) each(k string, depth int) Op {
	op := Op{O: "each", K: k}
	op.ID = g.r.Intn(g.nb + 1)
	if op.K == "bb" {
		x, y := g.pos()
		op.BB = []int{x, y, x + g.pick(1, 7, 20, 60), y + g.pick(1, 7, 20, 60)}
		if g.p(50) {
			op.ID, op.N = g.anyS(), 1+g.r.Intn(4)
		}
		if g.p(30) {
			op.F = g.filter()
		}
	}
	if depth > 0 && g.p(50) {
		for i := 0; i < 1+g.r.Intn(2); i++ {
			b := Beh{N: g.pick(0, 1, 2), Ret: 1}
			if op.K == "bS" && g.p(60) {
				b.Ops = []Op{{O: "rmS", ID: g.anyS()}}
			} else if op.K == "bC" && g.p(60) {
				b.Ops = []Op{{O: "rmC", ID: g.anyC()}}
			} else if op.K == "bA" {
				if g.p(50) {
					b.Ops = []Op{g.postOp(depth - 1)}
				}
			} else {
				b.Ops = g.inner(depth-1, op.K != "bS" && op.K != "bC")
			}
			op.Beh = append(op.Beh, b)
		}
	}
	return op
}

func (g *wgen) script(id string, seed int64) Script {
	sc := Script{ID: id, Fam: "world", Seed: seed}
	sc.SleepT = -1
	sc.Geo = b2i(g.prof.geo > 0)
	if g.prof.focus != "" {
		sc.Geo = 2
	}
	if g.prof.sleep {
		sc.SleepT = g.pick(1, 2, 2, 3)
		sc.IdleSp = g.pick(0, 0, 1, 3)
	}
	sc.GY = g.pick(0, 0, 0, -1, 1)
	if g.prof.real {
		sc.Real = 1
	}
	if g.p(g.prof.hashIdx) {
		sc.Hash = []int{g.pick(7, 20, 50), g.pick(1, 11, 101)}
	}
	g.nb = 2 + g.r.Intn(5)
	if g.prof.crowd {
		g.nb = 6 + g.r.Intn(7)
	}
	if g.prof.many {
		g.nb = 18 + g.r.Intn(14)
	}
	g.of = map[int][]int{}
	kind := map[int]Op{}
	g.ns = 8
	var ops []Op
	// handlers
	hid := 10
	add := func(op Op) { ops = append(ops, op) }
	if g.prof.loud {
		for t := 0; t < 4; t++ {
			hid++
			add(Op{O: "hw", ID: hid, T1: t, Fl: []int{1, 1, 1, 1}, Beh: g.handlerBeh(g.prof.depth)})
		}
	}
	for i := 0; i < g.r.Intn(4); i++ {
		hid++
		fl := g.fl()
		if g.prof.loud {
			fl = []int{g.pick(1, 2, 0), g.pick(1, 2, 0), g.pick(1, 2, 0), g.pick(1, 2, 0)}
		} else {
			for j := range fl {
				if fl[j] == 1 && g.p(20) {
					fl[j] = 2
				}
			}
		}
		add(Op{O: "hp", ID: hid, T1: g.r.Intn(4), T2: g.r.Intn(4), Fl: fl, Beh: g.handlerBeh(g.prof.depth)})
	}
	if !g.prof.loud {
		for i := 0; i < g.r.Intn(3); i++ {
			hid++
			add(Op{O: "hw", ID: hid, T1: g.r.Intn(4), Fl: g.fl(), Beh: g.handlerBeh(g.prof.depth)})
		}
	}
	g.ns = 0
	for b := 0; b <= g.nb; b++ {
		if b > 0 {
			add(g.body(b))
			if g.p(85) {
				add(Op{O: "addB", ID: b})
			}
		}
		n := g.pick(0, 1, 1, 1, 2, 3)
		if b == 0 {
			n = g.pick(0, 0, 1, 2)
		}
		for i := 0; i < n; i++ {
			g.ns++
			g.of[b] = append(g.of[b], g.ns)
			kind[g.ns] = g.shape(g.ns, b)
			add(kind[g.ns])
			if g.p(85) {
				add(Op{O: "addS", ID: g.ns})
			}
		}
	}
	if g.ns == 0 {
		g.ns = 1
		add(g.shape(1, 1))
		add(Op{O: "addS", ID: 1})
	}
	nc := g.pick(0, 0, 1, 2, 3)
	for c := 1; c <= nc; c++ {
		op := Op{O: "con", ID: c, A: g.r.Intn(g.nb + 1), B: g.r.Intn(g.nb + 1), N: b2i(g.p(40)),
			K:  g.picks("motor", "motor", "gear", "limit", "rspring", "ratchet", "pivot", "slide"),
			Fl: []int{b2i(g.p(40)), b2i(g.p(40))}}
		if g.p(40) && g.prof.depth > 0 {
			op.Beh = []Beh{{Fn: 1 + g.r.Intn(2), N: g.pick(0, 1, 2), Ret: 1, Ops: g.inner(g.prof.depth-1, true)}}
		}
		add(op)
		if g.p(85) {
			add(Op{O: "addC", ID: c})
		}
	}
	add(Op{O: "step", N: 1})
	n := 8 + g.r.Intn(22)
	if g.prof.geo > 0 {
		n += 15
	}
	late := hid + 1
	steps := 35
	if g.prof.focus != "" {
		n, steps = 80, 4
	}
	for i := 0; i < n; i++ {
		switch {
		case g.p(steps):
			for j := 0; j < g.pick(1, 1, 2, 3, 4); j++ {
				add(Op{O: "step", N: g.pick(1, 1, 1, 2, 0)})
			}
		case g.p(3):
			late++
			add(Op{O: "hp", ID: late, T1: g.r.Intn(4), T2: g.r.Intn(4), Fl: []int{1, 1, 1, 1}})
		case g.p(3):
			late++
			add(Op{O: "hw", ID: late, T1: g.r.Intn(4), Fl: []int{1, 1, 1, 1}})
		case g.p(g.prof.reshape):
			id := g.anyS()
			was, ok := kind[id]
			if !ok {
				break
			}
			now := g.shape(id, was.B)
			for now.K != was.K {
				now = g.shape(id, was.B)
			}
			if was.K == "c" {
				now.V = was.V
			}
			add(Op{O: "reshape", ID: id, V: now.V, R: now.R})
		case g.prof.focus == "" && g.p(4):
			// away, for about as long as a contact is remembered, and back
			b := g.anyB()
			x, y := g.pos()
			back := Op{O: "setPos", ID: b, X: x, Y: y}
			add(back)
			add(Op{O: "step", N: 1})
			add(Op{O: "setPos", ID: b, X: x + 90, Y: y - 70})
			for j := g.pick(1, 2, 3, 3, 3, 4, 5); j > 0; j-- {
				add(Op{O: "step", N: 1})
			}
			add(back)
			add(Op{O: "step", N: 1})
		case g.p(4):
			add(Op{O: "hq", T1: g.r.Intn(4), T2: g.r.Intn(4), N: g.r.Intn(2)})
		case g.p(g.prof.move):
			b := g.anyB()
			switch k := g.r.Intn(8); {
			case k == 0 && g.prof.focus == "":
				x, y := g.r.Intn(13)-6, g.r.Intn(13)-6
				add(Op{O: "setVel", ID: b, X: x, Y: y})
			case k < 3:
				add(Op{O: "setRot", ID: b, R: g.r.Intn(12)})
			default:
				x, y := g.pos()
				add(Op{O: "setPos", ID: b, X: x, Y: y})
			}
			if g.p(50) || g.prof.focus != "" {
				for _, s := range g.of[b] {
					if g.p(80) || g.prof.focus != "" {
						add(Op{O: "reidx", ID: s})
					}
				}
			}
		default:
			add(g.op(g.prof.depth, false))
		}
	}
	sc.Ops = ops
	return sc
}

// genWorld: arg selects a profile
func genWorld(seed int64, n int, arg string) []Script {
	var res []Script
	for i := 0; i < n; i++ {
		s := seed*1000003 + int64(i)
		r := rand.New(rand.NewSource(s))
		g := &wgen{r: r, ty: map[int]string{}}
		switch arg {
		case "sleep":
			g.prof = wprof{sleep: true, depth: 1, hashIdx: 0}
		case "calls":
			g.prof = wprof{loud: g.p(60), depth: 2, sleep: g.p(30)}
		case "hash":
			g.prof = wprof{hashIdx: 100, depth: 1, sleep: g.p(40), loud: g.p(40)}
		case "move":
			g.prof = wprof{move: 60, crowd: g.p(40), sleep: g.p(20), hashIdx: 30 * g.r.Intn(2)}
		case "geo":
			g.prof = wprof{move: 25, geo: 60, loud: g.p(50), crowd: g.p(20), sleep: g.p(20), depth: g.pick(0, 0, 1), hashIdx: 40 * g.r.Intn(2)}
		case "col", "pt", "seg", "shq":
			g.prof = wprof{focus: arg, move: 30, geo: 95, crowd: arg != "col" && g.p(50), hashIdx: 40 * g.r.Intn(2)}
		case "shape":
			g.prof = wprof{reshape: 35, move: 30, geo: 40 * g.r.Intn(2), loud: g.p(50), crowd: g.p(30), sleep: g.p(30), hashIdx: 40 * g.r.Intn(2), depth: g.pick(0, 0, 1)}
		case "many":
			g.prof = wprof{many: true, move: 40, loud: g.p(50), sleep: g.p(30), hashIdx: 50 * g.r.Intn(2)}
		case "draw":
			g.prof = wprof{move: 30, crowd: g.p(30), sleep: g.p(50), hashIdx: 30 * g.r.Intn(2), depth: g.pick(0, 0, 1)}
		case "real":
			g.prof = wprof{loud: true, real: true, depth: 1, sleep: g.p(60)}
		default:
			g.prof = wprof{loud: g.p(30), sleep: g.p(50), depth: g.r.Intn(3)}
		}
		sc := g.script(fmt.Sprintf("world-%s-%d-%d", arg, seed, i), s)
		if arg == "draw" {
			sc.Ops = withDrawings(r, sc.Ops)
		}
		res = append(res, sc)
	}
	return res
}

// withDrawings draws now and then
func withDrawings(r *rand.Rand, ops []Op) []Op {
	var res []Op
	for _, op := range ops {
		res = append(res, op)
		if op.O != "init" && r.Intn(100) < 30 || op.O == "step" && r.Intn(2) == 0 {
			res = append(res, Op{O: "draw", N: []int{7, 7, 0, 1, 2, 3, 4, 5, 6}[r.Intn(9)]})
		}
	}
	return res
}
