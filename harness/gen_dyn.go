package main

import (
	"fmt"
	"math"
	"math/rand"
)

type dgen struct {
	*rand.Rand
	ops    []Op
	nb     int // bodies so far
	ns     int
	nj     int
	uneven bool // steps of different length
}

func (g *dgen) add(op Op)              { g.ops = append(g.ops, op) }
func (g *dgen) p(x float64) bool       { return g.Float64() < x }
func (g *dgen) pick(n ...int) int      { return n[g.Intn(len(n))] }
func (g *dgen) in(a, b int) int        { return a + g.Intn(b-a+1) }
func (g *dgen) f(l ...float64) float64 { return l[g.Intn(len(l))] }

// n: a number between lo and hi with d fractions
func (g *dgen) n(lo, hi, d float64) float64 {
	return math.Round((lo+g.Float64()*(hi-lo))*d) / d
}
func (g *dgen) v(a, d float64) []float64 { return []float64{g.n(-a, a, d), g.n(-a, a, d)} }

func (g *dgen) initSpace(gx, gy, it, slop, damp float64) {
	g.add(Op{O: "init", FV: []float64{gx, gy, it, slop, damp}})
	g.nb = 1
}

func (g *dgen) body(k string, m, i, x, y, a, vx, vy, w float64) int {
	g.add(Op{O: "body", K: k, FV: []float64{m, i, x, y, a, vx, vy, w}})
	g.nb++
	return g.nb
}

func (g *dgen) shape(b int, k string, v [][]int, r, e, u, sx, sy, m float64, fl ...int) int {
	g.add(Op{O: "shape", B: b, K: k, V: v, FV: []float64{r, e, u, sx, sy, m}, Fl: fl})
	g.ns++
	return g.ns
}

func (g *dgen) call(b int, k string, fv ...float64) {
	g.add(Op{O: "op", B: b, K: k, FV: fv, N: g.Intn(2)})
}
func (g *dgen) step(q, extra int) { g.add(Op{O: "step", N: q, M: extra}) }

// the length of a step, in 64ths of a second
func (g *dgen) q() int {
	if g.uneven {
		return g.pick(1, 1, 2, 4)
	}
	return 1
}
func (g *dgen) mass() float64   { return g.f(0.5, 1, 1, 1.5, 2, 3, 4, 6, 8) }
func (g *dgen) moment() float64 { return g.f(0.5, 1, 2, 3, 5, 8, 16, 40) }

// convex polygons, in quarters, counterclockwise
func (g *dgen) poly() [][]int {
	var v [][]int
	switch g.Intn(4) {
	case 0:
		w, h := g.in(1, 6), g.in(1, 6)
		v = [][]int{{-w, -h}, {w, -h}, {w, h}, {-w, h}}
	case 1:
		w, h := g.in(2, 8), g.in(2, 8)
		v = [][]int{{0, 0}, {w, 0}, {g.in(0, w), h}}
	case 2:
		a := g.in(2, 4)
		v = [][]int{{-a, -a}, {a, -a}, {a + 2, 0}, {a, a}, {-a, a}}
	case 3:
		a, b := g.in(1, 3), g.in(1, 3)
		v = [][]int{{-a - b, -a}, {a, -a - b}, {a + b, a}, {-a, a + b}}
	}
	if g.p(0.5) {
		dx, dy := g.in(-6, 6), g.in(-6, 6)
		for _, p := range v {
			p[0] += dx
			p[1] += dy
		}
	}
	return v
}

func (g *dgen) massShape(b int, m float64) int {
	r := g.f(0.25, 0.5, 1, 1.5)
	switch g.Intn(3) {
	case 0:
		return g.shape(b, "c", [][]int{{g.in(-6, 6), g.in(-6, 6)}}, r, 0, 0, 0, 0, m, 0, 0, 0, 1)
	case 1:
		v := [][]int{{g.in(-6, 6), g.in(-6, 6)}, {g.in(-6, 6), g.in(-6, 6)}}
		if v[0][0] == v[1][0] {
			v[0][0] += 3
		}
		return g.shape(b, "s", v, g.f(0, 0.25, 0.5), 0, 0, 0, 0, m, 0, 0, 0, 1)
	}
	return g.shape(b, "p", g.poly(), g.f(0, 0, 0.25), 0, 0, 0, 0, m, 0, 0, 0, 1)
}

func (g *dgen) ask(b int) {
	k := []string{"l2w", "w2l", "vw", "vl", "ke"}[g.Intn(5)]
	g.add(Op{O: "q", B: b, K: k, FV: g.v(8, 16)})
}

func (g *dgen) poke(b int, ty string) {
	v := func(a, d float64) []float64 { return g.v(a, d) }
	two := func(a, b []float64) []float64 { return append(append([]float64{}, a...), b...) }
	switch g.Intn(14) {
	case 0:
		g.call(b, "setv", v(5, 64)...)
	case 1:
		g.call(b, "setw", g.n(-3, 3, 64))
	case 2:
		g.call(b, "setpos", v(30, 64)...)
	case 3:
		g.call(b, "setangle", g.n(-8, 8, 64))
	case 4:
		g.call(b, "setforce", v(20, 16)...)
	case 5:
		g.call(b, "settorque", g.n(-20, 20, 16))
	case 6, 7:
		g.call(b, "forceL", two(v(16, 16), v(3, 16))...)
	case 8, 9:
		g.call(b, "impL", two(v(3, 16), v(3, 16))...)
	case 10:
		g.call(b, "forceW", two(v(5, 16), v(10, 16))...)
	case 11:
		g.call(b, "impW", two(v(1, 16), v(10, 16))...)
	case 12:
		if ty == "d" {
			g.call(b, "setmass", g.mass())
		}
	case 13:
		if ty == "d" {
			g.call(b, "setmoment", g.moment())
		}
	}
}

func (g *dgen) free() {
	g.initSpace(g.n(-8, 8, 8), g.n(-8, 8, 8), 0, -1, g.f(0, 0, 0.5, 0.9, 0.1))
	ty := map[int]string{1: "s"}
	massful := map[int]bool{}
	for k := g.in(2, 4); k > 0; k-- {
		t := []string{"d", "d", "d", "k", "s"}[g.Intn(5)]
		b := g.body(t, g.mass(), g.moment(), g.n(-20, 20, 64), g.n(-20, 20, 64), g.n(-4, 4, 64), g.n(-5, 5, 64), g.n(-5, 5, 64), g.n(-3, 3, 64))
		ty[b] = t
		if g.p(0.5) {
			massful[b] = true
			for n := g.in(1, 2); n > 0; n-- {
				g.massShape(b, g.f(0.5, 1, 2))
			}
		}
	}
	dt := g.pick(1, 1, 2, 4)
	for k := g.in(8, 16); k > 0; k-- {
		b := g.in(1, g.nb)
		switch x := g.Intn(20); {
		case x < 9:
			if massful[b] && g.p(0.5) {
				g.call(b, "setv", g.v(4, 64)...)
			} else if massful[b] {
				t := ty[b]
				if t == "d" {
					t = "massful"
				}
				g.poke(b, t)
			} else {
				g.poke(b, ty[b])
			}
		case x < 13:
			g.ask(b)
		case x < 14 && b > 1:
			g.call(b, "vfn", float64(g.Intn(2)))
		case x < 15 && b > 1:
			g.call(b, "pfn", float64(g.Intn(2)))
		case x < 16 && b > 1 && !massful[b]:
			g.call(b, "in", float64(g.Intn(2)))
		case x < 17 && b > 1:
			n := g.Intn(3)
			was := ty[b]
			ty[b] = []string{"d", "k", "s"}[n]
			g.call(b, "type", float64(n))
			if n == 0 && was != "d" && !massful[b] {
				g.call(b, "setmass", g.mass())
				g.call(b, "setmoment", g.moment())
			}
		case x < 18:
			g.add(Op{O: "sp", K: "g", FV: g.v(8, 8)})
		case x < 19:
			g.add(Op{O: "sp", K: "damp", FV: []float64{g.f(1, 0.9, 0.5, 0.25)}})
		default:
			dt = g.pick(0, 1, 1, 2, 4, 8)
		}
		if g.p(0.7) {
			g.step(dt, g.Intn(2))
		}
	}
}

func (g *dgen) massProfile() {
	for k := g.in(4, 8); k > 0; k-- {
		switch g.Intn(8) {
		case 0:
			g.add(Op{O: "f", K: "areac", FV: []float64{g.n(0, 4, 16), g.n(0, 4, 16)}})
		case 1:
			g.add(Op{O: "f", K: "areas", V: [][]int{{g.in(-12, 12), g.in(-12, 12)}, {g.in(-12, 12), g.in(-12, 12)}}, FV: []float64{g.n(0, 2, 16)}})
		case 2:
			g.add(Op{O: "f", K: "areap", V: g.poly(), FV: []float64{g.f(0, 0.25, 0.5, 1)}})
		case 3:
			g.add(Op{O: "f", K: "momc", FV: []float64{g.mass(), g.n(0, 3, 16), g.n(0, 3, 16), g.n(-3, 3, 16), g.n(-3, 3, 16)}})
		case 4:
			o := []float64{0, 0}
			if g.p(0.6) {
				o = g.v(3, 16)
			}
			g.add(Op{O: "f", K: "momb", N: g.Intn(2), FV: []float64{g.mass(), g.n(0.25, 4, 16), g.n(0.25, 4, 16), o[0], o[1]}})
		case 5:
			g.add(Op{O: "f", K: "moms", V: [][]int{{g.in(-12, 12), g.in(-12, 12)}, {g.in(-12, 12), g.in(-12, 12)}}, FV: []float64{g.mass(), g.f(0, 0, 0.25, 0.5, 1)}})
		case 6:
			g.add(Op{O: "f", K: "momp", V: g.poly(), FV: append([]float64{g.mass()}, g.v(2, 4)...)})
		case 7:
			g.add(Op{O: "f", K: "cent", V: g.poly(), FV: []float64{}})
		}
	}
	g.initSpace(0, g.n(-4, 4, 8), 0, -1, 0)
	type sh struct {
		id   int
		kind string
		m    bool
		on   bool
		b    int
	}
	var ss []*sh
	for k := g.in(1, 3); k > 0; k-- {
		t := []string{"d", "d", "d", "k"}[g.Intn(4)]
		b := g.body(t, g.mass(), g.moment(), g.n(-20, 20, 64), g.n(-20, 20, 64), g.n(-4, 4, 64), g.n(-3, 3, 64), g.n(-3, 3, 64), g.n(-2, 2, 64))
		for n := g.in(1, 4); n > 0; n-- {
			m := g.f(0, 0.5, 1, 1.5, 2)
			g.massShape(b, m)
			ss = append(ss, &sh{g.ns, g.ops[len(g.ops)-1].K, m > 0, true, b})
		}
	}
	for k := g.in(8, 14); k > 0; k-- {
		s := ss[g.Intn(len(ss))]
		b := g.in(2, g.nb)
		switch x := g.Intn(16); {
		case x < 3:
			m := g.f(0, 0.5, 1, 1.5, 2)
			g.add(Op{O: "sop", K: "mass", ID: s.id, FV: []float64{m}})
		case x < 5:
			g.add(Op{O: "sop", K: "dens", ID: s.id, FV: []float64{g.f(0.25, 0.5, 1)}})
		case x < 7 && s.kind != "p":
			g.add(Op{O: "sop", K: "rad", ID: s.id, FV: []float64{g.f(0.25, 0.5, 1, 1.25)}})
		case x < 9 && s.kind == "s":
			a := g.in(-6, 6)
			g.add(Op{O: "sop", K: "verts", ID: s.id, V: [][]int{{a, g.in(-6, 6)}, {a + g.in(1, 6), g.in(-6, 6)}}, FV: []float64{}})
		case x < 9 && s.kind == "p":
			g.add(Op{O: "sop", K: "verts", ID: s.id, V: g.poly(), FV: []float64{}})
		case x < 10 && len(ss) > 1:
			if s.on {
				s.on = false
				g.add(Op{O: "sop", K: "rm", ID: s.id, FV: []float64{}})
			}
		case x < 12:
			g.call(b, "type", float64(g.pick(0, 0, 1, 2)))
		case x < 13:
			g.call(b, "setangle", g.n(-4, 4, 64))
		case x < 14:
			g.call(b, "setpos", g.v(20, 64)...)
		case x < 15:
			m := g.f(0.5, 1, 2)
			g.massShape(b, m)
			ss = append(ss, &sh{g.ns, g.ops[len(g.ops)-1].K, m > 0, true, b})
		default:
			g.ask(b)
		}
		if g.p(0.3) {
			g.step(g.pick(1, 2), 0)
		}
	}
}

// box of half width w and half height h, in quarters
func box(w, h int) [][]int { return [][]int{{-w, -h}, {w, -h}, {w, h}, {-w, h}} }

func (g *dgen) contact() {
	g.uneven = g.p(0.35)
	// iteration counts: enough for contacts with two points or friction off the line of the centres, or few
	it := g.f(40, 40, 40, 40, 10, 2)
	slop := g.f(-1, -1, 0, 0.25)
	gv := []float64{0, 0}
	if g.p(0.6) {
		gv = []float64{g.n(-2, 2, 8), g.n(-8, 2, 8)}
	}
	g.initSpace(gv[0], gv[1], it, slop, g.f(0, 0, 0, 0.9))
	types := g.p(0.5)
	if types {
		g.ops[0].M = g.in(1, 2)
	}
	adj := g.f(0, 0, 0.3)
	type grp struct {
		x, y float64
		bs   []int
		rest float64
	}
	var gs []grp
	mat := func() (float64, float64, float64, float64) {
		sx, sy := 0.0, 0.0
		if adj == 0 && g.p(0.25) { // a surface velocity lies along the surface of the contact that was found
			sx, sy = g.n(-2, 2, 16), g.n(-2, 2, 16)
		}
		return g.f(0, 0, 0.5, 0.75, 1), g.f(0, 0, 0.25, 0.5, 0.75, 1, 2), sx, sy
	}
	flags := func() []int {
		fl := []int{0, 0, 0, 0, 0, 0}
		if g.p(0.08) {
			fl[g.Intn(3)] = 1
		}
		fl[4] = b2i(types && g.p(0.5))
		fl[5] = b2i(g.p(adj))
		return fl
	}
	for k := g.in(1, 3); k > 0; k-- {
		x, y := float64(-30+len(gs)*25), g.n(-10, 10, 4)
		e1, u1, s1x, s1y := mat()
		e2, u2, s2x, s2y := mat()
		gr := grp{x: x, y: y}
		sp := g.n(0, 4, 64)
		switch g.Intn(5) {
		case 0, 1: // two circles
			r1, r2 := g.f(0.5, 1, 1.5), g.f(0.5, 1, 1.5)
			a := g.n(-3, 3, 64)
			d := (r1 + r2) * g.n(0.8, 1.1, 64)
			dx, dy := math.Round(math.Cos(a)*d*64)/64, math.Round(math.Sin(a)*d*64)/64
			k2 := "d"
			if g.p(0.25) {
				k2 = []string{"k", "s"}[g.Intn(2)]
			}
			b1 := g.body("d", g.mass(), g.moment(), x, y, g.n(-3, 3, 64), g.n(0, 1, 64)*dx*sp/2, g.n(0, 1, 64)*dy*sp/2, g.n(-3, 3, 64))
			vs := []float64{0, 0, 0}
			if k2 != "s" {
				vs = []float64{g.n(-2, 2, 64), g.n(-2, 2, 64), g.n(-3, 3, 64)}
			}
			b2 := g.body(k2, g.mass(), g.moment(), x+dx, y+dy, g.n(-3, 3, 64), vs[0], vs[1], vs[2])
			off := [][]int{{0, 0}}
			if it >= 40 && g.p(0.3) {
				off = [][]int{{g.in(-1, 1), g.in(-1, 1)}}
			}
			g.shape(b1, "c", off, r1, e1, u1, s1x, s1y, 0, flags()...)
			g.shape(b2, "c", [][]int{{0, 0}}, r2, e2, u2, s2x, s2y, 0, flags()...)
			gr.bs = []int{b1, b2}
		case 2, 3: // something on a wall
			wb := 1
			wx, wy := x, y
			if g.p(0.5) {
				k2 := []string{"k", "s"}[g.Intn(2)]
				vs := []float64{0, 0}
				if k2 == "k" && g.p(0.6) {
					vs = []float64{g.n(-1, 1, 64), g.n(-1, 1, 64)}
				}
				wb = g.body(k2, 0, 0, x, y, 0, vs[0], vs[1], 0)
				wx, wy = 0, 0
			}
			sl := g.pick(0, 0, -4, 4, 8)
			ox, oy := int(wx*4), int(wy*4)
			g.shape(wb, "s", [][]int{{ox - 32, oy - sl}, {ox + 32, oy + sl}}, 0.25, e1, u1, s1x, s1y, 0, flags()...)
			var b int
			n := []float64{-float64(sl), 32}
			l := math.Hypot(n[0], n[1])
			up := func(h float64) (float64, float64) {
				return x + math.Round(n[0]/l*h*64)/64, y + math.Round(n[1]/l*h*64)/64
			}
			vx, vy := g.n(-2, 2, 64), -g.n(0, 4, 64)
			if g.p(0.5) {
				r := g.f(0.5, 1, 1.5)
				px, py := up(0.25 + r*g.n(0.8, 1.1, 64))
				b = g.body("d", g.mass(), g.moment(), px, py, g.n(-3, 3, 64), vx, vy, g.n(-3, 3, 64))
				off := [][]int{{0, 0}}
				if it >= 40 && g.p(0.3) {
					off = [][]int{{g.in(-1, 1), g.in(-1, 1)}}
				}
				g.shape(b, "c", off, r, e2, u2, s2x, s2y, 0, flags()...)
			} else {
				w, h := g.in(2, 6), g.in(2, 6)
				r := g.f(0, 0.25)
				a := 0.0
				if sl != 0 {
					a = math.Round(math.Atan2(float64(sl), 32)*4096) / 4096
				}
				if g.p(0.4) {
					a += g.n(-1, 1, 64)
				}
				px, py := up(0.25 + r + float64(h)/4*g.n(0.85, 1.1, 64))
				b = g.body("d", g.mass(), g.moment(), px, py, a, vx, vy, g.n(-0.5, 0.5, 64))
				g.shape(b, "p", box(w, h), r, e2, u2, s2x, s2y, 0, flags()...)
			}
			gr.bs = []int{b}
		case 4: // two boxes
			w, h := g.in(2, 6), g.in(2, 6)
			b1 := g.body("d", g.mass(), g.moment(), x, y, 0, g.n(0, 3, 64), 0, 0)
			b2 := g.body("d", g.mass(), g.moment(), x+float64(w)/2*g.n(0.85, 1.1, 64), y+g.n(-0.5, 0.5, 16), g.f(0, 0, 0.25, 0.5), -g.n(0, 3, 64), 0, 0)
			g.shape(b1, "p", box(w, h), g.f(0, 0.25), e1, u1, s1x, s1y, 0, flags()...)
			g.shape(b2, "p", box(w, g.in(2, 6)), g.f(0, 0.25), e2, u2, s2x, s2y, 0, flags()...)
			gr.bs = []int{b1, b2}
		}
		gs = append(gs, gr)
	}
	for k := g.in(5, 9); k > 0; k-- {
		g.step(g.q(), g.Intn(3))
		gr := gs[g.Intn(len(gs))]
		b := gr.bs[g.Intn(len(gr.bs))]
		switch g.Intn(8) {
		case 0:
			g.call(b, "setv", g.v(3, 64)...)
		case 1: // away and back again, before the contact is forgotten
			vx, vy := g.n(-1, 1, 64), g.n(4, 6, 64)
			if len(gr.bs) == 2 {
				vx, vy = g.n(-6, 6, 64), g.n(-6, 6, 64)
			}
			g.call(b, "setv", vx, vy)
			g.step(g.q(), g.pick(0, 0, 1))
			g.call(b, "setv", -vx+g.n(-1, 1, 64), -vy+g.n(-1, 1, 64))
			g.step(g.q(), 0)
			g.call(b, "setv", -vx*2, -vy)
			g.step(g.q(), 1)
		case 2:
			g.call(b, "setw", g.n(-3, 3, 64))
		case 3:
			s := g.in(1, g.ns)
			switch g.Intn(3) {
			case 0:
				g.add(Op{O: "sop", K: "e", ID: s, FV: []float64{g.f(0, 0.5, 1)}})
			case 1:
				g.add(Op{O: "sop", K: "u", ID: s, FV: []float64{g.f(0, 0.25, 1)}})
			case 2:
				if adj == 0 {
					g.add(Op{O: "sop", K: "sv", ID: s, FV: g.v(2, 16)})
				}
			}
		case 4:
			g.call(b, "impL", append(g.v(2, 16), 0, 0)...)
		case 5:
			g.call(b, "forceL", append(g.v(10, 16), 0, 0)...)
		}
	}
}

// one joint between bodies a and b that are at (x, y) and (x+dx, y+dy)
func (g *dgen) joint(k string, a, b int, x, y, dx, dy float64, fl ...int) {
	anc := func() []float64 {
		if g.p(0.35) {
			return []float64{0, 0}
		}
		return g.v(1, 16)
	}
	l := math.Hypot(dx, dy)
	an := append(anc(), anc()...)
	if a == 1 { // the static body sits at the origin
		an[0] += x
		an[1] += y
	}
	var p []float64
	switch k {
	case "pin":
		p = an
	case "slide":
		lo := math.Max(0.5, l+g.n(-2, 1, 16))
		p = append(an, lo, lo+g.f(0, 0.25, 1, 2))
	case "pivot":
		if g.p(0.5) {
			p = []float64{x + dx/2 + g.n(-1, 1, 16), y + dy/2 + g.n(-1, 1, 16)}
		} else {
			p = an
			p[0] += dx / 2
			p[1] += dy / 2
			p[2] -= dx / 2
			p[3] -= dy / 2
		}
	case "groove":
		ox, oy := dx, dy
		if a == 1 {
			ox, oy = x+dx, y+dy
		}
		w := g.v(3, 16)
		if math.Hypot(w[0], w[1]) < 1 {
			w = []float64{2, 1}
		}
		o := g.f(0, 0, 0.5, -1.25, 1.25)
		c := anc()
		p = []float64{ox - w[0]*(1+o), oy - w[1]*(1+o), ox + w[0]*(1-o), oy + w[1]*(1-o), c[0], c[1]}
	case "spring":
		p = append(an, math.Max(0, l+g.n(-2, 2, 16)), g.f(1, 4, 16, 40), g.f(0, 0.5, 2, 8))
	case "rlimit":
		lo := g.n(-3, 2, 64)
		p = []float64{lo, lo + g.f(0.25, 1, 2)}
	case "ratchet":
		p = []float64{g.n(-1, 1, 64), g.f(0.5, 1, -0.5, -1, 0.25)}
	case "gear":
		p = []float64{g.n(-1, 1, 64), g.f(1, 2, 0.5, -1, -2, 3)}
	case "motor":
		p = []float64{g.n(-4, 4, 64)}
	case "rspring":
		p = []float64{g.n(-2, 2, 64), g.f(1, 4, 16), g.f(0, 0.5, 2, 8)}
	}
	g.add(Op{O: "joint", A: a, B: b, K: k, FV: p, Fl: fl})
	g.nj++
}

var jointKinds = []string{"pin", "slide", "pivot", "groove", "spring", "rlimit", "ratchet", "gear", "motor", "rspring"}

func (g *dgen) joints(only string) {
	g.uneven = g.p(0.35)
	gv := []float64{0, 0}
	if g.p(0.5) {
		gv = []float64{g.n(-2, 2, 8), g.n(-6, 2, 8)}
	}
	g.initSpace(gv[0], gv[1], g.f(10, 10, 4, 1), -1, g.f(0, 0, 0, 0.9))
	type pr struct {
		a, b, j int
		k       string
	}
	var ps []pr
	for n := g.in(1, 3); n > 0; n-- {
		k := jointKinds[g.Intn(len(jointKinds))]
		if only != "" {
			k = only
		}
		x, y := float64(-25+len(ps)*20), g.n(-8, 8, 4)
		dx, dy := g.n(-4, 4, 16), g.n(-4, 4, 16)
		if math.Hypot(dx, dy) < 2.5 {
			dx += 3
			if dx < 1 {
				dx += 3
			}
		}
		ka := []string{"d", "d", "d", "d", "k", "s", "S"}[g.Intn(7)]
		kb := "d"
		if ka == "d" && g.p(0.2) {
			kb = []string{"k", "s"}[g.Intn(2)]
		}
		mk := func(k string, x, y float64) int {
			vs := []float64{g.n(-2, 2, 64), g.n(-2, 2, 64), g.n(-2, 2, 64)}
			if k == "s" {
				vs = []float64{0, 0, 0}
			}
			b := g.body(k, g.mass(), g.moment(), x, y, g.n(-2, 2, 64), vs[0], vs[1], vs[2])
			if k == "d" && g.p(0.2) { // mass from a shape off the centre
				g.shape(b, "c", [][]int{{g.in(-3, 3), g.in(-3, 3)}}, 1, 0, 0, 0, 0, g.mass(), 0, 0, 0, 1)
			}
			return b
		}
		a := 1
		if ka != "S" {
			a = mk(ka, x, y)
		}
		b := mk(kb, x+dx, y+dy)
		fl := []int{g.Intn(2), 0}
		if k == "spring" || k == "rspring" {
			fl[1] = g.Intn(3) / 2
		}
		if fl[1] == 1 {
			fl[1] = 1
		}
		g.joint(k, a, b, x, y, dx, dy, fl...)
		if g.p(0.5) {
			g.limits(g.nj)
		}
		ps = append(ps, pr{a, b, g.nj, k})
	}
	for n := g.in(5, 10); n > 0; n-- {
		g.step(g.q(), g.Intn(4))
		p := ps[g.Intn(len(ps))]
		b := p.b
		if g.p(0.4) {
			b = p.a
		}
		switch g.Intn(12) {
		case 0:
			if b > 1 {
				g.call(b, "setv", g.v(3, 64)...)
			}
		case 1, 2:
			if b > 1 {
				g.call(b, "setw", g.n(-4, 4, 64))
			}
		case 3:
			g.limits(p.j)
		case 4:
			if b > 1 {
				g.call(b, "impL", append(g.v(3, 16), g.v(1, 16)...)...)
			}
		case 5:
			if b > 1 {
				g.call(b, "forceL", append(g.v(12, 16), g.v(1, 16)...)...)
			}
		case 6:
			if p.k == "motor" {
				g.add(Op{O: "jop", ID: p.j, K: "p", FV: []float64{g.n(-4, 4, 64)}})
			}
			if p.k == "rlimit" {
				lo := g.n(-3, 2, 64)
				g.add(Op{O: "jop", ID: p.j, K: "p", FV: []float64{lo, lo + g.f(0.25, 1, 2)}})
			}
			if p.k == "rspring" {
				g.add(Op{O: "jop", ID: p.j, K: "p", FV: []float64{g.n(-2, 2, 64), g.f(1, 4, 16), g.f(0, 0.5, 2, 8)}})
			}
		case 7:
			if g.p(0.3) {
				g.add(Op{O: "jop", ID: p.j, K: "rm", FV: []float64{}})
			}
		}
	}
}

func (g *dgen) limits(j int) {
	switch g.Intn(5) {
	case 0:
		g.add(Op{O: "jop", ID: j, K: "mf", FV: []float64{g.f(1, 8, 40, 160, -1)}})
	case 1:
		g.add(Op{O: "jop", ID: j, K: "mb", FV: []float64{g.f(0.25, 0.5, 1, 2, -1)}})
	case 2:
		g.add(Op{O: "jop", ID: j, K: "eb", FV: []float64{g.f(1e-5, 0.001, 0.125, 0.5)}})
	case 3:
		g.add(Op{O: "jop", ID: j, K: "mf", FV: []float64{g.f(1, 8, 40)}})
		g.add(Op{O: "jop", ID: j, K: "mb", FV: []float64{g.f(0.25, 0.5, 1)}})
	case 4:
		g.add(Op{O: "jop", ID: j, K: "mb", FV: []float64{g.f(0.25, 0.5, 1)}})
		g.add(Op{O: "jop", ID: j, K: "eb", FV: []float64{g.f(0, 0.001, 0.5)}})
	}
}

// bodies that touch and are tied to each other
func (g *dgen) islands() {
	g.uneven = g.p(0.35)
	gv := []float64{0, 0}
	if g.p(0.4) {
		gv = []float64{g.n(-2, 2, 8), g.n(-4, 2, 8)}
	}
	g.initSpace(gv[0], gv[1], g.f(10, 10, 4, 1), g.f(-1, 0), g.f(0, 0, 0.9))
	rough := g.p(0.5)
	u := func() float64 {
		if rough {
			return g.f(0.25, 0.5, 1)
		}
		return 0
	}
	soft := []string{"pin", "slide", "spring", "rlimit", "ratchet", "motor", "rspring"}
	if g.p(0.3) {
		soft = jointKinds
	}
	for n := g.in(1, 2); n > 0; n-- {
		x0, y0 := float64(-20+n*20), g.n(-5, 5, 4)
		cols, rows := g.in(2, 3), g.in(1, 2)
		var bs []int
		var at [][]float64
		var kin []bool
		for i := 0; i < cols; i++ {
			for j := 0; j < rows; j++ {
				x, y := x0+float64(i)*1.75+g.n(-0.125, 0.125, 64), y0+float64(j)*1.75+g.n(-0.125, 0.125, 64)
				k := "d"
				if g.p(0.08) {
					k = "k"
				}
				b := g.body(k, g.mass(), g.moment(), x, y, g.n(-1, 1, 64), g.n(-2, 2, 64), g.n(-2, 2, 64), g.n(-1, 1, 64))
				kin = append(kin, k == "k")
				bs = append(bs, b)
				at = append(at, []float64{x, y})
				if g.p(0.5) {
					g.shape(b, "c", [][]int{{0, 0}}, 1, g.f(0, 0.5), u(), 0, 0, 0)
				} else {
					g.shape(b, "p", box(3, 3), g.f(0, 0.25), g.f(0, 0.5), u(), 0, 0, 0)
				}
			}
		}
		for k := g.Intn(4); k > 0; k-- {
			i, j := g.Intn(len(bs)), g.Intn(len(bs))
			if i == j || kin[i] && kin[j] {
				continue
			}
			g.joint(soft[g.Intn(len(soft))], bs[i], bs[j], at[i][0], at[i][1], at[j][0]-at[i][0], at[j][1]-at[i][1], g.Intn(2), 0)
		}
		if g.p(0.3) {
			g.shape(1, "s", [][]int{{int(x0*4) - 20, int(y0*4) - 5}, {int(x0*4) + 32, int(y0*4) - 5}}, 0.25, 0, u(), 0, 0, 0)
		}
	}
	for n := g.in(4, 8); n > 0; n-- {
		g.step(g.q(), g.Intn(3))
		b := g.in(2, g.nb)
		switch g.Intn(5) {
		case 0:
			g.call(b, "setv", g.v(2, 64)...)
		case 1:
			g.call(b, "setw", g.n(-1, 1, 64))
		}
	}
}

func genDyn(seed int64, n int, arg string) []Script {
	var scs []Script
	for k := 0; k < n; k++ {
		g := &dgen{Rand: rand.New(rand.NewSource(seed*1000003 + int64(k)*7919))}
		switch {
		case arg == "free":
			g.free()
		case arg == "mass":
			g.massProfile()
		case arg == "contact":
			g.contact()
		case arg == "island":
			g.islands()
		case arg == "joint":
			g.joints("")
		case arg == "draw":
			switch g.Intn(4) {
			case 0:
				g.contact()
			case 1:
				g.islands()
			default:
				g.joints("")
			}
			g.ops = withDrawings(g.Rand, g.ops)
		default:
			g.joints(arg)
		}
		for j := len(g.ops) - 1; j > 0; j-- {
			if g.ops[j].O == "step" && g.p(0.1) {
				g.ops = append(g.ops[:j+1], append([]Op{{O: "get"}}, g.ops[j+1:]...)...)
			}
		}
		scs = append(scs, Script{ID: fmt.Sprintf("dyn-%s-%d-%d", arg, seed, k), Fam: "dyn", Ops: g.ops})
	}
	return scs
}
