package main

// Geometric queries of the world family.

import (
	"fmt"
	"math"
	"strings"

	cp "github.com/jakecoffman/cp/v2"
)

func vec(p []int) cp.Vector { return cp.Vector{X: float64(p[0]), Y: float64(p[1])} }

// fix rounds f*k; what is not a number or out of range becomes a value nothing compares equal to
func fix(f, k float64) int {
	f *= k
	if f != f || math.Abs(f) > 4e5 {
		return 400000
	}
	return int(math.Round(f))
}

func fixv(v cp.Vector, k float64) string { return fmt.Sprintf("[%d,%d]", fix(v.X, k), fix(v.Y, k)) }

// small says that the products the specification makes of s's coordinates do not overflow
func small(s *cp.Shape) bool {
	b := s.BB()
	return b.L >= -70 && b.B >= -70 && b.R <= 70 && b.T <= 70
}

func (w *World) allSmall() bool {
	for _, s := range w.shapes {
		if s.in && !small(s.s) {
			return false
		}
	}
	return true
}

func contactSet(n, pts string, set *cp.ContactPointSet) string {
	var ps []string
	for i := 0; i < set.Count; i++ {
		p := set.Points[i]
		ps = append(ps, fmt.Sprintf("[%d,%d,%d,%d,%d]", fix(p.PointA.X, 128), fix(p.PointA.Y, 128), fix(p.PointB.X, 128), fix(p.PointB.Y, 128), fix(p.Distance, 128)))
	}
	return fmt.Sprintf(`"%s":%s,"%s":[%s]`, n, fixv(set.Normal, 10000), pts, strings.Join(ps, ","))
}

// fresh says that the pose the shape has in the index is its body's pose
func (w *World) fresh(s *wShape) bool {
	var got cp.Vector
	local := s.v[0]
	switch c := s.s.Class.(type) {
	case *cp.Circle:
		got = c.TransformC()
	case *cp.Segment:
		got = c.TransformA()
		a, b := s.body.b.LocalToWorld(s.v[1]), c.TransformB()
		if a.Distance(b) > 1e-9 {
			return false
		}
	case *cp.PolyShape:
		for i := 0; i < c.Count(); i++ {
			if s.body.b.LocalToWorld(c.Vert(i)).Distance(c.TransformVert(i)) > 1e-9 {
				return false
			}
		}
		return true
	}
	// the bounding box of a circle moves with its centre, and its body may have turned around it
	return s.body.b.LocalToWorld(local).Distance(got) < 1e-9
}

func (w *World) query(op Op) bool {
	if w.sc.Real != 0 || w.top().rms {
		return false
	}
	s := w.shapes[op.ID]
	if (op.O == "pq" || op.O == "sq1" || op.O == "col" || op.O == "sbb") && (s == nil || !s.in || !small(s.s)) {
		return false
	}
	point := func(i cp.PointQueryInfo) string {
		return fmt.Sprintf(`"d":%d,"pt":%s,"g":%s`, fix(i.Distance, 128), fixv(i.Point, 128), fixv(i.Gradient, 10000))
	}
	hit := func(i cp.SegmentQueryInfo) string {
		return fmt.Sprintf(`"al":%d,"pt":%s,"n":%s`, fix(i.Alpha, 100000), fixv(i.Point, 128), fixv(i.Normal, 10000))
	}
	switch op.O {
	case "sbb":
		bb := s.s.BB()
		var v []int
		for _, f := range []float64{bb.L, bb.B, bb.R, bb.T} {
			v = append(v, rnd(f))
			if math.Abs(f-math.Round(f)) > 1e-6 {
				v[0] = 999999
			}
		}
		w.ev(`{"e":"sbb","s":%d,"bb":%s}`, op.ID, ints(v))
	case "pq":
		p := vec(op.V[0]).Mult(0.25)
		i := s.s.PointQuery(p)
		id := shapeID(i.Shape)
		if id == op.ID {
			id = 1
		} else {
			id = 0
		}
		w.ev(`{"e":"pq","s":%d,"same":%d,"p":%s,%s}`, op.ID, id, ints(op.V[0]), point(i))
	case "pn":
		if !w.allSmall() {
			return false
		}
		p := vec(op.V[0]).Mult(0.25)
		i := w.space.PointQueryNearest(p, float64(op.R), op.F.cp())
		id := 0
		if i.Shape != nil {
			id = shapeID(i.Shape)
		}
		w.ev(`{"e":"pn","p":%s,"max":%d,"f":%s,"s":%d,%s}`, ints(op.V[0]), op.R, op.F.js(), id, point(*i))
	case "sq1":
		var i cp.SegmentQueryInfo
		hitB := s.s.SegmentQuery(vec(op.V[0]), vec(op.V[1]), float64(op.R), &i)
		h := b2i(hitB)
		if hitB != (i.Shape == s.s) || hitB == (i.Shape == nil) || !hitB && i.Alpha != 1 || hitB != s.s.SegmentQuery(vec(op.V[0]), vec(op.V[1]), float64(op.R), nil) {
			h = 9
		}
		w.ev(`{"e":"sq1","s":%d,"a":%s,"b":%s,"r":%d,"hit":%d,%s}`, op.ID, ints(op.V[0]), ints(op.V[1]), op.R, h, hit(i))
	case "sf":
		if !w.allSmall() {
			return false
		}
		i := w.space.SegmentQueryFirst(vec(op.V[0]), vec(op.V[1]), float64(op.R), op.F.cp())
		id := 0
		if i.Shape != nil {
			id = shapeID(i.Shape)
		}
		w.ev(`{"e":"sf","a":%s,"b":%s,"r":%d,"f":%s,"s":%d,%s}`, ints(op.V[0]), ints(op.V[1]), op.R, op.F.js(), id, hit(i))
	case "col":
		o := w.shapes[op.B]
		if o == nil || o == s || !o.in || !small(o.s) {
			return false
		}
		set := cp.ShapesCollide(s.s, o.s)
		w.ev(`{"e":"col","s":%d,"t":%d,%s}`, op.ID, op.B, contactSet("n", "pts", &set))
	}
	return true
}
