package main

// A drawer that writes down what it is asked to draw.

import (
	"fmt"
	"math"
	"strings"

	cp "github.com/jakecoffman/cp/v2"
)

type drawer struct {
	flags  uint
	id     func(*cp.Shape) int
	q      float64 // unit of lengths
	sh     []string
	dots   []string
	segs   []string
	ct     []string
	bad    int
	shapes map[int]bool
}

var (
	dOutline = cp.FColor{R: 0.25, G: 0.5, B: 0.125, A: 1}
	dJoint   = cp.FColor{R: 0, G: 1, B: 0, A: 1}
	dContact = cp.FColor{R: 1, G: 0, B: 0, A: 1}
)

func (d *drawer) Flags() uint                    { return d.flags }
func (d *drawer) OutlineColor() cp.FColor        { return dOutline }
func (d *drawer) ConstraintColor() cp.FColor     { return dJoint }
func (d *drawer) CollisionPointColor() cp.FColor { return dContact }
func (d *drawer) Data() interface{}              { return "drawing" }
func (d *drawer) ShapeColor(s *cp.Shape, data interface{}) cp.FColor {
	d.check(data)
	return cp.FColor{R: float32(d.id(s)), G: -1}
}

func (d *drawer) check(data interface{}) {
	if s, ok := data.(string); !ok || s != "drawing" {
		d.bad++
	}
}

func (d *drawer) p(v ...cp.Vector) string {
	var l []string
	for _, x := range v {
		l = append(l, fmt.Sprint(fix2(x.X, d.q)), fmt.Sprint(fix2(x.Y, d.q)))
	}
	return "[" + strings.Join(l, ",") + "]"
}

// fix2 rounds f*k; what is out of range becomes a value nothing compares equal to
func fix2(f, k float64) int {
	f *= k
	if f != f || math.Abs(f) > 1e8 {
		return 500000000
	}
	return int(math.Round(f))
}

func (d *drawer) shape(kind string, v []cp.Vector, r, angle float64, outline, fill cp.FColor, data interface{}) {
	d.check(data)
	if outline != dOutline || fill.G != -1 {
		d.bad++
	}
	var l []string
	for _, x := range v {
		l = append(l, d.p(x))
	}
	d.sh = append(d.sh, fmt.Sprintf(`{"id":%d,"k":"%s","v":[%s],"r":%d,"d":[%d,%d]}`, int(fill.R), kind, strings.Join(l, ","), fix2(r, d.q),
		fix2(math.Cos(angle), 10000), fix2(math.Sin(angle), 10000)))
}

func (d *drawer) DrawCircle(pos cp.Vector, angle, radius float64, outline, fill cp.FColor, data interface{}) {
	d.shape("c", []cp.Vector{pos}, radius, angle, outline, fill, data)
}
func (d *drawer) DrawFatSegment(a, b cp.Vector, radius float64, outline, fill cp.FColor, data interface{}) {
	d.shape("s", []cp.Vector{a, b}, radius, 0, outline, fill, data)
}
func (d *drawer) DrawPolygon(count int, verts []cp.Vector, radius float64, outline, fill cp.FColor, data interface{}) {
	if count != len(verts) {
		d.bad++
	}
	d.shape("p", verts, radius, 0, outline, fill, data)
}
func (d *drawer) DrawSegment(a, b cp.Vector, fill cp.FColor, data interface{}) {
	d.check(data)
	switch fill {
	case dJoint:
		d.segs = append(d.segs, d.p(a, b))
	case dContact:
		d.ct = append(d.ct, d.p(a, b))
	default:
		d.bad++
	}
}
func (d *drawer) DrawDot(size float64, pos cp.Vector, fill cp.FColor, data interface{}) {
	d.check(data)
	switch fill {
	case dJoint:
		d.dots = append(d.dots, d.p(pos))
	case dContact:
		d.ct = append(d.ct, d.p(pos, pos))
	default:
		d.bad++
	}
	if !(size > 0) {
		d.bad++
	}
}

// drawing draws the space and says what was drawn and what the bodies' contacts were
func drawing(sp *cp.Space, bodies []*cp.Body, flags int, q float64, id func(*cp.Shape) int) string {
	d := &drawer{flags: uint(flags), id: id, q: q}
	cp.DrawSpace(sp, d)
	var cps []string
	had := map[[2]int]bool{}
	for _, b := range bodies {
		b.EachArbiter(func(a *cp.Arbiter) {
			s1, s2 := a.Shapes()
			i, j := id(s1), id(s2)
			if i > j {
				i, j = j, i
			}
			if had[[2]int{i, j}] {
				return
			}
			had[[2]int{i, j}] = true
			set := a.ContactPointSet()
			for k := 0; k < set.Count; k++ {
				p := set.Points[k]
				cps = append(cps, fmt.Sprintf(`{"s":[%d,%d],"v":%s}`, i, j, d.p(p.PointA.Sub(set.Normal.Mult(2)), p.PointB.Add(set.Normal.Mult(2)))))
			}
		})
	}
	l := func(s []string) string { return "[" + strings.Join(s, ",") + "]" }
	return fmt.Sprintf(`"fl":%d,"bad":%d,"sh":%s,"dots":%s,"segs":%s,"ct":%s,"cp":%s`, flags, d.bad, l(d.sh), l(d.dots), l(d.segs), l(d.ct), l(cps))
}
