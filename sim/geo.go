package main

import "math"

// Pt is a vertex: x, y and a third ordinate (time, or a tag).
type Pt [3]float64

func same2(a, b Pt) bool { return a[0] == b[0] && a[1] == b[1] }

// orient is exact for integer coordinates below 2^25.
func orient(a, b, c Pt) float64 {
	return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])
}

func sgn(v float64) int {
	if v > 0 {
		return 1
	} else if v < 0 {
		return -1
	}
	return 0
}

func onSeg(a, b, p Pt) bool {
	return orient(a, b, p) == 0 &&
		math.Min(a[0], b[0]) <= p[0] && p[0] <= math.Max(a[0], b[0]) &&
		math.Min(a[1], b[1]) <= p[1] && p[1] <= math.Max(a[1], b[1])
}

// segX reports whether closed segments ab and cd share a point.
func segX(a, b, c, d Pt) bool {
	if math.Max(a[0], b[0]) < math.Min(c[0], d[0]) || math.Max(c[0], d[0]) < math.Min(a[0], b[0]) ||
		math.Max(a[1], b[1]) < math.Min(c[1], d[1]) || math.Max(c[1], d[1]) < math.Min(a[1], b[1]) {
		return false
	}
	o1, o2 := sgn(orient(a, b, c)), sgn(orient(a, b, d))
	o3, o4 := sgn(orient(c, d, a)), sgn(orient(c, d, b))
	if o1*o2 < 0 && o3*o4 < 0 {
		return true
	}
	return onSeg(a, b, c) || onSeg(a, b, d) || onSeg(c, d, a) || onSeg(c, d, b)
}

// properX reports a transversal crossing at interior points of both.
func properX(a, b, c, d Pt) bool {
	return sgn(orient(a, b, c))*sgn(orient(a, b, d)) < 0 && sgn(orient(c, d, a))*sgn(orient(c, d, b)) < 0
}

// insideX: the segments meet at a point that is not a vertex of both.
func insideX(a, b, c, d Pt) bool {
	in := func(p, q, r Pt) bool { return !same2(p, q) && !same2(p, r) && onSeg(q, r, p) }
	return properX(a, b, c, d) || in(a, c, d) || in(b, c, d) || in(c, a, b) || in(d, a, b)
}

// foldX reports whether two segments with a common end lie on each other from
// there on, and for how long.
func foldX(p, q []Pt) (float64, bool) {
	if same2(p[0], p[1]) || same2(q[0], q[1]) {
		return 0, false
	}
	for i := range p {
		for j := range q {
			c, a, b := p[i], p[1-i], q[1-j]
			if !same2(c, q[j]) || same2(a, b) {
				continue
			}
			if onSeg(c, b, a) {
				return hyp(c, a), true
			}
			if onSeg(c, a, b) {
				return hyp(c, b), true
			}
		}
	}
	return 0, false
}

func crossPoint(a, b, c, d Pt) (Pt, bool) {
	den := (b[0]-a[0])*(d[1]-c[1]) - (b[1]-a[1])*(d[0]-c[0])
	if den == 0 {
		return Pt{}, false
	}
	t := ((c[0]-a[0])*(d[1]-c[1]) - (c[1]-a[1])*(d[0]-c[0])) / den
	return Pt{a[0] + t*(b[0]-a[0]), a[1] + t*(b[1]-a[1])}, true
}

// segPts lists points where two closed segments meet (both ends of an overlap).
func segPts(a, b, c, d Pt) []Pt {
	if !segX(a, b, c, d) {
		return nil
	}
	var out []Pt
	add := func(p Pt) {
		for _, q := range out {
			if same2(p, q) {
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range []Pt{c, d} {
		if onSeg(a, b, p) {
			add(p)
		}
	}
	for _, p := range []Pt{a, b} {
		if onSeg(c, d, p) {
			add(p)
		}
	}
	if len(out) == 0 {
		if p, ok := crossPoint(a, b, c, d); ok {
			add(p)
		}
	}
	return out
}

func hyp(a, b Pt) float64 { return math.Hypot(a[0]-b[0], a[1]-b[1]) }

func distPS(p, a, b Pt) float64 {
	dx, dy := b[0]-a[0], b[1]-a[1]
	l := dx*dx + dy*dy
	if l == 0 {
		return hyp(p, a)
	}
	t := ((p[0]-a[0])*dx + (p[1]-a[1])*dy) / l
	if t < 0 {
		t = 0
	} else if t > 1 {
		t = 1
	}
	return math.Hypot(p[0]-a[0]-t*dx, p[1]-a[1]-t*dy)
}

func distSS(a, b, c, d Pt) float64 {
	if segX(a, b, c, d) {
		return 0
	}
	return math.Min(math.Min(distPS(a, c, d), distPS(b, c, d)), math.Min(distPS(c, a, b), distPS(d, a, b)))
}

func linesX(p, q []Pt) bool {
	for i := 0; i+1 < len(p); i++ {
		for j := 0; j+1 < len(q); j++ {
			if segX(p[i], p[i+1], q[j], q[j+1]) {
				return true
			}
		}
	}
	return false
}

func linesPts(p, q []Pt) []Pt {
	var out []Pt
	for i := 0; i+1 < len(p); i++ {
		for j := 0; j+1 < len(q); j++ {
			out = append(out, segPts(p[i], p[i+1], q[j], q[j+1])...)
		}
	}
	return out
}

func linesDist(p, q []Pt) float64 {
	d := math.Inf(1)
	for i := 0; i+1 < len(p); i++ {
		for j := 0; j+1 < len(q); j++ {
			d = math.Min(d, distSS(p[i], p[i+1], q[j], q[j+1]))
		}
	}
	return d
}

// inRing: 1 inside, 0 on the boundary, -1 outside.
func inRing(p Pt, ring []Pt) int {
	in := false
	for i := 0; i+1 < len(ring); i++ {
		a, b := ring[i], ring[i+1]
		if onSeg(a, b, p) {
			return 0
		}
		if (a[1] > p[1]) != (b[1] > p[1]) {
			o := orient(a, b, p)
			if (b[1] > a[1]) == (o > 0) {
				in = !in
			}
		}
	}
	if in {
		return 1
	}
	return -1
}

// Geo is one planar constraint.
type Geo struct {
	Kind string `json:"kind"` // Point, LineString, Polygon
	Pts  [][]Pt `json:"pts"`  // one point; one line; shell and holes
}

func (g Geo) lines() [][]Pt {
	if g.Kind == "Point" {
		p := g.Pts[0][0]
		return [][]Pt{{p, p}}
	}
	return g.Pts
}

// rep is a point of the constraint.
func (g Geo) rep() Pt { return g.Pts[0][0] }

func (g Geo) contains(p Pt) bool {
	if g.Kind != "Polygon" {
		return false
	}
	if inRing(p, g.Pts[0]) < 0 {
		return false
	}
	for _, h := range g.Pts[1:] {
		if inRing(p, h) > 0 {
			return false
		}
	}
	return true
}

func (g Geo) meets(l []Pt) bool {
	for _, q := range g.lines() {
		if linesX(l, q) {
			return true
		}
	}
	return g.contains(l[0])
}

func (g Geo) dist(l []Pt) float64 {
	if g.contains(l[0]) {
		return 0
	}
	d := math.Inf(1)
	for _, q := range g.lines() {
		d = math.Min(d, linesDist(l, q))
	}
	return d
}

// winding number of a closed loop about p, which is not on it.
func winding(loop []Pt, p Pt) int {
	w := 0
	for i := range loop {
		a, b := loop[i], loop[(i+1)%len(loop)]
		if a[1] <= p[1] {
			if b[1] > p[1] && orient(a, b, p) > 0 {
				w++
			}
		} else if b[1] <= p[1] && orient(a, b, p) < 0 {
			w--
		}
	}
	return w
}

// plainPS reports whether the distance of p to the segment ab is a difference of
// two coordinates, which floating point arithmetic gives exactly.
func plainPS(p, a, b Pt) bool {
	if same2(a, b) {
		return p[0] == a[0] || p[1] == a[1]
	}
	if a[0] == b[0] {
		return p[0] == a[0] || math.Min(a[1], b[1]) <= p[1] && p[1] <= math.Max(a[1], b[1])
	}
	if a[1] == b[1] {
		return p[1] == a[1] || math.Min(a[0], b[0]) <= p[0] && p[0] <= math.Max(a[0], b[0])
	}
	return false
}

// plainDist reports whether the distance m between the line and the constraint
// is attained only where it is a difference of two coordinates.
func (g Geo) plainDist(l []Pt, m float64) bool {
	if g.contains(l[0]) {
		return false
	}
	ps := func(p, a, b Pt) bool { return distPS(p, a, b) > m+tol || plainPS(p, a, b) && distPS(p, a, b) == m }
	for _, q := range g.lines() {
		for i := 0; i+1 < len(l); i++ {
			for j := 0; j+1 < len(q); j++ {
				a, b, c, d := l[i], l[i+1], q[j], q[j+1]
				if segX(a, b, c, d) || !ps(a, c, d) || !ps(b, c, d) || !ps(c, a, b) || !ps(d, a, b) {
					return false
				}
			}
		}
	}
	return true
}
