package main

import (
	"encoding/base64"
	"fmt"
	"math"
	"strings"
)

// Rng is the one source of choices (splitmix64).
type Rng struct{ s uint64 }

func newRng(parts ...uint64) *Rng {
	r := &Rng{0x9e3779b97f4a7c15}
	for _, p := range parts {
		r.s = r.next() ^ p*0xff51afd7ed558ccd
	}
	r.next()
	return r
}

func (r *Rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (r *Rng) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.next() % uint64(k))
}
func (r *Rng) f() float64                 { return float64(r.next()>>11) / (1 << 53) }
func (r *Rng) p(v float64) bool           { return r.f() < v }
func (r *Rng) in(a, b int) int            { return a + r.n(b-a+1) }
func (r *Rng) pickI(v ...int) int         { return v[r.n(len(v))] }
func (r *Rng) pickS(v ...string) string   { return v[r.n(len(v))] }
func (r *Rng) pickF(v ...float64) float64 { return v[r.n(len(v))] }

func hashS(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

// GenOpt shapes a generated case.
type GenOpt struct {
	FC       int // -1 never, 1 always, 0 either
	Type     string
	Cons     bool // with constraints
	MaxFeats int
	MaxPts   int
	Tag      bool    // third ordinate numbers the vertices
	Degen    bool    // repeated and collinear vertices
	Odd      bool    // skipped input lines, bare geometries, multi parts
	Xf       bool    // scaled and translated coordinates
	Long     float64 // how often a line has hundreds of vertices
	Force    func(*Config, *Rng)
}

func xy(x, y int) Pt { return Pt{float64(x), float64(y)} }

// genLine draws one line of n vertices on the integer grid.
func genLine(r *Rng, n, span int, degen bool) []Pt {
	kind := r.n(10)
	if n > 200 {
		kind = r.pickI(1, 1, 1, 2, 3, 4, 8, 8, 8)
	}
	var l []Pt
	switch kind {
	case 0: // random points in a box: many crossings
		for i := 0; i < n; i++ {
			l = append(l, xy(r.n(span), r.n(span)))
		}
	case 1: // wiggle along x: nothing crosses
		x, base, amp := r.n(10), r.n(span), r.in(1, span/3+1)
		for i := 0; i < n; i++ {
			l = append(l, xy(x, base+r.in(-amp, amp)))
			x += r.in(1, 6)
		}
	case 2: // random walk
		x, y, st := r.n(span), r.n(span), r.in(2, span/4+2)
		for i := 0; i < n; i++ {
			l = append(l, xy(x, y))
			x += r.in(-st, st)
			y += r.in(-st, st)
		}
	case 3: // meander: long folded strands close to each other
		x, y, d, h := 0, 0, r.in(2, 7), r.in(8, span+8)
		up := true
		for len(l) < n {
			for k := 0; k < r.in(2, 5) && len(l) < n; k++ {
				l = append(l, xy(x+r.in(-1, 1), y+r.in(-1, 1)))
				if up {
					y += h / 3
				} else {
					y -= h / 3
				}
			}
			up = !up
			x += d
		}
	case 4: // spiral
		a := 0.0
		for i := 0; i < n; i++ {
			rad := 4 + float64(i)*float64(span)/float64(2*n)
			l = append(l, xy(span/2+int(rad*math.Cos(a)), span/2+int(rad*math.Sin(a))))
			a += 0.4 + 0.5*r.f()
		}
	case 5: // closed loop
		m := n - 1
		for i := 0; i < m; i++ {
			a := 2 * math.Pi * float64(i) / float64(m)
			rad := float64(span) / 2 * (0.4 + 0.6*r.f())
			l = append(l, xy(span/2+int(rad*math.Cos(a)), span/2+int(rad*math.Sin(a))))
		}
		if m > 0 {
			l = append(l, l[0])
		} else {
			l = append(l, xy(0, 0))
		}
	case 6: // small grid: vertices repeat, segments overlap
		k := r.in(3, 6)
		st := r.in(2, 10)
		for i := 0; i < n; i++ {
			l = append(l, xy(st*r.n(k), st*r.n(k)))
		}
	case 7: // figure eights and loops along a path
		x, y := 0, r.n(span)
		for len(l) < n {
			l = append(l, xy(x, y), xy(x+12, y+r.in(-3, 3)), xy(x+r.in(6, 14), y+r.in(6, 14)), xy(x+r.in(0, 6), y+r.in(4, 12)), xy(x+r.in(2, 9), y-r.in(2, 12)))
			x += r.in(8, 20)
			y += r.in(-6, 6)
		}
		l = l[:n]
	case 8: // nearly straight, with a few spikes
		x, base, amp := 0, r.n(span), r.n(3)
		for i := 0; i < n; i++ {
			l = append(l, xy(x, base+r.in(-amp, amp)))
			x += r.in(1, 4)
		}
		for k := r.in(1, 3); k > 0; k-- {
			l[r.n(n)][1] += float64(r.in(-span/2, span/2))
		}
	}
	if kind == 9 { // forth and back along one direction, by way of detours
		dx, dy, at := r.in(-4, 4), r.in(-4, 4), 0
		if dx == 0 && dy == 0 {
			dx = 3
		}
		x, y := r.n(span), r.n(span)
		for fwd := true; len(l) < n; fwd = !fwd {
			l = append(l, xy(x+at*dx, y+at*dy))
			step := r.in(2, 6)
			if !fwd {
				step = -r.in(1, 5)
			}
			for k := r.n(3); k > 0; k-- {
				m := at + step*r.in(1, 3)/4
				l = append(l, xy(x+m*dx+r.in(-8, 8), y+m*dy+r.in(-8, 8)))
			}
			at += step
		}
		l = l[:n]
	}
	if !degen {
		// no two consecutive vertices coincide
		for i := 1; i < len(l); i++ {
			for k := 0; same2(l[i], l[i-1]); k++ {
				l[i][0] += float64(r.in(1, 3))
				l[i][1] += float64(r.in(-2, 2))
			}
		}
	} else {
		switch r.n(4) {
		case 0:
			i := r.n(len(l))
			l = append(l[:i+1:i+1], l[i:]...)
		case 1: // collinear run
			i := r.n(len(l))
			for k := i; k < min(len(l), i+60); k++ {
				l[k][1] = l[i][1]
			}
		case 2: // revisit an earlier vertex
			if len(l) > 3 {
				l[len(l)-1-r.n(2)] = l[r.n(len(l)/2)]
			}
		}
	}
	return l
}

// shadow runs a line beside another, sometimes touching it.
func shadow(r *Rng, l []Pt, touch bool) []Pt {
	dx, dy := float64(r.in(-4, 4)), float64(r.in(1, 6))
	var o []Pt
	for _, p := range l {
		if r.p(0.15) {
			continue
		}
		q := Pt{p[0] + dx, p[1] + dy}
		if r.p(0.2) {
			q[0] += float64(r.in(-2, 2))
			q[1] += float64(r.in(-1, 2))
		}
		if touch && r.p(0.08) {
			q = p
		}
		q[2] = 0
		o = append(o, q)
	}
	for len(o) < 2 {
		o = append(o, xy(r.n(50)+200, r.n(50)))
	}
	return o
}

// twin is a line again, with a few vertices moved.
func twin(r *Rng, l []Pt) []Pt {
	o := append([]Pt{}, l...)
	for k := r.in(0, 3); k > 0; k-- {
		i := r.n(len(o))
		o[i][0] += float64(r.in(-6, 6))
		o[i][1] += float64(r.in(-6, 6))
	}
	return o
}

func tagLine(r *Rng, l []Pt, typ string) {
	t := float64(r.in(1, 20))
	if typ == "sed" && r.p(0.12) { // repeated or unordered times
		back := r.p(0.3)
		for i := range l {
			l[i][2] = t
			t += float64(r.pickI(0, 0, 0, 1, 2))
			if back && r.p(0.2) {
				t = float64(r.in(1, 20))
			}
		}
		return
	}
	for i := range l {
		l[i][2] = t
		if typ == "sed" {
			t += float64(r.pickI(1, 1, 1, 2, 3, 10))
		} else {
			t++
		}
	}
}

// heights draws third ordinates that need not tell vertices apart.
func heights(r *Rng, l []Pt) {
	z := r.pickF(0, 0, 7, -2.5, 1e-3, 123456.75)
	for i := range l {
		l[i][2] = z
	}
	switch r.n(5) {
	case 0: // a single one
		l[r.n(len(l))][2] = r.pickF(0, 1, -40, 0.125)
	case 1: // a few
		for k := r.in(1, len(l)); k > 0; k-- {
			l[r.n(len(l))][2] = float64(r.in(-30, 30)) / 4
		}
	case 2: // both ends at zero
		for i := range l {
			l[i][2] = float64(r.in(-9, 99))
		}
		l[0][2], l[len(l)-1][2] = 0, 0
	case 3:
		for i := range l {
			l[i][2] = float64(r.in(-1, 1))
		}
	}
}

func genCons(r *Rng, c *Case) {
	var all []Pt
	for i := range c.Feats {
		for _, l := range c.Feats[i].Parts {
			all = append(all, l...)
		}
	}
	if len(all) == 0 {
		return
	}
	n := r.in(1, 6)
	crowd, at := false, r.n(len(all))
	if r.p(0.12) { // many, often around one place
		n, crowd = r.in(8, 25), r.p(0.7)
		if r.p(0.15) {
			n = r.in(26, 80)
			if r.p(0.1) {
				n = r.in(100, 400)
			}
		}
	}
	if crowd && r.p(0.5) { // points that hug a line, and some in its pockets
		var l []Pt
		for f := r.n(len(c.Feats)); len(l) == 0; f = (f + 1) % len(c.Feats) {
			if len(c.Feats[f].Parts) > 0 {
				l = c.Feats[f].Parts[0]
			}
		}
		for i := 0; i < n; i++ {
			p := l[r.n(len(l))]
			p = Pt{p[0] + float64(r.in(-1, 1)), p[1] + float64(r.in(-1, 1))}
			if i > n*2/3 {
				k := r.n(len(l))
				a, b, d := l[k], l[min(len(l)-1, k+r.in(1, 3))], l[min(len(l)-1, k+r.in(2, 8))]
				p = Pt{math.Round((a[0] + b[0] + d[0]) / 3), math.Round((a[1] + b[1] + d[1]) / 3)}
			}
			c.Cons = append(c.Cons, Geo{"Point", [][]Pt{{p}}})
		}
		return
	}
	if crowd && r.p(0.3) { // a crowd no stretch of line sweeps over, and one point that is
		var l []Pt
		for f := r.n(len(c.Feats)); len(l) == 0; f = (f + 1) % len(c.Feats) {
			if len(c.Feats[f].Parts) > 0 {
				l = c.Feats[f].Parts[0]
			}
		}
		if r.p(0.6) {
			i := r.n(len(l))
			l = l[i:min(len(l), i+r.in(3, 20))]
		}
		lo, hi := l[0], l[0]
		for _, p := range l {
			for d := 0; d < 2; d++ {
				lo[d], hi[d] = math.Min(lo[d], p[d]), math.Max(hi[d], p[d])
			}
		}
		in := r.in(0, 2)
		n = r.in(n, 60)
		for k := 0; k < 20*n && len(c.Cons) < n; k++ {
			p := Pt{lo[0] + float64(r.n(int(hi[0]-lo[0])+1)), lo[1] + float64(r.n(int(hi[1]-lo[1])+1))}
			g := Geo{"Point", [][]Pt{{p}}}
			if g.meets(l) || g.meets([]Pt{l[0], l[len(l)-1]}) {
				continue
			}
			if winding(l, p) != 0 {
				if in == 0 {
					continue
				}
				in--
			}
			c.Cons = append(c.Cons, g)
		}
		if len(c.Cons) > 0 {
			return
		}
	}
	for i := 0; i < n; i++ {
		k := r.n(len(all))
		if crowd {
			k = min(len(all)-1, at+r.n(4))
		}
		b := all[k]
		if k+1 < len(all) && r.p(0.6) { // between two vertices
			b = Pt{math.Floor((b[0] + all[k+1][0]) / 2), math.Floor((b[1] + all[k+1][1]) / 2)}
		}
		d := r.pickI(0, 2, 4, 8, 16)
		x, y := int(b[0])+r.in(-d, d), int(b[1])+r.in(-d, d)
		switch r.n(4) {
		case 0, 1:
			c.Cons = append(c.Cons, Geo{"Point", [][]Pt{{xy(x, y)}}})
		case 2:
			if r.p(0.4) {
				c.Cons = append(c.Cons, Geo{"LineString", [][]Pt{wander(r, x, y)}})
				continue
			}
			c.Cons = append(c.Cons, Geo{"LineString", [][]Pt{{xy(x, y), xy(x+r.in(1, 12), y+r.in(-8, 8)), xy(x+r.in(1, 20), y+r.in(8, 14))}}})
		default:
			if r.p(0.5) {
				c.Cons = append(c.Cons, genArea(r, x, y, all))
				continue
			}
			w, h := r.in(1, 10), r.in(1, 10)
			pts := [][]Pt{{xy(x, y), xy(x+w, y), xy(x+w, y+h), xy(x, y+h), xy(x, y)}}
			if w > 6 && h > 6 && r.p(0.5) {
				pts = append(pts, []Pt{xy(x+2, y+2), xy(x+2, y+4), xy(x+4, y+4), xy(x+4, y+2), xy(x+2, y+2)})
			}
			c.Cons = append(c.Cons, Geo{"Polygon", pts})
		}
	}
}

// wander is a line of a few integer points, now and then closed or crossing itself.
func wander(r *Rng, x, y int) []Pt {
	l := []Pt{xy(x, y)}
	d := r.pickI(2, 5, 10, 30)
	for n := r.in(1, 8); len(l) <= n; {
		p := l[len(l)-1]
		if q := (Pt{p[0] + float64(r.in(-d, d)), p[1] + float64(r.in(-d, d))}); !same2(p, q) {
			l = append(l, q)
		}
	}
	if len(l) > 3 && r.p(0.2) && !same2(l[0], l[len(l)-1]) {
		l = append(l, l[0])
	}
	return l
}

// ring is a simple closed ring of integer points about (x, y).
func ring(r *Rng, x, y, size int) []Pt {
	size = max(size, 1)
	switch r.n(4) {
	case 0: // triangle
		l := []Pt{xy(x, y), xy(x+r.in(1, size), y+r.in(0, size)), xy(x-r.in(0, size), y+r.in(1, size)), xy(x, y)}
		if orient(l[0], l[1], l[2]) != 0 {
			return l
		}
	case 1: // an L or a U
		a, b := r.in(2, size+2), r.in(2, size+2)
		if r.p(0.5) {
			return []Pt{xy(x, y), xy(x+a, y), xy(x+a, y+1), xy(x+1, y+1), xy(x+1, y+b), xy(x, y+b), xy(x, y)}
		}
		return []Pt{xy(x, y), xy(x+a+1, y), xy(x+a+1, y+b), xy(x+a, y+b), xy(x+a, y+1), xy(x+1, y+1), xy(x+1, y+b), xy(x, y+b), xy(x, y)}
	case 2: // any
		for try := 0; try < 20; try++ {
			l := []Pt{}
			for n := r.in(3, 7); len(l) < n; {
				l = append(l, xy(x+r.in(-size, size), y+r.in(-size, size)))
			}
			if l = append(l, l[0]); simpleRing(l) {
				return l
			}
		}
	}
	w, h := r.in(1, size), r.in(1, size)
	l := []Pt{xy(x, y), xy(x+w, y), xy(x+w, y+h), xy(x, y+h), xy(x, y)}
	if r.p(0.5) {
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	return l
}

func simpleRing(l []Pt) bool {
	n := len(l) - 1
	for i := 0; i < n; i++ {
		a, b, c := l[i], l[i+1], l[(i+2)%n]
		if orient(a, b, c) == 0 {
			return false
		}
		for j := i + 2; j < n; j++ {
			if (j+1)%n != i && segX(a, b, l[j], l[j+1]) {
				return false
			}
		}
	}
	return true
}

// genArea is a polygon: alone, or around everything with holes the lines run through.
func genArea(r *Rng, x, y int, all []Pt) Geo {
	if r.p(0.6) {
		return Geo{"Polygon", [][]Pt{ring(r, x, y, r.pickI(2, 5, 10, 30))}}
	}
	lo, hi := all[0], all[0]
	if r.p(0.5) { // about a few vertices only
		k := r.n(len(all))
		all = all[k:min(len(all), k+r.in(2, 12))]
		lo, hi = all[0], all[0]
	}
	for _, p := range all {
		for d := 0; d < 2; d++ {
			lo[d], hi[d] = math.Min(lo[d], p[d]), math.Max(hi[d], p[d])
		}
	}
	e := float64(r.pickI(2, 6, 20))
	lo, hi = Pt{math.Floor(lo[0]) - e, math.Floor(lo[1]) - e}, Pt{math.Ceil(hi[0]) + e, math.Ceil(hi[1]) + e}
	shell := []Pt{lo, {hi[0], lo[1]}, hi, {lo[0], hi[1]}, lo}
	g := Geo{"Polygon", [][]Pt{shell}}
	for n := r.in(1, 3); n > 0; n-- {
		p := all[r.n(len(all))]
		h := ring(r, int(p[0])-r.in(0, 6), int(p[1])-r.in(0, 6), r.pickI(3, 10, 30, 80))
		ok := true
		for _, o := range g.Pts {
			ok = ok && !linesX(o, h)
		}
		for _, o := range g.Pts[1:] {
			ok = ok && inRing(h[0], o) < 0 && inRing(o[0], h) < 0
		}
		if ok && inRing(h[0], shell) > 0 {
			g.Pts = append(g.Pts, h)
		}
	}
	return g
}

func genCase(r *Rng, o GenOpt) *Case {
	c := &Case{}
	c.Cfg.Type = "dp"
	if o.Type != "" {
		c.Cfg.Type = o.Type
	} else if r.p(0.3) {
		c.Cfg.Type = "sed"
	}
	typ := c.Cfg.Type
	span := r.pickI(20, 40, 80, 150)
	nf := r.in(1, max(1, o.MaxFeats))
	long := r.p(o.Long)
	if long {
		nf = r.in(1, 2)
	}
	many := !long && o.Odd && o.MaxFeats > 1 && r.p(0.04)
	if many { // more lines than workers, two-digit positions
		nf = r.in(9, 14)
		if r.p(0.2) {
			nf = r.in(17, 40)
		}
		if r.p(0.08) { // a swarm
			nf = r.in(41, 300)
		}
	}
	family := r.p(0.06) // every line is the first one moved
	var prev, first []Pt
	for i := 0; i < nf; i++ {
		f := Feature{Kind: "feature", Dim: 2}
		if typ == "sed" || o.Tag || r.p(0.4) {
			f.Dim = 3
		}
		parts := 1
		if o.Odd {
			switch r.n(12) {
			case 0:
				f.Kind = "geometry"
			case 1:
				f.Multi = true
				parts = r.pickI(2, 2, 3, 3, 4, 4, 12)
			case 2:
				f.Multi = true // one part only
			}
		}
		for p := 0; p < parts; p++ {
			n := r.in(2, o.MaxPts)
			if long && i == 0 && p == 0 {
				n = r.pickI(300, 600, 600, 1100, 1100, 2100) + r.n(300)
				if r.p(0.06) {
					n = r.pickI(4090, 5000, 8190, 10000) + r.n(20)
				}
			} else if r.p(0.3) || parts > 4 || many {
				n = r.in(2, min(8, o.MaxPts))
			}
			if nf > 40 {
				n, parts = r.in(2, 4), min(parts, 2)
			}
			var l []Pt
			as := false
			if family && first != nil && len(first) < 200 {
				d := r.pickI(2, 10, 60, 400)
				dx, dy := float64(r.in(-d, d)), float64(r.in(-d, d))
				for _, p := range first {
					l = append(l, Pt{p[0] + dx, p[1] + dy, p[2]})
				}
			} else if prev != nil && len(prev) < 200 && r.p(0.06) {
				l, as = twin(r, prev), true
			} else if prev != nil && len(prev) < 200 && r.p(0.45) {
				l = shadow(r, prev, o.Degen || r.p(0.3))
			} else {
				l = genLine(r, n, span, o.Degen && r.p(0.5))
				dx, dy := float64(r.in(0, span/2)), float64(r.in(0, span/2))
				if prev != nil && r.p(0.3) {
					dx, dy = float64(r.n(400)), float64(r.n(400))
				}
				for k := range l {
					l[k][0] += dx
					l[k][1] += dy
				}
				if prev != nil && r.p(0.2) { // share a vertex
					l[r.n(len(l))] = prev[r.n(len(prev))]
				}
			}
			if !o.Degen {
				var m []Pt
				for k, q := range l {
					if k == 0 || !same2(q, m[len(m)-1]) {
						m = append(m, q)
					}
				}
				if len(m) < 2 {
					m = append(m, Pt{m[0][0] + 5, m[0][1] + 3})
				}
				l = m
			}
			if f.Dim == 3 && as && prev[0][2] != 0 {
				// third ordinates as they are
			} else if f.Dim == 3 && (typ == "sed" || o.Tag) {
				tagLine(r, l, typ)
			} else if f.Dim == 3 {
				heights(r, l)
				f.Mix = f.Mix || o.Odd && r.p(0.3)
			} else {
				for k := range l {
					l[k][2] = 0
				}
			}
			if prev = l; first == nil {
				first = l
			}
			f.Parts = append(f.Parts, l)
		}
		f.Props = r.pickS(`{}`, fmt.Sprintf(`{"id":%d}`, i), fmt.Sprintf(`{"id":%d,"name":"n\u00e9 <%d>","deep":{"a":[1,2.5,null,true]}}`, i, i), fmt.Sprintf(`{"id":%d%d,"f":0.1234567890123456789,"e":-1.5e-7,"s":"12345678901234567890 \\ \"q\" \ud83d\ude00 \u2028","":{},"z":[]}`, 9007199254740993, i))
		if o.Odd && r.p(0.1) {
			f.Props = r.pickS("", "null")
		}
		if o.Odd && r.p(0.004) { // longer than any buffer
			f.Props = `{"id":` + fmt.Sprint(i) + `,"text":"` + strings.Repeat("0123456789abcdef", r.pickI(255, 256, 4095, 4096, 4097, 8192, 20000)) + `"}`
		}
		c.Feats = append(c.Feats, f)
		if o.Odd && r.p(0.12) {
			c.Feats = append(c.Feats, Feature{Kind: "blank"})
		}
		if o.Odd && r.p(0.06) {
			c.Feats = append(c.Feats, Feature{Kind: r.pickS("point", "polygon", "nowhere", "mixed")})
		}
	}
	c.NoTail = r.p(0.3)
	c.Raw = r.p(0.3)
	if o.Odd {
		c.Pack = r.pickI(0, 0, 0, 1, 2)
		if r.p(0.1) {
			c.ConZ = r.pickF(5, -2.5, 700)
		}
		c.Coll = r.p(0.08)
		c.Null = r.p(0.05)
	}
	g := &c.Cfg
	if o.Xf {
		g.Exp = r.pickI(0, 0, 0, 0, -10, -16, 8, 16)
		if r.p(0.3) {
			g.TX, g.TY = float64(r.in(-500000, 500000)), float64(r.in(-4000000, 4000000))
			g.Exp = min(g.Exp, 8) // the tool's tolerances are absolute: no coordinates of 1e10 and more
		}
	}
	g.Thr = r.pickF(0, 0.5, 1, 2, 3, 5, 8, 12, 20, 40)
	if long && r.p(0.3) { // few and long stretches
		g.Thr = r.pickF(60, 200, 1000)
	}
	g.Min = r.pickF(0, 1, 2, 4, 8, 15)
	g.NPD = r.pickF(0, 0.5, 1, 3, 8)
	g.FC = o.FC > 0 || (o.FC == 0 && r.p(0.5))
	g.Planar = r.p(0.5)
	g.NonPl = r.p(0.5)
	g.Avoid = r.p(0.5)
	g.B64 = r.p(0.3)
	if o.Cons {
		genCons(r, c)
		g.Geom = r.p(0.5)
		g.Dist = r.p(0.5)
		g.Side = r.p(0.5)
	}
	if o.Force != nil {
		o.Force(g, r)
	}
	if long && (g.Planar || g.Avoid) { // these take quadratic time and more
		for i := range c.Feats {
			for p, l := range c.Feats[i].Parts {
				if len(l) > 550 {
					c.Feats[i].Parts[p] = l[:550:550]
				}
			}
		}
	}
	return c
}

// genSched draws a scheduler configuration.
func genSched(r *Rng) Sched {
	s := Sched{Seed: r.next() | 1, Rand: r.next() | 1, NCPU: uint64(r.pickI(1, 2, 4, 8, 16)), Tick: uint64(r.pickI(0, 1000, 1000, 1000000, 1000000, 10000000000)), MaxSteps: stepCap}
	s.Strategy = uint64(r.pickI(0, 1, 1, 1, 2, 2, 3))
	s.Yield = uint64(r.pickI(0, 1<<20, 1<<24, 1<<27, 1<<29, 1<<31))
	if r.p(0.3) {
		s.MaskSeed = r.next() | 1
		s.MaskThresh = uint64(r.pickI(1<<28, 1<<30, 1<<31))
	}
	if s.Strategy == 2 {
		s.PCTDepth = uint64(r.in(1, 8))
		s.PCTRange = uint64(r.pickI(100, 1000, 10000, 100000))
	}
	if r.p(0.2) {
		s.JumpStep = uint64(r.in(1, 20000))
		s.JumpDelta = int64(r.pickI(-3600, -5, 7200, 86400*3650)) * 1e9
	}
	return s
}
