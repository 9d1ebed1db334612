package main

import (
	"encoding/json"
	"fmt"
	"math"
)

func (c *Case) clone() *Case {
	b, err := json.Marshal(c)
	must(err)
	d := &Case{}
	must(json.Unmarshal(b, d))
	return d
}

// extent is the box of everything in a case.
func (c *Case) extent() (a, b Pt) {
	a, b = Pt{math.Inf(1), math.Inf(1)}, Pt{math.Inf(-1), math.Inf(-1)}
	for i := range c.Feats {
		for _, l := range c.Feats[i].Parts {
			for _, p := range l {
				for k := 0; k < 2; k++ {
					a[k], b[k] = math.Min(a[k], p[k]), math.Max(b[k], p[k])
				}
			}
		}
	}
	if a[0] > b[0] {
		return Pt{}, Pt{}
	}
	return
}

// lines lists where the lines of the linear features are.
func (c *Case) lines() (v [][2]int) {
	for i := range c.Feats {
		if c.Feats[i].linear() {
			for p := range c.Feats[i].Parts {
				v = append(v, [2]int{i, p})
			}
		}
	}
	return
}

// Variant is a second case whose lines must come out like those of the first.
type Variant struct {
	C     *Case
	Map   []int // where each line of the first is in the second; nil: at the same place
	Flat  bool  // third ordinates are not compared
	F     func(Pt) Pt
	Bytes bool // the whole output is the same text
	Base  *Case
}

func far(c *Case, r *Rng) (float64, float64) {
	a, b := c.extent()
	d := 3*(b[0]-a[0]+b[1]-a[1]) + 10*(c.Cfg.Min+c.Cfg.NPD+math.Min(c.Cfg.Thr, 1000)) + 1000
	d *= r.pickF(1, 1, 1, 30, 1000, 1e6)
	x, y := float64(r.in(-1, 1)), float64(r.in(-1, 1))
	if x == 0 && y == 0 {
		x = 1
	}
	return math.Floor(d * x), math.Floor(d * y)
}

func shifted(l []Pt, x, y float64) []Pt {
	o := make([]Pt, len(l))
	for i, p := range l {
		o[i] = Pt{p[0] + x, p[1] + y, p[2]}
	}
	return o
}

// variant makes one, or nil where the kind does not apply.
func variant(kind string, c *Case, r *Rng) *Variant {
	v := &Variant{C: c.clone()}
	d := v.C
	switch kind {
	case "far-constraint":
		for k := r.in(1, 6); k > 0; k-- {
			x, y := far(c, r)
			g := Geo{"Point", [][]Pt{{{x, y}}}}
			switch r.n(3) {
			case 1:
				g = Geo{"LineString", [][]Pt{{{x, y}, {x + 10, y + 5}}}}
			case 2:
				g = Geo{"Polygon", [][]Pt{{{x, y}, {x + 9, y}, {x + 9, y + 9}, {x, y}}}}
			}
			if r.p(0.5) {
				d.Cons = append(d.Cons, g)
			} else {
				d.Cons = append([]Geo{g}, d.Cons...)
			}
		}
	case "outside-constraint":
		var ls [][]Pt
		for _, k := range c.lines() {
			ls = append(ls, c.Feats[k[0]].Parts[k[1]])
		}
		if len(ls) == 0 {
			return nil
		}
		n := 0
		for k := 0; k < 40 && n < 8; k++ {
			l := ls[r.n(len(ls))]
			p := l[r.n(len(l))]
			q := r.pickI(3, 8, 20, 60)
			p = Pt{p[0] + float64(r.in(-q, q)), p[1] + float64(r.in(-q, q))}
			g := Geo{"Point", [][]Pt{{p}}}
			switch r.n(3) {
			case 1:
				g = Geo{"LineString", [][]Pt{{p, {p[0] + float64(r.in(-9, 9)), p[1] + float64(r.in(1, 9))}}}}
			case 2:
				w := float64(r.in(1, 9))
				g = Geo{"Polygon", [][]Pt{{p, {p[0] + w, p[1]}, {p[0] + w, p[1] + w}, p}}}
			}
			ok := true
			for _, l := range ls {
				ok = ok && apart(l, g.Pts[0], c.Cfg.Min+0.01)
			}
			if ok {
				n++
				if r.p(0.5) {
					d.Cons = append(d.Cons, g)
				} else {
					d.Cons = append([]Geo{g}, d.Cons...)
				}
			}
		}
		if n == 0 {
			return nil
		}
	case "outside-line":
		if !c.Cfg.FC {
			return nil
		}
		var ls [][]Pt
		for _, k := range c.lines() {
			ls = append(ls, c.Feats[k[0]].Parts[k[1]])
		}
		if len(ls) == 0 {
			return nil
		}
		n := 0
		for k := 0; k < 30 && n < 3; k++ {
			l := ls[r.n(len(ls))]
			p := l[r.n(len(l))]
			m := shadow(r, l, false)
			if r.p(0.6) {
				m = genLine(r, r.in(2, 9), r.pickI(10, 20, 40), false)
				m = shifted(m, p[0]-m[0][0]+float64(r.in(-30, 30)), p[1]-m[0][1]+float64(r.in(-30, 30)))
			}
			ok := true
			for _, l := range ls {
				ok = ok && apart(l, m, 0.01)
			}
			if ok {
				n++
				f := Feature{Kind: "feature", Dim: 2, Props: "{}", Parts: [][]Pt{m}}
				if c.Cfg.Type == "sed" {
					f.Dim = 3
					tagLine(r, m, "sed")
				}
				d.Feats = append(d.Feats, f)
			}
		}
		if n == 0 {
			return nil
		}
	case "cons-order":
		if len(d.Cons) < 2 {
			return nil
		}
		for k := len(d.Cons) - 1; k > 0; k-- {
			m := r.n(k + 1)
			d.Cons[k], d.Cons[m] = d.Cons[m], d.Cons[k]
		}
	case "cons-twice":
		if len(d.Cons) < 1 {
			return nil
		}
		d.Cons = append(d.Cons, d.Cons[r.n(len(d.Cons))])
	case "z":
		if c.Cfg.Type != "dp" {
			return nil
		}
		v.Flat = true
		for i := range d.Feats {
			f := &d.Feats[i]
			k := r.n(3)
			if k == 0 {
				f.Dim = 2
			} else {
				f.Dim = 3
			}
			for _, l := range f.Parts {
				for n := range l {
					switch k {
					case 0:
						l[n][2] = 0
					case 1:
						l[n][2] = float64(r.in(1, 5))
					case 2:
						l[n][2] = float64(r.in(-500, 500)) + 0.5
					}
				}
			}
		}
	case "parts":
		d.Feats = nil
		n := 0
		for _, f := range c.Feats {
			if f.linear() && len(f.Parts) > 1 {
				n++
				for _, l := range f.Parts {
					g := f
					g.Multi, g.Parts = false, [][]Pt{l}
					d.Feats = append(d.Feats, g)
				}
			} else {
				d.Feats = append(d.Feats, f)
			}
		}
		if n == 0 {
			return nil
		}
	case "far-line":
		if !c.Cfg.FC {
			return nil
		}
		x, y := far(c, r)
		x, y = 2*x, 2*y
		var more []Feature
		for k := r.in(1, 3); k > 0; k-- {
			f := Feature{Kind: "feature", Dim: 2, Props: "{}", Parts: [][]Pt{shifted(genLine(r, r.in(2, 20), 60, false), x, y)}}
			if c.Cfg.Type == "sed" {
				f.Dim = 3
				tagLine(r, f.Parts[0], "sed")
			}
			more = append(more, f)
		}
		n := 0
		if r.p(0.5) {
			n = len(more)
			d.Feats = append(more, d.Feats...)
		} else {
			d.Feats = append(d.Feats, more...)
		}
		for k := range c.lines() {
			v.Map = append(v.Map, k+n)
		}
	case "class-order":
		if !c.Cfg.FC || len(c.Feats) < 2 {
			return nil
		}
		perm := make([]int, len(c.Feats))
		for k := range perm {
			perm[k] = k
		}
		for k := len(perm) - 1; k > 0; k-- {
			m := r.n(k + 1)
			perm[k], perm[m] = perm[m], perm[k]
		}
		at := map[[2]int]int{}
		d.Feats = nil
		n := 0
		for _, i := range perm {
			d.Feats = append(d.Feats, c.Feats[i])
			if c.Feats[i].linear() {
				for p := range c.Feats[i].Parts {
					at[[2]int{i, p}] = n
					n++
				}
			}
		}
		for _, k := range c.lines() {
			v.Map = append(v.Map, at[k])
		}
	case "class-one":
		if len(c.lines()) != 1 {
			return nil
		}
		d.Cfg.FC = !d.Cfg.FC
	case "class-far":
		if !c.Cfg.FC {
			return nil
		}
		a, b := c.extent()
		step := 2*(b[0]-a[0]+b[1]-a[1]) + 10*(c.Cfg.Min+c.Cfg.NPD+math.Min(c.Cfg.Thr, 1000)) + 1000
		n := 0.0
		for _, k := range c.lines() {
			l := d.Feats[k[0]].Parts[k[1]]
			for m := range l {
				l[m][0] += n
				v.C.Cons = nil
			}
			n += math.Floor(step)
		}
		e := d.clone()
		e.Cfg.FC = false
		v.Base = d
		v.C = e
	case "scale":
		x := r.pickF(2, 4, 1024, 0.5)
		if a, b := c.extent(); x*c.Cfg.unit()*(math.Max(math.Abs(c.Cfg.TX), math.Abs(c.Cfg.TY))+math.Max(math.Hypot(a[0], a[1]), math.Hypot(b[0], b[1]))) > 2e9 {
			x = 0.5
		}
		f := func(p Pt) Pt { return Pt{p[0] * x, p[1] * x, p[2]} }
		// Off the grid, so that no distance equals a limit but for rounding,
		// which the tool's absolute tolerances treat unlike at each scale.
		for _, g := range []*float64{&d.Cfg.Thr, &d.Cfg.Min, &d.Cfg.NPD} {
			*g += 0.0137
		}
		v.Base = d.clone()
		d.Cfg.TX, d.Cfg.TY = x*c.Cfg.TX, x*c.Cfg.TY
		d.Cfg.Thr *= x
		d.Cfg.Min *= x
		d.Cfg.NPD *= x
		for i := range d.Feats {
			for _, l := range d.Feats[i].Parts {
				for k := range l {
					l[k] = f(l[k])
				}
			}
		}
		for i := range d.Cons {
			for _, l := range d.Cons[i].Pts {
				for k := range l {
					l[k] = f(l[k])
				}
			}
		}
		v.F = f
	case "respell":
		d.Style = r.next() | 1
		v.Bytes = true
	case "form":
		form(d, r)
		v.Bytes = true
	case "no-cons-options":
		if len(c.Cons) > 0 {
			return nil
		}
		d.Cfg.Geom, d.Cfg.Dist, d.Cfg.Side = r.p(0.5), r.p(0.5), r.p(0.5)
		d.Cfg.Min = r.pickF(0, 1, 7, 30)
	case "min-unused":
		if c.Cfg.Dist || len(c.Cons) == 0 {
			return nil
		}
		if c.Cfg.Avoid && r.p(0.5) {
			d.Cfg.NPD = 0
			v.Base = d.clone()
		}
		d.Cfg.Min = r.pickF(0, 1, 7, 30, 100)
	case "npd-unused":
		if c.Cfg.Avoid {
			return nil
		}
		if c.Cfg.Dist && r.p(0.5) { // neither may take the place of the other
			d.Cfg.Min = 0
			v.Base = d.clone()
		}
		d.Cfg.NPD = r.pickF(0, 1, 7, 30, 100)
	case "type-case":
		v.Bytes = true
		d.Cfg.Type = map[string]string{"dp": " DP ", "sed": "Sed\t"}[c.Cfg.Type]
	}
	return v
}

// apart tells of a straight gap wider than m between the hulls of two sets of points.
func apart(a, b []Pt, m float64) bool {
	for k := 0; k < 64; k++ {
		ux, uy := math.Cos(float64(k)*math.Pi/32), math.Sin(float64(k)*math.Pi/32)
		hi, lo := math.Inf(-1), math.Inf(1)
		for _, p := range a {
			hi = math.Max(hi, ux*p[0]+uy*p[1])
		}
		for _, p := range b {
			lo = math.Min(lo, ux*p[0]+uy*p[1])
		}
		if lo-hi > m {
			return true
		}
	}
	return false
}

func flatLines(text string, g *Config) ([][]Pt, string) {
	outs, bad := parseOut(text)
	if bad != "" {
		return nil, bad
	}
	var v [][]Pt
	for _, o := range outs {
		for _, l := range o.Parts {
			v = append(v, g.decs(l))
		}
	}
	return v, ""
}

// diff tells of the first line that comes out differently.
func (v *Variant) diff(a, b [][]Pt) string {
	for k := range a {
		m := k
		if v.Map != nil {
			m = v.Map[k]
		}
		if m >= len(b) {
			return fmt.Sprintf("line %d is missing", k)
		}
		p, q := a[k], b[m]
		if v.F != nil {
			p = append([]Pt{}, p...)
			for i := range p {
				p[i] = v.F(p[i])
			}
		}
		if v.Flat {
			p, q = flat(p), flat(q)
		}
		if s, t := b2s(p), b2s(q); s != t {
			return fmt.Sprintf("line %d: %s", k, diffText(s, t))
		}
	}
	return ""
}

func flat(l []Pt) []Pt {
	o := make([]Pt, len(l))
	for i, p := range l {
		o[i] = Pt{p[0], p[1]}
	}
	return o
}
