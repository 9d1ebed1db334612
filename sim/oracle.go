package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"
)

// Viol is one property violation; Class names what failed, without values.
type Viol struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Text  string `json:"text"`
}

// Piece is one simplified segment of one part: vertices I..J collapsed to a segment.
type Piece struct {
	F, P, I, J int
	Sub        []Pt
}

func (p *Piece) seg() []Pt { return []Pt{p.Sub[0], p.Sub[len(p.Sub)-1]} }

// PartMap maps the simplified vertices of a part back to input positions.
type PartMap struct {
	F, P   int
	N      int // number of the line, in a run of the library
	Line   []Pt
	Idx    []int
	Exact  bool // the mapping is the only possible one
	Pieces []*Piece
}

// mapPart finds a position for every output vertex.
func mapPart(in, out []Pt, dim int) (idx []int, exact bool, err string) {
	key := func(p Pt) Pt {
		if dim == 2 {
			p[2] = 0
		}
		return p
	}
	count := map[Pt]int{}
	for _, p := range in {
		count[key(p)]++
	}
	exact = true
	k := 0
	for n, q := range out {
		for k < len(in) && key(in[k]) != key(q) {
			k++
		}
		if k == len(in) {
			return nil, false, fmt.Sprintf("output vertex %d %v is not an input vertex in order", n, q)
		}
		if count[key(q)] > 1 {
			exact = false
		}
		idx = append(idx, k)
		k++
	}
	return idx, exact, ""
}

// Check is an output bound to its input.
type Check struct {
	C     *Case
	Outs  []Out
	Parts []*PartMap
	In    []*Feature // linear features with coordinates, in order
	Keep  [][]int    // vertices the caller named, by line
	Plain bool       // made by the library's plain simplifier
}

// bind checks C14 and C05 and builds the mapping.
func bind(c *Case, text string) (*Check, []Viol) {
	ck := &Check{C: c}
	outs, bad := parseOut(text)
	if bad != "" {
		return nil, []Viol{{"C14", "malformed", bad}}
	}
	for i := range outs {
		for _, l := range outs[i].Parts {
			for k := range l {
				l[k] = c.Cfg.dec(l[k])
			}
		}
	}
	ck.Outs = outs
	for i := range c.Feats {
		if c.Feats[i].linear() {
			ck.In = append(ck.In, &c.Feats[i])
		}
	}
	if len(outs) != len(ck.In) {
		return nil, []Viol{{"C14", "feature-count", fmt.Sprintf("%d linear features in, %d features out", len(ck.In), len(outs))}}
	}
	var vs []Viol
	for i, f := range ck.In {
		o := outs[i]
		if len(o.Parts) != len(f.Parts) {
			vs = append(vs, Viol{"C14", "part-count", fmt.Sprintf("feature %d: %d parts in, %d out", i, len(f.Parts), len(o.Parts))})
			continue
		}
		if o.Multi != (len(f.Parts) > 1) {
			vs = append(vs, Viol{"C14", "geometry-type", fmt.Sprintf("feature %d: %d parts, MultiLineString=%v", i, len(f.Parts), o.Multi)})
		}
		want := map[string]interface{}{}
		if f.Kind == "feature" && f.Props != "" && f.Props != "null" {
			dec := json.NewDecoder(strings.NewReader(f.Props))
			dec.UseNumber()
			must(dec.Decode(&want))
		}
		if o.Props == nil || !sameJSON(want, o.Props) {
			vs = append(vs, Viol{"C14", "properties", fmt.Sprintf("feature %d: properties %v, want %v", i, o.Props, want)})
		}
		for p := range f.Parts {
			in, out := f.Parts[p], o.Parts[p]
			if len(out) < 2 {
				vs = append(vs, Viol{"C05", "too-short", fmt.Sprintf("feature %d part %d: %d vertices out", i, p, len(out))})
				continue
			}
			if d := o.Dims[p]; d != f.Dim && (d != 2 || risen(in, out)) {
				vs = append(vs, Viol{"C14", "dimension", fmt.Sprintf("feature %d part %d: dimension %d in, %d out", i, p, f.Dim, d)})
			}
			idx, exact, e := mapPart(in, out, f.Dim)
			if e != "" || out[0] != in[0] || out[len(out)-1] != in[len(in)-1] {
				if a, b, ok := ck.whose(out, o.Dim); ok {
					vs = append(vs, Viol{"C14", "misplaced", fmt.Sprintf("feature %d part %d of the output comes from feature %d part %d of the input", i, p, a, b)})
				}
			}
			if e != "" {
				vs = append(vs, Viol{"C05", "not-subsequence", fmt.Sprintf("feature %d part %d: %s", i, p, e)})
				continue
			}
			last := in[len(in)-1]
			if out[0] != in[0] || out[len(out)-1] != last {
				vs = append(vs, Viol{"C05", "endpoints", fmt.Sprintf("feature %d part %d: ends %v..%v, input ends %v..%v", i, p, out[0], out[len(out)-1], in[0], last)})
				continue
			}
			idx[0] = 0
			idx[len(idx)-1] = len(in) - 1
			pm := &PartMap{F: i, P: p, Line: in, Idx: idx, Exact: exact}
			for k := 0; k+1 < len(idx); k++ {
				pm.Pieces = append(pm.Pieces, &Piece{i, p, idx[k], idx[k+1], in[idx[k] : idx[k+1]+1]})
			}
			ck.Parts = append(ck.Parts, pm)
		}
	}
	return ck, vs
}

// risen tells whether some of the vertices that are left had a third ordinate.
func risen(in, out []Pt) bool {
	idx, exact, e := mapPart(in, out, 2)
	if e != "" || !exact {
		for _, p := range in { // each place the vertices may come from
			if p[2] == 0 {
				return false
			}
		}
		return true
	}
	for _, k := range idx {
		if in[k][2] != 0 {
			return true
		}
	}
	return false
}

// whose finds the input line whose vertices these are.
func (ck *Check) whose(out []Pt, dim int) (int, int, bool) {
	for i, f := range ck.In {
		for p, in := range f.Parts {
			if f.Dim != dim || in[0] != out[0] || in[len(in)-1] != out[len(out)-1] {
				continue
			}
			if _, _, e := mapPart(in, out, dim); e == "" {
				return i, p, true
			}
		}
	}
	return 0, 0, false
}

// errOf is the simplification error of a piece.
func errOf(typ string, s []Pt) float64 {
	a, b := s[0], s[len(s)-1]
	e := 0.0
	for _, p := range s[1 : len(s)-1] {
		var d float64
		if typ == "sed" && b[2] == a[2] {
			// no time passes: the synchronised position is somewhere on the segment
			d = distPS(p, a, b)
		} else if typ == "sed" {
			t := (p[2] - a[2]) / (b[2] - a[2])
			d = math.Hypot(p[0]-a[0]-t*(b[0]-a[0]), p[1]-a[1]-t*(b[1]-a[1]))
		} else {
			d = distPS(p, a, b)
		}
		e = math.Max(e, d)
	}
	return e
}

const tol = 1e-6

func (ck *Check) threshold() (vs []Viol) {
	c := ck.C
	for _, pm := range ck.Parts {
		if !pm.Exact {
			continue
		}
		for _, p := range pm.Pieces {
			if e := errOf(c.Cfg.Type, p.Sub); p.J > p.I+1 && e > c.Cfg.Thr+tol {
				vs = append(vs, Viol{"C06", "over-threshold", fmt.Sprintf("feature %d part %d piece %d..%d: error %g > threshold %g", p.F, p.P, p.I, p.J, e, c.Cfg.Thr)})
			}
		}
	}
	return
}

func (ck *Check) geomRel() (vs []Viol) {
	for _, pm := range ck.Parts {
		if !pm.Exact {
			continue
		}
		for _, p := range pm.Pieces {
			if p.J == p.I+1 {
				continue
			}
			for k, g := range ck.C.Cons {
				a, b := g.meets(p.Sub), g.meets(p.seg())
				if a != b {
					cl := "lost-intersection"
					if b {
						cl = "new-intersection"
					}
					vs = append(vs, Viol{"C07", cl, fmt.Sprintf("feature %d part %d piece %d..%d constraint %d (%s): input meets=%v, output meets=%v", p.F, p.P, p.I, p.J, k, g.Kind, a, b)})
				}
			}
		}
	}
	return
}

func (ck *Check) minDist() (vs []Viol) {
	m := ck.C.Cfg.Min
	for _, pm := range ck.Parts {
		if !pm.Exact {
			continue
		}
		for _, p := range pm.Pieces {
			if p.J == p.I+1 {
				continue
			}
			for k, g := range ck.C.Cons {
				a, b := g.dist(p.Sub), g.dist(p.seg())
				if b < m-tol && (a >= m+tol || a == m && g.plainDist(p.Sub, m)) {
					vs = append(vs, Viol{"C08", "too-close", fmt.Sprintf("feature %d part %d piece %d..%d constraint %d (%s): distance %g before, %g after, minimum %g", p.F, p.P, p.I, p.J, k, g.Kind, a, b, m)})
				}
			}
		}
	}
	return
}

func (ck *Check) side() (vs []Viol) {
	for _, pm := range ck.Parts {
		if !pm.Exact {
			continue
		}
		for _, p := range pm.Pieces {
			if p.J == p.I+1 {
				continue
			}
			for k, g := range ck.C.Cons {
				if g.meets(p.Sub) || g.meets(p.seg()) {
					continue
				}
				if w := winding(p.Sub, g.rep()); w != 0 {
					vs = append(vs, Viol{"C09", "side-changed", fmt.Sprintf("feature %d part %d piece %d..%d passes constraint %d (%s) on the other side (winding %d)", p.F, p.P, p.I, p.J, k, g.Kind, w)})
				}
			}
		}
	}
	return
}

// crossings finds pairs of pieces whose segments meet although the lines they stand for do not.
func (ck *Check) crossings(same bool, prop string) (vs []Viol) {
	var all []*Piece
	for _, pm := range ck.Parts {
		if !pm.Exact {
			continue
		}
		all = append(all, pm.Pieces...)
	}
	for i, p := range all {
		for _, q := range all[i+1:] {
			sf := p.F == q.F && p.P == q.P
			if sf != same {
				continue
			}
			if p.J == p.I+1 && q.J == q.I+1 {
				continue
			}
			ps, qs := p.seg(), q.seg()
			if n, ok := foldX(ps, qs); ok && (sf || n > ck.C.Cfg.NPD) && len(linesPts(p.Sub, q.Sub)) == 1 {
				vs = append(vs, Viol{prop, "fold", fmt.Sprintf("feature %d part %d piece %d..%d folds onto feature %d part %d piece %d..%d; the input lines they replace meet at that end only", p.F, p.P, p.I, p.J, q.F, q.P, q.I, q.J)})
			}
			if sf && p.J == q.I {
				continue
			}
			if !segX(ps[0], ps[1], qs[0], qs[1]) || linesX(p.Sub, q.Sub) {
				continue
			}
			cl := "touch"
			if properX(ps[0], ps[1], qs[0], qs[1]) {
				cl = "cross"
			}
			vs = append(vs, Viol{prop, cl, fmt.Sprintf("feature %d part %d piece %d..%d meets feature %d part %d piece %d..%d; the input lines they replace are disjoint", p.F, p.P, p.I, p.J, q.F, q.P, q.I, q.J)})
		}
	}
	return
}

// junctions: every vertex shared by two places must survive.
func (ck *Check) junctions(fc bool) (vs []Viol) {
	type at struct{ m, i int }
	where := map[Pt][]at{}
	for m, pm := range ck.Parts {
		for i, p := range pm.Line {
			k := Pt{p[0], p[1], 0}
			where[k] = append(where[k], at{m, i})
		}
	}
	var keys []Pt
	for k := range where {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(a, b int) bool {
		return keys[a][0] < keys[b][0] || keys[a][0] == keys[b][0] && keys[a][1] < keys[b][1]
	})
	for _, k := range keys {
		w := where[k]
		for _, a := range w {
			pm := ck.Parts[a.m]
			if !pm.Exact {
				continue
			}
			n := 0
			for _, b := range w {
				if b != a && (fc || b.m == a.m) {
					n++
				}
			}
			if n == 0 {
				continue
			}
			kept := false
			for _, i := range pm.Idx {
				kept = kept || i == a.i
			}
			if !kept {
				prop := "self"
				if fc {
					prop = "class"
				}
				vs = append(vs, Viol{"C12", prop, fmt.Sprintf("feature %d part %d vertex %d at (%g,%g) is a junction but was dropped", pm.F, pm.P, a.i, k[0], k[1])})
			}
		}
	}
	return
}

// named: the vertices the caller named are kept.
func (ck *Check) named() (vs []Viol) {
	for _, pm := range ck.Parts {
		if pm.N >= len(ck.Keep) || ck.C.Cfg.FC {
			continue
		}
		has := map[int]bool{}
		for _, i := range pm.Idx {
			has[i] = true
		}
		for _, i := range ck.Keep[pm.N] {
			if i < len(pm.Line) && !has[i] {
				vs = append(vs, Viol{"C12", "named", fmt.Sprintf("feature %d part %d vertex %d was named by the caller but was dropped", pm.F, pm.P, i)})
			}
		}
	}
	return
}

// nonPlanar: segments of one line that meet, other than vertex on vertex,
// must survive whole.
func (ck *Check) nonPlanar() (vs []Viol) {
	for _, pm := range ck.Parts {
		if !pm.Exact {
			continue
		}
		kept := map[int]bool{}
		for _, i := range pm.Idx {
			kept[i] = true
		}
		l := pm.Line
		for i := 0; i+1 < len(l); i++ {
			for j := i + 1; j+1 < len(l); j++ {
				if insideX(l[i], l[i+1], l[j], l[j+1]) {
					for _, v := range []int{i, i + 1, j, j + 1} {
						if !kept[v] {
							vs = append(vs, Viol{"C13", "crossing-lost", fmt.Sprintf("feature %d part %d: segments %d and %d meet within one of them, vertex %d was dropped", pm.F, pm.P, i, j, v)})
						}
					}
				}
			}
		}
	}
	return
}

// displaced: where two parts of one line meet, the segments standing for them
// must still meet, no further than the configured displacement away.
func (ck *Check) displaced(same bool) (vs []Viol) {
	var all []*Piece
	for _, pm := range ck.Parts {
		if pm.Exact {
			all = append(all, pm.Pieces...)
		}
	}
	npd := ck.C.Cfg.NPD
	for i, p := range all {
		for _, q := range all[i+1:] {
			sf := p.F == q.F && p.P == q.P
			if sf != same || (sf && p.J == q.I) || (p.J == p.I+1 && q.J == q.I+1) || !linesX(p.Sub, q.Sub) {
				continue
			}
			ps, qs := p.seg(), q.seg()
			if same2(ps[0], qs[0]) || same2(ps[0], qs[1]) || same2(ps[1], qs[0]) || same2(ps[1], qs[1]) {
				continue // they meet at a vertex of both
			}
			where := fmt.Sprintf("feature %d part %d piece %d..%d and feature %d part %d piece %d..%d", p.F, p.P, p.I, p.J, q.F, q.P, q.I, q.J)
			if !segX(ps[0], ps[1], qs[0], qs[1]) {
				vs = append(vs, Viol{"C22", "lost", where + ": the input lines intersect, the output segments do not"})
				continue
			}
			sp := segPts(ps[0], ps[1], qs[0], qs[1])
			if len(sp) == 0 || len(sp) > 2 {
				continue
			}
			worst := 0.0
			for a := 0; a+1 < len(p.Sub); a++ {
				for b := 0; b+1 < len(q.Sub); b++ {
					lp := segPts(p.Sub[a], p.Sub[a+1], q.Sub[b], q.Sub[b+1])
					if len(lp) > 1 {
						continue
					}
					for _, x := range lp {
						worst = math.Max(worst, distPS(x, sp[0], sp[len(sp)-1]))
					}
				}
			}
			if worst > npd+tol {
				vs = append(vs, Viol{"C22", "displaced", fmt.Sprintf("%s: an intersection moved by %g > %g", where, worst, npd)})
			}
		}
	}
	return
}

// refSimplify is textbook Douglas-Peucker (or its SED variant); ok is false when
// a decision is too close to call.
func refSimplify(typ string, l []Pt, thr float64) (idx []int, ok bool) {
	ok = true
	var rec func(i, j int)
	rec = func(i, j int) {
		best, second, k := -1.0, -1.0, -1
		for m := i + 1; m < j; m++ {
			if typ == "sed" && l[i][2] == l[j][2] {
				ok = false
			}
			d := errOf(typ, []Pt{l[i], l[m], l[j]})
			if d >= best {
				best, second, k = d, best, m
			} else if d > second {
				second = d
			}
		}
		if k < 0 {
			return
		}
		for m := i + 1; m < j; m++ { // ties count where no arithmetic can blur them
			d := errOf(typ, []Pt{l[i], l[m], l[j]})
			if math.Abs(d-thr) < 1e-9 && !(typ == "dp" && d == thr && plainPS(l[m], l[i], l[j])) {
				ok = false
			}
		}
		if best <= thr {
			return
		}
		if best-second < 1e-9 {
			ok = false
		}
		rec(i, k)
		idx = append(idx, k)
		rec(k, j)
	}
	idx = append(idx, 0)
	rec(0, len(l)-1)
	return append(idx, len(l)-1), ok
}

// plain compares unconstrained output with the reference.
func (ck *Check) plain() (vs []Viol) {
	for _, pm := range ck.Parts {
		if !pm.Exact {
			continue
		}
		ref, ok := refSimplify(ck.C.Cfg.Type, pm.Line, ck.C.Cfg.Thr)
		if !ok {
			continue
		}
		in := map[int]bool{}
		for _, i := range ref {
			in[i] = true
		}
		extra := false
		for _, i := range pm.Idx {
			extra = extra || !in[i]
		}
		extra = extra || ck.Plain && len(pm.Idx) != len(ref)
		if extra {
			vs = append(vs, Viol{"C23", "differs", fmt.Sprintf("feature %d part %d: kept %v, the plain algorithm keeps %v", pm.F, pm.P, pm.Idx, ref)})
		}
	}
	return
}

// sameJSON compares decoded JSON; numbers may be written differently, but must
// be the same number.
func sameJSON(a, b interface{}) bool {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, there := y[k]
			if !there || !sameJSON(v, w) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameJSON(x[i], y[i]) {
				return false
			}
		}
		return true
	case json.Number:
		y, ok := b.(json.Number)
		if !ok {
			return false
		}
		p, ok1 := new(big.Rat).SetString(string(x))
		q, ok2 := new(big.Rat).SetString(string(y))
		return ok1 && ok2 && p.Cmp(q) == 0
	}
	return reflect.DeepEqual(a, b)
}
