package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// Prop is one property and how it is searched.
type Prop struct {
	ID       string
	Bins     string // binaries its trials need
	Quick    int    // trials of the quick tier
	Level    string
	Gen      func(w *Worker, r *Rng, i int) *Trial
	Eval     func(w *Worker, t *Trial, o *Outcome)
	Rule     string
	Scope    string // what ran for real, what was a stub
	MinFired int    // fault firings below which the check is an error
}

var props = map[string]*Prop{}

func addProp(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	if props[p.ID] != nil {
		fatal("property %s twice", p.ID)
	}
	props[p.ID] = p
}

// sizes draws how large a case is.
func sizes(r *Rng, o *GenOpt) {
	switch r.n(20) {
	case 0:
		o.MaxFeats, o.MaxPts = 3, 80
	case 1, 2, 3:
		o.MaxFeats, o.MaxPts = 10, 30
	case 4, 5, 6, 7:
		o.MaxFeats, o.MaxPts = 2, 10
	case 8:
		o.MaxFeats, o.MaxPts = 24, 10
	default:
		o.MaxFeats, o.MaxPts = 5, 22
	}
}

// oracle makes a property that judges one simplification by its output.
type oracle struct {
	id      string
	fc      int
	cons    bool
	typ     string
	odd     bool
	twoD    bool
	quick   int
	force   func(g *Config, r *Rng)
	need    func(g *Config) bool // options the property is about
	judge   func(ck *Check) []Viol
	rule    string
	skipLib bool
	long    float64 // how often a line is very long
	plain   float64 // how often the library's plain simplifier is used
}

func (q oracle) add() {
	gen := func(w *Worker, r *Rng, i int) *Trial {
		o := GenOpt{Tag: true, Cons: q.cons, Odd: q.odd || r.p(0.3), FC: q.fc, Type: q.typ, Xf: r.p(0.3), Force: q.force}
		if q.twoD && r.p(0.3) {
			o.Tag = false
		}
		sizes(r, &o)
		o.Long = q.long
		o.Degen = r.p(0.35)
		t := &Trial{Kind: "cli", Case: genCase(r, o), Scheds: []Sched{genSched(r)}}
		if !q.skipLib && r.p(0.4) {
			t.Kind = "lib"
			t.Lib = &LibJob{Square: t.Case.Cfg.Thr >= 0 && r.p(0.5)} // a squared threshold has no sign
			t.Lib.Plain = r.p(q.plain)
			t.Lib.Same = r.p(0.3)
			if q.id == "C12" && r.p(0.4) {
				t.Lib.Keep = randKeep(r, t.Case)
			}
		}
		return t
	}
	eval := func(w *Worker, t *Trial, o *Outcome) {
		if q.need != nil && !q.need(&t.Case.Cfg) {
			o.Skip = "option off"
			return
		}
		ck := t.simplify(w, o)
		if ck == nil {
			return
		}
		var own []Viol
		for _, v := range o.Viols {
			if v.Prop == q.id {
				own = append(own, v)
			}
		}
		o.Viols = append(own, q.judge(ck)...)
		o.Trivial = ck.dropped() == 0
		if o.Trivial {
			return
		}
		o.tag("vertices dropped")
		if pk := ck.plainCheck(); pk != nil {
			if len(q.judge(pk)) > 0 {
				o.tag("the plain algorithm alone would break it")
			}
		}
	}
	n := q.quick
	if n == 0 {
		n = 24000
	}
	addProp(&Prop{ID: q.id, Bins: "cli lib", Quick: n, Gen: gen, Eval: eval,
		Rule:  q.rule + " Each trial is one random case (1-24 features of 2-80 vertices on an integer grid, scaled by 2^k and translated in part; constraints beside and across the lines) run through the command-line tool (60%) or the library (40%) under one random schedule. A trial is non-trivial when the run removed at least one vertex; distinctness is by case and executed schedule.",
		Scope: "real: every package of the repository and its dependencies, the Go scheduler's run queue, channels, mutexes; stub: the kernel's file system (in memory), clocks, random numbers"})
}

// plainCheck is the outcome of the unconstrained algorithm on the same case.
func (ck *Check) plainCheck() *Check {
	o := &Check{C: ck.C, In: ck.In}
	for _, pm := range ck.Parts {
		ref, _ := refSimplify(ck.C.Cfg.Type, pm.Line, ck.C.Cfg.Thr)
		m := &PartMap{F: pm.F, P: pm.P, Line: pm.Line, Idx: ref, Exact: pm.Exact}
		for k := 0; k+1 < len(ref); k++ {
			m.Pieces = append(m.Pieces, &Piece{pm.F, pm.P, ref[k], ref[k+1], pm.Line[ref[k] : ref[k+1]+1]})
		}
		o.Parts = append(o.Parts, m)
	}
	return o
}

func someThr(g *Config, r *Rng) {
	if g.Thr < 2 {
		g.Thr = r.pickF(2, 5, 12, 30)
	}
}

func init() {
	oracle{id: "C05", plain: 0.1, long: 0.01, odd: true, twoD: true, cons: true, rule: "Output vertices must be input vertices, in order, first and last kept.",
		judge: func(ck *Check) []Viol { return nil }}.add()
	oracle{id: "C06", plain: 0.1, long: 0.015, cons: true, rule: "Every output segment must approximate the vertices it replaces within the threshold (perpendicular-to-segment or synchronised distance, recomputed independently).",
		force: func(g *Config, r *Rng) {
			if r.p(0.03) {
				g.Thr = -1
			}
		},
		need:  func(g *Config) bool { return true },
		judge: func(ck *Check) []Viol { return ck.threshold() }}.add()
	oracle{id: "C07", long: 0.004, cons: true, rule: "Each output segment meets exactly the constraints that the stretch of line it replaces meets.",
		force: func(g *Config, r *Rng) { someThr(g, r); g.Geom = true },
		need:  func(g *Config) bool { return g.Geom },
		judge: func(ck *Check) []Viol { return ck.geomRel() }}.add()
	oracle{id: "C08", long: 0.004, cons: true, rule: "No output segment is nearer to a constraint than the minimum distance unless the stretch it replaces was.",
		force: func(g *Config, r *Rng) {
			someThr(g, r)
			g.Dist = true
			if g.Min == 0 && r.p(0.8) {
				g.Min = r.pickF(1, 2, 4, 8)
			}
		},
		need:  func(g *Config) bool { return g.Dist },
		judge: func(ck *Check) []Viol { return ck.minDist() }}.add()
	oracle{id: "C09", long: 0.008, cons: true, rule: "Each output segment passes every constraint it does not touch on the same side (winding number) as the stretch it replaces.",
		force: func(g *Config, r *Rng) { someThr(g, r); g.Side = true },
		need:  func(g *Config) bool { return g.Side },
		judge: func(ck *Check) []Viol { return ck.side() }}.add()
	oracle{id: "C10", long: 0.004, cons: true, rule: "Output segments of one line meet only where the stretches they replace meet.",
		force: func(g *Config, r *Rng) { someThr(g, r); g.Avoid = true },
		need:  func(g *Config) bool { return g.Avoid },
		judge: func(ck *Check) []Viol { return ck.crossings(true, "C10") }}.add()
	oracle{id: "C11", long: 0.003, fc: 1, cons: true, rule: "Output segments of different lines of a feature class meet only where the stretches they replace meet.",
		force: func(g *Config, r *Rng) { someThr(g, r); g.Avoid = true },
		need:  func(g *Config) bool { return g.Avoid && g.FC },
		judge: func(ck *Check) []Viol { return ck.crossings(false, "C11") }}.add()
	oracle{id: "C12", long: 0.005, cons: true, rule: "Vertices shared within a line, and in a feature class between lines, and those a caller of the library names, are kept.",
		force: func(g *Config, r *Rng) { someThr(g, r); g.Planar = true },
		need:  func(g *Config) bool { return g.Planar },
		judge: func(ck *Check) []Viol { return append(ck.junctions(ck.C.Cfg.FC), ck.named()...) }}.add()
	oracle{id: "C13", long: 0.003, rule: "Both end vertices of each of two segments of a line that cross, touch or overlap otherwise than vertex on vertex are kept.",
		force: func(g *Config, r *Rng) { someThr(g, r); g.Planar, g.NonPl = true, true },
		need:  func(g *Config) bool { return g.Planar && g.NonPl },
		judge: func(ck *Check) []Viol { return ck.nonPlanar() }}.add()
	oracle{id: "C22", long: 0.003, cons: true, rule: "Where two stretches of line (of one feature, or of a class) intersect, their output segments still do, within the configured displacement.",
		force: func(g *Config, r *Rng) { someThr(g, r); g.Avoid = true },
		need:  func(g *Config) bool { return g.Avoid },
		judge: func(ck *Check) []Viol {
			vs := ck.displaced(true)
			if ck.C.Cfg.FC {
				vs = append(vs, ck.displaced(false)...)
			}
			return vs
		}}.add()
	oracle{id: "C23", plain: 0.5, long: 0.01, cons: true, rule: "With every option off the kept vertices are those of the textbook algorithm, recomputed independently.",
		force: func(g *Config, r *Rng) {
			g.Planar, g.NonPl, g.Avoid, g.Geom, g.Dist, g.Side = false, r.p(0.3), false, false, false, false
		},
		need:  func(g *Config) bool { return !(g.Planar || g.Avoid || g.Geom || g.Dist || g.Side) },
		judge: func(ck *Check) []Viol { return ck.plain() }}.add()

	addProp(&Prop{ID: "C14", Bins: "cli", Quick: 24000,
		Rule:  "Random input files of features, bare geometries, multi geometries, feature collections, blank lines and lines of other types; the output file is parsed independently and compared feature by feature. Non-trivial: at least two linear features, or a multi geometry.",
		Scope: "real: the whole tool; stub: file system, clocks, random numbers",
		Gen: func(w *Worker, r *Rng, i int) *Trial {
			o := GenOpt{Tag: r.p(0.6), Cons: r.p(0.5), Odd: true, Degen: r.p(0.3), Xf: r.p(0.3), Long: 0.004}
			sizes(r, &o)
			t := &Trial{Kind: "cli", Case: genCase(r, o), Scheds: []Sched{genSched(r)}}
			if r.p(0.15) {
				for k := range t.Case.Feats {
					if t.Case.Feats[k].Kind == "feature" {
						t.Case.Feats[k].Props = oddProps(r)
					}
				}
			}
			if r.p(0.3) {
				s := strings.Repeat("old content\n", r.n(900))
				t.Old = &s
			}
			stale(w, t, r)
			return t
		},
		Eval: func(w *Worker, t *Trial, o *Outcome) {
			run := t.Case.run(t.sched(0))
			if t.Old != nil {
				run.Files[pathOut] = *t.Old
			}
			res := o.do(w, run, 0)
			if !res.ok() {
				o.bad("C14", "no-output", "a valid run ended with %s", res.how())
				return
			}
			text, wrote := res.Files[pathOut]
			if !wrote {
				o.bad("C14", "no-output", "the tool reported success without writing its output")
				return
			}
			_, vs := bind(t.Case, text)
			for _, v := range vs {
				if v.Prop == "C14" {
					o.Viols = append(o.Viols, v)
				}
			}
			for _, p := range []string{pathIn, pathCon, pathCfg} {
				if res.Files[p] != run.Files[p] {
					o.bad("C14", "input-changed", "%s was altered", p)
				}
			}
			n, multi := 0, false
			for k := range t.Case.Feats {
				if t.Case.Feats[k].linear() {
					n++
					multi = multi || t.Case.Feats[k].Multi
				}
			}
			o.Trivial = n < 2 && !multi
		}})
}

// randJSON draws a JSON value.
func randJSON(r *Rng, depth int) string {
	k := r.n(10)
	if depth <= 0 {
		k = r.n(7)
	}
	switch k {
	case 0:
		return r.pickS("null", "true", "false")
	case 1, 2:
		return r.pickS("0", "-0", "1", "-17", "9007199254740993", "123456789012345678901234567890", "0.1", "-1.5e-7", "1e300", "1E+2", "3.0", "0.30000000000000004", "1e-400")
	case 3, 4, 5, 6:
		return randStr(r)
	case 7:
		var v []string
		for n := r.n(5); n > 0; n-- {
			v = append(v, randJSON(r, depth-1))
		}
		return "[" + strings.Join(v, ",") + "]"
	}
	return randObj(r, depth-1)
}

func randStr(r *Rng) string {
	s := ""
	for n := r.n(7); n > 0; n-- {
		s += r.pickS("a", "Z", " ", "0", "é", "<", "&", `\"`, `\\`, `\/`, `\n`, `\t`, `\u0000`, `\u2028`, "\u2029", "{", "]", ":", ",", `\ud83d\ude00`, "😀", "%", "idx", "_", "}", "}{", "},{", "[[", `\r\n`, "'", "//", "#", "$", ".", "-", "e5", "null", `{\"type\":\"Feature\"}`, "NaN", "é", "\u200b", "\ufeff")
	}
	return `"` + s + `"`
}

func randObj(r *Rng, depth int) string {
	var v []string
	seen := map[string]bool{}
	for n := r.n(6); n > 0; n-- {
		k := r.pickS(`"type"`, `"geometry"`, `"properties"`, `"coordinates"`, `"id"`, `"ID"`, `"name"`, `""`, `" "`, `"a.b"`, `"Type"`, randStr(r))
		if !seen[k] {
			seen[k] = true
			v = append(v, k+":"+randJSON(r, depth))
		}
	}
	return "{" + strings.Join(v, ",") + "}"
}

func oddProps(r *Rng) string {
	if r.p(0.6) {
		return randObj(r, r.n(4))
	}
	return r.pickS(`{"a":"line\u2028sep","b":"\"quoted\" \\ \/ \t"}`, `{"big":1e300,"small":-1.5e-7,"int":123456789}`, `{"":{},"arr":[],"nest":[[{"x":[null]}]]}`,
		`{"type":"Point","coordinates":[9,9]}`, `{"html":"<b>&amp;</b>"}`, `{"id":"idx:7-pos:3"}`, `{"a":null,"b":{"c":null}}`, `{"off":false,"zero":0,"none":null,"empty":""}`, `{"x":null}`, fmt.Sprintf(`{"n":%d}`, r.n(1000)))
}

func b2s(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}
