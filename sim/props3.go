package main

// Var names one variant of a case; what it is follows from the case.
type Var struct {
	Kind string `json:"kind"`
	Seed uint64 `json:"seed"`
}

// meta makes a property that compares a case with variants of it.
type meta struct {
	id    string
	kinds []string
	opt   func(o *GenOpt, r *Rng)
	force func(g *Config, r *Rng)
	rule  string
	quick int
}

func (q meta) add() {
	gen := func(w *Worker, r *Rng, i int) *Trial {
		o := GenOpt{Tag: r.p(0.5), Cons: r.p(0.7), Odd: r.p(0.4), Xf: r.p(0.2), Force: q.force}
		sizes(r, &o)
		o.Degen = r.p(0.3)
		if q.opt != nil {
			q.opt(&o, r)
		}
		t := &Trial{Kind: "cli", Case: genCase(r, o), Scheds: []Sched{genSched(r)}}
		for k := 0; k < 12 && len(t.Vars) < 3; k++ {
			v := Var{q.kinds[r.n(len(q.kinds))], r.next()}
			if variant(v.Kind, t.Case, newRng(v.Seed)) != nil {
				t.Vars = append(t.Vars, v)
				t.Scheds = append(t.Scheds, genSched(r))
			}
		}
		return t
	}
	eval := func(w *Worker, t *Trial, o *Outcome) {
		ran := map[string]*Result{}
		first := func(c *Case) *Result {
			k := b2s(c)
			if ran[k] == nil {
				ran[k] = o.do(w, c.run(t.sched(0)), 0)
			}
			return ran[k]
		}
		o.Trivial = true
		n := 0
		for k, x := range t.Vars {
			v := variant(x.Kind, t.Case, newRng(x.Seed))
			if v == nil {
				continue
			}
			c := t.Case
			if v.Base != nil {
				c = v.Base
			}
			a := first(c)
			if !a.ok() {
				o.Skip = "run failed: " + a.how()
				return
			}
			b := o.do(w, v.C.run(t.sched(k+1)), k+1)
			n++
			o.tag("compared: " + x.Kind)
			if !b.ok() {
				if b.Status == stBudget {
					continue
				}
				o.bad(q.id, x.Kind+":failed", "the case succeeds, its variant (%s) ends with %s", x.Kind, b.how())
				return
			}
			at, bt := a.Files[pathOut], b.Files[pathOut]
			if v.Bytes {
				if at != bt {
					o.bad(q.id, x.Kind, "%s: the output differs: %s", x.Kind, diffText(at, bt))
					return
				}
				o.Trivial = o.Trivial && at == ""
				continue
			}
			p, bad := flatLines(at, &c.Cfg)
			if bad != "" {
				o.Skip = "output: " + bad
				return
			}
			s, bad := flatLines(bt, &v.C.Cfg)
			if bad != "" {
				o.bad(q.id, x.Kind, "%s: %s", x.Kind, bad)
				return
			}
			if d := v.diff(p, s); d != "" {
				o.bad(q.id, x.Kind, "%s: %s", x.Kind, d)
				return
			}
			kept, had := 0, 0
			for _, l := range p {
				kept += len(l)
			}
			for _, l := range c.lines() {
				had += len(c.Feats[l[0]].Parts[l[1]])
			}
			if kept < had {
				o.Trivial = false
			}
		}
		if n == 0 {
			o.Skip = "no variant applies"
		}
	}
	addProp(&Prop{ID: q.id, Bins: "cli", Quick: q.quick, Gen: gen, Eval: eval, Scope: scopeCLI,
		Rule: q.rule + " Each trial runs one random case and up to three variants of it, each under a random schedule of its own, and compares the outputs exactly. Non-trivial: the first run removed a vertex (or, where whole outputs are compared, wrote something); distinctness is by case, variants and executed schedules."})
}

func init() {
	meta{id: "C24", quick: 9000,
		kinds: []string{"class-order", "far-line", "outside-line", "class-far", "class-one", "parts"},
		opt: func(o *GenOpt, r *Rng) {
			if r.p(0.8) {
				o.FC = 1
			}
		},
		rule: "Variants of a class: its features in another order; more lines far away, or apart from every line by a straight gap; every line so far from the others that they cannot meet, against each of them simplified alone; one line as a class or as an instance; multi-part features as features of one part each."}.add()
	meta{id: "C25", quick: 13000,
		kinds: []string{"far-constraint", "outside-constraint", "outside-constraint", "cons-order", "cons-twice", "no-cons-options", "min-unused", "npd-unused", "npd-unused"},
		rule:  "Variants of the constraints and options: more constraints far away, or farther than the minimum distance from the convex hull of every line; the constraints in another order, or one of them twice; relations switched on without constraints; a minimum distance or a displacement with the option that uses it switched off."}.add()
	meta{id: "C26", quick: 13000,
		kinds: []string{"z", "z", "scale", "type-case", "respell", "respell", "form", "form", "form"},
		rule:  "Variants of the presentation: other third ordinates for dp; all lengths times a power of two; the algorithm's name in other letters; configuration, input and constraints spelled another way (order of members, white space, escapes, numbers, members nothing asks for); features and constraints as bare geometries, features, collections or multi geometries, with skipped lines between them, third ordinates of zero written or left out, constraints with or without heights, configuration by -f or -b."}.add()
}
