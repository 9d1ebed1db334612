package main

import (
	"time"
)

// first returns the violation of a property an outcome holds.
func (o *Outcome) first(id string) *Viol {
	for i := range o.Viols {
		if o.Viols[i].Prop == id {
			return &o.Viols[i]
		}
	}
	return nil
}

func (p *Prop) run(w *Worker, t *Trial) (o *Outcome) {
	o = &Outcome{}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(watchdog); !ok {
				panic(e)
			}
			o.Skip = "watchdog"
		}
	}()
	p.Eval(w, t, o)
	return o
}

// watchdog ends the evaluation of a trial whose run does not end in real time.
type watchdog struct{}

type shrinker struct {
	p     *Prop
	w     *Worker
	t     *Trial
	v     Viol
	class string
	until time.Time
	runs  int
}

func (s *shrinker) try(c *Trial) bool {
	if time.Now().After(s.until) {
		return false
	}
	s.runs++
	o := s.p.run(s.w, c)
	for _, v := range o.Viols {
		if v.Prop == s.p.ID && v.Class == s.class {
			s.t, s.v = c, v
			return true
		}
	}
	return false
}

// edit tries one change of a copy; the function reports whether it changed anything.
func (s *shrinker) edit(f func(t *Trial) bool) bool {
	c := clone(s.t)
	if !f(c) {
		return false
	}
	return s.try(c)
}

// list shrinks a sequence: chunks first, then single elements.
func (s *shrinker) list(n func(t *Trial) int, del func(t *Trial, i, j int), least int) bool {
	did := false
	for size := n(s.t); size >= 1; size /= 2 {
		for i := 0; i < n(s.t); {
			k := n(s.t)
			j := min(i+size, k)
			if k-(j-i) < least {
				i += size
				continue
			}
			if s.edit(func(t *Trial) bool { del(t, i, j); return true }) {
				did = true
			} else {
				i += size
			}
			if time.Now().After(s.until) {
				return did
			}
		}
	}
	return did
}

func cut[T any](v []T, i, j int) []T {
	return append(append([]T{}, v[:i]...), v[j:]...)
}

func (s *shrinker) pass() bool {
	did := false
	more := func(b bool) { did = did || b }
	// faults and schedules
	more(s.list(func(t *Trial) int { return len(t.Plans) }, func(t *Trial, i, j int) { t.Plans = cut(t.Plans, i, j) }, 1))
	for k := range s.t.Plans {
		more(s.list(func(t *Trial) int { return len(t.Plans[k].Faults) }, func(t *Trial, i, j int) { t.Plans[k].Faults = cut(t.Plans[k].Faults, i, j) }, 0))
		more(s.edit(func(t *Trial) bool { p := &t.Plans[k]; c := p.Then != nil; p.Then = nil; return c }))
		for i := range s.t.Plans[k].Faults {
			more(s.edit(func(t *Trial) bool { f := &t.Plans[k].Faults[i]; c := f.Stay; f.Stay = false; return c }))
		}
		more(s.edit(func(t *Trial) bool { r := &t.Plans[k].Rates; c := r.Eintr != 0; r.Eintr = 0; return c }))
		more(s.edit(func(t *Trial) bool { r := &t.Plans[k].Rates; c := r.ShortRead != 0; r.ShortRead = 0; return c }))
		more(s.edit(func(t *Trial) bool { r := &t.Plans[k].Rates; c := r.ShortWrite != 0; r.ShortWrite = 0; return c }))
	}
	if s.p.ID == "C01" {
		more(s.list(func(t *Trial) int { return len(t.Scheds) }, func(t *Trial, i, j int) {
			if i > 0 {
				t.Scheds = cut(t.Scheds, i, j)
			}
		}, 2))
	}
	for k := range s.t.Scheds {
		more(s.edit(func(t *Trial) bool {
			c := &t.Scheds[k]
			if c.Tape || (c.Strategy == 0 && c.Yield == 0 && c.NCPU == 1 && c.Rand == 1 && c.JumpStep == 0) {
				return false
			}
			t.Scheds[k] = fifo
			return true
		}))
		for _, f := range []func(c *Sched) bool{
			func(c *Sched) bool { b := c.JumpStep != 0; c.JumpStep, c.JumpDelta = 0, 0; return b },
			func(c *Sched) bool { b := c.NCPU != 1; c.NCPU = 1; return b },
			func(c *Sched) bool { b := c.Rand != 1; c.Rand = 1; return b },
			func(c *Sched) bool { b := c.Tick != 0; c.Tick = 0; return b },
			func(c *Sched) bool { b := c.MaskSeed != 0; c.MaskSeed, c.MaskThresh = 0, 0; return b },
			func(c *Sched) bool { b := c.Yield != 0; c.Yield = 0; return b },
			func(c *Sched) bool { b := c.Strategy != 0; c.Strategy = 0; return b },
		} {
			more(s.edit(func(t *Trial) bool { return f(&t.Scheds[k]) }))
		}
	}
	more(s.list(func(t *Trial) int { return len(t.Vars) }, func(t *Trial, i, j int) {
		t.Vars = cut(t.Vars, i, j)
		if len(t.Scheds) >= j+1 {
			t.Scheds = cut(t.Scheds, i+1, j+1)
		}
	}, 1))
	more(s.edit(func(t *Trial) bool {
		c := t.Old != nil && len(*t.Old) > 1
		if c {
			o := (*t.Old)[:len(*t.Old)/2]
			t.Old = &o
		}
		return c
	}))
	more(s.edit(func(t *Trial) bool { c := t.Old != nil; t.Old = nil; return c }))
	if s.t.Case != nil {
		more(s.caseMoves())
	}
	if s.t.Lib != nil {
		more(s.libMoves())
	}
	return did
}

func (s *shrinker) caseMoves() bool {
	did := false
	more := func(b bool) { did = did || b }
	more(s.list(func(t *Trial) int { return len(t.Case.Feats) }, func(t *Trial, i, j int) { t.Case.Feats = cut(t.Case.Feats, i, j) }, 1))
	more(s.list(func(t *Trial) int { return len(t.Case.Cons) }, func(t *Trial, i, j int) { t.Case.Cons = cut(t.Case.Cons, i, j) }, 0))
	for f := range s.t.Case.Feats {
		more(s.list(func(t *Trial) int { return len(t.Case.Feats[f].Parts) }, func(t *Trial, i, j int) {
			t.Case.Feats[f].Parts = cut(t.Case.Feats[f].Parts, i, j)
		}, 1))
		for p := range s.t.Case.Feats[f].Parts {
			more(s.list(func(t *Trial) int { return len(t.Case.Feats[f].Parts[p]) }, func(t *Trial, i, j int) {
				t.Case.Feats[f].Parts[p] = cut(t.Case.Feats[f].Parts[p], i, j)
			}, 2))
		}
		more(s.edit(func(t *Trial) bool {
			x := &t.Case.Feats[f]
			if x.Kind == "blank" || x.Kind == "point" || x.Kind == "polygon" || x.Props == "{}" {
				return false
			}
			x.Props = "{}"
			return true
		}))
		more(s.edit(func(t *Trial) bool {
			x := &t.Case.Feats[f]
			if x.Kind != "geometry" {
				return false
			}
			x.Kind, x.Props = "feature", "{}"
			return true
		}))
		more(s.edit(func(t *Trial) bool {
			x := &t.Case.Feats[f]
			c := x.Multi && len(x.Parts) == 1
			x.Multi = x.Multi && !c
			return c
		}))
	}
	for k := range s.t.Case.Cons {
		more(s.edit(func(t *Trial) bool {
			g := &t.Case.Cons[k]
			if g.Kind != "Polygon" || len(g.Pts) == 1 {
				return false
			}
			g.Pts = g.Pts[:1]
			return true
		}))
	}
	flags := []func(g *Config) *bool{
		func(g *Config) *bool { return &g.Avoid }, func(g *Config) *bool { return &g.NonPl }, func(g *Config) *bool { return &g.Planar },
		func(g *Config) *bool { return &g.Side }, func(g *Config) *bool { return &g.Dist }, func(g *Config) *bool { return &g.Geom },
		func(g *Config) *bool { return &g.FC }, func(g *Config) *bool { return &g.B64 },
	}
	opts := func(t *Trial) { // the library job carries its own copy
		if t.Lib != nil && t.Lib.Kind == "simp" && len(t.Lib.Rounds) > 0 {
			t.Lib.Opts = t.Case.Cfg.lib()
		}
	}
	for _, f := range flags {
		more(s.edit(func(t *Trial) bool {
			b := f(&t.Case.Cfg)
			c := *b
			*b = false
			opts(t)
			return c
		}))
	}
	for _, f := range []func(c *Case) bool{
		func(c *Case) bool { b := c.Cfg.Exp != 0; c.Cfg.Exp = 0; return b },
		func(c *Case) bool { b := c.Cfg.TX != 0 || c.Cfg.TY != 0; c.Cfg.TX, c.Cfg.TY = 0, 0; return b },
		func(c *Case) bool { b := c.Pack != 0; c.Pack = 0; return b },
		func(c *Case) bool { b := c.ConZ != 0; c.ConZ = 0; return b },
		func(c *Case) bool { b := c.Coll; c.Coll = false; return b },
		func(c *Case) bool { b := c.NoTail; c.NoTail = false; return b },
		func(c *Case) bool { b := c.Raw; c.Raw = false; return b },
		func(c *Case) bool { b := c.Cfg.NPD != 0; c.Cfg.NPD = 0; return b },
		func(c *Case) bool { b := c.Cfg.Min != 0; c.Cfg.Min = 0; return b },
		func(c *Case) bool { b := c.Cfg.Type == "sed"; c.Cfg.Type = "dp"; return b },
	} {
		more(s.edit(func(t *Trial) bool {
			b := f(t.Case)
			opts(t)
			if t.Lib != nil {
				t.Lib.SED = t.Case.Cfg.Type == "sed"
			}
			return b
		}))
	}
	return did
}

func (s *shrinker) libMoves() bool {
	did := false
	more := func(b bool) { did = did || b }
	more(s.edit(func(t *Trial) bool { c := t.Lib.Clients > 1; t.Lib.Clients = 1; return c }))
	more(s.edit(func(t *Trial) bool { c := t.Lib.Clients > 2; t.Lib.Clients = 2; return c }))
	more(s.edit(func(t *Trial) bool { c := t.Lib.Square; t.Lib.Square = false; return c }))
	more(s.edit(func(t *Trial) bool { c := t.Lib.Same; t.Lib.Same = false; return c }))
	more(s.edit(func(t *Trial) bool { c := t.Lib.Shared; t.Lib.Shared = false; return c }))
	more(s.list(func(t *Trial) int { return len(t.Lib.Rounds) }, func(t *Trial, i, j int) { t.Lib.Rounds = cut(t.Lib.Rounds, i, j) }, 1))
	for k := range s.t.Lib.Keep {
		more(s.list(func(t *Trial) int { return len(t.Lib.Keep[k]) }, func(t *Trial, i, j int) { t.Lib.Keep[k] = cut(t.Lib.Keep[k], i, j) }, 0))
	}
	for k := range s.t.Lib.Rounds {
		more(s.edit(func(t *Trial) bool { c := t.Lib.Rounds[k].Con > 0; t.Lib.Rounds[k].Con = 0; return c }))
		more(s.edit(func(t *Trial) bool { c := t.Lib.Rounds[k].Skip > 0; t.Lib.Rounds[k].Skip = 0; return c }))
		more(s.edit(func(t *Trial) bool { c := t.Lib.Rounds[k].SetOpt; t.Lib.Rounds[k].SetOpt = false; return c }))
		more(s.edit(func(t *Trial) bool { c := t.Lib.Rounds[k].Mode == "fc"; t.Lib.Rounds[k].Mode = "inst"; return c }))
		more(s.edit(func(t *Trial) bool { c := t.Lib.Rounds[k].Mode == "inst"; t.Lib.Rounds[k].Mode = "seq"; return c }))
	}
	more(s.list(func(t *Trial) int { return len(t.Lib.Ops) }, func(t *Trial, i, j int) { t.Lib.Ops = cut(t.Lib.Ops, i, j) }, 1))
	for c := range s.t.Lib.Ops {
		more(s.list(func(t *Trial) int { return len(t.Lib.Ops[c]) }, func(t *Trial, i, j int) { t.Lib.Ops[c] = cut(t.Lib.Ops[c], i, j) }, 0))
	}
	more(s.list(func(t *Trial) int { return len(t.Lib.Init) }, func(t *Trial, i, j int) { t.Lib.Init = cut(t.Lib.Init, i, j) }, 0))
	more(s.list(func(t *Trial) int { return len(t.Lib.Phases) }, func(t *Trial, i, j int) {
		for k := i; k < j; k++ { // what was loaded in a dropped step may be loaded again later
			_ = k
		}
		t.Lib.Phases = cut(t.Lib.Phases, i, j)
	}, 1))
	for p := range s.t.Lib.Phases {
		more(s.list(func(t *Trial) int { return len(t.Lib.Phases[p].Load) }, func(t *Trial, i, j int) { t.Lib.Phases[p].Load = cut(t.Lib.Phases[p].Load, i, j) }, 0))
		more(s.list(func(t *Trial) int { return len(t.Lib.Phases[p].Reads) }, func(t *Trial, i, j int) { t.Lib.Phases[p].Reads = cut(t.Lib.Phases[p].Reads, i, j) }, 0))
		for c := range s.t.Lib.Phases[p].Reads {
			more(s.list(func(t *Trial) int { return len(t.Lib.Phases[p].Reads[c]) }, func(t *Trial, i, j int) {
				t.Lib.Phases[p].Reads[c] = cut(t.Lib.Phases[p].Reads[c], i, j)
			}, 0))
		}
		more(s.list(func(t *Trial) int { return len(t.Lib.Phases[p].Remove) }, func(t *Trial, i, j int) { t.Lib.Phases[p].Remove = cut(t.Lib.Phases[p].Remove, i, j) }, 0))
	}
	return did
}

// valid keeps shrunk index histories meaningful: an item is loaded only when absent.
func (j *LibJob) valid() bool {
	in := map[int]bool{}
	for _, p := range j.Phases {
		if p.Clear {
			in = map[int]bool{}
		}
		for _, id := range p.Remove {
			delete(in, id)
		}
		for _, id := range p.Load {
			if in[id] {
				return false
			}
			in[id] = true
		}
	}
	return true
}

// tapes replaces the schedules by the explicit decisions they made, and
// shrinks those.
func (s *shrinker) tapes() {
	o := s.p.run(s.w, s.t)
	c := clone(s.t)
	did := false
	for i, res := range o.Runs {
		k := o.Which[i]
		if k < 0 || k >= len(c.Scheds) || c.Scheds[k].Tape || (c.Scheds[k].Strategy == 0 && c.Scheds[k].Yield == 0) {
			continue
		}
		if ns, ok := res.tape(c.Scheds[k]); ok && len(ns.TapeYields)+len(ns.TapePicks) < 4000 {
			c.Scheds[k] = ns
			did = true
		}
	}
	if !did || !s.try(c) {
		return
	}
	for k := range s.t.Scheds {
		if !s.t.Scheds[k].Tape {
			continue
		}
		s.list(func(t *Trial) int { return len(t.Scheds[k].TapeYields) }, func(t *Trial, i, j int) { t.Scheds[k].TapeYields = cut(t.Scheds[k].TapeYields, i, j) }, 0)
		s.list(func(t *Trial) int { return len(t.Scheds[k].TapePicks) }, func(t *Trial, i, j int) { t.Scheds[k].TapePicks = cut(t.Scheds[k].TapePicks, i, j) }, 0)
	}
}

// shrink minimises a failing trial within the time given.
func shrink(p *Prop, w *Worker, t *Trial, v Viol, limit time.Duration) (*Trial, Viol, int) {
	s := &shrinker{p: p, w: w, t: t, v: v, class: v.Class, until: time.Now().Add(limit)}
	for s.pass() && time.Now().Before(s.until) {
	}
	s.until = s.until.Add(limit / 3)
	s.tapes()
	return s.t, s.v, s.runs
}
