package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"syscall"
)

const scopeCLI = "real: the whole tool (flags, configuration, GeoJSON, simplification, output), its dependencies, the Go scheduler's queue, channels and mutexes; stub: the kernel's file system (in memory, with faults), clocks, random numbers"
const scopeLib = "real: the library packages and their dependencies, the Go scheduler's queue, channels and mutexes; stub: the program around them, the file system, clocks, random numbers"

// report is everything about a run that a user sees.
func (res *Result) report() string {
	s := res.how()
	for _, p := range sortedKeys(res.Files) {
		s += "\n" + p + "\n" + res.Files[p]
	}
	return s
}

// hostile makes legal but awkward input.
func hostile(r *Rng, c *Case) {
	for i := range c.Feats {
		f := &c.Feats[i]
		for p := range f.Parts {
			if !r.p(0.3) {
				continue
			}
			if len(f.Parts[p]) > 50 { // overlapping segments take quartic time
				f.Parts[p] = f.Parts[p][:50:50]
			}
			l := f.Parts[p]
			switch r.n(6) {
			case 0: // one spot
				for k := range l {
					l[k][0], l[k][1] = l[0][0], l[0][1]
				}
			case 1: // straight, with steps back
				for k := range l {
					l[k][1] = l[0][1]
				}
			case 2: // there and back
				for k := range l {
					m := len(l) - 1 - k
					if m < k {
						l[k][0], l[k][1] = l[m][0], l[m][1]
					}
				}
			case 3: // the same vertex many times
				for k := range l {
					if k%3 > 0 {
						l[k][0], l[k][1] = l[k-1][0], l[k-1][1]
					}
				}
			case 4: // times that stand still
				for k := range l {
					if f.Dim == 3 {
						l[k][2] = l[0][2]
					}
				}
			case 5: // two spots in turn
				for k := range l {
					l[k][0], l[k][1] = l[k%2][0], l[k%2][1]
				}
			}
		}
	}
	g := &c.Cfg
	if r.p(0.1) {
		g.Thr = r.pickF(-1, -1e-9, 1e9, 1e300)
	}
	if r.p(0.1) {
		g.Min = r.pickF(-1, 1e9)
	}
	if r.p(0.1) {
		g.NPD = r.pickF(-1, 1e9)
	}
	if r.p(0.1) && len(c.Cons) > 0 { // a constraint on a vertex
		for i := range c.Feats {
			if len(c.Feats[i].Parts) > 0 {
				l := c.Feats[i].Parts[0]
				p := l[r.n(len(l))]
				p[2] = 0
				c.Cons = append(c.Cons, Geo{"Point", [][]Pt{{p}}})
			}
		}
	}
}

func randRounds(r *Rng, c *Case, n int) []LRound {
	var v []LRound
	opts := c.Cfg.lib()
	for i := 0; i < n; i++ {
		l := LRound{Mode: r.pickS("inst", "inst", "seq", "fc", "fc"), Opts: opts}
		if i > 0 && r.p(0.6) {
			l.SetOpt = true
			g := c.Cfg
			g.Thr = r.pickF(0, 1, 3, 8, 20, 40)
			g.Planar, g.NonPl, g.Avoid = r.p(0.5), r.p(0.5), r.p(0.5)
			if r.p(0.5) {
				g.Min, g.NPD = r.pickF(0, 1, 4, 15), r.pickF(0, 0.5, 3)
			}
			if len(c.Cons) > 0 {
				g.Geom, g.Dist, g.Side = r.p(0.5), r.p(0.5), r.p(0.5)
			}
			opts = g.lib()
			l.Opts = opts
		}
		if i > 0 && len(c.Cons) > 1 && r.p(0.4) {
			l.Con, l.Fresh = r.in(1, len(c.Cons)), r.p(0.5)
		}
		if r.p(0.25) {
			l.Skip = r.in(2, 4)
		}
		v = append(v, l)
	}
	return v
}

// randKeep names vertices of lines, in no order and with repetitions.
func randKeep(r *Rng, c *Case) [][]int {
	var v [][]int
	for i := range c.Feats {
		if !c.Feats[i].linear() {
			continue
		}
		for _, l := range c.Feats[i].Parts {
			var k []int
			if r.p(0.7) {
				for n := r.in(1, 4); n > 0; n-- {
					k = append(k, r.n(len(l)))
				}
			}
			v = append(v, k)
		}
	}
	return v
}

func readQueries(r *Rng, n, span int) []Query {
	var qs []Query
	for k := 0; k < n; k++ {
		x, y := float64(r.n(span)), float64(r.n(span))
		q := Query{Kind: r.pickS("search", "search", "collides", "all", "knn", "knn", "empty"), Dist: -1,
			Box: [4]float64{x, y, x + float64(r.n(span/2+1)), y + float64(r.n(span/2+1))}}
		if q.Kind == "knn" {
			q.Limit = r.pickI(0, 1, 2, 5, 20)
			if r.p(0.5) {
				q.Dist = float64(r.n(span))
			}
		}
		qs = append(qs, q)
	}
	return qs
}

func genHdb(r *Rng) *LibJob {
	j := &LibJob{Kind: "hdb", Cap: r.pickI(0, 0, 4, 5, 8, 16)}
	span := r.pickI(8, 40, 200)
	n := r.pickI(1, 3, 10, 40, 120, 300)
	if r.p(0.003) { // enough for the sampled selection of bulk loading
		n, span = r.pickI(700, 1500, 3000), r.pickI(40, 200, 3000)
	}
	for i := 0; i < n; i++ {
		x, y := float64(r.n(span)), float64(r.n(span))
		b := [4]float64{x, y, x + float64(r.n(span/4+1)), y + float64(r.n(span/4+1))}
		if i > 0 && r.p(0.1) {
			b = j.Boxes[r.n(i)] // equal boxes
		}
		j.Boxes = append(j.Boxes, b)
	}
	in := map[int]bool{}
	for ph := r.in(1, 6); ph > 0; ph-- {
		p := Phase{Clear: r.p(0.1)}
		if p.Clear {
			in = map[int]bool{}
		}
		if r.p(0.6) {
			k := r.n(n + 1)
			for i := 0; i < k; i++ {
				id := r.n(n)
				if r.p(0.9) && !in[id] {
					continue
				}
				p.Remove = append(p.Remove, id)
				delete(in, id)
			}
		}
		if r.p(0.15) { // take everything out
			for _, id := range sortedInts(in) {
				p.Remove = append(p.Remove, id)
			}
			in = map[int]bool{}
		}
		k := r.pickI(0, 1, 2, 5, n/2, n)
		for i := 0; i < k; i++ {
			id := r.n(n)
			if !in[id] {
				in[id] = true
				p.Load = append(p.Load, id)
			}
		}
		for c := r.in(1, 4); c > 0; c-- {
			p.Reads = append(p.Reads, readQueries(r, r.in(1, 6), span))
		}
		j.Phases = append(j.Phases, p)
	}
	return j
}

func genQueue(r *Rng) *LibJob {
	j := &LibJob{Kind: "queue"}
	v := 1
	for k := r.n(4); k > 0; k-- {
		j.Init = append(j.Init, v)
		v++
	}
	total := 0
	for c := r.in(2, 4); c > 0; c-- {
		var ops []QOp
		for k := r.in(1, 6); k > 0 && total < 18; k-- {
			total++
			o := QOp{Op: r.pickS("append", "append", "appendleft", "pop", "pop", "popleft", "popleft", "size", "first", "last", "clear")}
			if strings.HasPrefix(o.Op, "append") {
				o.V = v
				v++
			}
			ops = append(ops, o)
		}
		j.Ops = append(j.Ops, ops)
	}
	return j
}

func busySched(r *Rng) Sched {
	s := genSched(r)
	if r.p(0.6) {
		s.Strategy = uint64(r.pickI(1, 2))
		if s.Strategy == 2 {
			s.PCTDepth, s.PCTRange = uint64(r.in(1, 8)), uint64(r.pickI(100, 1000, 10000))
		}
		s.Yield = uint64(r.pickI(1<<27, 1<<29, 1<<30, 1<<31))
	}
	return s
}

func (t *Trial) anyRun(s Sched) *Run {
	if t.Kind == "lib" {
		return t.libRun(t.Lib, s)
	}
	r := t.Case.run(s)
	if t.Bin != "" {
		r.Bin = t.Bin
	}
	return r
}

func init() {
	addProp(&Prop{ID: "C01", Bins: "cli lib", Quick: 5000, Scope: scopeCLI,
		Rule: "One random case (cli or library) is executed under 6 schedules: first-come first-served, then five drawn from random walk, priority (PCT), newest-first and FIFO with random preemption rates, CPU counts 1-16, map iteration orders and clock jumps. Everything a user sees (exit, every file, kept vertices) must be identical. Non-trivial: vertices were removed and at least two executed schedules differ.",
		Gen: func(w *Worker, r *Rng, i int) *Trial {
			o := GenOpt{Tag: r.p(0.7), Cons: r.p(0.7), Odd: true, Degen: r.p(0.3)}
			sizes(r, &o)
			if o.MaxFeats < 4 {
				o.MaxFeats = 6
			}
			t := &Trial{Kind: "cli", Case: genCase(r, o), Scheds: []Sched{fifo}}
			for k := 0; k < 5; k++ {
				t.Scheds = append(t.Scheds, busySched(r))
			}
			if r.p(0.3) {
				t.Kind = "lib"
				t.Lib = t.Case.libJob(randRounds(r, t.Case, r.in(1, 2))...)
				t.Lib.Square = r.p(0.5)
			}
			return t
		},
		Eval: func(w *Worker, t *Trial, o *Outcome) {
			first := ""
			hashes := map[uint64]bool{}
			long := 0
			for k := range t.Scheds {
				res := o.do(w, t.anyRun(t.Scheds[k]), k)
				hashes[res.Hash] = true
				s := res.report()
				if t.Kind == "lib" {
					s = res.how() + b2s(res.pairs())
				}
				long = len(s)
				if k == 0 {
					first = s
				} else if s != first {
					o.bad("C01", "differs", "schedule %d gives another result than schedule 0: %s", k, diffText(first, s))
					return
				}
			}
			o.Trivial = len(hashes) < 2 || long == 0
		}})

	addProp(&Prop{ID: "C02", Bins: "cli lib", Quick: 24000, Scope: scopeCLI,
		Rule: "Valid but awkward inputs (repeated, collinear and doubling-back vertices, single-spot lines, equal times, negative and huge parameters, constraints on vertices, more features than workers and fewer) under adversarial schedules; each run must finish with success: no deadlock, no panic, no more than 2^26 scheduling steps (2^28 with lines of over 40 vertices; the longest run seen on the tree is a quarter of that), and in the library no goroutine left behind. Non-trivial: the run executed more than 200 steps.",
		Gen: func(w *Worker, r *Rng, i int) *Trial {
			o := GenOpt{Tag: r.p(0.5), Cons: r.p(0.7), Odd: true, Degen: r.p(0.5), Xf: r.p(0.2), Long: 0.004}
			sizes(r, &o)
			t := &Trial{Kind: "cli", Case: genCase(r, o), Scheds: []Sched{busySched(r)}}
			if r.p(0.5) && !t.Case.long() {
				hostile(r, t.Case)
			}
			if r.p(0.02) {
				t.Case.Feats = nil
			}
			if r.p(0.4) {
				t.Kind = "lib"
				n := 3
				if t.Case.long() {
					n = 1
				}
				t.Lib = t.Case.libJob(randRounds(r, t.Case, r.in(1, n))...)
				t.Lib.Square = r.p(0.5)
				t.Lib.Clients = r.pickI(1, 1, 2, n)
				if n == 1 {
					t.Lib.Clients = 1
				}
				t.Lib.Shared = r.p(0.5)
			}
			return t
		},
		Eval: func(w *Worker, t *Trial, o *Outcome) {
			res := o.do(w, t.anyRun(t.sched(0)), 0)
			o.Trivial = res.Steps < 200
			if !res.ok() {
				class := "failed"
				switch res.Status {
				case stDeadlock:
					class = "deadlock"
				case stBudget:
					class = "endless"
				}
				o.bad("C02", class, "a valid run ended with %s", res.how())
				return
			}
			for _, rec := range res.Recs {
				if rec.T == "drain" && rec.G != 0 {
					o.bad("C02", "leak", "%d goroutines are still there after the call returned and everything that could run had", rec.G)
				}
			}
		}})

	addProp(&Prop{ID: "C03", Bins: "cli-race lib-race", Quick: 7000, Scope: scopeCLI + "; both built with the race detector",
		Rule: "The same workloads as C01, C19, C20 and C21 in race-detector builds under preemptive random schedules: any reported race is a violation, as is any change of the shared lines and constraints. Non-trivial: at least two goroutines were runnable at once.",
		Gen: func(w *Worker, r *Rng, i int) *Trial {
			t := &Trial{Scheds: []Sched{busySched(r)}}
			switch r.n(8) {
			case 0:
				t.Kind, t.Bin, t.Lib = "lib", "lib-race", genQueue(r)
			case 1:
				t.Kind, t.Bin, t.Lib = "lib", "lib-race", genHdb(r)
			case 2, 3, 4:
				o := GenOpt{Tag: r.p(0.5), Cons: r.p(0.8), Odd: r.p(0.3), Degen: r.p(0.3)}
				o.MaxFeats, o.MaxPts = r.in(1, 8), r.in(4, 20)
				t.Case = genCase(r, o)
				t.Kind, t.Bin = "lib", "lib-race"
				t.Lib = t.Case.libJob(randRounds(r, t.Case, r.in(1, 2))...)
				t.Lib.Square = r.p(0.5)
				t.Lib.Clients = r.in(1, 3)
				t.Lib.Shared = r.p(0.5)
			default:
				o := GenOpt{Tag: r.p(0.5), Cons: r.p(0.8), Odd: true, Degen: r.p(0.3)}
				o.MaxFeats, o.MaxPts = r.in(2, 12), r.in(4, 24)
				t.Kind, t.Bin, t.Case = "cli", "cli-race", genCase(r, o)
			}
			return t
		},
		Eval: func(w *Worker, t *Trial, o *Outcome) {
			res := o.do(w, t.anyRun(t.sched(0)), 0)
			o.Trivial = res.Multi == 0
			if i := strings.Index(res.Stderr, "WARNING: DATA RACE"); i >= 0 {
				txt := res.Stderr[i:]
				if k := strings.Index(txt, "=========="); k > 0 {
					txt = txt[:k]
				}
				o.bad("C03", "race", "%s", raceSummary(txt))
				return
			}
			for _, rec := range res.Recs {
				if rec.T == "inputs" && rec.N != 1 {
					o.bad("C03", "inputs", "the shared lines or constraints were changed by simplifying")
				}
			}
			if !res.ok() {
				o.Skip = "run failed: " + res.how()
			}
		}})

	addProp(&Prop{ID: "C04", Bins: "cli", Quick: 8000, Scope: scopeCLI,
		Rule: "A file of 2-8 lines is simplified with is_feature_class off, whole; then in another order; then each line in a file of its own, under other schedules. Every output line must be the same text each time. Non-trivial: at least two linear features and removed vertices.",
		Gen: func(w *Worker, r *Rng, i int) *Trial {
			o := GenOpt{Tag: r.p(0.5), Cons: r.p(0.6), Odd: r.p(0.4), FC: -1, Degen: r.p(0.3)}
			sizes(r, &o)
			if o.MaxFeats < 3 {
				o.MaxFeats = 4
			}
			if o.MaxFeats > 8 {
				o.MaxFeats = 8
			}
			t := &Trial{Kind: "cli", Case: genCase(r, o), Scheds: []Sched{genSched(r), genSched(r), genSched(r)}}
			t.Case.Coll = false
			n := len(t.Case.Feats)
			for k := 0; k < n; k++ {
				t.Perm = append(t.Perm, k)
			}
			for k := n - 1; k > 0; k-- {
				m := r.n(k + 1)
				t.Perm[k], t.Perm[m] = t.Perm[m], t.Perm[k]
			}
			return t
		},
		Eval: evalC04})

	addProp(&Prop{ID: "C15", Bins: "cli", Quick: 12000, Level: "fault_enumeration", MinFired: 100,
		Scope: scopeCLI,
		Rule:  "A valid case is damaged in one of 36 ways (flags, configuration, paths, input and constraint text), or every read-side system call of its fault-free run (open, stat, read of configuration, input and constraints) is failed in turn with EIO, EACCES, ENOENT, EMFILE or EISDIR. The run must end with a non-zero exit, and files must be as before. Non-trivial: the damage took effect (always) or the fault fired.",
		Gen: func(w *Worker, r *Rng, i int) *Trial {
			o := GenOpt{Tag: r.p(0.5), Cons: r.p(0.8), Odd: r.p(0.5)}
			o.MaxFeats, o.MaxPts = r.in(1, 5), r.in(4, 14)
			t := &Trial{Kind: "cli", Case: genCase(r, o), Scheds: []Sched{genSched(r)}}
			if r.p(0.15) { // nothing to simplify: damage must be found all the same
				for i := range t.Case.Feats {
					for j, l := range t.Case.Feats[i].Parts {
						t.Case.Feats[i].Parts[j] = l[:min(2, len(l))]
					}
				}
			}
			if r.p(0.6) {
				s := strings.Repeat("what was there before\n", r.n(5))
				t.Old = &s
			}
			b := &Bad{Kind: badKinds[r.n(len(badKinds))], N: r.n(1000000)}
			if b.Kind[:3] == "con" && len(t.Case.Cons) == 0 {
				b.Kind = "in-cut"
			}
			if b.Kind == "read-fault" || r.p(0.35) {
				b = nil
				t.Plans = readPlans(w, t, r)
			}
			t.Bad = b
			return t
		},
		Eval: evalC15})

	addProp(&Prop{ID: "C16", Bins: "cli", Quick: 4500, Level: "fault_enumeration", MinFired: 1000, Scope: scopeCLI,
		Rule: "From the fault-free run of a case every write-side system call is failed in turn: open of the output (EACCES, ENOSPC, EROFS, ...), each write (EIO, ENOSPC, EFBIG, EDQUOT, ...; at once or after a short write), close (EIO, with the unsynced data lost), and the disk fills after a random number of bytes. Then the tool must not report success unless the output file holds exactly what the fault-free run wrote, and must not touch its inputs. Non-trivial: the fault fired.",
		Gen: func(w *Worker, r *Rng, i int) *Trial {
			t := ioTrial(w, r)
			t.Plans = writePlans(w, t, r)
			return t
		},
		Eval: evalC16})

	addProp(&Prop{ID: "C17", Bins: "cli", Quick: 9000, MinFired: 5000, Scope: scopeCLI,
		Rule: "A case is run plainly, then under interrupted system calls (EINTR), short reads and short writes at random rates, and with its configuration passed the other way (-b instead of -f). Exit status and output must be identical. Non-trivial: at least one such event fired.",
		Gen: func(w *Worker, r *Rng, i int) *Trial {
			t := ioTrial(w, r)
			t.Plans = nil
			for k := 0; k < 3; k++ {
				t.Plans = append(t.Plans, Plan{Rates: Rates{Seed: r.next(), Eintr: r.pickI(0, 50, 300), ShortRead: r.pickI(0, 100, 900), ShortWrite: r.pickI(0, 300, 950)}})
				t.Scheds = append(t.Scheds, genSched(r))
			}
			return t
		},
		Eval: func(w *Worker, t *Trial, o *Outcome) {
			base := t.oldRun(t.sched(0))
			res := o.do(w, base, 0)
			if !res.ok() {
				o.Skip = "run failed: " + res.how()
				return
			}
			want := res.Files[pathOut]
			o.Trivial = true
			for k, p := range t.Plans {
				c := *t.Case
				c.Cfg.B64 = c.Cfg.B64 != (k%2 == 1)
				run := c.run(t.sched(k + 1))
				if t.Old != nil {
					run.Files[pathOut] = *t.Old
				}
				run.Rates = p.Rates
				run.Faults = p.Faults
				got := o.do(w, run, k+1)
				n := 0
				for _, rec := range got.Recs {
					if rec.T == "fault" {
						n++
					}
				}
				if n > 0 {
					o.Trivial = false
				}
				if !got.ok() {
					o.bad("C17", "failed", "plan %d: with %d interrupted or short system calls the run ended with %s", k, n, got.how())
				} else if got.Files[pathOut] != want {
					o.bad("C17", "differs", "plan %d: with %d interrupted or short system calls the output differs: %s", k, n, diffText(want, got.Files[pathOut]))
				}
			}
		}})

	addProp(&Prop{ID: "C18", Bins: "cli", Quick: 1500, Level: "fault_enumeration", MinFired: 3000, Scope: scopeCLI,
		Rule: "The process is killed at a scheduling step drawn from its fault-free run, before or after each of its system calls, and inside writes (torn). On the surviving disk the output path holds what it held before, nothing, or a prefix of the right output, and every other file is unchanged; the tool is then run again there (sometimes killed again, sometimes for another input) and must produce the right output. Non-trivial: the kill happened.",
		Gen: func(w *Worker, r *Rng, i int) *Trial {
			t := ioTrial(w, r)
			t.Plans = killPlans(w, t, r)
			if n := len(t.Case.Feats); n > 1 && r.p(0.4) {
				t.Next = 1 + r.n(n-1)
			}
			return t
		},
		Eval: evalC18})

	addProp(&Prop{ID: "C19", Bins: "lib", Quick: 60000, Scope: scopeLib,
		Rule: "2-4 clients perform up to 18 operations (append, appendleft, pop, popleft, size, first, last, clear) on one queue under preemptive schedules; the history, stamped with the simulator's event order, is checked for linearizability against a list (porcupine). An operation on an empty queue fails without effect. Non-trivial: operations of different clients overlap.",
		Gen: func(w *Worker, r *Rng, i int) *Trial {
			return &Trial{Kind: "lib", Lib: genQueue(r), Scheds: []Sched{busySched(r)}}
		},
		Eval: evalC19})

	addProp(&Prop{ID: "C20", Bins: "lib", Quick: 40000, Scope: scopeLib,
		Rule: "Random histories of load, remove and clear on the spatial index, with 1-4 clients reading at once after each step (search, collides, all, is-empty, nearest neighbours with limit and cut-off); every answer is compared with a plain set of boxes. Non-trivial: at least one non-empty answer.",
		Gen: func(w *Worker, r *Rng, i int) *Trial {
			return &Trial{Kind: "lib", Lib: genHdb(r), Scheds: []Sched{busySched(r)}}
		},
		Eval: evalC20})

	addProp(&Prop{ID: "C21", Bins: "cli lib", Quick: 7000, Scope: scopeLib + " (and the whole tool for comparison)",
		Rule: "The same line objects are simplified repeatedly (options changed between calls) and by up to 3 clients at once, as a class, as instances or one by one; every answer must equal a fresh, single-client, first-come-first-served run with those options, and the command-line tool's output. Non-trivial: vertices were removed and there was more than one call.",
		Gen: func(w *Worker, r *Rng, i int) *Trial {
			o := GenOpt{Tag: true, Cons: r.p(0.6), Odd: r.p(0.3), Degen: r.p(0.3), Long: 0.004}
			sizes(r, &o)
			t := &Trial{Kind: "lib", Case: genCase(r, o), Scheds: []Sched{busySched(r), genSched(r)}}
			t.Lib = t.Case.libJob(randRounds(r, t.Case, r.in(1, 4))...)
			t.Lib.Square = r.p(0.5)
			t.Lib.Clients = r.in(1, 3)
			t.Lib.Shared = r.p(0.5)
			t.Lib.Same = r.p(0.3)
			if r.p(0.3) {
				t.Lib.Keep = randKeep(r, t.Case)
			}
			return t
		},
		Eval: evalC21})
}

// stale lets the output path hold something like the right output.
func stale(w *Worker, t *Trial, r *Rng) {
	if !r.p(0.15) {
		return
	}
	s := w.exec(t.Case.run(t.sched(0))).Files[pathOut]
	if s == "" {
		return
	}
	k := r.n(len(s))
	switch r.n(6) {
	case 0:
		s += s[k:]
	case 1:
		s = s[:k] + "0" + s[k+1:]
	case 2:
		s = s[:k]
	case 3:
		s = strings.Repeat(" ", len(s))
	case 4:
		s = strings.NewReplacer("1", "2", "0", "9").Replace(s)
	}
	t.Old = &s
}

func ioTrial(w *Worker, r *Rng) *Trial {
	o := GenOpt{Tag: r.p(0.5), Cons: r.p(0.6), Odd: r.p(0.5)}
	o.MaxFeats, o.MaxPts = r.in(1, 6), r.in(4, 14)
	if r.p(0.1) {
		o.MaxFeats, o.MaxPts = 30, 30
	}
	t := &Trial{Kind: "cli", Case: genCase(r, o), Scheds: []Sched{genSched(r)}}
	if r.p(0.1) { // enough text for several writes
		for k := range t.Case.Feats {
			if t.Case.Feats[k].Kind == "feature" {
				t.Case.Feats[k].Props = `{"fill":"` + strings.Repeat("x", r.n(9000)) + `"}`
			}
		}
	}
	if r.p(0.6) {
		s := strings.Repeat("what was there before\n", r.pickI(0, 1, 5, 400))
		t.Old = &s
	}
	stale(w, t, r)
	return t
}

func (t *Trial) oldRun(s Sched) *Run {
	r := t.Case.run(s)
	if t.Old != nil {
		r.Files[pathOut] = *t.Old
	}
	return r
}

// calls lists the system calls of a fault-free run, with their number per operation.
type call struct {
	op   string
	nth  int
	path string
	n    int64
}

func calls(res *Result) []call {
	var v []call
	n := map[string]int{}
	for _, rec := range res.Recs {
		if rec.T == "sys" {
			v = append(v, call{rec.Op, n[rec.Op], rec.Path, rec.N})
			n[rec.Op]++
		}
	}
	return v
}

// errno draws one of the common errors of a call, or any other that a file
// system of another kind may give.
func errno(r *Rng, common ...syscall.Errno) int {
	if r.p(0.6) {
		return int(common[r.n(len(common))])
	}
	rare := []syscall.Errno{syscall.EDQUOT, syscall.EPERM, syscall.ESTALE, syscall.ENOMEM, syscall.ENODEV, syscall.EINVAL,
		syscall.EBUSY, syscall.ENFILE, syscall.ENOTDIR, syscall.ELOOP, syscall.ENAMETOOLONG, syscall.ETXTBSY, syscall.ETIMEDOUT,
		syscall.EPIPE, syscall.EBADF, syscall.EOVERFLOW, syscall.ENOTSUP, syscall.ECONNRESET, syscall.EREMOTEIO, syscall.ENOLCK, syscall.EAGAIN}
	return int(rare[r.n(len(rare))])
}

func readPlans(w *Worker, t *Trial, r *Rng) []Plan {
	ref := w.exec(t.oldRun(t.sched(0)))
	var ps []Plan
	for _, c := range calls(ref) {
		if c.path != pathIn && c.path != pathCon && c.path != pathCfg {
			continue
		}
		f := Fault{Op: c.op, Nth: c.nth, Act: "err"}
		switch c.op {
		case "open":
			f.Errno = errno(r, syscall.EIO, syscall.EACCES, syscall.ENOENT, syscall.EMFILE)
		case "stat":
			f.Errno = errno(r, syscall.EIO, syscall.EACCES, syscall.ENOENT)
		case "read":
			f.Errno = errno(r, syscall.EIO, syscall.EISDIR, syscall.ENXIO)
		default:
			continue
		}
		p := Plan{Faults: []Fault{f}}
		if r.p(0.3) { // it stays that way
			p.Faults[0].Stay = true
		}
		if r.p(0.3) { // among other events
			p.Rates = Rates{Seed: r.next(), Eintr: r.pickI(0, 50, 300), ShortRead: r.pickI(100, 900)}
		} else if c.op == "read" && r.p(0.5) { // deliver part of the data, then fail
			p.Faults = []Fault{{Op: "read", Nth: c.nth, Act: "short", Arg: 1 + r.n(60)}, {Op: "read", Nth: c.nth + 1, Act: "err", Errno: f.Errno}}
		}
		ps = append(ps, p)
	}
	return ps
}

func writePlans(w *Worker, t *Trial, r *Rng) []Plan {
	ref := w.exec(t.oldRun(t.sched(0)))
	var ps []Plan
	nth := map[string]int{}
	for _, c := range calls(ref) {
		nth[c.op] = c.nth + 1
	}
	size := len(ref.Files[pathOut])
	for _, c := range calls(ref) {
		if c.path == pathIn || c.path == pathCon || c.path == pathCfg {
			continue
		}
		f := Fault{Op: c.op, Nth: c.nth, Act: "err"}
		switch c.op {
		case "open":
			f.Errno = errno(r, syscall.EACCES, syscall.ENOSPC, syscall.EROFS, syscall.EIO)
		case "write":
			f.Errno = errno(r, syscall.EIO, syscall.ENOSPC, syscall.EFBIG)
			if c.n > 1 {
				ps = append(ps, Plan{Faults: []Fault{{Op: "write", Nth: c.nth, Act: "short", Arg: 1 + r.n(int(c.n)-1)}, {Op: "write", Nth: c.nth + 1, Act: "err", Errno: f.Errno}}})
			}
		case "closew", "fsync", "rename", "ftruncate":
			f.Errno = errno(r, syscall.EIO, syscall.ENOSPC)
		default:
			continue
		}
		ps = append(ps, Plan{Faults: []Fault{f}})
		if r.p(0.5) { // it stays that way
			f.Stay = true
			ps = append(ps, Plan{Faults: []Fault{f}})
		}
		if r.p(0.3) { // among other events
			f.Stay = r.p(0.5)
			if c.op == "write" {
				f.Nth += r.n(3)
			}
			ps = append(ps, Plan{Faults: []Fault{f}, Rates: Rates{Seed: r.next(), Eintr: r.pickI(0, 50, 300), ShortWrite: r.pickI(300, 950)}})
		}
		if r.p(0.3) { // two things fail
			g := Fault{Op: r.pickS("open", "write", "closew", "rename", "unlink", "fsync", "stat"), Act: "err", Errno: int(syscall.EIO), Stay: true}
			if g.Op == "open" || g.Op == "stat" {
				g.Nth = c.nth + 1
				if c.op != g.Op {
					g.Nth = nth[g.Op]
				}
			}
			if g.Op != f.Op {
				f.Stay = r.p(0.5)
				ps = append(ps, Plan{Faults: []Fault{f, g}})
			}
		}
	}
	if size > 0 {
		ps = append(ps, Plan{Disk: int64(1 + r.n(size))})
		if size > 1 {
			ps = append(ps, Plan{Disk: int64(size - 1)})
		}
	}
	return ps
}

func killPlans(w *Worker, t *Trial, r *Rng) []Plan {
	ref := w.exec(t.oldRun(t.sched(0)))
	var ps []Plan
	for k := 0; k < 3 && ref.Steps > 2; k++ {
		ps = append(ps, Plan{KillStep: 1 + r.next()%ref.Steps})
	}
	cs := calls(ref)
	for k, c := range cs {
		late := c.path == pathOut || k > len(cs)-6 || !strings.HasPrefix(c.path, "/sim/") || c.path != pathIn && c.path != pathCon && c.path != pathCfg
		if late || r.p(0.1) {
			ps = append(ps, Plan{Faults: []Fault{{Op: c.op, Nth: c.nth, Act: "kill"}}}, Plan{Faults: []Fault{{Op: c.op, Nth: c.nth, Act: "kill_after"}}})
			if c.op == "write" && c.n > 0 {
				ps = append(ps, Plan{Faults: []Fault{{Op: c.op, Nth: c.nth, Act: "torn", Arg: r.n(int(c.n))}}})
			}
		}
	}
	// steps between the last calls
	if ref.Steps > 40 {
		ps = append(ps, Plan{KillStep: ref.Steps - uint64(r.n(40))})
	}
	for k := range ps {
		if r.p(0.3) { // after pieces have been written
			ps[k].Rates = Rates{Seed: r.next(), Eintr: r.pickI(0, 300), ShortWrite: r.pickI(300, 950)}
			for i := range ps[k].Faults {
				if f := &ps[k].Faults[i]; f.Op == "write" {
					f.Nth += r.n(4)
				}
			}
		}
	}
	for k, n := 0, len(ps); k < n; k++ {
		if r.p(0.3) { // the next run is killed as well
			p := ps[k]
			q := ps[r.n(n)]
			p.Then = &q
			ps = append(ps, p)
		}
	}
	return ps
}

// Plan is one set of faults of a trial.
type Plan struct {
	Faults   []Fault `json:"faults,omitempty"`
	Rates    Rates   `json:"rates"`
	Disk     int64   `json:"disk,omitempty"`
	KillStep uint64  `json:"kill_step,omitempty"`
	Then     *Plan   `json:"then,omitempty"` // of the run after it
}

func (p *Plan) apply(r *Run) {
	r.Faults, r.Rates, r.Disk, r.Sched.KillStep = p.Faults, p.Rates, p.Disk, p.KillStep
}

func (p *Plan) String() string { return b2s(p) }

func countFaults(res *Result) int {
	n := 0
	for _, rec := range res.Recs {
		if rec.T == "fault" {
			n++
		}
	}
	return n
}

func evalC04(w *Worker, t *Trial, o *Outcome) {
	if t.Case.Cfg.FC || t.Case.Coll {
		o.Skip = "not independent mode"
		return
	}
	lines := func(c *Case, k int) ([]string, bool) {
		res := o.do(w, c.run(t.sched(k)), k)
		if !res.ok() {
			o.Skip = "run failed: " + res.how()
			return nil, false
		}
		if res.Files[pathOut] == "" {
			return nil, true
		}
		return strings.Split(res.Files[pathOut], "\n"), true
	}
	c := t.Case
	all, ok := lines(c, 0)
	if !ok {
		return
	}
	var lin []int
	for i := range c.Feats {
		if c.Feats[i].linear() {
			lin = append(lin, i)
		}
	}
	if len(all) != len(lin) {
		o.Skip = "wrong number of output lines"
		return
	}
	text := map[int]string{}
	for n, i := range lin {
		text[i] = all[n]
	}
	o.Trivial = len(lin) < 2
	// another order
	p := *c
	p.Feats = nil
	var order []int
	for _, i := range t.Perm {
		if i < len(c.Feats) {
			p.Feats = append(p.Feats, c.Feats[i])
			if c.Feats[i].linear() {
				order = append(order, i)
			}
		}
	}
	got, ok := lines(&p, 1)
	if !ok {
		return
	}
	if len(got) != len(order) {
		o.bad("C04", "order", "%d lines in another order give %d lines of output", len(order), len(got))
		return
	}
	for n, i := range order {
		if got[n] != text[i] {
			o.bad("C04", "order", "feature %d comes out differently when the file's lines are in the order %v: %s", i, t.Perm, diffText(text[i], got[n]))
			return
		}
	}
	// alone
	for n, i := range lin {
		if n >= 4 {
			break
		}
		a := *c
		a.Feats = []Feature{c.Feats[i]}
		got, ok := lines(&a, 2)
		if !ok {
			return
		}
		if len(got) != 1 || got[0] != text[i] {
			o.bad("C04", "alone", "feature %d comes out differently when it is alone in the file: %s", i, diffText(text[i], strings.Join(got, "\n")))
			return
		}
	}
}

func evalC15(w *Worker, t *Trial, o *Outcome) {
	judge := func(what string, run *Run, res *Result) {
		if res.Status == stDeadlock || res.Status == stBudget {
			o.bad("C15", "hang", "%s: %s", what, res.how())
		} else if res.ok() {
			o.bad("C15", "accepted", "%s: the tool reported success", what)
		}
		for _, p := range sortedKeys(run.Files) {
			if now, ok := res.Files[p]; !ok || now != run.Files[p] {
				o.bad("C15", "clobbered", "%s: the file %s did not survive: %s", what, p, diffText(run.Files[p], now))
			}
		}
		if _, ok := res.Files[pathOut]; ok && t.Old == nil && res.Files[pathOut] != "" {
			o.bad("C15", "partial", "%s: an output file was written", what)
		}
	}
	if t.Bad != nil {
		if t.Bad.Kind[:3] == "con" && len(t.Case.Cons) == 0 || len(t.Case.Feats) == 0 {
			o.Skip = "nothing to damage"
			return
		}
		run := t.oldRun(t.sched(0))
		t.Bad.apply(t.Case, run)
		o.tag("damage " + t.Bad.Kind)
		judge(t.Bad.Kind, run, o.do(w, run, 0))
		return
	}
	o.Trivial = true
	for _, p := range t.Plans {
		run := t.oldRun(t.sched(0))
		p.apply(run)
		res := o.do(w, run, 0)
		hit := false
		for _, rec := range res.Recs {
			hit = hit || rec.T == "fault" && rec.Act == "err" && rec.Errno != int(syscall.EINTR)
		}
		if !hit {
			continue
		}
		o.Trivial = false
		judge(p.String(), run, res)
	}
}

func evalC16(w *Worker, t *Trial, o *Outcome) {
	ref := o.do(w, t.oldRun(t.sched(0)), 0)
	if !ref.ok() {
		o.Skip = "run failed: " + ref.how()
		return
	}
	want := ref.Files[pathOut]
	o.Trivial = true
	for k, p := range t.Plans {
		run := t.oldRun(t.sched(0))
		p.apply(run)
		res := o.do(w, run, 0)
		if countFaults(res) == 0 {
			continue
		}
		o.Trivial = false
		if res.ok() && res.Files[pathOut] != want {
			o.bad("C16", "success", "%s: success was reported, but the output is not there: %s", p.String(), diffText(want, res.Files[pathOut]))
		}
		if res.Status == stDeadlock || res.Status == stBudget {
			o.bad("C16", "hang", "%s: %s", p.String(), res.how())
		}
		for _, f := range []string{pathIn, pathCon, pathCfg} {
			if res.Files[f] != run.Files[f] {
				o.bad("C16", "inputs", "%s: %s was altered", p.String(), f)
			}
		}
		if k%3 == 0 && res.Status != stDeadlock && res.Status != stBudget { // once more, without faults
			again := t.Case.run(fifo)
			again.Files = res.Files
			if r2 := o.do(w, again, -1); !r2.ok() || r2.Files[pathOut] != want {
				o.bad("C16", "rerun", "%s: running again without the fault ends with %s and output %s", p.String(), r2.how(), diffText(want, r2.Files[pathOut]))
			}
			o.tag("run again")
		}
	}
}

// nextRun is a run for fewer features on the disk another one left, and what
// it has to write.
func nextRun(w *Worker, t *Trial, o *Outcome, res *Result) (string, *Run) {
	if t.Next < 1 || t.Next >= len(t.Case.Feats) {
		return "", nil
	}
	c := *t.Case
	c.Feats = c.Feats[:t.Next]
	ref := o.do(w, c.run(fifo), -1)
	if !ref.ok() {
		return "", nil
	}
	next := c.run(fifo)
	files := map[string]string{}
	for f, text := range res.Files {
		files[f] = text
	}
	for f, text := range next.Files {
		files[f] = text
	}
	next.Files = files
	return ref.Files[pathOut], next
}

func evalC18(w *Worker, t *Trial, o *Outcome) {
	ref := o.do(w, t.oldRun(t.sched(0)), 0)
	if !ref.ok() {
		o.Skip = "run failed: " + ref.how()
		return
	}
	want := ref.Files[pathOut]
	o.Trivial = true
	for _, p := range t.Plans {
		run := t.oldRun(t.sched(0))
		p.apply(run)
		res := o.do(w, run, 0)
		if res.Status != stKilled {
			continue
		}
		o.Trivial = false
		check := func(run *Run, res *Result) {
			if got, there := res.Files[pathOut]; there && got != run.Files[pathOut] && !strings.HasPrefix(want, got) {
				o.bad("C18", "torn", "%s: after the kill the output is neither the old file nor a prefix of the right one: %q", p.String(), clip(got))
			}
			for _, f := range []string{pathIn, pathCon, pathCfg} {
				if res.Files[f] != run.Files[f] {
					o.bad("C18", "inputs", "%s: %s was altered", p.String(), f)
				}
			}
		}
		check(run, res)
		if p.Then != nil {
			second := t.Case.run(t.sched(0))
			second.Files = res.Files
			p.Then.apply(second)
			res = o.do(w, second, -1)
			if res.Status == stKilled {
				check(second, res)
			} else if !res.ok() || res.Files[pathOut] != want {
				o.bad("C18", "rerun", "%s: running again after the kill ends with %s and output %s", p.String(), res.how(), diffText(want, res.Files[pathOut]))
			}
			o.tag("two kills")
		}
		if want, next := nextRun(w, t, o, res); next != nil {
			if r2 := o.do(w, next, -1); !r2.ok() || r2.Files[pathOut] != want {
				o.bad("C18", "next", "%s: running for another input after the kill ends with %s and output %s", p.String(), r2.how(), diffText(want, r2.Files[pathOut]))
			}
			o.tag("another input")
		}
		again := t.Case.run(fifo)
		again.Files = res.Files
		r2 := o.do(w, again, -1)
		if !r2.ok() || r2.Files[pathOut] != want {
			o.bad("C18", "rerun", "%s: running again after the kill ends with %s and output %s", p.String(), r2.how(), diffText(want, r2.Files[pathOut]))
		}
	}
}

// pairs is rounds in a form that marshals.
func (res *Result) pairs() []string {
	m := res.rounds()
	var v []string
	for k, x := range m {
		v = append(v, fmt.Sprint(k, x))
	}
	sort.Strings(v)
	return v
}

func evalC21(w *Worker, t *Trial, o *Outcome) {
	res := o.do(w, t.libRun(t.Lib, t.sched(0)), 0)
	if !res.ok() {
		o.Skip = "run failed: " + res.how()
		return
	}
	got := res.rounds()
	opts, con := t.Lib.Opts, t.Lib.Con
	o.Trivial = true
	total := 0
	for i := range t.Case.Feats {
		for _, l := range t.Case.Feats[i].Parts {
			total += len(l)
		}
	}
	clients := t.Lib.Clients
	if clients < 1 {
		clients = 1
	}
	for k, rd := range t.Lib.Rounds {
		if rd.SetOpt {
			opts = rd.Opts
		}
		if rd.Con > 0 {
			con = rd.Con
		}
		j := &LibJob{Kind: "simp", SED: t.Lib.SED, Square: t.Lib.Square, Cons: t.Lib.Cons, Con: con, Keep: t.Lib.Keep, Opts: opts, Rounds: []LRound{{Mode: rd.Mode, Skip: rd.Skip}}}
		if rd.Mode == "seq" {
			j.Rounds[0].Mode = "inst" // must be the same
		}
		ref := o.do(w, t.libRun(j, fifo), -1)
		if !ref.ok() {
			o.Skip = "reference run failed: " + ref.how()
			return
		}
		want := b2s(ref.rounds()[[2]int{0, 0}])
		for c := 0; c < clients; c++ {
			g, there := got[[2]int{c, k}]
			if !there {
				o.bad("C21", "missing", "client %d round %d reported nothing", c, k)
				return
			}
			kept := 0
			for _, l := range g {
				kept += len(l)
			}
			if kept < total && (k > 0 || clients > 1) {
				o.Trivial = false
			}
			if b2s(g) != want {
				o.bad("C21", "differs", "client %d, call %d (%s): kept %s, a fresh run keeps %s", c, k, rd.Mode, clip(b2s(g)), clip(want))
				return
			}
		}
	}
	// the tool itself
	if t.Lib.Square || len(t.Lib.Rounds) == 0 {
		return
	}
	c := t.Case
	mode := "inst"
	if c.Cfg.FC {
		mode = "fc"
	}
	j := c.libJob(LRound{Mode: mode})
	ref := o.do(w, t.libRun(j, fifo), -1)
	cli := o.do(w, c.run(t.sched(1)), 1)
	if !ref.ok() || !cli.ok() {
		o.Skip = "reference run failed"
		return
	}
	outs, bad := parseOut(cli.Files[pathOut])
	if bad != "" {
		return // C14's
	}
	var a, b [][]Pt
	for _, x := range outs {
		for _, l := range x.Parts {
			a = append(a, c.Cfg.decs(l))
		}
	}
	idx := ref.rounds()[[2]int{0, 0}]
	n := 0
	for i := range c.Feats {
		if !c.Feats[i].linear() {
			continue
		}
		for _, l := range c.Feats[i].Parts {
			var m []Pt
			if n < len(idx) {
				for _, k := range idx[n] {
					if k < 0 || k >= len(l) { // a line in another's place
						o.bad("C21", "order", "line %d of the library's result keeps vertex %d of %d", n, k, len(l))
						return
					}
					q := l[k]
					if c.Feats[i].Dim == 2 {
						q[2] = 0
					}
					m = append(m, q)
				}
			}
			n++
			b = append(b, m)
		}
	}
	if b2s(a) != b2s(b) {
		o.bad("C21", "cli", "the tool keeps other vertices than the library: %s", diffText(b2s(b), b2s(a)))
	}
}

func (g *Config) decs(l []Pt) []Pt {
	o := make([]Pt, len(l))
	for i, p := range l {
		o[i] = g.dec(p)
	}
	return o
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// diffText shows where two texts part.
func diffText(a, b string) string {
	k := 0
	for k < len(a) && k < len(b) && a[k] == b[k] {
		k++
	}
	from := max(0, k-40)
	return fmt.Sprintf("at byte %d of %d/%d: %q, now %q", k, len(a), len(b), clipN(a[from:], 120), clipN(b[from:], 120))
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// raceSummary names the two accesses of a race report.
func raceSummary(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous ") {
			fn := ""
			for _, m := range lines[i+1:] {
				if strings.HasPrefix(m, "  ") && !strings.HasPrefix(m, "      ") && !strings.Contains(m, "runtime.") {
					fn = strings.TrimSpace(m)
					break
				}
			}
			w := strings.Fields(t)
			out = append(out, w[0]+" in "+fn)
		}
	}
	return "data race: " + strings.Join(out, "; ")
}

var _ = json.Marshal
var _ = bytes.Equal
