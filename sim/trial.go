package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// LibOpts mirrors the library's option record.
type LibOpts struct {
	Thr    float64 `json:"threshold"`
	Min    float64 `json:"mindist"`
	NPD    float64 `json:"nonplanardisplacement"`
	Planar bool    `json:"planarself"`
	NonPl  bool    `json:"nonplanarself"`
	Avoid  bool    `json:"avoidself"`
	Geom   bool    `json:"geomrelate"`
	Dist   bool    `json:"distrelate"`
	Side   bool    `json:"dirrelate"`
}

func (g *Config) lib() LibOpts {
	s := g.unit()
	return LibOpts{g.Thr * s, g.Min * s, g.NPD * s, g.Planar, g.NonPl, g.Avoid, g.Geom, g.Dist, g.Side}
}

type LRound struct {
	Mode   string  `json:"mode"`
	Opts   LibOpts `json:"opts"`
	SetOpt bool    `json:"setopt"`
	Con    int     `json:"con,omitempty"`
	Fresh  bool    `json:"fresh,omitempty"`
	Skip   int     `json:"skip,omitempty"`
}

type QOp struct {
	Op string `json:"op"`
	V  int    `json:"v"`
}

type Query struct {
	Kind  string     `json:"kind"`
	Box   [4]float64 `json:"box"`
	Limit int        `json:"limit"`
	Dist  float64    `json:"dist"`
}

type Phase struct {
	Load   []int     `json:"load,omitempty"`
	Remove []int     `json:"remove,omitempty"`
	Clear  bool      `json:"clear,omitempty"`
	Reads  [][]Query `json:"reads,omitempty"`
}

// LibJob is a workload on the library packages.
type LibJob struct {
	Kind    string       `json:"kind"` // simp, queue, hdb
	SED     bool         `json:"sed,omitempty"`
	Square  bool         `json:"square,omitempty"`
	Plain   bool         `json:"plain,omitempty"` // the plain simplifier
	Same    bool         `json:"same,omitempty"`  // all lines go by the same name
	Opts    LibOpts      `json:"opts"`
	Rounds  []LRound     `json:"rounds,omitempty"`
	Clients int          `json:"clients,omitempty"`
	Shared  bool         `json:"shared,omitempty"`
	Cons    bool         `json:"cons,omitempty"`
	Con     int          `json:"con,omitempty"`
	Keep    [][]int      `json:"keep,omitempty"`
	Cap     int          `json:"cap,omitempty"`
	Boxes   [][4]float64 `json:"boxes,omitempty"`
	Phases  []Phase      `json:"phases,omitempty"`
	Ops     [][]QOp      `json:"ops,omitempty"`
	Init    []int        `json:"init,omitempty"`
}

// Trial is one experiment on one property: everything that decides it.
type Trial struct {
	Prop   string  `json:"prop"`
	Seed   uint64  `json:"seed"`  // VERIF_SEED it came from
	Index  int     `json:"index"` // its number in that seed's sequence
	Kind   string  `json:"kind"`
	Bin    string  `json:"bin,omitempty"`
	Case   *Case   `json:"case,omitempty"`
	Lib    *LibJob `json:"lib,omitempty"`
	Bad    *Bad    `json:"bad,omitempty"`
	Scheds []Sched `json:"scheds"`
	Plans  []Plan  `json:"plans,omitempty"`
	Old    *string `json:"old,omitempty"` // what the output path holds before
	Perm   []int   `json:"perm,omitempty"`
	Far    *Geo    `json:"far,omitempty"`
	Vars   []Var   `json:"vars,omitempty"`
	Next   int     `json:"next,omitempty"` // features of the input of a later run
}

func clone(t *Trial) *Trial {
	b, err := json.Marshal(t)
	must(err)
	o := &Trial{}
	must(json.Unmarshal(b, o))
	return o
}

// Outcome is what one trial showed.
type Outcome struct {
	Viols   []Viol
	Runs    []*Result
	Which   []int          // the trial's schedule each run used, -1 for a fixed one
	Trivial bool           // nothing the property is about happened
	Tags    map[string]int // probes
	Skip    string         // why the trial decided nothing
}

func (o *Outcome) tag(s string) {
	if o.Tags == nil {
		o.Tags = map[string]int{}
	}
	o.Tags[s]++
}

func (o *Outcome) bad(prop, class, f string, a ...interface{}) {
	o.Viols = append(o.Viols, Viol{prop, class, fmt.Sprintf(f, a...)})
}

// sched returns the k-th schedule of a trial.
func (t *Trial) sched(k int) Sched {
	if k < len(t.Scheds) {
		return t.Scheds[k]
	}
	return Sched{Seed: 1, Rand: 1, NCPU: 1, MaxSteps: stepCap}
}

const stepCap = 1 << 26

var fifo = Sched{Seed: 1, Rand: 1, NCPU: 1, MaxSteps: stepCap}

// do runs r and books it.
// which is the schedule of the trial it used, or -1.
func (o *Outcome) do(w *Worker, r *Run, which int) *Result {
	res := w.exec(r)
	if res.Overflow {
		fatal("journal overflow")
	}
	if res.Timeout {
		panic(watchdog{})
	}
	o.Runs = append(o.Runs, res)
	o.Which = append(o.Which, which)
	return res
}

func (res *Result) ok() bool { return res.Returned && res.ExitCode == 0 && !res.Timeout }

// how describes the end of a run.
func (res *Result) how() string {
	switch {
	case res.Timeout:
		return "did not end within the watchdog's time"
	case res.Status == stDeadlock:
		return "deadlock: nothing can run"
	case res.Status == stBudget:
		return fmt.Sprintf("still running after %d steps", res.Steps)
	case res.Status == stKilled:
		return "killed"
	}
	s := fmt.Sprintf("exit code %d", res.ExitCode)
	if t := res.fatalText(); t != "" {
		s += " (" + t + ")"
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// libRun makes the library run of a trial.
func (t *Trial) libRun(j *LibJob, s Sched) *Run {
	b, err := json.Marshal(j)
	must(err)
	r := &Run{Bin: "lib", Lib: b, Dirs: []string{"/sim"}, Sched: s, Files: map[string]string{}}
	if t.Bin == "lib-race" {
		r.Bin = "lib-race"
	}
	if t.Case != nil {
		r.Sched.MaxSteps = t.Case.steps(s.MaxSteps)
		r.Files[pathIn] = t.Case.inputText()
		if len(t.Case.Cons) > 0 {
			r.Files[pathCon] = t.Case.consText()
		}
	}
	return r
}

func (c *Case) libJob(rounds ...LRound) *LibJob {
	j := &LibJob{Kind: "simp", SED: c.Cfg.Type == "sed", Opts: c.Cfg.lib(), Cons: len(c.Cons) > 0, Rounds: rounds}
	return j
}

// rounds extracts what a library simplification reported: [client][round][line].
func (res *Result) rounds() map[[2]int][][]int {
	m := map[[2]int][][]int{}
	for _, r := range res.Recs {
		if r.T == "round" {
			var v [][]int
			must(json.Unmarshal(r.V, &v))
			m[[2]int{r.C, int(r.N)}] = v
		}
	}
	return m
}

// bindIdx makes a Check from the vertex numbers the library kept.
func bindIdx(c *Case, idx [][]int) (*Check, []Viol) {
	ck := &Check{C: c}
	var vs []Viol
	n := 0
	fi := -1
	for i := range c.Feats {
		f := &c.Feats[i]
		if !f.linear() {
			continue
		}
		fi++
		ck.In = append(ck.In, f)
		for p, l := range f.Parts {
			if n >= len(idx) {
				return nil, []Viol{{"C14", "feature-count", "lines missing"}}
			}
			v := idx[n]
			n++
			bad := len(v) < 2 || v[0] != 0 || v[len(v)-1] != len(l)-1
			for k := 1; k < len(v); k++ {
				bad = bad || v[k] <= v[k-1]
			}
			if bad {
				vs = append(vs, Viol{"C05", "indices", fmt.Sprintf("feature %d part %d: kept vertices %v of %d", fi, p, v, len(l))})
				continue
			}
			pm := &PartMap{F: fi, P: p, N: n - 1, Line: l, Idx: v, Exact: true}
			for k := 0; k+1 < len(v); k++ {
				pm.Pieces = append(pm.Pieces, &Piece{fi, p, v[k], v[k+1], l[v[k] : v[k+1]+1]})
			}
			ck.Parts = append(ck.Parts, pm)
		}
	}
	return ck, vs
}

// simplify runs the case once, by the tool or by the library, and binds the result.
func (t *Trial) simplify(w *Worker, o *Outcome) *Check {
	if t.Kind == "lib" {
		mode := "inst"
		if t.Case.Cfg.FC {
			mode = "fc"
		}
		plain := t.Lib != nil && t.Lib.Plain
		if plain {
			mode = "plain"
		}
		j := t.Case.libJob(LRound{Mode: mode})
		j.Square = t.Lib != nil && t.Lib.Square
		if t.Lib != nil {
			j.Keep, j.Same = t.Lib.Keep, t.Lib.Same
		}
		res := o.do(w, t.libRun(j, t.sched(0)), 0)
		if !res.ok() {
			o.Skip = "run failed: " + res.how()
			return nil
		}
		ck, vs := bindIdx(t.Case, res.rounds()[[2]int{0, 0}])
		o.Viols = append(o.Viols, vs...)
		if ck != nil {
			ck.Plain = plain
			ck.Keep = j.Keep
		}
		return ck
	}
	res := o.do(w, t.Case.run(t.sched(0)), 0)
	if !res.ok() {
		o.Skip = "run failed: " + res.how()
		return nil
	}
	text, wrote := res.Files[pathOut]
	if !wrote {
		o.bad("C14", "no-output", "the tool reported success without writing its output")
		return nil
	}
	ck, vs := bind(t.Case, text)
	o.Viols = append(o.Viols, vs...)
	return ck
}

// dropped counts removed vertices.
func (ck *Check) dropped() int {
	n := 0
	for _, pm := range ck.Parts {
		n += len(pm.Line) - len(pm.Idx)
	}
	return n
}

func decode64(s string) string {
	b, err := base64.StdEncoding.DecodeString(s)
	must(err)
	return string(b)
}

func sortedInts(m map[int]bool) []int {
	var v []int
	for k := range m {
		v = append(v, k)
	}
	sort.Ints(v)
	return v
}

func mustJSON(b []byte, v interface{}) { must(json.Unmarshal(b, v)) }
