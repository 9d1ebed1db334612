package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// verifDir is where evidence and replay files go.
var verifDir = envOr("VERIF_DIR", "/verif")

// nobody drops a simulated process's privileges when that is possible.
var nobody *syscall.SysProcAttr

func probeNobody(dir string) {
	a := &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: false}}
	cmd := exec.Command("/bin/true")
	cmd.Dir = dir
	cmd.SysProcAttr = a
	if cmd.Run() == nil {
		nobody = a
	}
}

func scratch() string {
	dir, err := os.MkdirTemp("", "vsim-")
	must(err)
	must(os.Chmod(dir, 0755))
	cleanup = append(cleanup, func() { os.RemoveAll(dir) })
	must(os.MkdirAll(filepath.Join(dir, "empty"), 0755))
	probeNobody(dir)
	return dir
}

var cleanup []func()

func exit(code int) {
	for _, f := range cleanup {
		f()
	}
	os.Exit(code)
}

func buildFor(p *Prop, dir string) *buildInfo {
	has := map[string]bool{}
	for _, b := range strings.Fields(p.Bins) {
		has[b] = true
	}
	return build(dir, has["cli"], has["lib"], has["cli-race"], has["lib-race"])
}

// ReplayFile is a reported violation.
type ReplayFile struct {
	Property  string `json:"property"`
	Violation Viol   `json:"violation"`
	Seed      uint64 `json:"verif_seed"`
	Index     int    `json:"trial"`
	Tree      string `json:"tree"`
	Events    string `json:"events"` // digest of the executions
	Command   string `json:"command"`
	Trial     *Trial `json:"minimised_trial"`
	Original  *Trial `json:"original_trial"`
}

func (o *Outcome) digest() string {
	var b bytes.Buffer
	for _, r := range o.Runs {
		fmt.Fprintf(&b, "%x %d %d %d %x %x;", r.Hash, r.Status, r.Steps, r.ExitCode, hashS(string(r.Journal)), hashS(r.Std))
	}
	return fmt.Sprintf("%016x", hashS(b.String()))
}

type stats struct {
	sync.Mutex
	trials, runs, nontrivial int
	steps, yields, picks     uint64
	simNanos                 uint64
	maxSteps                 uint64
	seen                     map[uint64]bool
	sched                    map[uint64]bool
	faults                   map[string]int
	tags                     map[string]int
	skips                    map[string]int
	status                   map[string]int
	sites                    []bool
	sitesHit                 int
	bins                     map[string]int
	jumps                    int
	multi                    int
	samples                  []string
	sum                      uint64 // of the digests of all executions, in any order
}

func (s *stats) add(bi *buildInfo, t *Trial, o *Outcome, key uint64) {
	s.Lock()
	defer s.Unlock()
	s.trials++
	s.sum += hashS(o.digest() + strconv.FormatUint(key, 16))
	s.runs += len(o.Runs)
	h := key
	for _, r := range o.Runs {
		s.steps += r.Steps
		s.yields += r.Yields
		s.picks += r.Picks
		if r.Now > 1700000000*1000000000 {
			s.simNanos += r.Now - 1700000000*1000000000
		}
		s.maxSteps = max(s.maxSteps, r.Steps)
		s.sched[r.Hash] = true
		h = h*1099511628211 ^ r.Hash
		if r.Jumped != 0 {
			s.jumps++
		}
		if r.Multi > 0 {
			s.multi++
		}
		for _, rec := range r.Recs {
			if rec.T == "fault" {
				k := rec.Op + " " + rec.Act
				if rec.Errno != 0 {
					k += " " + syscall.Errno(rec.Errno).Error()
				}
				s.faults[k]++
			}
		}
		if r.Status == stKilled {
			s.faults["process killed"]++
		}
		for i, v := range r.Sites {
			if v != 0 && i < len(bi.Sites) && !s.sites[i] {
				s.sites[i] = true
				s.sitesHit++
			}
		}
	}
	for k, n := range o.Tags {
		s.tags[k] += n
	}
	if o.Skip != "" {
		if os.Getenv("VERIF_SHOW") != "" {
			fmt.Println(o.Skip, b2s(t))
		}
		k := o.Skip
		if i := strings.IndexByte(k, ':'); i > 0 {
			k = k[:i]
		}
		s.skips[k]++
		return
	}
	if o.Trivial {
		return
	}
	if !s.seen[h] {
		s.seen[h] = true
		s.nontrivial++
		if len(s.samples) < 3 && s.trials > 10 {
			c := clone(t)
			b := b2s(c)
			if len(b) > 6000 {
				b = b[:6000] + "..."
			}
			s.samples = append(s.samples, b)
		}
	}
}

type finding struct {
	t *Trial
	v Viol
}

// search runs n trials of p.
func search(p *Prop, bi *buildInfo, seed uint64, n int, until time.Time, known func(Viol) bool, st *stats) (found *finding, knownHits map[string]Viol) {
	knownHits = map[string]Viol{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := 0
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(bi)
			defer w.close()
			for {
				mu.Lock()
				i := next
				if found != nil || i >= n || time.Now().After(until) {
					mu.Unlock()
					return
				}
				next++
				mu.Unlock()
				r := newRng(seed, hashS(p.ID), uint64(i))
				t := p.Gen(w, r, i)
				t.Prop, t.Seed, t.Index = p.ID, seed, i
				o := p.run(w, t)
				c := *t
				c.Scheds, c.Seed, c.Index = nil, 0, 0
				st.add(bi, t, o, hashS(b2s(&c)))
				if v := o.first(p.ID); v != nil {
					mu.Lock()
					if known(*v) {
						knownHits[v.Class] = *v
					} else if found == nil || i < found.t.Index {
						found = &finding{t, *v}
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return
}

func newStats(bi *buildInfo) *stats {
	return &stats{seen: map[uint64]bool{}, sched: map[uint64]bool{}, faults: map[string]int{}, tags: map[string]int{}, skips: map[string]int{}, status: map[string]int{}, sites: make([]bool, len(bi.Sites))}
}

// knownFindings reads the committed list; only "known:" lines suppress anything.
func knownFindings(id string) (lines []string) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+id+" ") {
			lines = append(lines, strings.TrimPrefix(l, "known: property="+id+" "))
		}
	}
	return
}

func check(id, tier string) {
	p := props[id]
	if p == nil {
		fatal("no property %s", id)
	}
	t0 := time.Now()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		must(err)
		seed = v
	}
	dir := scratch()
	bi := buildFor(p, dir)
	built := time.Since(t0)
	n, wall := p.Quick, 200*time.Second
	if tier == "thorough" {
		n, wall = p.Quick*40, 720*time.Second
	}
	if v := os.Getenv("VERIF_TRIALS"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	kf := knownFindings(id)
	known := func(v Viol) bool {
		for _, k := range kf {
			if strings.Contains(v.Class+" "+v.Text, k) {
				return true
			}
		}
		return false
	}
	st := newStats(bi)
	t1 := time.Now()
	found, hits := search(p, bi, seed, n, t1.Add(wall), known, st)
	took := time.Since(t1)
	for _, v := range hits {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, v.Text)
	}
	violations := 0
	replay := ""
	var shrinkRuns int
	if found != nil {
		violations = 1
		w := newWorker(bi)
		// the trial must fail again before anything is said
		o := p.run(w, found.t)
		if v := o.first(id); v == nil {
			fatal("trial %d of seed %d failed once and not again: the simulation is not deterministic", found.t.Index, seed)
		}
		mt, mv, sr := shrink(p, w, found.t, found.v, 45*time.Second)
		shrinkRuns = sr
		mo := p.run(w, mt)
		w.close()
		rf := &ReplayFile{Property: id, Violation: mv, Seed: seed, Index: found.t.Index, Tree: bi.Tree, Events: mo.digest(), Trial: mt, Original: found.t}
		rdir := filepath.Join(verifDir, "build", "replay")
		must(os.MkdirAll(rdir, 0755))
		replay = filepath.Join(rdir, fmt.Sprintf("%s-seed%d-trial%d.json", id, seed, found.t.Index))
		rf.Command = filepath.Join(verifDir, "check.sh") + " replay " + replay
		b, _ := json.MarshalIndent(rf, "", " ")
		must(os.WriteFile(replay, b, 0644))
		// and in a fresh process, exactly so
		self, _ := os.Executable()
		cmd := exec.Command(self, "replayin", replay, dir)
		out, err := cmd.CombinedOutput()
		if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 {
			fatal("the minimised trial does not replay: %v\n%s", err, out)
		}
		fmt.Printf("%s\n", mv.Text)
	}
	if f := os.Getenv("VERIF_SITES"); f != "" { // the statements that were reached
		var b strings.Builder
		for i, s := range bi.Sites {
			if st.sites[i] {
				b.WriteString(s + "\n")
			}
		}
		must(os.WriteFile(f, []byte(b.String()), 0644))
	}
	evidence(p, bi, st, tier, seed, n, took, built, time.Since(t0), violations, shrinkRuns)
	if found == nil {
		fired := 0
		for k, v := range st.faults {
			_ = k
			fired += v
		}
		if st.trials >= n && tier == "quick" && os.Getenv("VERIF_TRIALS") == "" && fired < p.MinFired {
			fatal("only %d faults fired; the search is not reaching what it should", fired)
		}
		if st.skips["watchdog"] > 0 {
			fatal("%d runs outlived the watchdog (%v)", st.skips["watchdog"], runTimeout)
		}
		if st.nontrivial == 0 {
			sk := b2s(st.skips)
			fatal("nothing was decided: %d trials, none non-trivial (%s)", st.trials, sk)
		}
		fmt.Printf("%s held: %d trials, %d runs, %d distinct non-trivial, %.0f runs/s, %.1fs (build %.1fs) %s\n", id, st.trials, st.runs, st.nontrivial, float64(st.runs)/took.Seconds(), time.Since(t0).Seconds(), built.Seconds(), skipText(st))
		exit(0)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	exit(1)
}

func skipText(st *stats) string {
	if len(st.skips) == 0 {
		return ""
	}
	return "undecided: " + b2s(st.skips)
}

func evidence(p *Prop, bi *buildInfo, st *stats, tier string, seed uint64, n int, took, built, wall time.Duration, violations, shrinkRuns int) {
	var files []string
	per := map[string][2]int{}
	for i, s := range bi.Sites {
		f := s[:strings.LastIndexByte(s, ':')]
		v := per[f]
		v[1]++
		if st.sites[i] {
			v[0]++
		}
		per[f] = v
	}
	reached := map[string]string{}
	for f, v := range per {
		files = append(files, f)
		if v[0] > 0 {
			reached[f] = fmt.Sprintf("%d/%d", v[0], v[1])
		}
	}
	sort.Strings(files)
	sec := took.Seconds()
	if len(st.samples) == 0 {
		st.samples = []string{"(no non-trivial trial)"}
	}
	var samples []interface{}
	for _, s := range st.samples {
		var v interface{}
		if json.Unmarshal([]byte(s), &v) == nil {
			samples = append(samples, v)
		} else {
			samples = append(samples, s)
		}
	}
	cov := map[string]interface{}{
		"evaluations": st.trials, "distinct_nontrivial": st.nontrivial, "rule": p.Rule, "samples": samples,
		"simulated_runs": st.runs, "runs_per_hour": int(float64(st.runs) / sec * 3600), "seeds_per_hour": int(float64(st.trials) / sec * 3600),
		"executions_digest": fmt.Sprintf("%016x", st.sum),
		"simulated_seconds": float64(st.simNanos) / 1e9, "scheduling_steps": st.steps, "largest_run_steps": st.maxSteps,
		"forced_preemptions": st.yields, "scheduling_choices": st.picks,
		"distinct_interleavings":         len(st.sched),
		"distinct_interleavings_measure": "distinct hashes of the sequence of scheduling decisions (who runs at every step with more than one candidate, and every preemption point)",
		"runs_with_concurrency":          st.multi, "runs_with_clock_jump": st.jumps,
		"faults_fired": st.faults, "probes": st.tags, "undecided": st.skips,
		"yield_sites_reached": fmt.Sprintf("%d of %d statements of the tree", st.sitesHit, len(bi.Sites)), "statements_reached_by_file": reached,
		"real_and_stub": p.Scope, "tree": bi.Tree, "search_seconds": sec, "build_seconds": built.Seconds(), "trials_requested": n, "shrink_runs": shrinkRuns,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov, "wall_s": wall.Seconds(), "violations": violations,
		"assumptions": []string{
			"one goroutine runs at a time and switches only at statements of the tree and at channel, lock and wait-group operations; data races are looked for separately (C03)",
			"the simulated kernel behaves as Linux does on a local file system",
			"seeded search: what was not drawn was not explored",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755))
	must(os.WriteFile(filepath.Join(verifDir, "evidence", p.ID+".json"), append(b, '\n'), 0644))
}

// replay runs a replay file; in is a directory with binaries already built, or "".
func replay(file, in string) {
	b, err := os.ReadFile(file)
	must(err)
	var rf ReplayFile
	must(json.Unmarshal(b, &rf))
	p := props[rf.Property]
	if p == nil {
		fatal("no property %s", rf.Property)
	}
	var bi *buildInfo
	if in != "" {
		probeNobody(in)
		bi = &buildInfo{Dir: in, CLI: in + "/cli", Lib: in + "/lib", Race: in + "/cli-race", RLib: in + "/lib-race", Tree: rf.Tree}
	} else {
		bi = buildFor(p, scratch())
	}
	w := newWorker(bi)
	o := p.run(w, rf.Trial)
	w.close()
	v := o.first(rf.Property)
	if v == nil {
		fmt.Printf("the violation of %s does not occur on this tree\n", rf.Property)
		exit(0)
	}
	fmt.Println(v.Text)
	if bi.Tree == rf.Tree {
		if d := o.digest(); d != rf.Events || v.Class != rf.Violation.Class {
			fmt.Printf("but not as recorded: events %s, recorded %s\n", d, rf.Events)
			exit(4)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	exit(1)
}
