package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"
	"time"
)

func main() {
	switch os.Args[1] {
	case "explore":
		explore()
	case "check":
		check(os.Args[2], envOr("VERIF_TIER", "quick"))
	case "many": // many N IDS...: the first of these properties that an Nth of the quick trials show violated
		many(os.Args[2], os.Args[3:])
	case "replay":
		replay(os.Args[2], "")
	case "replayin":
		replay(os.Args[2], os.Args[3])
	case "steps": // steps FILE: how long the original trial takes without a budget
		b, err := os.ReadFile(os.Args[2])
		must(err)
		var rf ReplayFile
		must(json.Unmarshal(b, &rf))
		bi := buildFor(props[rf.Property], scratch())
		w := newWorker(bi)
		t := rf.Original
		t.Scheds[0].MaxSteps = 1 << 40
		t0 := time.Now()
		o := props[rf.Property].run(w, t)
		fmt.Println(o.Viols, o.Runs[0].how(), o.Runs[0].Steps, o.Runs[0].Yields, time.Since(t0))
		exit(0)
	case "dump": // dump FILE DIR [base|variant]: the files of the minimised trial
		b, err := os.ReadFile(os.Args[2])
		must(err)
		var rf ReplayFile
		must(json.Unmarshal(b, &rf))
		c := *rf.Trial.Case
		if len(os.Args) > 4 {
			x := rf.Trial.Vars[0]
			v := variant(x.Kind, rf.Trial.Case, newRng(x.Seed))
			if os.Args[4] == "variant" {
				c = *v.C
			} else if v.Base != nil {
				c = *v.Base
			}
		}
		c.Cfg.B64 = false
		for p, s := range c.run(fifo).Files {
			must(os.WriteFile(filepath.Join(os.Args[3], filepath.Base(p)), []byte(s), 0o644))
		}
	case "warm": // compile everything once, so that later builds find a cache
		build(scratch(), true, true, true, true)
		exit(0)
	case "list":
		for id := range props {
			fmt.Println(id)
		}
	case "bad":
		badExplore()
	case "det":
		detExplore()
	}
}

func explore() {
	n, _ := strconv.Atoi(os.Args[2])
	mode := os.Args[3]
	bi := build("/tmp/vbuild", true, false, false, false)
	var mu sync.Mutex
	counts := map[string]int{}
	sample := map[string]string{}
	best := map[string]int{}
	t := time.Now()
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(bi)
			for i := range ch {
				r := newRng(uint64(i), hashS(mode))
				o := GenOpt{MaxFeats: 5, MaxPts: 24, Tag: true, Cons: true, Odd: true}
				switch mode {
				case "xf":
					o.Xf = true
				case "degen":
					o.Degen = true
				case "small":
					o.MaxFeats, o.MaxPts = 2, 9
				case "2d":
					o.Tag = false
				case "one":
					o.MaxFeats, o.FC = 1, -1
				case "fc":
					o.FC = 1
				case "uncons":
					o.Cons = false
					o.Force = func(g *Config, r *Rng) { g.Planar, g.NonPl, g.Avoid = false, false, false }
				}
				c := genCase(r, o)
				run := c.run(genSched(r))
				res := w.exec(run)
				add := func(cl, text string) {
					key := cl
					mu.Lock()
					counts[key]++
					b, _ := json.Marshal(c)
					if best[key] == 0 || len(b) < best[key] {
						best[key] = len(b)
						sample[key] = fmt.Sprintf("i=%d %s\n   %s", i, text, b)
					}
					mu.Unlock()
				}
				add("runs", "")
				if res.ExitCode != 0 || res.Timeout {
					add(fmt.Sprintf("exit %d %v %s", res.ExitCode, res.Timeout, res.fatalText()), res.Stderr[:min(len(res.Stderr), 1500)])
					continue
				}
				ck, vs := bind(c, res.Files[pathOut])
				for _, v := range vs {
					add(v.Prop+" "+v.Class, v.Text)
				}
				if ck == nil {
					continue
				}
				g := c.Cfg
				vset := func(cond bool, vs []Viol, suffix string) {
					if cond {
						seen := map[string]bool{}
						for _, v := range vs {
							if !seen[v.Prop+v.Class] {
								seen[v.Prop+v.Class] = true
								add(v.Prop+" "+v.Class+suffix, v.Text)
							}
						}
					}
				}
				fc := fmt.Sprintf(" fc=%v", g.FC)
				vset(true, ck.threshold(), fmt.Sprintf(" %s cons=%v", g.Type, g.Geom || g.Dist || g.Side || g.Planar || g.Avoid))
				vset(g.Geom, ck.geomRel(), fc)
				vset(g.Dist, ck.minDist(), fc)
				vset(g.Side, ck.side(), fc)
				vset(g.Avoid, ck.crossings(true, "C10"), fc)
				vset(g.Avoid && g.FC, ck.crossings(false, "C11"), fc)
				vset(g.Planar, ck.junctions(false), fc)
				vset(g.Planar && g.FC, ck.junctions(true), fc)
				vset(g.Planar && g.NonPl, ck.nonPlanar(), fc)
				vset(!g.Avoid && !g.Planar && !g.Geom && !g.Dist && !g.Side, ck.plain(), fc)
				vset(g.Avoid, ck.displaced(true), fc+" same")
				vset(g.Avoid && g.FC, ck.displaced(false), fc+" other")
			}
			w.close()
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	var ks []string
	for k := range counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(counts[k], k)
		if k != "runs" && len(os.Args) > 4 {
			fmt.Println("   ", sample[k])
		}
	}
	fmt.Println(time.Since(t))
}

func detExplore() {
	n, _ := strconv.Atoi(os.Args[2])
	bi := build("/tmp/vbuild", true, false, false, false)
	var mu sync.Mutex
	counts := map[string]int{}
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(bi)
			for i := range ch {
				r := newRng(uint64(i), 77)
				o := GenOpt{MaxFeats: 6, MaxPts: 20, Tag: true, Cons: true, Odd: true}
				c := genCase(r, o)
				first := ""
				for k := 0; k < 12; k++ {
					res := w.exec(c.run(genSched(r)))
					s := fmt.Sprint(res.ExitCode) + res.Files[pathOut]
					if k == 0 {
						first = s
					} else if s != first {
						mu.Lock()
						counts[fmt.Sprintf("fc=%v", c.Cfg.FC)]++
						if counts["shown"] < 3 {
							counts["shown"]++
							b, _ := json.Marshal(c)
							fmt.Printf("%s\n%s\n%s\n", b, first, s)
						}
						mu.Unlock()
						break
					}
				}
			}
			w.close()
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	fmt.Println(counts)
}
