package main

import (
	"fmt"
	"sort"
	"strconv"
	"sync"
	"time"
)

// many tells which of the properties a few trials of each show violated.
func many(trials string, ids []string) {
	n, err := strconv.Atoi(trials)
	must(err)
	race := false
	for _, id := range ids {
		race = race || id == "C03"
	}
	t := time.Now()
	bi := build(scratch(), true, true, race, race)
	for _, id := range ids {
		p := props[id]
		st := newStats(bi)
		found, _ := search(p, bi, 1, p.Quick/n, time.Now().Add(60*time.Second), func(Viol) bool { return false }, st)
		if found != nil {
			fmt.Printf("CAUGHT %s %s trial %d after %.0fs: %s\n", id, found.v.Class, found.t.Index, time.Since(t).Seconds(), clip(found.v.Text))
			exit(1)
		}
		if st.skips["watchdog"] > 0 {
			fmt.Printf("CAUGHT %s watchdog\n", id)
			exit(1)
		}
	}
	fmt.Printf("SURVIVES %.0fs\n", time.Since(t).Seconds())
	exit(0)
}

// badExplore shows what the tool does with each kind of bad input.
func badExplore() {
	bi := build("/tmp/vbuild", true, false, false, false)
	var mu sync.Mutex
	counts := map[string]int{}
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(bi)
			for i := range ch {
				r := newRng(uint64(i), 78)
				c := genCase(r, GenOpt{MaxFeats: 4, MaxPts: 12, Tag: true, Cons: true, Odd: true})
				b := &Bad{Kind: badKinds[r.n(len(badKinds))], N: r.n(100000)}
				if b.Kind[:3] == "con" && len(c.Cons) == 0 {
					continue
				}
				run := c.run(genSched(r))
				old := "old"
				if r.p(0.5) {
					run.Files[pathOut] = old
				}
				b.apply(c, run)
				res := w.exec(run)
				key := fmt.Sprintf("%s exit=%d same=%v", b.Kind, res.ExitCode, res.Files[pathOut] == run.Files[pathOut])
				if res.ExitCode == 0 {
					key += fmt.Sprint(" ", b.N%100000)
				}
				mu.Lock()
				counts[key]++
				mu.Unlock()
			}
			w.close()
		}()
	}
	for i := 0; i < 20000; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	var ks []string
	for k := range counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	n := map[string]int{}
	for _, k := range ks {
		if n[k[:6]]++; n[k[:6]] < 12 {
			fmt.Println(counts[k], k)
		}
	}
}
