package main

import (
	"fmt"
	"math"
	"time"

	"github.com/anishathalye/porcupine"
)

type qIn struct {
	Op string
	V  int
}

type qOut struct {
	V     int
	Panic bool
}

func qStep(state string, in qIn, out qOut) (bool, string) {
	// the state is the list, three bytes per element
	n := len(state) / 3
	enc := func(v int) string { return string([]byte{byte(v >> 14 & 127), byte(v >> 7 & 127), byte(v & 127)}) }
	dec := func(i int) int {
		return int(state[3*i])<<14 | int(state[3*i+1])<<7 | int(state[3*i+2])
	}
	switch in.Op {
	case "append":
		return !out.Panic, state + enc(in.V)
	case "appendleft":
		return !out.Panic, enc(in.V) + state
	case "size":
		return !out.Panic && out.V == n, state
	case "clear":
		return !out.Panic, ""
	}
	if n == 0 {
		return out.Panic, state
	}
	if out.Panic {
		return false, state
	}
	switch in.Op {
	case "pop":
		return out.V == dec(n-1), state[:3*(n-1)]
	case "popleft":
		return out.V == dec(0), state[3:]
	case "first":
		return out.V == dec(0), state
	case "last":
		return out.V == dec(n-1), state
	}
	return false, state
}

func evalC19(w *Worker, t *Trial, o *Outcome) {
	res := o.do(w, t.libRun(t.Lib, t.sched(0)), 0)
	if !res.ok() {
		o.bad("C19", "wedged", "the clients did not finish: %s", res.how())
		return
	}
	init := ""
	for _, v := range t.Lib.Init {
		_, init = qStep(init, qIn{"append", v}, qOut{})
	}
	var ops []porcupine.Operation
	for _, r := range res.Recs {
		if r.T != "op" {
			continue
		}
		var v []int
		if len(r.V) > 0 && string(r.V) != "null" {
			mustJSON(r.V, &v)
		}
		out := qOut{Panic: r.Act == "panic"}
		if len(v) > 0 {
			out.V = v[0]
		}
		ops = append(ops, porcupine.Operation{ClientId: r.C, Input: qIn{r.Op, r.Arg}, Call: int64(r.Seq), Output: out, Return: int64(r.Ret)})
	}
	want := 0
	for _, c := range t.Lib.Ops {
		want += len(c)
	}
	if len(ops) != want {
		fatal("history has %d of %d operations", len(ops), want)
	}
	o.Trivial = true
	for i := range ops {
		for k := range ops {
			if ops[i].ClientId != ops[k].ClientId && ops[i].Call < ops[k].Return && ops[k].Call < ops[i].Return {
				o.Trivial = false
			}
		}
	}
	m := porcupine.Model{
		Init: func() interface{} { return init },
		Step: func(s, in, out interface{}) (bool, interface{}) {
			ok, n := qStep(s.(string), in.(qIn), out.(qOut))
			return ok, n
		},
		Equal: func(a, b interface{}) bool { return a.(string) == b.(string) },
	}
	switch porcupine.CheckOperationsTimeout(m, ops, 20*time.Second) {
	case porcupine.Illegal:
		s := ""
		for _, p := range ops {
			s += fmt.Sprintf(" [%d,%d] client %d %s(%d)=%v;", p.Call, p.Return, p.ClientId, p.Input.(qIn).Op, p.Input.(qIn).V, p.Output)
		}
		o.bad("C19", "not-linearizable", "no order of the operations explains the history%s", s)
	case porcupine.Unknown:
		o.Skip = "history not decided in time"
	}
}

func boxX(a, b [4]float64) bool {
	return a[0] <= b[2] && b[0] <= a[2] && a[1] <= b[3] && b[1] <= a[3]
}

func boxDist(a, b [4]float64) float64 {
	dx := math.Max(0, math.Max(a[0]-b[2], b[0]-a[2]))
	dy := math.Max(0, math.Max(a[1]-b[3], b[1]-a[3]))
	return math.Hypot(dx, dy)
}

func evalC20(w *Worker, t *Trial, o *Outcome) {
	if !t.Lib.valid() {
		o.Skip = "loads an item twice"
		return
	}
	res := o.do(w, t.libRun(t.Lib, t.sched(0)), 0)
	if !res.ok() {
		o.bad("C20", "failed", "the operations did not finish: %s", res.how())
		return
	}
	type key struct{ ph, c, i int }
	recs := map[key]*Rec{}
	for i := range res.Recs {
		if r := &res.Recs[i]; r.T == "read" {
			recs[key{int(r.Off), r.C, int(r.N)}] = r
		}
	}
	in := map[int]bool{}
	o.Trivial = true
	for ph, p := range t.Lib.Phases {
		if p.Clear {
			in = map[int]bool{}
		}
		for _, id := range p.Remove {
			delete(in, id)
		}
		for _, id := range p.Load {
			in[id] = true
		}
		for c, qs := range p.Reads {
			for i, q := range qs {
				r := recs[key{ph, c, i}]
				if r == nil {
					fatal("an answer is missing")
				}
				var got []int
				mustJSON(r.V, &got)
				if len(got) > 0 {
					o.Trivial = false
				}
				where := fmt.Sprintf("step %d client %d query %d %s %v", ph, c, i, q.Kind, q.Box)
				hit := map[int]bool{}
				for id := range in {
					if q.Kind == "all" || boxX(t.Lib.Boxes[id], q.Box) {
						hit[id] = true
					}
				}
				switch q.Kind {
				case "search", "all":
					if want := sortedInts(hit); fmt.Sprint(want) != fmt.Sprint(got) {
						o.bad("C20", q.Kind, "%s: %v, want %v", where, got, want)
					}
				case "collides":
					if (r.G == 1) != (len(hit) > 0) {
						o.bad("C20", q.Kind, "%s: %v, want %v", where, r.G == 1, len(hit) > 0)
					}
				case "empty":
					if (r.G == 1) != (len(in) == 0) {
						o.bad("C20", q.Kind, "%s: %v with %d items", where, r.G == 1, len(in))
					}
				case "knn":
					knnCheck(t, o, q, in, got, where)
				}
			}
		}
	}
}

func knnCheck(t *Trial, o *Outcome, q Query, in map[int]bool, got []int, where string) {
	const eps = 1e-9
	seen := map[int]bool{}
	last := 0.0
	for _, id := range got {
		d := boxDist(t.Lib.Boxes[id], q.Box)
		if seen[id] || !in[id] {
			o.bad("C20", "knn", "%s limit %d cut-off %g: item %d is not there, or twice, in %v", where, q.Limit, q.Dist, id, got)
			return
		}
		seen[id] = true
		if d < last-eps || (q.Dist >= 0 && d > q.Dist+eps) {
			o.bad("C20", "knn", "%s limit %d cut-off %g: distances of %v are out of order or beyond", where, q.Limit, q.Dist, got)
			return
		}
		last = math.Max(last, d)
	}
	if q.Limit > 0 && len(got) > q.Limit {
		o.bad("C20", "knn", "%s limit %d: %d answers", where, q.Limit, len(got))
		return
	}
	if q.Limit > 0 && len(got) == q.Limit {
		for id := range in { // nothing nearer was left out
			if !seen[id] && boxDist(t.Lib.Boxes[id], q.Box) < last-eps {
				o.bad("C20", "knn", "%s limit %d cut-off %g: %v leaves out the nearer %d", where, q.Limit, q.Dist, got, id)
				return
			}
		}
		return
	}
	for id := range in {
		d := boxDist(t.Lib.Boxes[id], q.Box)
		if !seen[id] && (q.Dist < 0 || d < q.Dist-eps) {
			o.bad("C20", "knn", "%s limit %d cut-off %g: %v leaves out %d at distance %g", where, q.Limit, q.Dist, got, id, d)
			return
		}
	}
}
