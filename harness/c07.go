package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/peterbourgon/trc"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C07", Gen: genC07, Run: runC07, Quick: 280000, Steps: 8_000_000, Notes: realTrc})
}

func genC07(g *G) *Prog {
	p := newProg()
	if g.chance(0.002) { // the default capacity
		p.Cfg["big"] = g.pick(999, 1000, 1001, 1003)
		p.Cfg["sub"] = 0
		p.add(0, Op{K: "new", B: kindColl, C: 1})
		p.add(0, Op{K: "obs", B: kindColl})
		if g.chance(0.5) {
			p.add(0, Op{K: "cap", A: g.pick(1, 2, 400, 1000, 1001, 1002, 1500)})
			p.add(0, Op{K: "new", B: kindColl, C: 1})
			p.add(0, Op{K: "new", B: kindColl, C: 1})
		}
		return p
	}
	p.Cfg["sub"] = g.pick(0, 0, 0, 1)
	nt := g.rng(1, 4)
	cats := g.rng(1, 3)
	if g.chance(0.1) {
		cats = g.pick(6, 12, len(catNames))
	}
	kind := g.pick(kindColl, kindColl, kindLog, kindEz, kindNoDetail)
	if g.chance(0.85) {
		p.Cfg["cap"] = g.rng(1, 6)
	}
	n := g.rng(6, 34)
	capW := g.pick(0, 1, 2, 4)
	for i := 0; i < n; i++ {
		t := g.n(nt)
		switch g.weighted(12, 5, capW, 1, 1) {
		case 0:
			p.add(t, Op{K: "new", A: g.n(4), B: kind, C: g.n(cats)})
		case 1:
			p.add(t, Op{K: "obs", B: kind})
		case 2:
			p.add(t, Op{K: "cap", A: g.pick(1, 1, 2, 2, 3, 4, 5, 6, 7, 9, 12, 0, -1, -5, 5000)})
		case 3:
			p.add(t, Op{K: "fin", A: g.n(4)})
		case 4:
			p.add(t, Op{K: "adv", A: g.rng(1, 99), B: g.n(9)})
		}
	}
	p.Cfg["kind"] = kind
	return p
}

type capRec struct {
	win
	n int
}

type obsRec struct {
	win
	ids   [][2]string      // and categories
	held  map[string][]int // by category, indexes of traces
	total int
}

// ringState is the model of one category: the traces held, oldest first.
type ringState struct {
	held []int
	cap  int
}

func (s ringState) key() string { return fmt.Sprint(s.cap, s.held) }

func runC07(p *Prog) {
	w := newTW(p)
	kind := p.Cfg["kind"]
	if kind == 0 {
		kind = kindColl
	}
	c := w.cols[kind]
	w.subscribe(p.Cfg["sub"])
	var caps []*capRec
	var obs []*obsRec
	setCap := func(n int) {
		r := &capRec{n: n}
		caps = append(caps, r)
		r.win = begin()
		c.SetCategorySize(n)
		r.end()
		rt.Note("capacity set to %d", n)
	}
	observe := func() {
		o := &obsRec{held: map[string][]int{}}
		o.win = begin()
		res, err := c.Search(context.Background(), &trc.SearchRequest{Limit: 250, StackDepth: -1})
		o.end()
		if err != nil {
			rt.Fail("search-error", "search failed: %v", err)
		}
		o.total = res.TotalCount
		seen := map[string]bool{}
		for _, st := range res.Traces {
			if seen[st.ID()] {
				rt.Fail("duplicate", "trace %s is held twice", st.ID())
			}
			seen[st.ID()] = true
			o.ids = append(o.ids, [2]string{st.ID(), st.Category()})
		}
		obs = append(obs, o)
		rt.Count("probe.observations", 1)
		rt.Note("observed %v total %d", o.ids, o.total)
	}
	if p.Cfg["cap"] > 0 {
		setCap(p.Cfg["cap"])
	}
	for i := 0; i < p.Cfg["big"]; i++ {
		w.newTrace(0, kind, 1, Op{})
	}
	w.runTasks(func(task int, o Op) bool {
		switch o.K {
		case "cap":
			setCap(o.A)
		case "obs":
			observe()
		default:
			return false
		}
		return true
	})
	observe()
	for _, o := range obs {
		for _, x := range o.ids {
			t := w.byID[x[0]]
			if t == nil {
				rt.Fail("phantom", "a trace %s is held, which nobody created", x[0])
			}
			if t.cat != x[1] {
				rt.Fail("category", "trace %d of category %q is in %q", t.idx, t.cat, x[1])
			}
			o.held[t.cat] = append(o.held[t.cat], t.idx)
		}
	}
	final := obs[len(obs)-1]
	sum := 0
	for _, h := range final.held {
		sum += len(h)
	}
	if sum < 250 && sum != final.total {
		rt.Fail("total", "the collector reports %d traces, it returns %d", final.total, sum)
	}
	for _, cat := range catNames {
		if p.Cfg["big"] > 0 {
			w.bigC07(cat, caps, final)
			continue
		}
		var ops []linOp
		for _, t := range w.traces {
			t := t
			if t.cat != cat {
				continue
			}
			ops = append(ops, linOp{inv: t.create.inv, ret: t.create.ret, desc: fmt.Sprintf("create trace %d", t.idx), step: func(s linState) (linState, bool) {
				x := s.(ringState)
				h := append(append([]int(nil), x.held...), t.idx)
				if len(h) > x.cap {
					h = h[len(h)-x.cap:]
				}
				return ringState{h, x.cap}, true
			}})
		}
		if len(ops) == 0 {
			continue
		}
		for _, k := range caps {
			k := k
			ops = append(ops, linOp{inv: k.inv, ret: k.ret, desc: fmt.Sprintf("set capacity %d", k.n), step: func(s linState) (linState, bool) {
				x := s.(ringState)
				if k.n <= 0 {
					return x, true
				}
				h := x.held
				if len(h) > k.n {
					h = h[len(h)-k.n:]
				}
				return ringState{h, k.n}, true
			}})
		}
		for _, o := range obs {
			want := append([]int(nil), o.held[cat]...)
			sort.Ints(want)
			ops = append(ops, linOp{inv: o.inv, ret: o.ret, desc: fmt.Sprintf("held %v", want), step: func(s linState) (linState, bool) {
				x := s.(ringState)
				if len(x.held) != len(want) {
					return x, false
				}
				h := append([]int(nil), x.held...)
				sort.Ints(h)
				for i := range h {
					if h[i] != want[i] {
						return x, false
					}
				}
				return x, true
			}})
		}
		sort.Slice(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
		switch linearizable(ringState{cap: 1000}, ops, 100000) {
		case linBad:
			rt.Fail("retention", "no order of these calls explains what category %q held:%s", strings.TrimSpace(cat), describeOps(ops))
		case linUnknown:
			rt.Count("probe.lin_unknown", 1)
		case linOK:
			rt.Count("probe.lin_ok", 1)
		}
	}
}

// bigC07 checks a sequential run with many traces.
func (w *tw) bigC07(cat string, caps []*capRec, final *obsRec) {
	var held []int
	capacity := 1000
	type ev struct {
		at, idx, n int
	}
	var evs []ev
	for _, t := range w.traces {
		if t.cat == cat {
			evs = append(evs, ev{at: int(t.create.inv), idx: t.idx})
		}
	}
	if len(evs) == 0 {
		return
	}
	for _, c := range caps {
		evs = append(evs, ev{int(c.inv), -1, c.n})
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	for _, e := range evs {
		if e.idx >= 0 {
			held = append(held, e.idx)
		} else {
			capacity = e.n
		}
		if len(held) > capacity {
			held = held[len(held)-capacity:]
		}
	}
	rt.Count("probe.default_capacity", 1)
	if final.total != len(held) {
		rt.Fail("retention", "the collector holds %d traces, expected %d", final.total, len(held))
	}
	got := map[int]bool{}
	for _, i := range final.held[cat] {
		got[i] = true
	}
	for i := len(held) - 1; i >= 0 && i >= len(held)-250; i-- {
		if !got[held[i]] {
			rt.Fail("retention", "trace %d is not held", held[i])
		}
	}
	if n := len(final.held[cat]); n != 250 && n != len(held) {
		rt.Fail("retention", "search returned %d traces", n)
	}
}
