package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C05", Gen: genC05, Run: runC05, Quick: 500000, Notes: realTrc, Tune: func(g *G, c *rt.Config) {
		if g.chance(0.5) {
			c.Tick = 0
		}
	}})
}

func genC05(g *G) *Prog {
	p := newProg()
	p.Cfg["cap"] = g.pick(0, 0, 1, 1, 2, 3)
	p.Cfg["sub"] = g.pick(0, 0, 0, 2)
	nt := g.rng(2, 5)
	slots := g.rng(1, 6)
	cats := g.rng(1, 4)
	n := g.rng(8, 45)
	kinds := []int{kindCore, kindColl, kindColl, kindLog, kindEz, kindNoDetail}
	for i := 0; i < n; i++ {
		t, s := g.n(nt), g.n(slots)
		switch g.weighted(10, 4, 3, 6, 4, 2, 2, 2, 2, 1, 2) {
		case 0:
			p.add(t, Op{K: "new", A: s, B: kinds[g.n(len(kinds))], C: g.n(cats)})
		case 1:
			p.add(t, Op{K: "fin", A: s})
		case 2:
			p.add(t, Op{K: "ev", A: s, B: g.n(4), C: g.pick(0, 1, 2), D: g.n(3)})
		case 3:
			p.add(t, Op{K: "ident", A: s, B: g.n(7), C: g.n(8)})
		case 4:
			p.add(t, Op{K: "nest", A: s, B: g.pick(kindColl, kindColl, kindLog, kindEz), C: g.pick(0, 0, 1, 2), D: g.n(4)})
		case 5:
			p.add(t, Op{K: "orphan"})
		case 6:
			p.add(t, Op{K: "adv", A: g.rng(1, 99), B: g.n(9)})
		case 7:
			p.add(t, Op{K: "step", A: g.rng(-99, 99), B: g.pick(3, 6, 9, 11)})
		case 8:
			p.add(t, Op{K: "isearch", B: g.pick(kindColl, kindLog, kindEz)})
		case 9:
			p.add(t, Op{K: "cap", A: g.rng(1, 4)})
		case 10:
			p.add(t, Op{K: "shadow", A: s, B: g.n(slots)})
		}
	}
	return p
}

// ident is the identity of a trace as seen once.
type ident struct {
	id, src, cat string
	started      int64
}

func identOf(tr trc.Trace) ident {
	return ident{tr.ID(), tr.Source(), tr.Category(), tr.Started().UnixNano()}
}

func (w *tw) setCap(n int) {
	for _, c := range w.cols {
		if c != nil {
			c.SetCategorySize(n)
		}
	}
}

func runC05(p *Prog) {
	w := newTW(p)
	if p.Cfg["cap"] > 0 {
		w.setCap(p.Cfg["cap"])
	}
	w.subscribe(p.Cfg["sub"])
	first := map[*tinfo]ident{}
	owner := map[string]*tinfo{}
	orphans := map[string]bool{}
	w.onNew = func(t *tinfo) {
		x := identOf(t.tr)
		first[t] = x
		if x.src != t.src || x.cat != t.cat {
			rt.Fail("identity", "trace created with source %q and category %q has %q and %q", t.src, t.cat, x.src, x.cat)
		}
		if x.id == "" {
			rt.Fail("identity", "trace %d has no ID", t.idx)
		}
		if o := owner[x.id]; o != nil || orphans[x.id] {
			rt.Fail("duplicate-id", "ID %s was given to more than one trace", x.id)
		}
		owner[x.id] = t
		if !w.wallIn(x.started, t.create.m0, t.create.m1) {
			rt.Fail("started", "trace %d has a start time outside of its creation", t.idx)
		}
	}
	same := func(t *tinfo, tr trc.Trace, how string) {
		if x := identOf(tr); x != first[t] {
			rt.Fail("identity-changed", "trace %d was %+v, is %+v %s", t.idx, first[t], x, how)
		}
		rt.Count("probe.identity_reads", 1)
	}
	w.runTasks(func(task int, o Op) bool {
		t := w.slots[o.A]
		switch o.K {
		case "cap":
			w.setCap(o.A)
		case "orphan":
			tr := trc.Get(context.Background())
			if _, ok := trc.MaybeGet(context.Background()); ok {
				rt.Fail("lookup", "a context without a trace is said to have one")
			}
			if owner[tr.ID()] != nil || orphans[tr.ID()] {
				rt.Fail("duplicate-id", "ID %s was given to more than one trace", tr.ID())
			}
			orphans[tr.ID()] = true
		case "isearch":
			res, err := w.cols[o.B].Search(context.Background(), &trc.SearchRequest{Limit: 250})
			if err != nil {
				rt.Fail("search-error", "search failed: %v", err)
			}
			for _, st := range res.Traces {
				if t := owner[st.ID()]; t != nil {
					same(t, st, "in a search result")
				}
			}
		case "ident":
			// any trace ever created may be looked at, also those long gone
			if len(w.traces) == 0 {
				return true
			}
			if o.B > 3 {
				t = w.traces[o.C*31%len(w.traces)]
			}
			if t == nil || first[t].id == "" {
				return true
			}
			switch o.B {
			case 0, 4:
				same(t, t.tr, "through its handle")
			case 1, 5:
				same(t, trc.Get(t.ctx), "looked up in its context")
			case 2, 6:
				tr, ok := trc.MaybeGet(t.ctx)
				if !ok {
					rt.Fail("lookup", "no trace in the context of trace %d", t.idx)
				}
				same(t, tr, "looked up in its context")
			case 3:
				v := w.view(t, 1+o.C%3)
				same(t, v.tr, "with a prefix")
				same(t, trc.Get(v.ctx), "looked up with a prefix")
			}
		case "shadow":
			u := w.slots[o.B]
			if t == nil || u == nil {
				return true
			}
			ctx, tr := trc.Put(t.ctx, u.tr)
			same(u, tr, "put into another trace's context")
			same(u, trc.Get(ctx), "put into another trace's context")
			same(t, trc.Get(t.ctx), "after its context was derived from")
		case "nest":
			if t == nil {
				return true
			}
			v := w.view(t, o.C)
			// the category tells which event was added
			cat := fmt.Sprintf("e%d;nested", o.ID)
			e := &evRec{op: o, tr: t, key: fmt.Sprintf("e%d", o.ID)}
			if o.D >= 2 { // the same category again
				cat = t.cat
				e.key = "own"
			}
			t.evs = append(t.evs, e)
			e.win = begin()
			var ctx context.Context
			var tr trc.Trace
			if o.B == kindEz && o.D%2 == 1 {
				ctx, tr = eztrc.New(v.ctx, cat)
			} else {
				ctx, tr = w.cols[o.B].NewTrace(v.ctx, cat)
			}
			e.end()
			same(t, tr, "when nested")
			same(t, trc.Get(ctx), "in the context of a nested creation")
			rt.Count("probe.nested", 1)
		default:
			return false
		}
		return true
	})
	for _, t := range w.traces {
		same(t, t.tr, "in the end")
		same(t, trc.Get(t.ctx), "in the end")
		fin, freed := int64(1<<62), false
		for _, f := range t.fins {
			if f.inv < fin {
				fin = f.inv
			}
		}
		evs := t.tr.Events()
		freed = len(evs) == 0 && fin < 1<<62
		own, surely, n := 0, 0, 0
		for _, e := range t.evs {
			if e.op.K != "nest" || len(t.evs) >= 900 {
				continue
			}
			if e.key == "own" {
				own++
				if e.ret < fin {
					surely++
				}
				continue
			}
			n := 0 // of this one
			for _, ev := range evs {
				if strings.Contains(ev.What, e.key+";nested") {
					n++
				}
			}
			if n > 1 || n == 0 && e.ret < fin && !freed {
				rt.Fail("nested-event", "creating a trace from the context of trace %d left %d events naming the category in that trace, not 1", t.idx, n)
			}
		}
		for _, ev := range evs {
			if k := keyOf(ev.What); k != "TRUNC" && strings.HasPrefix(k, "?") && strings.Contains(ev.What, t.cat) {
				n++
			}
		}
		if len(t.evs) < 900 && (n > own || n < surely && !freed) {
			rt.Fail("nested-event", "creating traces of the same category from the context of trace %d %d times left %d events naming the category in that trace", t.idx, own, n)
		}
	}
	// no collector has a trace of a nested category
	for _, k := range []int{kindColl, kindLog, kindEz} {
		res, err := w.cols[k].Search(context.Background(), &trc.SearchRequest{Limit: 250})
		if err != nil {
			rt.Fail("search-error", "search failed: %v", err)
		}
		for _, st := range res.Traces {
			if owner[st.ID()] == nil || strings.HasSuffix(st.Category(), ";nested") {
				rt.Fail("phantom", "collector holds trace %s of category %q, which nobody created", st.ID(), st.Category())
			}
		}
	}
}
