package main

import (
	"context"
	"fmt"
	"reflect"

	"github.com/peterbourgon/trc"
	simctx "trcsim/context"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C06", Gen: genC06, Run: runC06, Quick: 180000, Notes: realTrc, Tune: func(g *G, c *rt.Config) {
		c.PoolMode = g.pick(0, 1, 2, 2, 2, 3, 3)
	}})
}

func genC06(g *G) *Prog {
	p := newProg()
	p.Cfg["cap"] = g.pick(1, 1, 1, 2, 3)
	p.Cfg["subs"] = g.pick(0, 0, 1, 2)
	p.Cfg["max"] = g.pick(0, 0, 0, 10)
	if g.chance(0.15) {
		p.Cfg["nostacks"] = 1
	}
	nt := g.rng(2, 5)
	cats := g.rng(1, 3)
	n := g.rng(10, 60)
	kinds := []int{kindColl, kindColl, kindColl, kindLog, kindEz, kindNoDetail, kindCore}
	for t := 0; t < nt; t++ {
		p.add(t, Op{K: "new", A: t, B: kinds[g.n(len(kinds))], C: g.n(cats)})
	}
	for i := 0; i < n; i++ {
		t := g.n(nt)
		switch g.weighted(6, 14, 6, 6, 4, 1, 1, 2) {
		case 0:
			p.add(t, Op{K: "new", A: i, B: kinds[g.n(len(kinds))], C: g.n(cats)})
		case 1:
			o := genEvent(g, 0)
			o.A = g.n(1 << 20)
			o.S = g.picks("own", "own", "any", "any")
			if o.D == 7 {
				o.D = 2
			}
			p.add(t, o)
		case 2:
			p.add(t, Op{K: "fin", A: g.n(1 << 20), S: g.picks("own", "own", "any")})
		case 3:
			p.add(t, Op{K: "snap", A: g.n(1 << 20), S: g.picks("own", "any")})
		case 4:
			p.add(t, Op{K: "ssnap", B: kinds[g.n(6)], C: g.pick(0, 0, -1, 1), D: g.n(3)})
		case 5:
			p.add(t, Op{K: "cap", A: g.rng(1, 4)})
		case 6:
			p.add(t, Op{K: "adv", A: g.rng(1, 99), B: g.n(9)})
		case 7:
			p.add(t, Op{K: "rbeg", A: g.n(1 << 20), S: g.picks("own", "any"), C: g.pick(0, 2, 9), D: g.n(len(regionNames))})
			p.add(t, Op{K: "rend"})
		}
	}
	return p
}

// snapshot is something handed out, and what it looked like then.
type snapshot struct {
	how    string
	live   any // []trc.Event or *trc.StaticTrace
	copy   any
	id     string
	events []trc.Event
}

func cloneStatic(st *trc.StaticTrace) *trc.StaticTrace {
	c := *st
	c.TraceEvents = cloneEvents(st.TraceEvents)
	return &c
}

func sameEvents(a, b []trc.Event) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.What != y.What || !x.When.Equal(y.When) || x.IsError != y.IsError || len(x.Stack) != len(y.Stack) {
			return false
		}
		for j := range x.Stack {
			if x.Stack[j] != y.Stack[j] {
				return false
			}
		}
	}
	return true
}

func sameStatic(a, b *trc.StaticTrace) bool {
	x, y := *a, *b
	x.TraceEvents, y.TraceEvents = nil, nil
	return reflect.DeepEqual(x, y) && sameEvents(a.TraceEvents, b.TraceEvents)
}

func runC06(p *Prog) {
	w := newTW(p)
	w.setCap(p.Cfg["cap"])
	if p.Cfg["max"] > 0 {
		w.do(0, Op{K: "setmax", A: p.Cfg["max"]})
	}
	if p.Cfg["nostacks"] == 1 {
		trc.SetTraceStacks(false)
	}
	var snaps []*snapshot
	take := func(how, id string, evs []trc.Event, st *trc.StaticTrace) {
		s := &snapshot{how: how, id: id}
		if st != nil {
			s.live, s.copy = st, cloneStatic(st)
			s.events = s.copy.(*trc.StaticTrace).TraceEvents
		} else {
			s.live, s.copy = evs, cloneEvents(evs)
			s.events = s.copy.([]trc.Event)
		}
		snaps = append(snaps, s)
	}
	for i := 0; i < p.Cfg["subs"]; i++ {
		for k, c := range []*trc.Collector{w.cols[kindColl], w.cols[kindEz]} {
			ch := rt.Reg(make(chan trc.Trace, 8))
			ctx, cancel := simctx.WithCancel(context.Background())
			defer cancel()
			c := c
			up := false
			rt.Spawn(fmt.Sprintf("sub%d.%d", i, k), true, func() { up = true; c.Stream(ctx, trc.Filter{}, ch) })
			rt.Spawn(fmt.Sprintf("recv%d.%d", i, k), true, func() {
				for {
					tr := rt.Recv(ch)
					take("streamed", tr.ID(), nil, tr.(*trc.StaticTrace))
				}
			})
			rt.Block("subscribed", func() bool { return up })
		}
	}
	mine := map[int][]*tinfo{}
	pick := func(task int, o Op) *tinfo {
		l := w.traces
		if o.S == "own" {
			l = mine[task]
		}
		var m []*tinfo
		for _, t := range l {
			if t.id != "" {
				m = append(m, t)
			}
		}
		if len(m) == 0 {
			return nil
		}
		if o.S == "own" {
			return m[len(m)-1]
		}
		return m[o.A%len(m)]
	}
	w.runTasks(func(task int, o Op) bool {
		switch o.K {
		case "new":
			t := w.newTrace(o.A, o.B, o.C, o)
			mine[task] = append(mine[task], t)
		case "cap":
			w.setCap(o.A)
		case "adv", "rend":
			return false
		case "ssnap":
			req := &trc.SearchRequest{Limit: []int{250, 3, 0}[o.D], StackDepth: o.C}
			res, err := w.cols[o.B%len(w.cols)].Search(context.Background(), req)
			if err != nil {
				rt.Fail("search-error", "search failed: %v", err)
			}
			for _, st := range res.Traces {
				take("found by search", st.ID(), nil, st)
			}
		default:
			t := pick(task, o)
			if t == nil {
				return true
			}
			switch o.K {
			case "snap":
				take("events read", t.id, t.tr.Events(), nil)
			case "ev":
				w.record(task, t, o)
			case "fin":
				w.finishTrace(t, o)
			case "rbeg":
				w.regionBegin(task, t, o)
			}
		}
		return true
	})
	for _, t := range w.traces {
		take("events read in the end", t.id, t.tr.Events(), nil)
	}
	owner := map[string]*evRec{}
	for _, t := range w.traces {
		for _, e := range t.evs {
			owner[e.key] = e
		}
	}
	w.checkShared()
	stacks := map[string]string{}
	places := map[string]string{}
	for _, s := range snaps {
		// unchanged?
		switch live := s.live.(type) {
		case []trc.Event:
			if !sameEvents(live, s.copy.([]trc.Event)) {
				rt.Fail("snapshot-changed", "events of trace %s (%s) changed from %+v to %+v", s.id, s.how, s.copy, live)
			}
		case *trc.StaticTrace:
			if !sameStatic(live, s.copy.(*trc.StaticTrace)) {
				rt.Fail("snapshot-changed", "trace %s (%s) changed from %+v to %+v", s.id, s.how, s.copy, live)
			}
		}
		// nothing foreign?
		t := w.byID[s.id]
		if t == nil {
			rt.Fail("phantom", "a trace %s (%s) was never created", s.id, s.how)
		}
		seen := map[string]bool{}
		for _, ev := range s.events {
			k := keyOf(ev.What)
			if k == "TRUNC" {
				continue
			}
			e := owner[k]
			if e == nil || e.tr != t {
				rt.Fail("foreign", "trace %d (%s) shows event %q, which was not recorded on it", t.idx, s.how, clip(ev.What, 100))
			}
			if seen[k] {
				rt.Fail("duplicate", "trace %d (%s) shows event %s twice", t.idx, s.how, k)
			}
			seen[k] = true
			if msg := checkText(e, ev); msg != "" {
				rt.Fail("garbled", "trace %d (%s): %s", t.idx, s.how, msg)
			}
			if s.how == "events read" || s.how == "events read in the end" {
				st := fmt.Sprint(ev.Stack, ev.When.UnixNano())
				if old, ok := stacks[k]; ok && old != st {
					rt.Fail("stack", "event %s had stack and time %s, has %s", k, old, st)
				}
				stacks[k] = st
				if got, _ := splitStack(ev.Stack); len(got) > 0 { // calls at the same place have the same top frame
					class := fmt.Sprint(k[:1], k[len(k)-1:] == "-", e.op.B, e.op.C == 4)
					if e.key[0] == 'r' {
						class = fmt.Sprint(k[:1], k[len(k)-1:], k[len(k)-1:] == "+" && e.op.B == 1)
					}
					top := fmt.Sprint(got[0])
					if old, ok := places[class]; ok && old != top {
						rt.Fail("stack", "event %s of trace %d has the stack of another event: %s, expected %s", k, t.idx, top, old)
					}
					places[class] = top
				}
			}
		}
		if st, ok := s.copy.(*trc.StaticTrace); ok {
			if st.Source() != t.src || st.Category() != t.cat {
				rt.Fail("foreign", "trace %d (%s) has source %q and category %q", t.idx, s.how, st.Source(), st.Category())
			}
			if st.Finished() && len(t.fins) == 0 {
				rt.Fail("foreign", "trace %d (%s) is finished, but nobody finished it", t.idx, s.how)
			}
			errs := false
			for _, e := range t.evs {
				errs = errs || e.isErr
			}
			if st.Errored() && !errs {
				rt.Fail("foreign", "trace %d (%s) is errored, but has no error", t.idx, s.how)
			}
		}
	}
	// active traces are complete, wherever they are
	for _, t := range w.traces {
		if t.tr.Finished() != (len(t.fins) > 0) {
			rt.Fail("finished", "trace %d reports finished %v after %d calls to finish", t.idx, t.tr.Finished(), len(t.fins))
		}
		if len(t.fins) > 0 || len(t.evs) > t.lo {
			continue
		}
		rt.Count("probe.active_traces", 1)
		seen := map[string]bool{}
		for _, ev := range t.tr.Events() {
			seen[keyOf(ev.What)] = true
		}
		for _, e := range t.evs {
			if !seen[e.key] {
				rt.Fail("lost", "event %s of active trace %d is gone", e.key, t.idx)
			}
		}
	}
}
