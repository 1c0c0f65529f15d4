package main

import (
	"fmt"

	"trcsim/rt"
)

var realTrc = []string{
	"real: trc, eztrc, internal/trcringbuf, internal/trcutil, internal/trcdebug and oklog/ulid (instrumented copies of the working tree)",
	"stand-in: sync, sync/atomic, channels and go statements (scheduler-controlled, same semantics), time (simulated clock), math/rand and crypto/rand (seeded), sync.Pool (adversarial reuse policy)",
}

func init() {
	register(&Scenario{ID: "C01", Gen: genC01, Run: runC01, Quick: 250000, Steps: 6_000_000, Notes: realTrc})
}

func genEvent(g *G, slot int) Op {
	view := g.pick(0, 0, 0, 1, 2, 2, 3, 4, 5, 9, 9, 6, 7)
	d := g.pick(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 12, 14)
	if g.chance(0.02) {
		d = 13
	}
	return Op{K: "ev", A: slot, B: g.n(4), C: view, D: d}
}

func genC01(g *G) *Prog {
	p := newProg()
	p.Cfg["sub"] = g.pick(0, 0, 0, 1, 2)
	p.Cfg["churn"] = g.pick(0, 0, 1, 2, 4)
	nt := g.rng(2, 5)
	slots := g.pick(1, 1, 1, 2, 3)
	for s := 0; s < slots; s++ {
		p.Cfg[fmt.Sprintf("kind%d", s)] = g.pick(kindCore, kindColl, kindColl, kindLog, kindEz, kindNoDetail)
	}
	n := g.rng(4, 26)
	if g.chance(0.1) {
		n = g.rng(26, 70)
	}
	readers := g.chance(0.8)
	regions := g.chance(0.4)
	for i := 0; i < n; i++ {
		t := g.n(nt)
		s := g.n(slots)
		switch x := g.n(20); {
		case x < 12:
			p.add(t, genEvent(g, s))
		case x < 14 && regions:
			p.add(t, Op{K: "rbeg", A: s, B: g.n(2), C: g.pick(0, 0, 2, 9), D: g.n(len(regionNames))})
		case x < 15 && regions:
			p.add(t, Op{K: "rend"})
		case x < 18 && readers:
			p.add(t, Op{K: "read", A: s, B: rdEvents, C: g.pick(0, 0, 1, 3)})
		case x < 19 && readers:
			p.add(t, Op{K: "search", B: p.Cfg[fmt.Sprintf("kind%d", s)]})
		default:
			p.add(t, genEvent(g, s))
		}
	}
	for t := 0; t < nt; t++ { // leave some regions open, close others
		if regions && g.chance(0.7) {
			p.add(t, Op{K: "rend"})
		}
	}
	for len(p.Tasks) < nt {
		p.Tasks = append(p.Tasks, nil)
	}
	if g.chance(0.01) {
		p.Cfg["pre"] = g.pick(30, 60, 127, 255, 300, 511, 900)
	}
	return p
}

func runC01(p *Prog) {
	w := newTW(p)
	w.churn(p.Cfg["churn"])
	w.subscribe(p.Cfg["sub"])
	for s := 0; s < 3; s++ {
		if k, ok := p.Cfg[fmt.Sprintf("kind%d", s)]; ok {
			w.newTrace(s, k, s, Op{})
			if k == kindLog || k == kindNoDetail {
				w.noisy = true
			}
		}
	}
	for i := 0; i < p.Cfg["pre"]; i++ {
		w.record(0, w.traces[0], Op{ID: 1000000 + i, K: "ev", B: i % 4, D: []int{0, 3, 4, 1}[i%4]})
	}
	w.runTasks(nil)
	for _, t := range w.traces {
		w.read(t, rdEvents, 0, Op{})
		w.read(t, rdEvents, 0, Op{})
	}
	for _, t := range w.traces {
		w.oracleC01(t)
	}
	w.checkShared()
}

// readsEvents lists the reads of a trace's events, in order of invocation.
func (t *tinfo) eventReads() []*readRec {
	var r []*readRec
	for _, x := range t.reads {
		if x.what == rdEvents || x.what == rdSearch {
			r = append(r, x)
		}
	}
	return r
}

func (w *tw) oracleC01(t *tinfo) {
	byKey := map[string]*evRec{}
	for _, e := range t.evs {
		byKey[e.key] = e
	}
	reads := t.eventReads()
	final := reads[len(reads)-1]
	pos := map[string]int{}
	for i, ev := range final.events {
		k := keyOf(ev.What)
		e := byKey[k]
		if e == nil {
			rt.Fail("foreign", "trace %d contains event %q, which nobody recorded on it", t.idx, clip(ev.What, 200))
		}
		if _, dup := pos[k]; dup {
			rt.Fail("duplicate", "event %s appears twice in trace %d", k, t.idx)
		}
		pos[k] = i
	}
	for _, e := range t.evs {
		if _, ok := pos[e.key]; !ok {
			rt.Fail("lost", "event %s %v recorded on trace %d does not appear in it", e.key, e.win, t.idx)
		}
	}
	for _, a := range t.evs {
		for _, b := range t.evs {
			if a.before(b.win) && pos[a.key] > pos[b.key] {
				rt.Fail("order", "event %s %v was recorded before %s %v, but appears after it", a.key, a.win, b.key, b.win)
			}
		}
	}
	texts := map[string]string{}
	for _, r := range reads {
		if len(r.events) > len(final.events) {
			rt.Fail("prefix", "a read %v returned %d events, but there are only %d in the end", r.win, len(r.events), len(final.events))
		}
		for i, ev := range r.events {
			k := keyOf(ev.What)
			if q, ok := pos[k]; !ok || q != i {
				rt.Fail("prefix", "a read %v returned event %s at position %d, which is not a prefix of the final sequence", r.win, k, i)
			}
			e := byKey[k]
			if msg := checkText(e, ev); msg != "" {
				rt.Fail("text", "trace %d: %s", t.idx, msg)
			}
			if old, ok := texts[k]; ok && old != ev.What {
				rt.Fail("text-changed", "event %s read as %q and as %q", k, old, ev.What)
			}
			texts[k] = ev.What
			if e.inv > r.ret {
				rt.Fail("future", "event %s recorded at %v was seen by a read at %v", k, e.win, r.win)
			}
		}
		for _, e := range t.evs {
			if e.before(r.win) && pos[e.key] >= len(r.events) {
				rt.Fail("missing", "event %s recorded at %v is missing from a later read at %v with %d events", e.key, e.win, r.win, len(r.events))
			}
		}
	}
	for _, e := range t.evs {
		if e.st == nil {
			continue
		}
		rt.Count("probe.stringer_args", 1)
		ev := final.events[pos[e.key]]
		n := evalOf(e, ev.What)
		x := e.st.evals[n]
		if !e.lazy {
			if x.inv < e.inv || x.ret > e.ret {
				rt.Fail("formatted-late", "normal event %s recorded at %v shows the value of an evaluation at %v", e.key, e.win, x)
			}
			for _, x := range e.st.evals {
				if x.inv > e.ret {
					rt.Fail("formatted-again", "arguments of normal event %s recorded at %v evaluated at %v", e.key, e.win, x)
				}
			}
			continue
		}
		if w.subs {
			continue
		}
		first := int64(1 << 62)
		firstRet := int64(1 << 62)
		for _, r := range t.reads {
			if r.what != rdEvents && r.what != rdSearch && r.what != -1 {
				continue
			}
			if r.inv < first {
				first = r.inv
			}
			if r.what != -1 && pos[e.key] < len(r.events) && r.ret < firstRet {
				firstRet = r.ret
			}
		}
		if x.inv < first {
			rt.Fail("lazy-early", "lazy event %s recorded at %v shows the value of an evaluation at %v, before any read", e.key, e.win, x)
		}
		if w.noisy { // a log evaluates on its own account
			continue
		}
		for _, x := range e.st.evals {
			if x.inv < first {
				rt.Fail("lazy-early", "lazy event %s recorded at %v was evaluated at %v, before any read", e.key, e.win, x)
			}
			if x.inv > firstRet {
				rt.Fail("lazy-again", "lazy event %s was evaluated again at %v, after a read which contained it had returned at %d", e.key, x, firstRet)
			}
		}
	}
}
