package main

import (
	"github.com/peterbourgon/trc"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C08", Gen: genC08, Run: runC08, Quick: 250000, Steps: 4_000_000, Notes: realTrc})
	register(&Scenario{ID: "C09", Gen: genC09, Run: runC09, Quick: 180000, Steps: 4_000_000, Notes: realTrc})
}

func genSearchProg(g *G, big bool) *Prog {
	p := newProg()
	p.Cfg["sub"] = g.pick(0, 0, 0, 0, 1)
	kind := g.pick(kindColl, kindColl, kindLog, kindEz, kindNoDetail)
	p.Cfg["kind"] = kind
	if big { // more than the largest limit
		p.Cfg["big"] = g.rng(240, 300)
		for i := 0; i < 3; i++ {
			o := genSearch(g, kind)
			o.B = g.pick(249, 250, 251, 1000, 17)
			p.add(0, o)
		}
		return p
	}
	if g.chance(0.4) {
		p.Cfg["cap"] = g.rng(1, 6)
	}
	nt := g.rng(1, 5)
	cats := g.rng(1, 4)
	if g.chance(0.1) {
		cats = g.pick(6, 12, len(catNames))
	}
	slots := g.rng(2, 6)
	n := g.rng(10, 50)
	capW := g.pick(0, 0, 1)
	for i := 0; i < n; i++ {
		t, s := g.n(nt), g.n(slots)
		switch g.weighted(8, 12, 5, 7, 3, capW) {
		case 0:
			p.add(t, Op{K: "new", A: s, B: kind, C: g.n(cats)})
		case 1:
			o := genEvent(g, s)
			o.D = g.pick(0, 1, 2, 5, 6, 8)
			if o.C == 9 {
				o.C = 0
			}
			p.add(t, o)
		case 2:
			p.add(t, Op{K: "fin", A: s})
		case 3:
			p.add(t, genSearch(g, kind))
		case 4:
			p.add(t, Op{K: "adv", A: g.rng(1, 99), B: g.pick(0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12, 13)})
		case 5:
			p.add(t, Op{K: "cap", A: g.rng(-1, 6)})
		}
	}
	// in the end, nothing else is going on
	for i := 0; i < 2; i++ {
		p.add(nt, genSearch(g, kind))
	}
	p.Cfg["after"] = nt
	return p
}

func genC08(g *G) *Prog { return genSearchProg(g, g.chance(0.002)) }
func genC09(g *G) *Prog { return genSearchProg(g, g.chance(0.002)) }

// runSearchProg runs a program and returns the searches and the history of the capacity.
func runSearchProg(p *Prog) (w *tw, recs []*searchRec, caps capHist) {
	w = newTW(p)
	kind := p.Cfg["kind"]
	c := w.cols[kind]
	src := map[int]string{kindColl: "src", kindLog: "logsrc", kindEz: "default", kindNoDetail: "ndsrc"}[kind]
	setCap := func(n int) {
		r := &capRec{n: n}
		caps = append(caps, r)
		r.win = begin()
		c.SetCategorySize(n)
		r.end()
	}
	w.subscribe(p.Cfg["sub"])
	if p.Cfg["cap"] > 0 {
		setCap(p.Cfg["cap"])
	}
	for i := 0; i < p.Cfg["big"]; i++ {
		t := w.newTrace(0, kind, i%3, Op{})
		if i%7 == 0 {
			w.record(0, t, Op{ID: 1000 + i, B: 2 * (i % 2)})
		}
		if i%2 == 0 {
			w.finishTrace(t, Op{})
		}
	}
	reuse := make([]trc.SearchRequest, len(p.Tasks)+1)
	op := func(task int, o Op) bool {
		switch o.K {
		case "cap":
			setCap(o.A)
		case "srch":
			if s := w.search(c, kind, o, src, &reuse[task]); s != nil {
				recs = append(recs, s)
			}
		default:
			return false
		}
		return true
	}
	q := *p
	var after []Op
	if nt, ok := p.Cfg["after"]; ok && nt < len(p.Tasks) {
		after = p.Tasks[nt]
		q.Tasks = p.Tasks[:nt]
	}
	w.p = &q
	w.runTasks(op)
	for _, o := range after {
		rt.BeginOp(o.ID)
		op(0, o)
	}
	return w, recs, caps
}

func runC08(p *Prog) {
	w, recs, caps := runSearchProg(p)
	idx := w.index()
	for _, s := range recs {
		w.oracleC08(s, idx, caps)
	}
}

func (w *tw) oracleC08(s *searchRec, idx map[*tinfo]*sidx, caps capHist) {
	res := s.res
	limit := s.effLimit()
	if len(res.Traces) > limit {
		rt.Fail("limit", "search with limit %d returned %d traces", s.limit, len(res.Traces))
	}
	if (len(res.Problems) > 0) != s.f.badQuery {
		rt.Fail("problems", "search %v reported problems %q", s.f, res.Problems)
	}
	// the order of traces created at the same instant shows as long as no calls
	// overlapped (searches use up IDs, too), nor the clock was stepped
	serial := len(w.clock) == 1 && len(w.p.Tasks) <= 1
	seen := map[*tinfo]bool{}
	for i, st := range res.Traces {
		t := w.byID[st.ID()]
		if t == nil {
			rt.Fail("phantom", "search returned trace %s, which nobody created", st.ID())
		}
		if seen[t] {
			rt.Fail("duplicate", "search returned trace %d twice", t.idx)
		}
		seen[t] = true
		if i > 0 && res.Traces[i-1].Started().Before(st.Started()) {
			rt.Fail("order", "search returned trace %d, started %v, after one started %v", t.idx, st.Started(), res.Traces[i-1].Started())
		}
		if i > 0 && serial && res.Traces[i-1].Started().Equal(st.Started()) {
			if u := w.byID[res.Traces[i-1].ID()]; u.create.before(t.create) {
				rt.Fail("order", "search returned trace %d after trace %d, which was created before", t.idx, u.idx)
			}
			rt.Count("probe.ties", 1)
		}
		if _, maybe := w.held(t, s.kind, caps, s.win); !maybe {
			rt.Fail("evicted", "search returned trace %d, which was dropped before", t.idx)
		}
		if ok, why := s.f.maybe(idx[t], s.win); !ok {
			rt.Fail("no-match", "search %v at %v returned trace %d, which does not match: %s", s.f, s.win, t.idx, why)
		}
		checkCopy(idx[t], st, s.win, s.depth, true)
		rt.Count("probe.copies", 1)
	}
	var sureHeld, maybeHeld, sureMatch, maybeMatch int
	for _, t := range w.traces {
		sure, maybe := w.held(t, s.kind, caps, s.win)
		if sure {
			sureHeld++
		}
		if maybe {
			maybeHeld++
			if ok, _ := s.f.maybe(idx[t], s.win); ok {
				maybeMatch++
			}
		}
		if !sure || !s.f.surely(idx[t], s.win) {
			continue
		}
		sureMatch++
		if seen[t] {
			continue
		}
		if len(res.Traces) < limit {
			rt.Fail("omitted", "search %v at %v returned %d traces, limit %d, but not the matching trace %d", s.f, s.win, len(res.Traces), limit, t.idx)
		}
		overlap := false
		for _, u := range w.traces {
			if u != t && u.cat == t.cat && !u.create.before(t.create) && !t.create.before(u.create) {
				overlap = true
			}
		}
		if overlap {
			continue
		}
		for u := range seen {
			if u.create.before(t.create) && idx[u].started.Before(idx[t].started) {
				rt.Fail("older-preferred", "search %v at %v, limit %d, returned trace %d but not the newer matching trace %d", s.f, s.win, limit, u.idx, t.idx)
			}
		}
		rt.Count("probe.omitted_for_limit", 1)
	}
	if hi := w.heldMax(s.kind, caps, s.win); hi < maybeHeld {
		maybeHeld = hi
	}
	if res.TotalCount < sureHeld || res.TotalCount > maybeHeld {
		rt.Fail("total", "search at %v reports %d traces in total, the collector held between %d and %d", s.win, res.TotalCount, sureHeld, maybeHeld)
	}
	if res.MatchCount < len(res.Traces) || res.MatchCount > maybeMatch {
		rt.Fail("matched", "search %v at %v reports %d matching traces and returns %d, at most %d matched", s.f, s.win, res.MatchCount, len(res.Traces), maybeMatch)
	}
	if sureMatch > 0 {
		rt.Count("probe.sure_matches", int64(sureMatch))
	}
	if sureHeld == maybeHeld {
		rt.Count("probe.exact_totals", 1)
	}
}

// heldMax is the largest number of traces the collector can have held.
func (w *tw) heldMax(kind int, caps capHist, s win) int {
	n := map[string]int{}
	for _, t := range w.traces {
		if t.kind == kind && t.create.inv < s.ret {
			n[t.cat]++
		}
	}
	_, hi := caps.minmax(s)
	sum := 0
	for _, x := range n {
		if x > hi {
			x = hi
		}
		sum += x
	}
	return sum
}

var _ = trc.SearchLimitMax
