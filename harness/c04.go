package main

import (
	"context"
	"net/http"
	"net/http/httptest"
	"regexp"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C04", Gen: genC04, Run: runC04, Quick: 400000, Notes: append([]string{"real: trcweb.Middleware"}, realTrc...)})
}

func genC04(g *G) *Prog {
	p := newProg()
	nt := g.rng(1, 4)
	slots := g.rng(1, 3)
	n := g.rng(6, 40)
	steps := g.chance(0.7)
	if g.chance(0.3) {
		p.Cfg["max"] = 10
	}
	if g.chance(0.4) { // memory gets recycled
		p.Cfg["cap"] = g.rng(1, 2)
	}
	for s := 0; s < slots; s++ {
		p.add(g.n(nt), Op{K: "new", A: s, B: g.pick(kindCore, kindColl, kindLog, kindEz, kindNoDetail), C: s})
	}
	for i := 0; i < n; i++ {
		t, s := g.n(nt), g.n(slots)
		switch g.weighted(8, 2, 2, 4, 2, 5, 3, 2, 2, 1, 2, 2, 1) {
		case 0:
			o := genEvent(g, s)
			if o.D == 7 {
				o.D = 0
			}
			p.add(t, o)
		case 1:
			p.add(t, Op{K: "fin", A: s, C: g.pick(0, 1)})
		case 2:
			p.add(t, Op{K: "read", A: s, B: rdEvents})
		case 3:
			p.add(t, Op{K: "read", A: s, B: rdDuration, C: g.pick(0, 2)})
		case 4:
			p.add(t, Op{K: "read", A: s, B: rdStarted, C: g.pick(0, 2)})
		case 5:
			p.add(t, Op{K: "adv", A: g.rng(1, 99), B: g.n(12)})
		case 6:
			if steps {
				p.add(t, Op{K: "step", A: g.rng(-99, 99), B: g.pick(3, 6, 9, 9, 10, 11)})
			}
		case 7:
			p.add(t, Op{K: "rbeg", A: s, B: g.n(2), C: g.pick(0, 2, 9), D: g.n(len(regionNames))})
		case 8:
			p.add(t, Op{K: "rend"})
		case 9:
			p.add(t, Op{K: "search", B: g.pick(kindColl, kindEz)})
		case 10:
			p.add(t, Op{K: "http", A: g.rng(0, 99), B: g.n(11), C: g.rng(-99, 99), D: g.pick(0, 9, 10)})
		case 11:
			p.add(t, Op{K: "new", A: s, B: g.pick(kindCore, kindColl, kindLog, kindEz), C: s})
		case 12:
			p.add(t, Op{K: "msearch", A: g.rng(0, 99), B: g.n(11), C: g.rng(-99, 99), D: g.pick(0, 9, 10)})
		}
	}
	return p
}

var httpDurRe = regexp.MustCompile(`^HTTP \d+, [^,]+, (\S+)$`)

// checkHumanDur compares a humanized duration with the elapsed time, which is
// between lo and hi. Humanizing truncates.
func checkHumanDur(what, s string, lo, hi int64) {
	d, err := time.ParseDuration(s)
	if err != nil {
		rt.Fail("duration-text", "%s shows %q, which is no duration", what, s)
	}
	min := lo - lo/10
	if lo-1000 < min {
		min = lo - 1000
	}
	if int64(d) > hi || int64(d) < min || d < 0 {
		rt.Fail("elapsed-text", "%s shows %v, elapsed time was between %v and %v", what, d, time.Duration(lo), time.Duration(hi))
	}
}

func runC04(p *Prog) {
	w := newTW(p)
	if p.Cfg["max"] > 0 {
		w.do(0, Op{K: "setmax", A: p.Cfg["max"]})
	}
	if p.Cfg["cap"] > 0 {
		w.setCap(p.Cfg["cap"])
	}
	type httpRec struct {
		tr     trc.Trace
		h0, h1 int64 // handler window
		w0, w1 int64 // outer window
	}
	var reqs []*httpRec
	w.runTasks(func(task int, o Op) bool {
		switch o.K {
		case "http":
			rec := &httpRec{}
			h := trcweb.Middleware(w.cols[kindColl].NewTrace, func(*http.Request) string { return "http" })(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
				rec.tr = trc.Get(r.Context())
				rec.h0 = rt.Mono()
				rt.Advance(int64(o.A) * int64(pow10(o.B)))
				w.stepWall(int64(o.C) * int64(pow10(o.D)))
				rt.Y(903)
				rec.h1 = rt.Mono()
			}))
			rec.w0 = rt.Mono()
			h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/x", nil))
			rec.w1 = rt.Mono()
			reqs = append(reqs, rec)
			return true
		case "msearch": // over several sources, one of them slow
			var h0, h1 int64
			slow := searcherFunc(func(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
				h0 = rt.Mono()
				rt.Advance(int64(o.A) * int64(pow10(o.B)))
				w.stepWall(int64(o.C) * int64(pow10(o.D)))
				rt.Y(904)
				h1 = rt.Mono()
				return &trc.SearchResponse{Sources: []string{"slow"}}, nil
			})
			x := begin()
			res, err := (trc.MultiSearcher{w.cols[kindColl], slow}).Search(context.Background(), &trc.SearchRequest{Limit: 250})
			x.end()
			if err != nil || res == nil {
				rt.Fail("search-error", "search over two sources failed: %v", err)
			}
			if d := int64(res.Duration); d < h1-h0 || d > x.m1-x.m0 {
				rt.Fail("search-duration", "search over several sources reports a duration of %v, it took between %v and %v", res.Duration, time.Duration(h1-h0), time.Duration(x.m1-x.m0))
			}
			rt.Count("probe.multi_search_durations", 1)
			return true
		case "search":
			x := begin()
			res, _ := w.cols[o.B].Search(context.Background(), &trc.SearchRequest{Limit: 250})
			x.end()
			if res.Duration < 0 || int64(res.Duration) > x.m1-x.m0 {
				rt.Fail("search-duration", "search reports a duration of %v, it took at most %v", res.Duration, time.Duration(x.m1-x.m0))
			}
			// nothing else advances the clock while a single task runs
			for _, st := range res.Traces {
				if t := w.byID[st.ID()]; t != nil {
					t.reads = append(t.reads, &readRec{win: x, op: o, tr: t, what: rdSearch, events: st.Events(), static: st})
				}
			}
			return true
		}
		return false
	})
	for _, t := range w.traces {
		w.read(t, rdEvents, 0, Op{})
		w.read(t, rdDuration, 0, Op{})
		w.read(t, rdStarted, 0, Op{})
		rt.Advance(1_000_000)
		w.read(t, rdDuration, 0, Op{})
		w.oracleC04(t)
	}
	for _, r := range reqs {
		evs := r.tr.Events()
		for _, ev := range evs {
			if m := httpDurRe.FindStringSubmatch(ev.What); m != nil {
				checkHumanDur("middleware event", m[1], r.h1-r.h0, r.w1-r.w0)
				rt.Count("probe.middleware_durations", 1)
			}
		}
		if d := int64(r.tr.Duration()); d < r.h1-r.h0 || d > r.w1-r.w0 {
			rt.Fail("elapsed", "request trace has duration %v, the handler alone took %v, everything %v", time.Duration(d), time.Duration(r.h1-r.h0), time.Duration(r.w1-r.w0))
		}
	}
}

type searcherFunc func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error)

func (f searcherFunc) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	return f(ctx, req)
}

// wallIn reports whether the wall clock could have shown ns during the window.
func (w *tw) wallIn(ns int64, m0, m1 int64) bool {
	for i, c := range w.clock {
		end := int64(1 << 62)
		if i+1 < len(w.clock) {
			end = w.clock[i+1].mono
		}
		lo, hi := c.mono, end
		if m0 > lo {
			lo = m0
		}
		if m1 < hi {
			hi = m1
		}
		if lo > hi {
			continue
		}
		m := ns - wallEpoch - c.off
		if m >= lo && m <= hi {
			return true
		}
	}
	return false
}

// wallEpoch is what the wall clock shows at the start of a run.
const wallEpoch = 1704164645 * int64(1e9)

func (w *tw) oracleC04(t *tinfo) {
	byKey := map[string]*evRec{}
	for _, e := range t.evs {
		byKey[e.key] = e
	}
	// Which finish took effect: not before the earliest call, not after the
	// earliest return.
	finished := len(t.fins) > 0
	fin := win{inv: 1 << 62, ret: 1 << 62, m0: 1 << 62, m1: 1 << 62}
	for _, f := range t.fins {
		if f.inv < fin.inv {
			fin.inv, fin.m0 = f.inv, f.m0
		}
		if f.ret < fin.ret {
			fin.ret, fin.m1 = f.ret, f.m1
		}
	}
	var started time.Time
	for _, r := range t.reads {
		if r.what == rdStarted || r.what == rdSearch {
			ts := r.t
			if r.static != nil {
				ts = r.static.Started()
			}
			if started.IsZero() {
				started = ts
			}
			if ts.UnixNano() != started.UnixNano() {
				rt.Fail("started-changed", "trace %d started at %v and at %v", t.idx, started, ts)
			}
		}
	}
	if !w.wallIn(started.UnixNano(), t.create.m0, t.create.m1) {
		rt.Fail("started", "trace %d has start time %v, which the clock did not show during its creation", t.idx, started)
	}
	// durations
	type dur struct {
		win
		d time.Duration
	}
	var durs []dur
	for _, r := range t.reads {
		d := r.d
		if r.static != nil {
			d = r.static.Duration()
		} else if r.what != rdDuration {
			continue
		}
		durs = append(durs, dur{r.win, d})
		if d < 0 {
			rt.Fail("negative", "trace %d has duration %v", t.idx, d)
		}
		// until when: the read, or the finish
		lo, hi := r.m0, r.m1
		if fin.m0 < lo {
			lo = fin.m0
		}
		if fin.m1 < hi && fin.ret < r.inv {
			hi = fin.m1
		}
		if int64(d) < lo-t.create.m1 || int64(d) > hi-t.create.m0 {
			rt.Fail("elapsed", "trace %d has duration %v when read at %v, elapsed time was between %v and %v", t.idx, d, r.win, time.Duration(lo-t.create.m1), time.Duration(hi-t.create.m0))
		}
	}
	for _, a := range durs {
		for _, b := range durs {
			if a.before(b.win) && a.d > b.d {
				rt.Fail("decreasing", "trace %d had duration %v and later %v", t.idx, a.d, b.d)
			}
			if fin.ret < a.inv && fin.ret < b.inv && a.d != b.d {
				rt.Fail("final", "finished trace %d had duration %v and %v", t.idx, a.d, b.d)
			}
		}
	}
	final := durs[len(durs)-1].d
	// events
	for _, r := range t.eventReads() {
		var prev time.Time
		for i, ev := range r.events {
			k := keyOf(ev.What)
			if len(w.clock) > 1 { // events carry wall clock times, so order is only due while that isn't stepped
			} else if i > 0 && ev.When.Sub(prev) < 0 {
				rt.Fail("backwards", "event %d (%s) of trace %d is %v before its predecessor", i, k, t.idx, prev.Sub(ev.When))
			}
			prev = ev.When
			if off := ev.When.Sub(started); len(w.clock) > 1 {
			} else if off < 0 {
				rt.Fail("before-start", "event %s of trace %d lies %v before its start", k, t.idx, -off)
			} else if finished && r.inv > fin.ret && off > final {
				rt.Fail("after-finish", "event %s of trace %d lies %v after its start, the trace took %v", k, t.idx, off, final)
			}
			if k == "TRUNC" {
				continue
			}
			e := byKey[k]
			if e == nil {
				continue
			}
			if !w.wallIn(ev.When.UnixNano(), e.m0, e.m1) {
				rt.Fail("when", "event %s of trace %d has time %v, which the clock did not show during its call", k, t.idx, ev.When)
			}
			if e.re != nil {
				if m := e.re.FindStringSubmatch(ev.What); m != nil {
					checkHumanDur("region event", m[1], e.m0-e.begun, e.m1-e.begunLo)
					rt.Count("probe.region_durations", 1)
				}
			}
		}
	}
}
