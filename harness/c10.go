package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	simctx "trcsim/context"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C10", Gen: genC10, Run: runC10, Quick: 200000, Notes: append([]string{"real: trc.MultiSearcher, trc.Collector as sources", "stand-in: sources which answer late, fail, answer nothing, answer with an error, or wait for cancellation"}, realTrc...)})
}

const (
	srcReal = iota
	srcFake
	srcFail
	srcNothing
	srcBoth
	srcHang // until cancelled
	srcNested
	srcCached
	srcNoStats
	srcOdd // an answer which can't be merged with others
)

func genC10(g *G) *Prog {
	p := newProg()
	n := g.pick(0, 1, 1, 2, 2, 3, 3, 4, 5, 7)
	p.Cfg["n"] = n
	for i := 0; i < n; i++ {
		p.Cfg[fmt.Sprintf("src%d", i)] = g.pick(srcReal, srcReal, srcReal, srcFake, srcFake, srcFake, srcFail, srcNothing, srcBoth, srcHang, srcNested, srcCached, srcNoStats, srcOdd)
		p.Cfg[fmt.Sprintf("delay%d", i)] = g.pick(0, 0, 0, 1, 5, 5, 1000, 60000) // ms
		p.Cfg[fmt.Sprintf("num%d", i)] = g.pick(0, 1, 2, 3, 5, 12)
		p.Cfg[fmt.Sprintf("name%d", i)] = g.n(3)
		p.Cfg[fmt.Sprintf("seed%d", i)] = g.n(1 << 16)
	}
	nt := g.rng(1, 3)
	for t := 0; t < nt; t++ {
		for i := g.rng(1, 2); i > 0; i-- {
			o := genSearch(g, 0)
			o.K = "multi"
			if g.chance(0.3) {
				p.add(t, Op{K: "cancel", A: g.pick(0, 1, 5, 2000)})
			}
			p.add(t, o)
		}
	}
	for i := g.rng(0, 12); i > 0; i-- {
		switch g.n(4) {
		case 0:
			p.add(nt, Op{K: "mknew", A: g.n(4), B: g.n(8), C: g.n(3)})
		case 1:
			p.add(nt, Op{K: "ev", A: g.n(4), B: g.n(4), D: 1})
		case 2:
			p.add(nt, Op{K: "fin", A: g.n(4)})
		case 3:
			p.add(nt, Op{K: "adv", A: g.rng(1, 9), B: g.n(9)})
		}
	}
	return p
}

// answer is what a source answered.
type answer struct {
	win
	src  int
	kind int
	res  *trc.SearchResponse // as handed out
	copy *trc.SearchResponse
	err  error
	done bool
	req  *trc.SearchRequest
}

type source struct {
	i, kind int
	p       *Prog
	col     *trc.Collector
	nested  trc.Searcher
	cached  *trc.SearchResponse
	answers []*answer
}

func (s *source) cfg(k string) int { return s.p.Cfg[fmt.Sprintf("%s%d", k, s.i)] }

func copyResponse(r *trc.SearchResponse) *trc.SearchResponse {
	if r == nil {
		return nil
	}
	c := *r
	c.Sources = append([]string(nil), r.Sources...)
	c.Traces = append([]*trc.StaticTrace(nil), r.Traces...)
	c.Problems = append([]string(nil), r.Problems...)
	c.Stats = cloneStats(r.Stats)
	return &c
}

type answersKey struct{}
type callerKey struct{}

// live reports that the context has not ended before the caller's.
func (s *source) live(ctx context.Context) {
	if ctx.Err() == nil {
		return
	}
	if c, ok := ctx.Value(callerKey{}).(context.Context); ok && c.Err() == nil {
		rt.Fail("context", "the context of source %d ended (%v), though the caller's did not", s.i, ctx.Err())
	}
}

func (s *source) fake(req *trc.SearchRequest) *trc.SearchResponse {
	g := &G{}
	g.Seed(uint64(s.cfg("seed")) + 17)
	res := &trc.SearchResponse{Request: req, Sources: []string{fmt.Sprintf("name%d", s.cfg("name"))}, Stats: trc.NewSearchStats(req.Bucketing)}
	if g.chance(0.2) {
		res.Sources = append(res.Sources, "name1", "extra")
	}
	for k := 0; k < s.cfg("num"); k++ {
		st := &trc.StaticTrace{
			TraceSource: res.Sources[0], TraceID: fmt.Sprintf("f%d-%d", s.i, k), TraceCategory: catNames[g.n(3)],
			TraceStarted: time.Unix(1704164640+int64(g.n(10)), int64(g.n(3))).UTC(), TraceDuration: time.Duration(g.n(1e9)),
			TraceFinished: g.chance(0.6), TraceErrored: g.chance(0.3),
			TraceEvents: []trc.Event{{What: fmt.Sprintf("e%d;", k)}},
		}
		res.Stats.Observe(st)
		res.TotalCount++
		if len(res.Traces) < req.Limit {
			res.Traces = append(res.Traces, st)
			res.MatchCount++
		}
	}
	// not necessarily in order
	for k := g.n(3); k > 0; k-- {
		res.Problems = append(res.Problems, fmt.Sprintf("problem %d of source %d", k, s.i))
	}
	res.TotalCount += g.n(3)
	return res
}

func (s *source) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	rq := *req
	rq.Bucketing = append([]time.Duration(nil), req.Bucketing...)
	a := &answer{src: s.i, kind: s.kind, win: begin(), req: &rq}
	if l, ok := ctx.Value(answersKey{}).(*[]*answer); ok {
		*l = append(*l, a)
	} else {
		rt.Fail("context", "source %d was asked with a context which does not derive from the caller's", s.i)
	}
	if d := s.cfg("delay"); d > 0 {
		rt.Sleep(int64(d) * 1e6)
		rt.Count("fault.slow_source", 1)
	}
	var res *trc.SearchResponse
	var err error
	s.live(ctx)
	switch s.kind {
	case srcReal:
		res, err = s.col.Search(ctx, req)
	case srcNested:
		sub := []*answer{}
		res, err = s.nested.Search(context.WithValue(ctx, answersKey{}, &sub), req)
	case srcFake:
		res = s.fake(req)
	case srcNoStats:
		res = s.fake(req)
		res.Stats = nil
	case srcCached:
		if s.cached == nil || !reflect.DeepEqual(s.cached.Stats.Bucketing, req.Bucketing) {
			s.cached = s.fake(req)
		}
		res = s.cached
	case srcOdd:
		res = s.fake(req)
		res.Stats.Categories["oddity"] = trc.NewCategoryStats("oddity", req.Bucketing)
		switch s.cfg("seed") % 5 {
		case 0:
			res.Stats = trc.NewSearchStats(append([]time.Duration{0}, req.Bucketing...))
		case 1:
			res.Stats.Bucketing = req.Bucketing[:len(req.Bucketing)-1]
			if len(res.Stats.Bucketing) == 0 {
				res.Stats.Bucketing = []time.Duration{0, 1, 2, 3}
			}
		case 2:
			res.Stats.Categories["oddity"] = nil
		case 3:
			res.Stats.Categories["oddity"].BucketCounts = make([]int, len(req.Bucketing)+1)
			res.Stats.Categories["oddity"].ActiveCount = 1
		case 4:
			res.Traces = append(res.Traces, nil)
		}
		rt.Count("fault.odd_answer", 1)
	case srcFail:
		err = fmt.Errorf("source %d is broken", s.i)
		rt.Count("fault.source_error", 1)
	case srcNothing:
		rt.Count("fault.source_answers_nothing", 1)
	case srcBoth:
		res, err = s.fake(req), fmt.Errorf("source %d is half broken", s.i)
		rt.Count("fault.source_error_with_result", 1)
	case srcHang:
		rt.Recv(ctx.Done())
		err = fmt.Errorf("source %d gave up: %w", s.i, ctx.Err())
		rt.Count("fault.source_cancelled", 1)
	}
	rt.Y(905)
	s.live(ctx)
	a.res, a.err = res, err
	if s.kind == srcOdd {
		a.copy = &trc.SearchResponse{Problems: append([]string(nil), res.Problems...)}
	} else {
		a.copy = copyResponse(res)
	}
	a.end()
	a.done = true
	return res, err
}

func runC10(p *Prog) {
	w := newTW(p)
	var ms trc.MultiSearcher
	var srcs []*source
	var cols []*trc.Collector
	hang := false
	for i := 0; i < p.Cfg["n"]; i++ {
		s := &source{i: i, p: p}
		s.kind = s.cfg("src")
		switch s.kind {
		case srcReal:
			s.col = trc.NewCollector(trc.CollectorConfig{Source: fmt.Sprintf("name%d", s.cfg("name"))})
			cols = append(cols, s.col)
			for k := 0; k < s.cfg("num"); k++ {
				ctx, tr := s.col.NewTrace(context.Background(), catNames[k%3])
				tr.Tracef("e%d; in source %d", 1000+k, i)
				if k%2 == 0 {
					tr.Finish()
				}
				_ = ctx
				rt.Advance(int64(k%3) * 1000)
			}
		case srcNested:
			s.nested = trc.MultiSearcher{&source{i: i, p: p, kind: srcFake}, &source{i: i, p: p, kind: srcFail}}
		case srcHang:
			hang = true
		}
		srcs = append(srcs, s)
		ms = append(ms, s)
	}
	type multi struct {
		win
		s       *searchRec
		answers []*answer
	}
	var recs []*multi
	cancelAfter := map[int]int{}
	w.runTasks(func(task int, o Op) bool {
		switch o.K {
		case "cancel":
			cancelAfter[task] = o.A + 1
		case "mknew":
			if len(cols) > 0 {
				c := cols[o.B%len(cols)]
				t := &tinfo{idx: len(w.traces), views: map[int]*view{}, kind: kindColl}
				t.create = begin()
				t.ctx, t.tr = c.NewTrace(context.Background(), catNames[o.C])
				t.create.end()
				t.id = t.tr.ID()
				w.slots[o.A] = t
			}
		case "multi":
			m := &multi{}
			ctx := context.WithValue(context.Background(), answersKey{}, &m.answers)
			if o.D%3 == 0 { // with a trace of its own
				ctx, _ = trc.New(ctx, "caller", "search")
			}
			ctx, cancel := simctx.WithCancel(ctx)
			ctx = context.WithValue(ctx, callerKey{}, ctx)
			if d := cancelAfter[task]; d > 0 {
				rt.AddTimer(int64(d-1)*1e6, func() { cancel() })
			} else if hang {
				rt.AddTimer(3600e9, func() { cancel() })
			}
			s := &searchRec{op: o, f: w.spec(o, "name0"), limit: o.B, depth: []int{0, 0, -1, 1, 3}[o.C%5]}
			s.bucket = append([]time.Duration(nil), bucketings[o.C/5%len(bucketings)]...)
			req := &trc.SearchRequest{Filter: s.f.filter(), Limit: s.limit, StackDepth: s.depth, Bucketing: append([]time.Duration(nil), s.bucket...)}
			m.s = s
			m.win = begin()
			res, err := ms.Search(ctx, req)
			m.end()
			cancel()
			if err != nil || res == nil {
				rt.Fail("failed", "the search over %d sources failed: %v", len(ms), err)
			}
			s.res = res
			recs = append(recs, m)
			rt.Note("multi search: total %d match %d returned %d problems %q", res.TotalCount, res.MatchCount, len(res.Traces), res.Problems)
		default:
			return false
		}
		return true
	})
	for _, m := range recs {
		checkMulti(len(ms), m.win, m.s, m.answers)
	}
}

func checkMulti(n int, x win, s *searchRec, answers []*answer) {
	res := s.res
	if len(answers) != n {
		rt.Fail("asked", "%d of %d sources were asked", len(answers), n)
	}
	var total, match int
	names := map[string]bool{}
	var problems []string
	extra := 0
	var odd []string
	var union []*trc.StaticTrace
	want := trc.NewSearchStats(res.Stats.Bucketing)
	for _, a := range answers {
		if !a.done || a.ret > x.ret {
			rt.Fail("early", "the search returned before source %d had answered", a.src)
		}
		// the request it got
		f := a.req.Filter
		if a.req.Limit != s.effLimit() && a.req.Limit != s.limit || a.req.StackDepth != s.depth || f.Category != s.f.category || f.IsActive != s.f.active || f.IsFinished != s.f.finished || f.IsErrored != s.f.errored || f.IsSuccess != s.f.success || fmt.Sprint(f.Sources) != fmt.Sprint(s.f.sources) || fmt.Sprint(f.IDs) != fmt.Sprint(s.f.ids) ||
			(f.MinDuration == nil) != (s.f.min < 0) || f.MinDuration != nil && *f.MinDuration != s.f.min || f.Query != s.f.query && !s.f.badQuery {
			rt.Fail("request", "source %d was asked for %+v instead of %v limit %d depth %d", a.src, a.req, s.f, s.limit, s.depth)
		}
		if a.err != nil {
			problems = append(problems, a.err.Error())
		}
		if a.res == nil {
			if a.err == nil {
				extra++
			}
			continue
		}
		if a.kind == srcOdd { // costs its own results only
			extra++
			odd = append(odd, a.copy.Problems...)
			continue
		}
		problems = append(problems, a.copy.Problems...)
		total += a.copy.TotalCount
		match += a.copy.MatchCount
		for _, nm := range a.copy.Sources {
			names[nm] = true
		}
		union = append(union, a.copy.Traces...)
		if a.copy.Stats != nil {
			for name, cs := range a.copy.Stats.Categories {
				if want.Categories[name] == nil {
					want.Categories[name] = trc.NewCategoryStats(name, want.Bucketing)
				}
				addCat(want.Categories[name], cs)
			}
			if d := sameStats(a.copy.Stats, a.res.Stats); d != "" {
				rt.Fail("mutated", "the answer of source %d was changed: %s", a.src, d)
			}
		}
		if len(a.res.Traces) != len(a.copy.Traces) {
			rt.Fail("mutated", "the answer of source %d was changed", a.src)
		}
		for i := range a.res.Traces {
			if a.res.Traces[i] != a.copy.Traces[i] {
				rt.Fail("mutated", "the order of traces in the answer of source %d was changed", a.src)
			}
		}
	}
	if res.TotalCount != total || res.MatchCount != match {
		rt.Fail("counts", "total %d and match count %d, the sources have %d and %d", res.TotalCount, res.MatchCount, total, match)
	}
	if d := sameStats(want, res.Stats); d != "" {
		rt.Fail("stats", "statistics are not the sum over the sources: %s: want %+v got %+v", d, flat(want), flat(res.Stats))
	}
	checkBucketing(s.bucket, res.Stats.Bucketing)
	var sorted []string
	for nm := range names {
		sorted = append(sorted, nm)
	}
	sort.Strings(sorted)
	if fmt.Sprint(sorted) != fmt.Sprint(res.Sources) {
		rt.Fail("sources", "sources are %v, should be %v", res.Sources, sorted)
	}
	// traces: the newest of all, each once
	limit := s.effLimit()
	k := len(union)
	if k > limit {
		k = limit
	}
	if len(res.Traces) != k {
		rt.Fail("traces", "%d traces returned, the sources returned %d, limit %d", len(res.Traces), len(union), limit)
	}
	left := map[*trc.StaticTrace]int{}
	byVal := map[string]int{}
	for _, st := range union {
		left[st]++
		byVal[traceVal(st)]++
	}
	for i, st := range res.Traces {
		v := traceVal(st)
		byVal[v]--
		if byVal[v] < 0 {
			rt.Fail("traces", "trace %s returned, which no source returned, or more often than it was", st.ID())
		}
		if i > 0 && res.Traces[i-1].Started().Before(st.Started()) {
			rt.Fail("order", "traces are not newest first")
		}
		if i > 0 && res.Traces[i-1].Started().Equal(st.Started()) && res.Traces[i-1].ID() < st.ID() {
			rt.Fail("order", "traces %s and %s, started at the same time, are not in the order of one search over all", res.Traces[i-1].ID(), st.ID())
		}
	}
	if k > 0 {
		oldest := res.Traces[k-1].Started()
		for v, c := range byVal {
			if c > 0 {
				at := strings.SplitN(v, " ", 2)[0]
				ts, _ := time.Parse(time.RFC3339Nano, at)
				if ts.After(oldest) || ts.Equal(oldest) && strings.SplitN(v, " ", 3)[1] > res.Traces[k-1].ID() {
					rt.Fail("omitted", "trace %s is newer than the oldest returned, started %v, but was left out", v, oldest)
				}
			}
		}
	}
	// problems
	all := append([]string(nil), res.Problems...)
	for _, pr := range problems {
		found := false
		for i, q := range all {
			if strings.Contains(q, pr) {
				all = append(all[:i:i], all[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			rt.Fail("problems", "problem %q of a source is not reported: %q", pr, res.Problems)
		}
		rt.Count("probe.problems_passed_on", 1)
	}
	if s.f.badQuery {
		extra++
	}
	for _, pr := range odd { // may be passed on
		for i, q := range all {
			if strings.Contains(q, pr) {
				all = append(all[:i:i], all[i+1:]...)
				break
			}
		}
	}
	if len(all) < extra {
		rt.Fail("problems", "an empty answer or invalid query is not reported: %q", res.Problems)
	}
	if extra == 0 && len(all) > 0 {
		rt.Fail("problems", "problems reported which no source had: %q", all)
	}
	if res.Duration < 0 || int64(res.Duration) > x.m1-x.m0 {
		rt.Fail("duration", "duration %v of a search which took %v", res.Duration, time.Duration(x.m1-x.m0))
	}
}

func traceVal(st *trc.StaticTrace) string {
	var evs []string
	for _, e := range st.Events() {
		evs = append(evs, fmt.Sprint(e.What, e.IsError, len(e.Stack)))
	}
	return fmt.Sprintf("%s %s %s %q %v %v %v %q", st.Started().Format(time.RFC3339Nano), st.ID(), st.Source(), st.Category(), st.Duration(), st.Finished(), st.Errored(), evs)
}

var _ = errors.New
