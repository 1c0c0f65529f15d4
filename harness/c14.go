package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	simctx "trcsim/context"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C14", Gen: genC14, Run: runC14, Quick: 60000, Notes: append([]string{
		"real: trcweb.SearchClient, trcweb.TraceServer, trcweb.Middleware, net/http's Client, request parsing and encoding/json",
		"stand-in: the network and the HTTP server's connection handling (simulated RoundTripper with latency, flow control and faults), a searcher which passes requests on to the real collector, late or failing"}, realTrc...)})
}

var texts14 = []string{"plain", "<b>&amp;\"quoted\"</b>", "tab\tand\nnewline\r", "null\x00byte", "\u2028\u2029 separators", "日本語 🙂", `back\slash %d %s`, strings.Repeat("long text ", 600), ""}

func genC14(g *G) *Prog {
	p := newProg()
	p.Cfg["mw"] = g.n(3)
	p.Cfg["latency"] = g.pick(0, 1, 1, 20) // ms
	p.Cfg["window"] = g.pick(1<<16, 1<<16, 100, 5000)
	p.Cfg["how"] = g.n(3) // how the server is configured
	n := g.rng(1, 8)
	if g.chance(0.04) {
		n = 60
	}
	if g.chance(0.004) { // more than a MB
		p.add(0, Op{K: "new", A: 0, B: kindColl, C: 0})
		p.add(0, Op{K: "text", A: 0, B: 7, C: g.n(2), D: g.pick(20, 200, 900)})
	}
	nt := g.rng(0, 1)
	for i := 0; i < n; i++ {
		switch g.n(6) {
		case 0, 1:
			p.add(0, Op{K: "new", A: g.n(6), B: g.pick(kindColl, kindColl, kindColl, kindNoDetail), C: g.n(8)})
		case 2, 3:
			p.add(0, Op{K: "text", A: g.n(6), B: g.n(len(texts14)), C: g.n(2)})
		case 4:
			p.add(0, Op{K: "fin", A: g.n(6)})
		case 5:
			p.add(0, Op{K: "adv", A: g.rng(1, 9), B: g.n(9)})
		}
	}
	if nt == 1 {
		for i := g.rng(1, 8); i > 0; i-- {
			switch g.n(4) {
			case 0:
				p.add(1, Op{K: "new", A: g.n(6), B: kindColl, C: g.n(8)})
			case 1:
				p.add(1, Op{K: "text", A: g.n(6), B: g.n(len(texts14)), C: g.n(2)})
			case 2:
				p.add(1, Op{K: "fin", A: g.n(6)})
			case 3:
				p.add(1, Op{K: "sleep", A: g.pick(1, 1, 2, 10, 40)})
			}
		}
	}
	clients := g.rng(1, 3)
	for t := 2; t < 2+clients; t++ {
		for i := g.rng(1, 2); i > 0; i-- {
			switch g.weighted(10, 2, 2, 1) {
			case 0:
				f := Op{K: "cond", A: nfNone, C: -1}
				if g.chance(0.4) {
					f.A = g.n(nfKinds)
					f.B = g.pick(-1, -2, 0, 1, g.n(100), g.n(2000), g.n(20000), -100-g.n(300))
					if f.A == nfStatus {
						f.B = g.pick(100, 101, 201, 202, 203, 204, 206, 301, 302, 304, 307, 400, 401, 404, 429, 500, 502, 503, 504, 599)
						if f.B < 200 {
							f.B = 502
						}
					}
				}
				if g.chance(0.25) {
					f.C = g.pick(0, 1, 1, 2, 3, 5, 20, 21, 40, 41, 200)
				}
				if f.A == nfStall && f.C < 0 {
					f.C = g.pick(1, 50, 5000, 3600_000)
				}
				if g.chance(0.25) {
					f.D = 1 + g.n(srchKinds-1)
				}
				p.add(t, f)
				o := genSearch(g, 0)
				if g.chance(0.03) {
					o.S = strings.Repeat("x", 100) // repeated to more than 1 MB
				} else if g.chance(0.03) {
					o.S = strings.Repeat("y", 101) // large, but not too large
				}
				p.add(t, o)
			case 1:
				o := Op{K: "web", A: g.n(1 << 12), B: g.n(1 << 12), C: g.n(1 << 12), D: g.n(1 << 12)}
				p.add(t, o)
			case 2:
				p.add(t, Op{K: "bad", A: g.n(len(badBodies)), B: g.n(len(badQueries)), C: g.n(5), D: g.n(4)})
			case 3:
				p.add(t, Op{K: "crash", A: g.pick(0, 1, 2, 20), B: g.pick(0, 1, 50)})
			}
		}
	}
	return p
}

var badBodies = []string{"", "{", "[]", "null", "7", `{"limit":"x"}`, `{"filter":{"min_duration":"1s"}}`, "\xff\xfe", `{"bucketing":[null,-5,0,0,9223372036854775807]}`, `{"limit":-9223372036854775808,"stack_depth":-7}`, `{"limit":1e99}`, `{"filter":{"query":"(("}}`, `{"filter":{"query":"` + strings.Repeat("a", 1<<20) + `"}}`, `{"stack_depth":99999999}`, `{"bucketing":[]}`, `{} trailing`, `{"filter":null}`}
var badQueries = []string{"", "n=x", "n=-1", "n=99999999999999999999", "b=1s&b=x&b=-5s", "b=x", "b=", "b=-1s", "min=x", "min=", "q=((", "q=%zz", "stack=x", "stack=-9", "source=", "id=&id=", "json", "json=false&q=((&n=0", "b=0s&b=0s", "stack=-9223372036854775808", "category=%00", "finished&active&success&errored", ";;;", "stats=x"}

const (
	srchReal = iota
	srchSlow
	srchErr
	srchNil
	srchBoth
	srchNoStats
	srchKinds
)

// recSearcher is the server's searcher: it records what it is asked and what
// it answers.
type recSearcher struct {
	real trc.Searcher
	kind int // how it behaves, unless the call says so
	recs map[*simConn][]*answer
}

func (s *recSearcher) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	c, _ := ctx.Value(connKey{}).(*simConn)
	if c == nil {
		rt.Fail("context", "the searcher was called with a context which is not derived from the request's")
	}
	rq := *req
	rq.Bucketing = append([]time.Duration(nil), req.Bucketing...)
	a := &answer{win: begin(), req: &rq}
	s.recs[c] = append(s.recs[c], a)
	cc, _ := c.req.Context().Value(clientKey{}).(*clientCall)
	kind := s.kind
	if cc != nil {
		kind = cc.searcher
	}
	var res *trc.SearchResponse
	var err error
	switch kind {
	case srchErr:
		err = errors.New("the searcher is broken")
		rt.Count("fault.searcher_error", 1)
	case srchNil:
		rt.Count("fault.searcher_answers_nothing", 1)
	default:
		if kind == srchSlow {
			rt.Count("fault.slow_searcher", 1)
			rt.Sleep(30e6)
		}
		res, err = s.real.Search(ctx, req)
		if kind == srchBoth && res != nil {
			res.Problems = append(res.Problems, "one problem", "another <problem>")
		}
		if kind == srchNoStats {
			res.Stats = nil
			res.Traces = nil
		}
	}
	a.res, a.err = res, err
	if res != nil {
		cp := *res
		cp.Problems = append([]string(nil), res.Problems...)
		a.copy = &cp
	}
	a.end()
	a.done = true
	return res, err
}

func sameRequest(want, got *trc.SearchRequest) string {
	a, b := *want, *got
	a.Bucketing = append([]time.Duration(nil), a.Bucketing...)
	b.Bucketing = append([]time.Duration(nil), b.Bucketing...)
	a.Normalize()
	b.Normalize()
	if fmt.Sprint(a.Bucketing) != fmt.Sprint(b.Bucketing) {
		return fmt.Sprintf("bucketing %v instead of %v", b.Bucketing, a.Bucketing)
	}
	if a.Limit != b.Limit || a.StackDepth != b.StackDepth {
		return fmt.Sprintf("limit %d and stack depth %d instead of %d and %d", b.Limit, b.StackDepth, a.Limit, a.StackDepth)
	}
	return sameFilter(a.Filter, b.Filter)
}

func sameFilter(a, b trc.Filter) string {
	if fmt.Sprintf("%q", a.Sources) != fmt.Sprintf("%q", b.Sources) || fmt.Sprintf("%q", a.IDs) != fmt.Sprintf("%q", b.IDs) || a.Category != b.Category || a.IsActive != b.IsActive || a.IsFinished != b.IsFinished || a.IsErrored != b.IsErrored || a.IsSuccess != b.IsSuccess || a.Query != b.Query {
		return fmt.Sprintf("filter %+v instead of %+v", b, a)
	}
	if (a.MinDuration == nil) != (b.MinDuration == nil) || a.MinDuration != nil && *a.MinDuration != *b.MinDuration {
		return "another minimal duration"
	}
	return ""
}

func sameTrace(a, b trc.Trace) string {
	if a.ID() != b.ID() || a.Source() != b.Source() || a.Category() != b.Category() {
		return fmt.Sprintf("trace %s (%q, %q) instead of %s (%q, %q)", b.ID(), b.Source(), b.Category(), a.ID(), a.Source(), a.Category())
	}
	if !a.Started().Equal(b.Started()) || a.Duration() != b.Duration() || a.Finished() != b.Finished() || a.Errored() != b.Errored() {
		return fmt.Sprintf("trace %s with start %v duration %v finished %v errored %v instead of %v %v %v %v", a.ID(), b.Started(), b.Duration(), b.Finished(), b.Errored(), a.Started(), a.Duration(), a.Finished(), a.Errored())
	}
	ea, eb := a.Events(), b.Events()
	if len(ea) != len(eb) {
		return fmt.Sprintf("trace %s with %d events instead of %d", a.ID(), len(eb), len(ea))
	}
	for i := range ea {
		x, y := ea[i], eb[i]
		if x.What != y.What || x.IsError != y.IsError || !x.When.Equal(y.When) || len(x.Stack) != len(y.Stack) {
			return fmt.Sprintf("trace %s with event %v %q (error %v, %d frames) instead of %v %q (error %v, %d frames)", a.ID(), y.When, clip(y.What, 100), y.IsError, len(y.Stack), x.When, clip(x.What, 100), x.IsError, len(x.Stack))
		}
		for j := range x.Stack {
			if x.Stack[j] != y.Stack[j] {
				return fmt.Sprintf("trace %s with frame %v instead of %v", a.ID(), y.Stack[j], x.Stack[j])
			}
		}
	}
	return ""
}

func sameResponse(a, b *trc.SearchResponse) string {
	if fmt.Sprintf("%q", a.Sources) != fmt.Sprintf("%q", b.Sources) {
		return fmt.Sprintf("sources %q instead of %q", b.Sources, a.Sources)
	}
	if a.TotalCount != b.TotalCount || a.MatchCount != b.MatchCount || len(a.Traces) != len(b.Traces) {
		return fmt.Sprintf("total %d, match %d, %d traces instead of %d, %d, %d", b.TotalCount, b.MatchCount, len(b.Traces), a.TotalCount, a.MatchCount, len(a.Traces))
	}
	if (a.Stats == nil) != (b.Stats == nil) {
		return "statistics only on one side"
	}
	if a.Stats != nil {
		if d := sameStats(a.Stats, b.Stats); d != "" {
			return "statistics: " + d
		}
		if fmt.Sprint(a.Stats.Bucketing) != fmt.Sprint(b.Stats.Bucketing) {
			return "another bucketing"
		}
	}
	for i := range a.Traces {
		if d := sameTrace(a.Traces[i], b.Traces[i]); d != "" {
			return d
		}
	}
	return ""
}

func uniq(ss []string) []string {
	m := map[string]bool{}
	var r []string
	for _, s := range ss {
		if !m[s] {
			m[s] = true
			r = append(r, s)
		}
	}
	sort.Strings(r)
	return r
}

func runC14(p *Prog) {
	w := newTW(p)
	n := newNet()
	rec := &recSearcher{real: w.cols[kindColl], recs: map[*simConn][]*answer{}}
	srv := &trcweb.TraceServer{Collector: w.cols[kindColl], Searcher: rec}
	var handler http.Handler = srv
	switch p.Cfg["mw"] {
	case 1:
		handler = trcweb.Middleware(w.cols[kindColl].NewTrace, trcweb.Categorize)(srv)
	case 2:
		handler = trcweb.Middleware(w.cols[kindLog].NewTrace, func(*http.Request) string { return "web" })(srv)
	}
	h := n.host("server", handler)
	h.latency = int64(p.Cfg["latency"]) * 1e6
	h.window = p.Cfg["window"]
	shared := trcweb.NewSearchClient(&http.Client{Transport: n}, "server")
	ntasks := len(p.Tasks)
	crashes := 0
	conds := map[int]Op{}
	reuse := make([]trc.SearchRequest, ntasks) // requests used several times
	// the first task fills the collector
	run := func(task int, o Op) bool {
		switch o.K {
		case "text":
			if t := w.slots[o.A]; t != nil {
				txt := texts14[o.B]
				if o.D > 0 {
					txt = strings.Repeat(txt, o.D)
				}
				if o.C == 1 {
					t.tr.Errorf("%s", txt)
				} else {
					t.tr.LazyTracef("%s", txt)
				}
			}
		case "sleep":
			rt.Sleep(int64(o.A) * 1e6)
		case "cond":
			conds[task] = o
		case "crash":
			rt.Sleep(int64(o.A) * 1e6)
			crashes++
			rt.Count("fault.server_crash", 1)
			h.down = true
			n.crash(h)
			rt.Sleep(int64(o.B) * 1e6)
			h.down = false
		case "srch":
			w.remoteSearch(n, h, rec, shared, conds[task], o, &reuse[task])
			delete(conds, task)
		case "web":
			w.webSearch(n, rec, o)
		case "bad":
			w.badSearch(n, o)
		default:
			return false
		}
		return true
	}
	if ntasks > 0 {
		for _, o := range p.Tasks[0] {
			rt.BeginOp(o.ID)
			if !run(0, o) {
				w.do(0, o)
			}
		}
		rest := *p
		rest.Tasks = append([][]Op{nil}, p.Tasks[1:]...)
		w.p = &rest
		w.runTasks(run)
	}
	// once things have settled nothing is left open
	settle(10e9)
	n.checkPanics()
	for _, c := range n.open() {
		rt.Fail("left-open", "%v is still open although its search has returned", c)
	}
	for _, c := range n.conns {
		if c.started && !c.ended {
			rt.Fail("unanswered", "%v is still being handled", c)
		}
	}
	for _, t := range rt.SysTasks() {
		rt.Fail("left-running", "task %q is left running: %s", t.Name, t.Why())
	}
}

func (w *tw) remoteSearch(n *simNet, h *simHost, rec *recSearcher, client *trcweb.SearchClient, cond, o Op, reuse *trc.SearchRequest) {
	f := w.spec(o, "src")
	depth := []int{0, 0, -1, 1, 3}[o.C%5]
	mk := func() *trc.SearchRequest {
		q := &trc.SearchRequest{Filter: f.filter(), Limit: o.B, StackDepth: depth, Bucketing: append([]time.Duration(nil), bucketings[o.C/5%len(bucketings)]...)}
		if len(o.S) == 100 {
			q.Filter.Query = strings.Repeat(o.S, 11000)
		}
		if len(o.S) == 101 {
			q.Filter.Query = "^" + strings.Repeat(o.S, 1000)
		}
		return q
	}
	req := mk()
	if o.C%3 != 0 {
		*reuse = *req
		req = reuse
	}
	cc := &clientCall{}
	if cond.K != "" {
		cc.fault = netFault{kind: cond.A, at: cond.B}
		cc.searcher = cond.D
		if cc.fault.at <= -100 { // in terms of the end
			cc.fault.at = 1 << 30
			cc.fromEnd = -cond.B - 99
		}
	}
	ctx := context.WithValue(context.Background(), clientKey{}, cc)
	var tr trc.Trace
	if o.C%2 == 1 {
		ctx, tr = trc.New(ctx, "client", "search")
	}
	ctx, cancel := simctx.WithCancel(ctx)
	var cancelAt int64 = -1
	if cond.K != "" && cond.C >= 0 {
		rt.AddTimer(int64(cond.C)*1e6, func() {
			if cancelAt == -1 {
				cancelAt = rt.Mono()
				cancel()
			}
		})
	}
	x := begin()
	res, err := client.Search(ctx, req)
	x.end()
	cancelled := cancelAt >= 0
	late := cancelAt
	cancelAt = -2
	if cancelled && x.m1-late > 1e9 && rt.Prompt() {
		rt.Fail("late", "a search returned %v after it was cancelled", time.Duration(x.m1-late))
	}
	rt.Note("search %v: error %v; conns %d", f, err, len(cc.conns))
	if (err == nil) != (res != nil) {
		rt.Fail("result", "a search returned %v and error %v", res, err)
	}
	if len(cc.conns) > 1 {
		rt.Fail("repeated", "one search made %d requests", len(cc.conns))
	}
	for _, c := range cc.conns {
		if c.hdrUp && !c.closed && c.broken == nil && !c.done {
			rt.Fail("left-open", "the search returned (error %v), but %v is still open", err, c)
		}
	}
	var c *simConn
	if len(cc.conns) == 1 {
		c = cc.conns[0]
	}
	var a *answer
	if c != nil {
		as := rec.recs[c]
		if len(as) > 1 {
			rt.Fail("repeated", "the server ran the search %d times", len(as))
		}
		if len(as) == 1 {
			a = as[0]
			if d := sameRequest(mk(), a.req); d != "" {
				rt.Fail("request", "the server searched for something else than the client: %s", d)
			}
		}
	}
	oversize := len(o.S) == 100
	if err != nil {
		if tr != nil && !tr.Errored() {
			rt.Count("probe.client_trace_not_errored", 1)
		}
		switch {
		case cancelled, c == nil, c.struck, c.broken != nil, c.h.down, c.refused, oversize:
		case a != nil && (a.err != nil || a.res == nil):
			rt.Count("probe.searcher_failure_reported", 1)
		default:
			rt.Fail("error", "a search failed although nothing went wrong: %v", err)
		}
		rt.Count("probe.search_failed", 1)
		return
	}
	// a result must be the exact result
	if a == nil || !a.done {
		rt.Fail("invented", "a search gave a result (total %d) without the server's searcher having answered", res.TotalCount)
	}
	if a.err != nil || a.res == nil {
		rt.Fail("masked", "the server's searcher failed (%v), but the client got a result", a.err)
	}
	if d := sameResponse(a.copy, res); d != "" {
		rt.Fail("altered", "the result differs from what the searcher returned: %s", d)
	}
	var problems []string
	for _, e := range mk().Normalize() {
		problems = append(problems, e.Error())
	}
	problems = append(problems, a.copy.Problems...)
	if fmt.Sprintf("%q", uniq(problems)) != fmt.Sprintf("%q", uniq(res.Problems)) {
		rt.Fail("problems", "the result has problems %q instead of %q", res.Problems, problems)
	}
	rt.Count("probe.results_compared", 1)
	if len(res.Traces) > 0 {
		rt.Count("probe.results_with_traces", 1)
	}
	if cancelled || c.struck {
		rt.Count("probe.result_despite_fault", 1)
	}
}

// webSearch makes a search like a browser or curl does.
func (w *tw) webSearch(n *simNet, rec *recSearcher, o Op) {
	q := url.Values{}
	want := trc.SearchRequest{Limit: trc.SearchLimitDefault}
	bit := func(k int) bool { return o.A>>k&1 == 1 }
	flag := func(k int) string { return []string{"true", "", "1", "yes"}[o.B>>(2*k)&3] }
	if bit(0) {
		q.Add("source", "src")
		q.Add("source", "a&b=c")
		want.Filter.Sources = []string{"src", "a&b=c"}
	}
	if bit(1) && len(w.traces) > 0 {
		id := w.traces[o.D%len(w.traces)].id
		q.Add("id", id)
		want.Filter.IDs = []string{id}
	}
	if bit(2) {
		want.Filter.Category = catNames[o.B%len(catNames)]
		q.Set("category", want.Filter.Category)
	}
	if bit(3) {
		q.Set("active", flag(0))
		want.Filter.IsActive = true
	}
	if bit(4) {
		q.Set("finished", flag(1))
		want.Filter.IsFinished = true
	}
	if bit(5) {
		q.Set("success", flag(2))
		want.Filter.IsSuccess = true
	}
	if bit(6) {
		q.Set("errored", flag(3))
		want.Filter.IsErrored = true
	}
	if bit(7) {
		d := []time.Duration{0, time.Nanosecond, 1500 * time.Millisecond, time.Hour}[o.B/3%4]
		q.Set("min", d.String())
		want.Filter.MinDuration = &d
	}
	if bit(8) {
		want.Filter.Query = fqueries[o.D/3%len(fqueries)]
		q.Set("q", want.Filter.Query)
	}
	if bit(9) {
		want.Limit = []int{1, 7, 250}[o.C%3]
		q.Set("n", strconv.Itoa(want.Limit))
	}
	if bit(10) {
		want.StackDepth = []int{0, -1, 5}[o.C/3%3]
		q.Set("stack", strconv.Itoa(want.StackDepth))
	}
	if bit(11) {
		want.Bucketing = []time.Duration{time.Second, 10 * time.Millisecond}
		for _, b := range want.Bucketing {
			q.Add("b", b.String())
		}
	}
	accept := []string{"", "*/*", "application/json", "text/plain, application/json;q=0.9", ""}[o.C/9%5]
	html := o.C/50%10 == 0
	if html {
		accept = "text/html,application/xhtml+xml,application/xml;q=0.9,*/*;q=0.8"
	}
	hd := map[string]string{}
	if accept != "" {
		hd["accept"] = accept
	}
	r := rawRequest(context.Background(), "GET", "server", q.Encode(), "", hd)
	res, err := (&http.Client{Transport: n}).Do(r)
	if err != nil {
		return // server down
	}
	c := n.connOf(r)
	body, rerr := io.ReadAll(res.Body)
	res.Body.Close()
	if rerr != nil || c.broken != nil {
		return
	}
	as := rec.recs[c]
	if len(as) != 1 {
		rt.Fail("repeated", "the server ran %d searches for one request", len(as))
	}
	if d := sameRequest(&want, as[0].req); d != "" {
		rt.Fail("request", "the server searched for something else than asked with %q: %s", q.Encode(), d)
	}
	if res.StatusCode != 200 {
		rt.Fail("error", "status %d for %s", res.StatusCode, q.Encode())
	}
	if html {
		if !strings.HasPrefix(res.Header.Get("content-type"), "text/html") {
			rt.Fail("content-type", "a browser got %q", res.Header.Get("content-type"))
		}
		for _, st := range as[0].res.Traces {
			if !strings.Contains(string(body), st.ID()) {
				rt.Fail("altered", "trace %s is missing on the page", st.ID())
			}
		}
		rt.Count("probe.html_pages", 1)
		return
	}
	var data trcweb.SearchData
	if err := json.Unmarshal(body, &data); err != nil {
		rt.Fail("altered", "not a JSON response: %v", err)
	}
	if d := sameResponse(as[0].copy, &data.Response); d != "" {
		rt.Fail("altered", "the result differs from what the searcher returned: %s", d)
	}
	rt.Count("probe.web_results_compared", 1)
}

func (w *tw) badSearch(n *simNet, o Op) {
	hd := map[string]string{}
	if v := []string{"", "application/json", "text/html", ";;,=", "application/json;q=x,text/html"}[o.C]; v != "" {
		hd["accept"] = v
	}
	body := ""
	if o.D%2 == 0 {
		hd["content-type"] = "application/json"
		body = badBodies[o.A]
	}
	r := rawRequest(context.Background(), []string{"GET", "POST", "PUT", "GET"}[o.D], "server", badQueries[o.B], body, hd)
	res, err := (&http.Client{Transport: n}).Do(r)
	if err != nil {
		return
	}
	c := n.connOf(r)
	b, err := io.ReadAll(res.Body)
	res.Body.Close()
	if err != nil || c.broken != nil {
		return
	}
	rt.Count("probe.odd_requests", 1)
	var x trc.SearchRequest
	if o.D%2 == 0 && json.NewDecoder(strings.NewReader(body)).Decode(&x) != nil && res.StatusCode < 400 {
		rt.Fail("masked", "a malformed request %q is answered with status %d: %s", clip(body, 100), res.StatusCode, clip(string(b), 200))
	}
	if res.StatusCode >= 500 {
		rt.Fail("error", "request %q, body %q is answered with status %d: %s", badQueries[o.B], clip(body, 100), res.StatusCode, clip(string(b), 200))
	}
}
