package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"html/template"
	"io"
	"log"
	"net/http"
	"strings"
	"time"
	"unsafe"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/trcweb"
	simctx "trcsim/context"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C19", Gen: genC19, Run: runC19, Quick: 60000, Race: true, Steps: 2_000_000,
		Notes: append([]string{"race oracle: the Go race detector's happens-before tracking in the instrumented code under test, told about the simulated synchronization; the simulator's own hand-offs are hidden from it, and the standard library's sync.Pool never reuses, so that neither orders accesses of the code under test"}, realTrc...)})
}

const (
	n19slots   = 4
	n19results = 3
)

func genC19(g *G) *Prog {
	p := newProg()
	nt := g.rng(2, 5)
	// a few kinds of calls at a time meet more often than all of them
	var ws [16]int
	full := []int{8, 14, 5, 12, 4, 4, 3, 3, 8, 4, 3, 2, 5, 3, 3, 2}
	for i, w := range full {
		if g.chance(0.55) || i < 2 {
			ws[i] = w
		}
	}
	slots := g.rng(1, n19slots)
	kinds := []int{kindCore, kindColl, kindColl, kindLog, kindEz, kindNoDetail}
	if g.chance(0.4) {
		kinds = kinds[g.n(len(kinds)):][:1]
	}
	kind := func() int { return kinds[g.n(len(kinds))] }
	coll := func() int {
		if k := kind(); k != kindCore {
			return k
		}
		return kindColl
	}
	cats := g.rng(1, 3)
	for i := 0; i < slots; i++ {
		p.add(g.n(nt), Op{K: "new", A: i, B: kind(), C: g.n(cats)})
	}
	n := g.rng(6, 40)
	for i := 0; i < n; i++ {
		t := g.n(nt)
		o := Op{A: g.n(slots), B: g.n(4), C: g.n(cats), D: g.n(6)}
		switch g.weighted(ws[:]...) {
		case 0:
			o.K, o.B = "new", kind()
		case 1:
			o.K = "ev"
		case 2:
			o.K = "fin"
		case 3:
			o.K, o.B = "read", g.n(12)
		case 4:
			o.K = "view"
		case 5:
			o.K, o.B = "max", g.pick(1, 2, 3, 10, 2000)
		case 6:
			o.K, o.B = "gmax", g.pick(1, 2, 5, 1000)
		case 7:
			o.K = "gstacks"
		case 8:
			o.K, o.A, o.B = "search", g.n(n19results), g.pick(coll(), coll(), coll(), 7, 8)
			o.S = g.picks("", "", "", "a", "e.*2", "alpha|beta")
		case 9:
			o.K, o.A, o.B = "consume", g.n(n19results), g.n(6)
		case 10:
			o.K, o.A, o.B = "size", coll(), g.pick(0, 1, 2, 5, 100)
		case 11:
			o.K, o.A, o.B = "stream", coll(), g.pick(0, 0, 1, 5)
			o.C = g.pick(1, 5, 50)
		case 12:
			o.K, o.A, o.B = "http", g.n(3), g.pick(0, 0, 0, 1, 2, 2, 3, 4, 5)
		case 13:
			o.K = "sstats"
		case 14:
			o.K = "cancel"
			o.A = g.n(1 << 10)
		case 15:
			o.K, o.B = "pub", g.n(4)
		}
		p.add(t, o)
	}
	p.Cfg["html"] = g.pick(0, 0, 0, 0, 1)
	p.Cfg["subs"] = g.pick(0, 0, 1, 2)
	return p
}

type slot19 struct {
	ctx context.Context
	tr  trc.Trace
	pub byte
}

type result19 struct {
	res *trc.SearchResponse
	pub byte
}

// pub19 and obtain19 stand for whatever hands a value from one goroutine of an
// application to another.
func pub19(p *byte)    { rt.RaceRelease(unsafe.Pointer(p)) }
func obtain19(p *byte) { rt.RaceAcquire(unsafe.Pointer(p)) }

type sub19 struct {
	ctx    context.Context
	cancel context.CancelFunc
	ch     chan trc.Trace
	kind   int
	pub    byte
}

// null19 is an io.Writer which keeps nothing.
type null19 struct{}

func (null19) Write(p []byte) (int, error) {
	rt.Y(902)
	return len(p), nil
}

type rw19 struct {
	h    http.Header
	code int
	b    []byte
	keep bool
}

func (w *rw19) Header() http.Header { return w.h }
func (w *rw19) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *rw19) Write(p []byte) (int, error) {
	w.WriteHeader(200)
	if w.keep {
		w.b = append(w.b, p...)
	}
	rt.Y(903)
	return len(p), nil
}
func (w *rw19) Flush() { rt.Y(904) }

type client19 struct{ h http.Handler }

func (c client19) Do(r *http.Request) (*http.Response, error) {
	w := &rw19{h: http.Header{}, keep: true}
	r.RemoteAddr = "1.2.3.4:5"
	c.h.ServeHTTP(w, r)
	if w.code == 0 {
		w.code = 200
	}
	return &http.Response{StatusCode: w.code, Header: w.h, Body: io.NopCloser(bytes.NewReader(w.b)), Request: r}, nil
}

type world19 struct {
	p        *Prog
	cols     [5]*trc.Collector
	broker   *trc.Broker
	slots    [n19slots]*slot19
	results  [n19results]*result19
	servers  [3]http.Handler
	multi    trc.MultiSearcher
	client   *trcweb.SearchClient
	filter   trc.Filter
	subs     []*sub19
	children []*rt.Task
	cancels  []*cancel19
}

type cancel19 struct {
	cancel context.CancelFunc
	pub    byte
}

func (w *world19) addCancel(c context.CancelFunc) {
	x := &cancel19{cancel: c}
	pub19(&x.pub)
	w.cancels = append(w.cancels, x)
}

func (c *cancel19) do() {
	obtain19(&c.pub)
	c.cancel()
}

func runC19(p *Prog) {
	w := &world19{p: p, broker: trc.NewBroker()}
	logger := log.New(io.Discard, "", 0)
	w.cols[kindColl] = trc.NewCollector(trc.CollectorConfig{Source: "src", Broker: w.broker})
	w.cols[kindLog] = trc.NewCollector(trc.CollectorConfig{Source: "logsrc", Broker: w.broker, Decorators: []trc.DecoratorFunc{trc.LogDecorator(null19{}), trc.LoggerDecorator(logger)}})
	w.cols[kindEz] = eztrc.Collector()
	w.cols[kindNoDetail] = trc.NewCollector(trc.CollectorConfig{Source: "ndsrc", NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		return trc.New(ctx, source, category, append([]trc.DecoratorFunc{trc.LogDecorator(null19{})}, ds...)...)
	}})
	// one server as made by the constructor, one as made from its fields
	w.servers[0] = trcweb.Middleware(w.cols[kindColl].NewTrace, trcweb.Categorize)(trcweb.NewTraceServer(w.cols[kindColl]))
	w.servers[1] = &trcweb.TraceServer{Collector: w.cols[kindLog]}
	w.servers[2] = eztrc.Middleware(func(r *http.Request) string { return r.Method })(eztrc.Handler())
	w.client = trcweb.NewSearchClient(client19{w.servers[1]}, "peer")
	w.multi = trc.MultiSearcher{w.cols[kindColl], w.cols[kindLog], w.client, w.cols[kindEz]}
	w.filter = trc.Filter{Query: "e[0-9]*2|beta", MinDuration: nil}
	w.filter.Normalize()
	for i := 0; i < p.Cfg["subs"]; i++ {
		w.stream(kindColl, 3, 0)
	}
	var ts []*rt.Task
	for i, ops := range p.Tasks {
		i, ops := i, ops
		ts = append(ts, rt.Spawn(fmt.Sprintf("client%d", i), false, func() {
			for _, o := range ops {
				rt.BeginOp(o.ID)
				w.do(o)
			}
			rt.BeginOp(1 << 20)
		}))
	}
	rt.Join(ts...)
	rt.BeginOp(1<<20 + 1)
	for _, c := range w.cancels {
		c.do()
	}
	for i := 0; i < len(w.children); i++ {
		rt.Join(w.children[i])
	}
	// everything still works, and is not blocked by what went before
	for _, k := range []int{kindColl, kindLog, kindEz, kindNoDetail} {
		_, tr := w.cols[k].NewTrace(context.Background(), "last")
		tr.Tracef("last")
		tr.Finish()
		if _, err := w.cols[k].Search(context.Background(), &trc.SearchRequest{}); err != nil {
			rt.Fail("search", "search at the end failed: %v", err)
		}
	}
	rt.Sleep(int64(time.Hour))
	rt.Quiesce()
	if n := len(rt.SysTasks()); n > 0 {
		rt.Fail("stuck", "%d goroutines of the code under test are still there after all calls returned\n%s", n, rt.Dump())
	}
}

func (w *world19) slot(i int) *slot19 {
	s := w.slots[i%n19slots]
	if s != nil {
		obtain19(&s.pub)
	}
	return s
}

func (w *world19) do(o Op) {
	rt.Note("op %v", o)
	switch o.K {
	case "new":
		s := &slot19{}
		parent := context.Background()
		if o.D == 1 {
			if x := w.slot(o.A + 1); x != nil {
				parent = x.ctx // a context with a trace in it
			}
		}
		switch o.B {
		case kindCore:
			s.ctx, s.tr = trc.New(parent, "core", catNames[o.C])
		case kindEz:
			s.ctx, s.tr = eztrc.New(parent, catNames[o.C])
		default:
			s.ctx, s.tr = w.cols[o.B].NewTrace(parent, catNames[o.C])
		}
		pub19(&s.pub)
		w.slots[o.A] = s
	case "ev":
		s := w.slot(o.A)
		if s == nil {
			return
		}
		w.record(s, o)
	case "fin":
		if s := w.slot(o.A); s != nil {
			s.tr.Finish()
		}
	case "read":
		if s := w.slot(o.A); s != nil {
			w.read(s, o)
		}
	case "view":
		s := w.slot(o.A)
		if s == nil {
			return
		}
		v := &slot19{}
		var fin func()
		switch o.B {
		case 0:
			v.ctx, v.tr = trc.Prefix(s.ctx, "p%d", o.ID)
		case 1:
			v.ctx, v.tr, fin = trc.Region(s.ctx, "region")
		case 2:
			v.ctx, v.tr = trc.Put(context.Background(), s.tr)
		case 3:
			v.ctx, v.tr, fin = eztrc.Region(s.ctx, "r%d")
		}
		v.tr.Tracef("e%d", o.ID)
		if fin != nil {
			fin()
		}
		pub19(&v.pub)
		w.slots[o.A] = v // from now on the others use that, too
	case "max":
		if s := w.slot(o.A); s != nil {
			trc.SetMaxEvents(s.tr, o.B)
		}
	case "gmax":
		trc.SetTraceMaxEvents(o.B)
	case "gstacks":
		trc.SetTraceStacks(o.B%2 == 0)
		if o.B == 3 {
			trcweb.SetSourceLinkFunc(func(fileline string) template.URL { return template.URL("x://" + fileline) })
		}
	case "search":
		var sr trc.Searcher = w.multi
		switch {
		case o.B == 7:
		case o.B == 8:
			sr = w.client
		default:
			sr = w.cols[o.B]
		}
		ctx := context.Background()
		if o.D == 1 {
			if x := w.slot(o.C); x != nil {
				ctx = x.ctx
			}
		}
		req := &trc.SearchRequest{Filter: trc.Filter{Query: o.S, IsErrored: o.D == 2}, Limit: o.ID % 20, StackDepth: o.D - 2}
		res, err := sr.Search(ctx, req)
		if err != nil {
			rt.Fail("search", "%v: %v", o, err)
		}
		_ = req.String()
		if st := res.Stats; st != nil && o.D == 3 {
			// these keep what they computed, and are for the result's owner
			for _, c := range st.AllCategories() {
				c.TotalCount()
				c.TraceRate()
				c.EventRate()
				c.IsZero()
			}
			st.Overall()
		}
		r := &result19{res: res}
		pub19(&r.pub)
		w.results[o.A] = r
	case "consume":
		if r := w.results[o.A]; r != nil {
			obtain19(&r.pub)
			w.consume(r.res, o)
		}
	case "size":
		w.cols[o.A].SetCategorySize(o.B)
	case "stream":
		w.stream(o.A, o.B, int64(o.C)*1e6)
	case "sstats":
		if n := len(w.subs); n > 0 {
			s := w.subs[(o.A+o.D)%n]
			obtain19(&s.pub)
			st, err := w.cols[s.kind].StreamStats(s.ctx, s.ch)
			_, _ = st.String(), err
		}
	case "cancel":
		if n := len(w.cancels); n > 0 {
			rt.Count("fault.cancel", 1)
			w.cancels[o.A%n].do()
		}
	case "pub":
		if s := w.slot(o.A); s != nil {
			w.broker.Publish(s.ctx, s.tr)
			if o.B == 0 {
				f := w.filter // every goroutine its own copy of a prepared filter
				f.Allow(s.tr)
				_ = f.String()
			}
		}
	case "http":
		w.http(o)
	}
}

func (w *world19) record(s *slot19, o Op) {
	format, args := fmt.Sprintf("e%d", o.ID), []any(nil)
	switch o.D {
	case 1:
		format, args = "e%d %s", []any{o.ID, longText}
	case 2:
		format, args = "e%d %v", []any{o.ID, []int{1, 2, 3}}
	case 3:
		format, args = "e%d %v %v", []any{o.ID, errors.New("x"), time.Second}
	}
	f := s.tr.Tracef
	ez := eztrc.Tracef
	switch o.B {
	case 1:
		f, ez = s.tr.LazyTracef, eztrc.LazyTracef
	case 2:
		f, ez = s.tr.Errorf, eztrc.Errorf
	case 3:
		f, ez = s.tr.LazyErrorf, eztrc.LazyErrorf
	}
	switch o.D {
	case 4:
		ez(s.ctx, format, args...)
	case 5:
		trc.Get(s.ctx).Tracef(format, args...)
	default:
		f(format, args...)
	}
}

func (w *world19) read(s *slot19, o Op) {
	tr := s.tr
	if o.D == 5 {
		tr, _ = trc.MaybeGet(s.ctx)
	}
	switch o.B {
	case 0:
		_ = tr.ID() + tr.Source() + tr.Category()
	case 1:
		_ = tr.Started()
	case 2:
		_ = tr.Duration()
	case 3:
		_ = tr.Finished()
	case 4:
		_ = tr.Errored()
	case 5, 6, 7:
		for _, ev := range tr.Events() {
			for _, fr := range ev.Stack {
				_ = fr.CompactFileLine()
			}
			json.Marshal(ev)
		}
	case 8, 9:
		st := trc.NewSearchTrace(tr)
		st.TrimStacks(o.D - 2)
		json.Marshal(st)
	case 10:
		json.Marshal(trc.NewStreamTrace(tr))
	case 11:
		ss := trc.NewSearchStats(nil)
		ss.Observe(tr)
	}
}

// consume reads a search response which others may be reading, too.
func (w *world19) consume(res *trc.SearchResponse, o Op) {
	switch o.B {
	case 0, 1:
		json.Marshal(res)
	case 2:
		if st := res.Stats; st != nil {
			st.IsZero()
		}
	case 3:
		own := trc.NewSearchStats(nil)
		own.Merge(res.Stats)
		for _, t := range res.Traces {
			own.Observe(t)
		}
	case 4:
		f := w.filter
		for _, t := range res.Traces {
			f.Allow(t)
			t.Events()
			t.Tracef("no effect")
			t.Finish()
		}
	case 5:
		trc.MultiSearcher{fixed19{res}, w.cols[kindColl], fixed19{res}}.Search(context.Background(), &trc.SearchRequest{Limit: 3, StackDepth: o.D - 2})
	}
}

// fixed19 is a searcher with a copy of somebody's result.
type fixed19 struct{ res *trc.SearchResponse }

func (f fixed19) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	b, err := json.Marshal(f.res)
	if err != nil {
		return nil, err
	}
	var r trc.SearchResponse
	err = json.Unmarshal(b, &r)
	return &r, err
}

func (w *world19) stream(kind, buf int, d int64) {
	var (
		ctx    context.Context
		cancel context.CancelFunc
	)
	if d > 0 {
		ctx, cancel = simctx.WithTimeout(context.Background(), time.Duration(d))
	} else {
		ctx, cancel = simctx.WithCancel(context.Background())
	}
	s := &sub19{ctx: ctx, cancel: cancel, ch: rt.Reg(make(chan trc.Trace, buf)), kind: kind}
	pub19(&s.pub)
	w.subs = append(w.subs, s)
	w.addCancel(cancel)
	done := rt.Reg(make(chan struct{}))
	w.children = append(w.children, rt.Spawn("subscriber", false, func() {
		st, _ := w.cols[kind].Stream(ctx, trc.Filter{Query: []string{"", "e"}[buf%2]}, s.ch)
		_ = st.String()
		rt.Close(done)
	}))
	w.children = append(w.children, rt.Spawn("reader", false, func() {
		for {
			r, e := rt.CaseRecv[trc.Trace](s.ch), rt.CaseRecv[struct{}](done)
			if rt.Select(false, r, e) == 1 {
				return
			}
			json.Marshal(r.Val)
			r.Val.Events()
			rt.Count("probe.received", 1)
		}
	}))
}

func (w *world19) http(o Op) {
	h := w.servers[o.A]
	d := time.Duration([]int{1, 20, 1500, 5000}[o.C%4]) * time.Millisecond
	ctx, cancel := simctx.WithTimeout(context.Background(), d)
	defer cancel()
	q := []string{"", "?q=e&n=2", "?category=alpha&stack=1", "?q=%28", "?min=1ms&finished=true", "?b=0s&b=1s&errored=true"}[o.D]
	hdr, body := map[string]string{"Accept": "application/json"}, ""
	switch o.B {
	case 1:
		if w.p.Cfg["html"] == 0 {
			return
		}
		hdr["Accept"] = "text/html"
	case 2:
		hdr["Accept"] = "text/event-stream"
		q += "&stats=1s&sendbuf=1"
		if !strings.HasPrefix(q, "?") {
			q = "?" + q[1:]
		}
		w.addCancel(cancel)
	case 3:
		hdr["Content-Type"], body = "application/json", `{"limit":3,"filter":{"query":"e"}}`
	case 4:
		hdr["Content-Type"], body = "application/json", `{"limit":`
	case 5:
		delete(hdr, "Accept")
	}
	r, err := http.NewRequestWithContext(ctx, "GET", "http://host/traces"+q, strings.NewReader(body))
	if err != nil {
		panic(err)
	}
	r.RemoteAddr = "1.2.3.4:5"
	for _, k := range []string{"Accept", "Content-Type"} {
		if v := hdr[k]; v != "" {
			r.Header.Set(k, v)
		}
	}
	h.ServeHTTP(&rw19{h: http.Header{}}, r)
	rt.Count("probe.http_requests", 1)
}
