package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	simctx "trcsim/context"
	"trcsim/rt"
)

// Remote streams: the world of C15 and C16. A server process (an incarnation)
// is a world of traces with a collector, served by the real handlers over the
// simulated network; it may crash and come back empty.

func init() {
	notes := append([]string{
		"real: trcweb.StreamClient, trcweb.TraceServer, trcweb.Middleware, bernerdschaefer/eventsource, net/http's Client, encoding/json",
		"stand-in: the network and the HTTP server's connection handling (simulated RoundTripper with latency, flow control and faults)"}, realTrc...)
	register(&Scenario{ID: "C15", Gen: genC15, Run: func(p *Prog) { runStream(p, "C15") }, Quick: 60000, Steps: 3_000_000, Notes: notes})
	register(&Scenario{ID: "C16", Gen: genC16, Run: func(p *Prog) { runStream(p, "C16") }, Quick: 60000, Steps: 3_000_000, Notes: notes})
}

var streamTexts = []string{"x", "multi\nline\r\n\ntext", "data: fake\n\nevent: stats\ndata: {}\n\n", "日本語 🙂 \u2028", "<b>&", strings.Repeat("long ", 900), ": comment", "id: 7\nretry: 1"}

func genStreamOps(g *G, p *Prog, t, n, slots int) {
	kinds := []int{kindColl, kindColl, kindColl, kindLog, kindNoDetail}
	for i := 0; i < n; i++ {
		s := g.n(slots)
		switch g.weighted(5, 12, 5, 2, 5) {
		case 0:
			p.add(t, Op{K: "new", A: s, B: kinds[g.n(len(kinds))], C: g.n(8)})
		case 1:
			p.add(t, Op{K: "ev", A: s, B: g.n(4), C: g.pick(0, 0, 0, 1, 2), D: g.pick(0, 1, 11)})
		case 2:
			p.add(t, Op{K: "fin", A: s})
		case 3:
			p.add(t, Op{K: "burst", A: s, B: g.pick(3, 10, 30, 150), C: g.n(len(streamTexts))})
		case 4:
			p.add(t, Op{K: "sleep", A: g.pick(1, 5, 50, 500, 1000, 3000, 12000)})
		}
	}
}

func genChaos(g *G, p *Prog, t, n, clients int) {
	for i := 0; i < n; i++ {
		kind := g.weighted(4, 3, 4, 2, 6)
		if kind != 4 || g.chance(0.3) {
			p.add(t, Op{K: "sleep", A: g.pick(0, 1, 2, 10, 100, 1000, 2000, 3000, 5000, 15000)})
		}
		switch kind {
		case 0: // server is down for a while
			p.add(t, Op{K: "down", A: g.pick(1, 500, 3000, 20000), B: g.n(2)})
		case 1:
			p.add(t, Op{K: "part", A: g.pick(1, 500, 3000, 20000, 100000), B: g.n(5)})
		case 2:
			p.add(t, Op{K: "cut"})
		case 3:
			p.add(t, Op{K: "stat", A: g.pick(500, 502, 503, 504), B: g.pick(10, 3000, 10000)})
		case 4:
			p.add(t, Op{K: "plan", A: g.pick(nfRefuse, nfReset, nfCut, nfEOF, nfSlow, nfReset, nfCut, nfEOF), B: g.pick(-1, -2, 0, 1, 10, g.n(300), g.n(3000))})
		}
	}
}

func genStreamCommon(g *G, p *Prog) {
	p.Cfg["mw"] = g.n(3)
	p.Cfg["latency"] = g.pick(0, 1, 1, 20, 300) // ms
	p.Cfg["window"] = g.pick(1<<16, 1<<16, 1<<16, 300, 5000)
}

// genAgain uses a client a second time.
func genAgain(g *G, p *Prog, task, i int, leave float64) {
	if g.chance(0.6) {
		return
	}
	o := Op{K: "again", B: 10 + i, C: g.n(1 << 16)}
	if g.chance(0.6) {
		genFilter(g, &o)
	}
	p.add(task, o)
	if g.chance(leave) {
		p.add(task, Op{K: "sleep", A: g.pick(0, 1, 20, 3000)})
		p.add(task, Op{K: "cancel", B: 10 + i})
	}
}

func genC15(g *G) *Prog {
	p := newProg()
	genStreamCommon(g, p)
	nc := g.rng(1, 3)
	p.Cfg["clients"] = nc
	for i := 0; i < nc; i++ {
		o := Op{K: "client", B: i, C: g.n(1 << 16)}
		if g.chance(0.6) {
			genFilter(g, &o)
		}
		if g.chance(0.3) {
			p.add(1+i, Op{K: "sleep", A: g.pick(1, 100, 2000)})
		}
		p.add(1+i, o)
		if g.chance(0.25) {
			p.add(1+i, Op{K: "sleep", A: g.pick(0, 1, 2, 20, 1000, 3000, 7000, 30000)})
			p.add(1+i, Op{K: "cancel", B: i})
			genAgain(g, p, 1+i, i, 0.2)
		}
		if g.chance(0.06) {
			p.add(1+i, Op{K: "reject", A: g.pick(400, 403, 404, 410, 201, 301), B: g.pick(1, 4000)})
		}
	}
	if g.chance(0.7) {
		genChaos(g, p, 0, g.rng(1, 4), nc)
	}
	for t := 1 + nc; t < 1+nc+g.rng(1, 2); t++ {
		genStreamOps(g, p, t, g.rng(4, 22), 4)
	}
	return p
}

func genC16(g *G) *Prog {
	p := newProg()
	genStreamCommon(g, p)
	nc := g.rng(0, 2)
	p.Cfg["clients"] = nc
	for i := 0; i < nc; i++ {
		o := Op{K: "client", B: i, C: g.n(1 << 16)}
		if g.chance(0.4) {
			genFilter(g, &o)
		}
		p.add(1+i, o)
		if g.chance(0.8) {
			p.add(1+i, Op{K: "sleep", A: g.pick(0, 1, 2, 3, 20, 300, 1000, 3000, 7000, 30000)})
			p.add(1+i, Op{K: "cancel", B: i})
			genAgain(g, p, 1+i, i, 0.6)
		}
		if g.chance(0.1) {
			p.add(1+i, Op{K: "reject", A: g.pick(400, 403, 404, 204, 200), B: g.pick(1, 4000)})
		}
	}
	if g.chance(0.5) {
		genChaos(g, p, 0, g.rng(1, 3), nc)
	}
	t := 1 + nc
	for k := g.rng(1, 3); k > 0; k-- {
		o := Op{K: "raw", A: g.n(1 << 12), B: g.pick(-1, -1, 0, 1, 30, 150, 1000, 3000), C: g.pick(0, 1, 2, 20, 100, 1000, 2500, 11000, 65000), D: g.n(1 << 12)}
		p.add(t, o)
		if g.chance(0.3) {
			p.add(t, Op{K: "sleep", A: g.pick(1, 1000)})
		}
		if g.chance(0.7) {
			t++
		}
	}
	t++
	genStreamOps(g, p, t, g.rng(2, 14), 3)
	return p
}

// incarnation of the server process.
type incarnation struct {
	i       int
	w       *tw
	shadows map[int]*shadow
	handler http.Handler
	conns   []*sconn
}

// shadow is a local subscription with the filter of a client, which sees
// everything from before the client connects.
type shadow struct {
	ch  chan trc.Trace
	got []*trc.StaticTrace
	up  bool
}

// sconn is the server's side of a stream.
type sconn struct {
	c        *simConn
	inc      *incarnation
	f        trc.Filter
	ch       chan<- trc.Trace
	own      string // ID of the request's trace
	inv, ret int64
	retAt    int64
	up       int64 // surely subscribed
	stats    trc.StreamStats
	polled   []trc.StreamStats
	polledAt []int64
}

// tapStreamer is the server's streamer: the collector's, with a record kept.
type tapStreamer struct {
	inc *incarnation
	sw  *sworld
}

func (s *tapStreamer) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	c, _ := ctx.Value(connKey{}).(*simConn)
	if c == nil {
		rt.Fail("context", "the streamer was called with a context which is not derived from the request's")
	}
	x := &sconn{c: c, inc: s.inc, f: f, ch: ch, own: trc.Get(ctx).ID(), inv: rt.Seq(), ret: 1 << 62, up: 1 << 62}
	s.inc.conns = append(s.inc.conns, x)
	s.sw.byConn[c] = x
	col := s.inc.w.cols[kindColl]
	rt.Spawn(fmt.Sprintf("up%d", c.id), true, func() {
		for i := 0; i < 100; i++ {
			if x.ret < 1<<62 {
				return
			}
			if _, err := col.StreamStats(context.Background(), ch); err == nil {
				x.up = rt.Seq()
				return
			}
			rt.Sleep(1000)
		}
		rt.Quiesce()
		if _, err := col.StreamStats(context.Background(), ch); err == nil {
			x.up = rt.Seq()
		}
	})
	st, err := col.Stream(ctx, f, ch)
	x.stats = st
	x.ret = rt.Seq()
	x.retAt = rt.Mono()
	return st, err
}

func (s *tapStreamer) StreamStats(ctx context.Context, ch chan<- trc.Trace) (trc.StreamStats, error) {
	c, _ := ctx.Value(connKey{}).(*simConn)
	st, err := s.inc.w.cols[kindColl].StreamStats(ctx, ch)
	x := s.sw.byConn[c]
	if err == nil {
		if x == nil || x.ch != ch {
			if s.sw.id == "C16" {
				rt.Fail("stats", "the server asked for statistics of another subscription")
			}
		} else {
			x.polled = append(x.polled, st)
			x.polledAt = append(x.polledAt, rt.Mono())
		}
	}
	return st, err
}

// sclient is a streaming client.
type sclient struct {
	i             int
	op            Op
	f             *fspec
	path          string
	cl            *trcweb.StreamClient
	ch            chan trc.Trace
	ctx           context.Context
	cancel        context.CancelFunc
	retry         time.Duration
	reads         []sread
	snap          []sread
	got           []trc.Trace
	startAt       int64
	cancelAt      int64
	readsAtCancel int
	retAt         int64
	retSeq        int64
	ret           bool
	err           error
	task          *rt.Task
	slow          int
	sendbuf       int           // -1: any
	interval      time.Duration // of statistics
	own           bool          // the URI has parameters of its own
}

type sread struct {
	c    *simConn
	typ  string
	data string
	seq  int64
}

type sworld struct {
	id       string
	p        *Prog
	n        *simNet
	h        *simHost
	inc      *incarnation
	incs     []*incarnation
	clients  []*sclient
	byConn   map[*simConn]*sconn
	finale   bool
	rejected bool
	raws     []*rawStream
}

func (sw *sworld) boot() {
	inc := &incarnation{i: len(sw.incs), w: newTW(sw.p), shadows: map[int]*shadow{}}
	sw.incs = append(sw.incs, inc)
	srv := &trcweb.TraceServer{Collector: inc.w.cols[kindColl], Streamer: &tapStreamer{inc, sw}}
	inc.handler = srv
	switch sw.p.Cfg["mw"] {
	case 1:
		inc.handler = trcweb.Middleware(inc.w.cols[kindColl].NewTrace, trcweb.Categorize)(srv)
	case 2:
		inc.handler = trcweb.Middleware(inc.w.cols[kindLog].NewTrace, func(*http.Request) string { return "web" })(srv)
	}
	sw.inc = inc
	for i := 0; i < len(sw.clients); i++ { // more may come meanwhile
		sw.shadow(inc, sw.clients[i])
	}
	sw.h.handler = inc.handler
}

func (sw *sworld) shadow(inc *incarnation, cl *sclient) {
	if cl.f.badQuery {
		return
	}
	if sh := inc.shadows[cl.i]; sh != nil {
		rt.Block("shadow", func() bool { return sh.up })
		return
	}
	s := newSub(1000+cl.i, cl.op, cl.f, 1<<14)
	sh := &shadow{ch: s.ch}
	inc.shadows[cl.i] = sh
	s.start(inc.w.cols[kindColl])
	sh.up = true
	rt.Wake()
}

// current connection of a client: the latest one with a response.
func (sw *sworld) conn(path string) *simConn {
	for i := len(sw.n.conns) - 1; i >= 0; i-- {
		if c := sw.n.conns[i]; c.req.URL.Path == path && c.hdrUp {
			return c
		}
	}
	return nil
}

func (sw *sworld) startClient(o Op) {
	cl := &sclient{i: o.B, op: o, f: sw.inc.w.spec(o, "src"), path: fmt.Sprintf("/client%d", o.B), startAt: rt.Mono(), cancelAt: -1, retAt: -1}
	var old *sclient
	for _, x := range sw.clients {
		if x.i == cl.i {
			return
		}
		if o.K == "again" && x.i == o.B-10 {
			old = x
		}
	}
	if o.K == "again" {
		if old == nil || old.cancelAt < 0 {
			return
		}
		rt.Block("returned", func() bool { return old.ret })
		cl.f, cl.startAt = sw.inc.w.spec(o, "src"), rt.Mono()
	}
	sw.clients = append(sw.clients, cl)
	sw.shadow(sw.inc, cl)
	cl.ch = rt.Reg(make(chan trc.Trace, []int{0, 0, 1, 100}[o.C%4]))
	cl.ctx, cl.cancel = simctx.WithCancel(context.Background())
	if o.C/4%2 == 1 {
		cl.ctx, _ = trc.New(cl.ctx, "client", "stream")
	}
	if old != nil { // with what it was given before
		cl.cl, cl.path, cl.own, cl.sendbuf, cl.interval, cl.retry = old.cl, old.path, old.own, old.sendbuf, old.interval, old.retry
		rt.Count("probe.client_used_again", 1)
	} else {
		cl.configure(o)
	}
	cl.slow = []int{0, 0, 0, 0, 50, 700, 30000}[o.C/7%7]
	cl.cl.OnRead = func(ctx context.Context, typ string, data []byte) {
		cl.reads = append(cl.reads, sread{sw.conn(cl.path), typ, string(data), rt.Seq()})
	}
	rt.Spawn(fmt.Sprintf("consumer%d", cl.i), true, func() {
		for k := 0; ; k++ {
			if cl.slow > 0 && !sw.finale {
				d := cl.slow
				if d == 30000 && k%40 != 5 {
					d = 0
				}
				if d > 0 {
					rt.Count("fault.slow_consumer", 1)
					over := false
					rt.AddTimer(int64(d)*1e6, func() { over = true; rt.Wake() })
					rt.Block("slow consumer", func() bool { return over || sw.finale })
				}
			}
			cl.got = append(cl.got, rt.Recv(cl.ch))
		}
	})
	cl.task = rt.Spawn(fmt.Sprintf("streamclient%d", cl.i), true, func() {
		cl.err = cl.cl.Stream(cl.ctx, cl.f.filter(), cl.ch)
		cl.retAt = rt.Mono()
		cl.retSeq = rt.Seq()
		cl.ret = true
		rt.Note("client %d returns: %v", cl.i, cl.err)
		rt.Wake()
	})
}

func (cl *sclient) configure(o Op) {
	cl.cl = &trcweb.StreamClient{
		URI:           "server" + cl.path,
		SendBuffer:    []int{0, 1000, 1000, 5, -3, 1, 200000, 99}[o.C/8%8],
		RetryInterval: []time.Duration{0, time.Second, 500 * time.Millisecond, 7 * time.Second, time.Second, 0, 2 * time.Second, 0, 0, time.Second, 3 * time.Minute, time.Second}[o.C/48%12],
		StatsInterval: []time.Duration{0, 0, time.Hour, 20 * time.Second, time.Second, 0, time.Millisecond}[o.C/288%7],
	}
	if o.C%3 == 0 {
		cl.cl.URI = "http://" + cl.cl.URI + "?foo=bar&finishedx=1"
		cl.own = true
	}
	if cl.sendbuf = cl.cl.SendBuffer; cl.sendbuf <= 0 {
		cl.sendbuf = -1
	}
	cl.sendbuf = min(cl.sendbuf, 100000)
	if cl.interval = min(max(cl.cl.StatsInterval, time.Second), time.Minute); cl.cl.StatsInterval == 0 {
		cl.interval = 10 * time.Second
	}
	cl.retry = cl.cl.RetryInterval
	switch {
	case cl.retry == 0:
		cl.retry = 3 * time.Second
	case cl.retry < time.Second:
		cl.retry = time.Second
	case cl.retry > time.Minute:
		cl.retry = time.Minute
	}
}

func (cl *sclient) stop() {
	if cl.cancelAt < 0 {
		cl.cancelAt = rt.Mono()
		for _, r := range cl.reads {
			if r.typ == "trace" {
				cl.readsAtCancel++
			}
		}
		cl.cancel()
	}
}

func runStream(p *Prog, id string) {
	sw := &sworld{id: id, p: p, n: newNet(), byConn: map[*simConn]*sconn{}}
	sw.h = sw.n.host("server", nil)
	sw.h.latency = int64(p.Cfg["latency"]) * 1e6
	sw.h.window = p.Cfg["window"]
	sw.boot()
	var ts []*rt.Task
	for i, ops := range p.Tasks {
		i, ops := i, ops
		ts = append(ts, rt.Spawn(fmt.Sprintf("task%d", i), false, func() {
			for _, o := range ops {
				rt.BeginOp(o.ID)
				sw.do(i, o)
			}
			rt.BeginOp(1 << 20)
		}))
	}
	rt.Join(ts...)
	rt.BeginOp(1<<20 + 1)
	// Faults are over. Everybody reconnects within a bounded time.
	sw.finale = true
	sw.n.calm(sw.h)
	var bound int64 = 10e9
	for _, cl := range sw.clients {
		if b := 3*int64(cl.retry) + 10e9; b > bound {
			bound = b
		}
	}
	settle(bound + 8*sw.h.latency)
	probe := rt.Seq()
	sw.inc.w.do(0, Op{ID: 900001, K: "new", A: 50, B: kindColl, C: 0})
	sw.inc.w.do(0, Op{ID: 900002, K: "ev", A: 50})
	sw.inc.w.do(0, Op{ID: 900003, K: "fin", A: 50})
	sw.inc.w.do(0, Op{ID: 900004, K: "new", A: 51, B: kindColl, C: 1})
	settle(5e9 + 8*sw.h.latency)
	if id == "C15" {
		sw.checkC15(probe)
	}
	end := rt.Mono()
	if id == "C16" {
		sw.checkWire()
		sw.checkRaws()
	}
	// Everybody leaves.
	for _, cl := range sw.clients {
		cl.stop()
	}
	for _, r := range sw.raws {
		r.leave()
	}
	_ = end
	settle(bound + 70e9)
	for _, cl := range sw.clients {
		if !cl.ret {
			rt.Fail("stuck", "client %d has not returned %v after its context was cancelled", cl.i, time.Duration(rt.Mono()-cl.cancelAt))
		}
	}
	if id == "C15" {
		sw.checkReturns()
	}
	if id == "C16" {
		sw.checkLeftovers()
	}
}

func (sw *sworld) do(task int, o Op) {
	switch o.K {
	case "client", "again":
		sw.startClient(o)
	case "cancel":
		for _, cl := range sw.clients {
			if cl.i == o.B {
				rt.Count("fault.client_cancelled", 1)
				cl.stop()
			}
		}
	case "reject":
		rt.Sleep(int64(o.B) * 1e6)
		rt.Count("fault.rejected", 1)
		sw.rejected = true
		sw.h.status = o.A
		sw.n.crash(sw.h)
		rt.Sleep(15e9 + int64(o.C)*1e9)
		sw.h.status = 0
	case "down":
		rt.Count("fault.server_crash", 1)
		sw.h.down = true
		sw.n.crash(sw.h)
		rt.Sleep(int64(o.A) * 1e6)
		if o.B == 1 { // comes back empty
			rt.Count("fault.server_restart", 1)
			sw.boot()
		}
		sw.h.down = false
	case "part":
		rt.Count("fault.partition", 1)
		sw.h.hole = true
		rt.Sleep(int64(o.A) * 1e6)
		if o.B == 0 {
			sw.n.crash(sw.h) // during the partition
			rt.Count("fault.server_crash", 1)
		}
		sw.n.heal(sw.h)
	case "cut":
		rt.Count("fault.connections_cut", 1)
		sw.n.crash(sw.h)
	case "stat":
		rt.Count("fault.proxy_error_status", 1)
		sw.h.status = o.A
		sw.n.crash(sw.h)
		rt.Sleep(int64(o.B) * 1e6)
		sw.h.status = 0
	case "plan":
		sw.h.plan = append(sw.h.plan, netFault{kind: o.A, at: o.B})
	case "sleep":
		rt.Sleep(int64(o.A) * 1e6)
	case "burst":
		w := sw.inc.w
		t := w.slots[o.A]
		if t == nil {
			return
		}
		for i := 0; i < o.B; i++ {
			if i == 0 {
				t.tr.LazyTracef("burst %d %s", o.ID, streamTexts[o.C])
			} else {
				t.tr.Tracef("burst %d.%d", o.ID, i)
			}
		}
	case "raw":
		sw.raw(o)
	default:
		sw.inc.w.do(task, o)
	}
}

func pubKey(t trc.Trace) string {
	evs := t.Events()
	last := ""
	if len(evs) > 0 {
		e := evs[len(evs)-1]
		last = fmt.Sprint(e.When.UnixNano(), " ", e.What)
	}
	return fmt.Sprintf("%s|%v|%d|%s", t.ID(), t.Finished(), len(evs), last)
}

// pubWin returns the window of the call which made a publication, when known.
func (w *tw) pubWin(st *trc.StaticTrace, calls map[string]*win) *win {
	t := w.byID[st.ID()]
	if t == nil {
		return nil
	}
	switch {
	case st.Finished():
		if len(t.fins) == 0 {
			return nil
		}
		x := win{inv: 1 << 62}
		for _, f := range t.fins {
			if f.ret == 0 {
				return nil
			}
			if f.inv < x.inv {
				x.inv = f.inv
			}
			if f.ret > x.ret {
				x.ret = f.ret
			}
		}
		return &x
	case len(st.Events()) == 0:
		return &t.create
	}
	k := keyOf(st.Events()[0].What)
	for _, e := range t.evs {
		if e.key == k && e.ret != 0 {
			return &e.win
		}
	}
	return nil
}

// checkC15 runs when everything has settled.
func (sw *sworld) checkC15(probe int64) {
	now := rt.Seq()
	got := map[*sclient][]trc.Trace{}
	for _, cl := range sw.clients { // before the shadows: these may go on
		cl.snap = cl.reads[:len(cl.reads):len(cl.reads)]
		got[cl] = cl.got[:len(cl.got):len(cl.got)]
	}
	for _, inc := range sw.incs {
		for _, cl := range sw.clients {
			s := inc.shadows[cl.i]
			if s == nil {
				continue
			}
			for len(s.ch) > 0 {
				s.got = append(s.got, rt.Recv(s.ch).(*trc.StaticTrace))
			}
			if len(s.got) >= 1<<14-1 {
				return
			}
		}
	}
	sw.checkParams()
	for _, cl := range sw.clients {
		// what was read per connection
		var conns []*simConn
		byConn := map[*simConn][]*trc.StaticTrace{}
		var all []*trc.StaticTrace
		for _, r := range cl.snap {
			if len(conns) == 0 || conns[len(conns)-1] != r.c {
				conns = append(conns, r.c)
			}
			if r.typ != "trace" {
				continue
			}
			st := &trc.StaticTrace{}
			if err := json.Unmarshal([]byte(r.data), st); err != nil {
				rt.Fail("altered", "client %d read a trace which is not JSON: %v: %s", cl.i, err, clip(r.data, 200))
			}
			byConn[r.c] = append(byConn[r.c], st)
			all = append(all, st)
		}
		// everything read is handed to the consumer, in order
		i := 0
		for k, t := range got[cl] {
			for i < len(all) && pubKey(all[i]) != pubKey(t) {
				if cl.cancelAt < 0 || i+1 < cl.readsAtCancel {
					rt.Fail("not-delivered", "client %d delivered %s as number %d, but not %s, which it read before", cl.i, clip(pubKey(t), 100), k, clip(pubKey(all[i]), 100))
				}
				i++
			}
			if i >= len(all) {
				rt.Fail("invented", "client %d delivered %d traces, number %d (%s) it did not read, or in another order", cl.i, len(got[cl]), k, clip(pubKey(t), 100))
			}
			if d := sameTrace(all[i], t); d != "" {
				rt.Fail("altered", "client %d delivered, as number %d, %s", cl.i, k, d)
			}
			i++
		}
		if missing := len(all) - i - len(cl.ch); missing > 0 && (cl.cancelAt < 0 || i+len(cl.ch)+1 < cl.readsAtCancel) {
			rt.Fail("not-delivered", "client %d read %d traces but delivered only %d", cl.i, len(all), len(got[cl]))
		}
		last := map[*incarnation]int{}
		for _, c := range conns {
			x := sw.byConn[c]
			if x == nil {
				if len(byConn[c]) > 0 {
					rt.Fail("invented", "client %d read traces from a connection without subscription", cl.i)
				}
				continue
			}
			sh := x.inc.shadows[cl.i]
			if sh == nil {
				rt.Fail("unfiltered", "client %d with filter %v got a stream", cl.i, cl.f)
			}
			// the sequence of matching publications, without the request's own trace
			var seq []*trc.StaticTrace
			at := map[string]int{}
			times := map[string]int{}
			for _, st := range sh.got {
				times[pubKey(st)]++
			}
			for _, st := range sh.got {
				if st.ID() == x.own || times[pubKey(st)] > 1 { // can't tell identical ones apart
					continue
				}
				at[pubKey(st)] = len(seq)
				seq = append(seq, st)
			}
			if _, ok := last[x.inc]; !ok {
				last[x.inc] = -1
			}
			drops := x.stats.Drops
			live := x.ret == 1<<62
			if live {
				if st, err := x.inc.w.cols[kindColl].StreamStats(context.Background(), x.ch); err == nil {
					drops = st.Drops
				}
			}
			first, prev := -1, -1
			for _, st := range byConn[c] {
				if times[pubKey(st)] > 1 {
					continue
				}
				i, ok := at[pubKey(st)]
				if !ok {
					rt.Fail("invented", "client %d with filter %v got trace %s, which a local subscriber with that filter did not get", cl.i, cl.f, clip(pubKey(st), 200))
				}
				if d := sameTrace(seq[i], st); d != "" {
					rt.Fail("altered", "client %d got, compared to a local subscriber, %s", cl.i, d)
				}
				if i <= last[x.inc] {
					rt.Fail("order", "client %d got publication %d (%s) after publication %d", cl.i, i, clip(pubKey(st), 100), last[x.inc])
				}
				if prev >= 0 && i != prev+1 && drops == 0 {
					rt.Fail("missed", "client %d got publications %d and %d, but missed %d between them: %s; nothing was dropped", cl.i, prev, i, i-prev-1, clip(pubKey(seq[prev+1]), 100))
				}
				if first < 0 {
					first = i
				}
				prev = i
				last[x.inc] = i
			}
			rt.Count("probe.stream_deliveries", int64(len(byConn[c])))
			if drops > 0 {
				rt.Count("probe.streams_with_drops", 1)
				continue
			}
			for i, st := range seq {
				win := x.inc.w.pubWin(st, nil)
				if win == nil || win.inv < x.up {
					continue
				}
				if first >= 0 && i < first {
					rt.Fail("missed", "client %d did not get publication %d (%s), made at %v after the subscription was up at %d; the first it got is %d", cl.i, i, clip(pubKey(st), 100), *win, x.up, first)
				}
				if live && !c.gone && c.broken == nil && !c.closed && !cl.ret && i > prev && win.ret < now {
					rt.Fail("missed", "client %d did not get publication %d (%s), made at %v, though its connection is up since %d", cl.i, i, clip(pubKey(st), 100), *win, x.up)
				}
			}
		}
		// everybody who was not cancelled or rejected is connected again
		if cl.cancelAt < 0 && !cl.ret {
			c := sw.conn(cl.path)
			x := sw.byConn[c]
			if c == nil || x == nil || c.broken != nil || c.closed || x.inc != sw.inc || x.ret < 1<<62 || x.up > probe {
				if rt.Prompt() {
					rt.Fail("not-resumed", "client %d (retry interval %v) is not connected although faults are over since long", cl.i, cl.retry)
				}
			} else {
				rt.Count("probe.resumed", 1)
			}
		}
		if cl.cancelAt < 0 && cl.ret && cl.err == nil {
			rt.Fail("gave-up", "client %d returned without error though nobody cancelled it", cl.i)
		}
		if cl.cancelAt < 0 && cl.ret && !cl.f.badQuery && !sw.rejected {
			rt.Fail("gave-up", "client %d returned although the server never rejected it: %v", cl.i, cl.err)
		}
		if cl.f.badQuery && cl.cancelAt < 0 && !cl.ret {
			rt.Fail("no-error", "client %d with an invalid query goes on although the server rejects it", cl.i)
		}
	}
}

// checkParams: the server uses what the client asked for.
func (sw *sworld) checkParams() {
	for _, c := range sw.n.conns {
		x := sw.byConn[c]
		if x == nil {
			continue
		}
		want, what := -1, ""
		for _, cl := range sw.clients {
			if cl.path == c.req.URL.Path {
				want, what = cl.sendbuf, fmt.Sprintf("client %d", cl.i)
				if q := c.sreq.URL.Query(); cl.own && (q.Get("foo") != "bar" || q.Get("finishedx") != "1") {
					rt.Fail("parameters", "client %d lost parameters of its URI %q: %q", cl.i, cl.cl.URI, c.sreq.URL.RawQuery)
				}
			}
		}
		if what == "" {
			switch v := c.sreq.URL.Query().Get("sendbuf"); v {
			case "0", "1", "3":
				want, what = int(v[0]-'0'), "a request"
			}
		}
		if want >= 0 && cap(x.ch) != want {
			rt.Fail("parameters", "%s asked for a send buffer of %d, the server's has room for %d", what, want, cap(x.ch))
		}
		rt.Count("probe.parameters", 1)
	}
}

// checkReturns: cancelled clients returned in time.
func (sw *sworld) checkReturns() {
	for _, cl := range sw.clients {
		from := cl.cancelAt
		if cl.retAt < from {
			continue // before
		}
		if !cl.f.badQuery && !sw.rejected && cl.err != nil && cl.ctx.Err() != nil && !strings.Contains(cl.err.Error(), "context canceled") {
			rt.Fail("error", "client %d returned %v after it was cancelled", cl.i, cl.err)
		}
		if lim := int64(cl.retry) + 2e9 + 8*sw.h.latency; rt.Prompt() && cl.retAt-from > lim {
			rt.Fail("late", "client %d returned %v after it was cancelled, retry interval %v", cl.i, time.Duration(cl.retAt-from), cl.retry)
		}
	}
}

// ---------------------------------------------------------------- C16

// rawStream is a stream read by something else than the client.
type rawStream struct {
	op   Op
	f    *trc.Filter // what it asked for
	res  *http.Response
	conn *simConn
	want string
	left bool
	done bool
}

func (r *rawStream) leave() {
	if !r.left {
		r.left = true
		rt.Wake()
		if r.res != nil {
			r.res.Body.Close()
		}
	}
}

func (sw *sworld) raw(o Op) {
	q := []string{}
	add := func(s string) {
		if s != "" {
			q = append(q, s)
		}
	}
	add([]string{"", "stats=1s", "stats=1s", "stats=2s", "stats=1ns", "stats=-5s", "stats=x", "stats=1000h", "stats=0", "stats=59s"}[o.A%10])
	add([]string{"", "sendbuf=0", "sendbuf=1", "sendbuf=x", "sendbuf=-7", "sendbuf=3", ""}[o.A/10%7])
	ms := time.Millisecond
	add([]string{"", "", "finished", "active", "q=e[0-9]*", "min=1ms", "min=x", "q=((", "errored&success", "category=alpha&source=src"}[o.A/70%10])
	f := []*trc.Filter{{}, {}, {IsFinished: true}, {IsActive: true}, {Query: "e[0-9]*"}, {MinDuration: &ms}, {}, nil, {IsErrored: true, IsSuccess: true}, {Category: "alpha", Sources: []string{"src"}}}[o.A/70%10]
	hd := map[string]string{"accept": []string{"text/event-stream", "text/event-stream", "text/html, text/event-stream;q=0.5"}[o.D%3]}
	body := ""
	if o.D/3%5 == 0 {
		hd["content-type"] = "application/json"
		body = []string{"{}", `{"is_finished":true}`, "{", "", `{"query":"(("}`, `{"is_active":true,"query":"."}`}[o.D/15%6]
		f = []*trc.Filter{{}, {IsFinished: true}, nil, nil, nil, {IsActive: true, Query: "."}}[o.D/15%6]
	}
	ctx, cancel := simctx.WithCancel(context.Background())
	r := rawRequest(ctx, "GET", "server", strings.Join(q, "&"), body, hd)
	r.URL.Path = fmt.Sprintf("/raw%d", o.ID)
	rs := &rawStream{op: o, f: f, want: strings.Join(q, "&")}
	sw.raws = append(sw.raws, rs)
	rt.Count("fault.raw_client", 1)
	if o.B >= 0 && o.C < 3 && o.D%2 == 0 { // leaves by cancelling the request, maybe before there is a response
		rt.AddTimer(int64(o.C)*1e6, func() { cancel() })
	}
	res, err := (&http.Client{Transport: sw.n}).Do(r)
	if err != nil {
		cancel()
		rs.left = true
		return
	}
	rs.res = res
	rs.conn = sw.n.connOf(r)
	over := false
	rt.AddTimer(int64(o.C)*1e6, func() { over = true; rt.Wake() })
	rt.Spawn(fmt.Sprintf("rawread%d", o.ID), true, func() {
		buf := make([]byte, 512)
		n := 0
		for {
			if o.B >= 0 && n >= o.B { // stops reading
				rt.Block("not reading", func() bool { return rs.left || sw.finale })
			}
			k, err := res.Body.Read(buf)
			n += k
			if err != nil {
				rs.done = true
				rt.Wake()
				return
			}
		}
	})
	rt.Block("raw client", func() bool { return over || rs.done })
	if o.D/7%3 != 0 {
		rs.leave()
	}
	_ = cancel
}

type sse struct {
	typ  string
	data []byte
}

// parseSSE parses a stream of server-sent events; an incomplete one at the end
// is left out.
func parseSSE(b []byte) (r []sse) {
	typ := "message"
	var data [][]byte
	for {
		i := bytes.IndexByte(b, '\n')
		if i < 0 {
			return r
		}
		line := bytes.TrimSuffix(b[:i], []byte("\r"))
		b = b[i+1:]
		if len(line) == 0 {
			if data != nil {
				r = append(r, sse{typ, bytes.Join(data, []byte("\n"))})
			}
			typ, data = "message", nil
			continue
		}
		k, v, _ := bytes.Cut(line, []byte(":"))
		v = bytes.TrimPrefix(v, []byte(" "))
		switch string(k) {
		case "event":
			typ = string(v)
		case "data":
			data = append(data, append([]byte{}, v...))
		}
	}
}

// checkWire judges what the server sent on each stream.
func (sw *sworld) checkWire() {
	sw.checkParams()
	for _, c := range sw.n.conns {
		x := sw.byConn[c]
		if x == nil {
			continue
		}
		evs := parseSSE(c.tap)
		interval := 10 * time.Second
		if v := c.sreq.URL.Query().Get("stats"); v != "" {
			if d, err := time.ParseDuration(v); err == nil {
				interval = d
				if d < time.Second {
					interval = time.Second
				}
				if d > time.Minute {
					interval = time.Minute
				}
			}
		}
		for _, cl := range sw.clients {
			if cl.path == c.req.URL.Path {
				interval = cl.interval
			}
		}
		k := 0
		for i, e := range evs {
			if (e.typ == "init") != (i == 0) {
				rt.Fail("init", "%v: event %d is of type %q", c, i, e.typ)
			}
			switch e.typ {
			case "stats":
				var st trc.StreamStats
				if err := json.Unmarshal(e.data, &st); err != nil {
					rt.Fail("stats", "%v: statistics %q: %v", c, e.data, err)
				}
				for k < len(x.polled) && x.polled[k] != st {
					k++
				}
				if k >= len(x.polled) {
					rt.Fail("stats", "%v: statistics %v don't match the subscription's %v", c, st, x.polled)
				}
				k++
				rt.Count("probe.stats_events", 1)
			case "trace":
				var st trc.StaticTrace
				if err := json.Unmarshal(e.data, &st); err != nil {
					rt.Fail("trace", "%v: trace %q: %v", c, clip(string(e.data), 200), err)
				}
				if st.ID() == x.own {
					rt.Fail("own-trace", "%v: the stream contains its own request's trace: %+v", c, st)
				}
				rt.Count("probe.trace_events", 1)
			}
		}
		// a healthy stream has an init event, and statistics in time
		if x.ret == 1<<62 && !c.gone && c.broken == nil && !c.closed && c.delivered == len(c.tap) {
			if len(evs) == 0 {
				rt.Fail("init", "%v: nothing was sent", c)
			}
			rt.Count("probe.live_streams", 1)
			if rt.Prompt() {
				n := 0
				for _, e := range evs {
					if e.typ == "stats" {
						n++
					}
				}
				alive := time.Duration(rt.Mono() - c.startedAt)
				if max := int(alive/interval) + 1; n > max {
					rt.Fail("stats", "%v: %d statistics in %v, interval %v", c, n, alive, interval)
				}
				// the last one is not older than two intervals, unless it was held up
				if at := len(x.polledAt); alive > 2*interval+5*time.Second && (at == 0 || rt.Mono()-x.polledAt[at-1] > int64(2*interval+5*time.Second)) && !c.blocked {
					rt.Fail("stats", "%v: no statistics for more than %v, interval %v", c, 2*interval, interval)
				}
			}
		}
	}
}

// checkRaws: other clients get the stream they ask for.
func (sw *sworld) checkRaws() {
	for _, r := range sw.raws {
		if r.res == nil || r.res.StatusCode != http.StatusOK || r.f == nil || r.conn == nil {
			continue
		}
		x := sw.byConn[r.conn]
		if x == nil {
			if r.conn.proxied || r.conn.struck || r.conn.broken != nil || r.conn.gone || r.conn.closed {
				continue
			}
			rt.Fail("no-stream", "%v accepts a stream, but was answered without one", r.conn)
		}
		if d := sameFilter(*r.f, x.f); d != "" {
			rt.Fail("parameters", "%v asked for %v, the server streams with %s", r.conn, *r.f, d)
		}
		rt.Count("probe.raw_filters", 1)
	}
}

// checkLeftovers: nothing is left when everybody is gone.
func (sw *sworld) checkLeftovers() {
	for _, c := range sw.n.conns {
		if c.started && !c.ended {
			rt.Fail("handler-left", "%v is still being handled %v after the client went away", c, time.Duration(rt.Mono()-c.goneAt))
		}
	}
	for _, c := range sw.n.conns {
		x := sw.byConn[c]
		if x == nil {
			continue
		}
		if x.ret == 1<<62 {
			rt.Fail("subscription-left", "the subscription of %v is still there %v after the client went away", x.c, time.Duration(rt.Mono()-x.c.goneAt))
		}
		if _, err := x.inc.w.cols[kindColl].StreamStats(context.Background(), x.ch); err == nil {
			rt.Fail("subscription-left", "the subscription of %v is still there %v after the client went away", x.c, time.Duration(rt.Mono()-x.c.goneAt))
		}
	}
	for _, c := range sw.n.open() {
		rt.Fail("left-open", "%v is still open though its client has returned", c)
	}
	for _, t := range rt.SysTasks() {
		rt.Fail("left-running", "task %q is left running: %s", t.Name, t.Why())
	}
	sw.n.checkPanics()
	rt.Count("probe.connections", int64(len(sw.n.conns)))
}
