package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/oklog/run"
	"github.com/peterbourgon/trc"
	trccmd "github.com/peterbourgon/trc/cmd/trc"
	"github.com/peterbourgon/trc/trcweb"
	simctx "trcsim/context"
	"trcsim/os/signal"
	"trcsim/rt"
)

// The command line tool (C20): the whole program, run by its arguments against
// one to three servers on the simulated network.

func init() {
	register(&Scenario{ID: "C20", Gen: genC20, Run: runC20, Quick: 120000, Steps: 3_000_000, Notes: append([]string{
		"real: cmd/trc from its arguments to its output, trcweb.StreamClient, trcweb.SearchClient, trcweb.TraceServer, bernerdschaefer/eventsource, oklog/run, peterbourgon/ff, net/http's Client, encoding/json",
		"stand-in: the network and the HTTP server's connection handling, signals, standard output and error; a searcher which passes requests on to the real collector, late or failing"}, realTrc...)})
}

const (
	c20Stream = iota
	c20Search
)

func genC20(g *G) *Prog {
	p := newProg()
	genStreamCommon(g, p)
	nh := g.pick(1, 1, 2, 2, 3)
	p.Cfg["hosts"] = nh
	p.Cfg["fmt"] = g.n(3)   // -o
	p.Cfg["log"] = g.n(5)   // -l
	p.Cfg["path"] = g.n(3)  // --uri-path
	p.Cfg["dup"] = g.n(6)   // a URI given twice
	p.Cfg["short"] = g.n(2) // short or long names of flags
	if g.chance(0.3) {
		genC20Search(g, p)
		return p
	}
	p.Cfg["mode"] = c20Stream
	p.Cfg["events"] = g.n(2)
	p.Cfg["sendbuf"] = g.pick(-1, -1, 0, 1, 5, 1000)
	p.Cfg["recvbuf"] = g.pick(-1, -1, 0, 1, 5, 1000)
	p.Cfg["stats"] = g.pick(-1, -1, 1, 3, 3600)
	p.Cfg["retry"] = g.pick(-1, -1, 0, 1, 2, 7, 90)
	p.Cfg["out"] = g.pick(0, 0, 0, 1, 2, 3)
	o := Op{K: "cli", C: g.n(1 << 16)}
	if g.chance(0.5) {
		genFilter(g, &o)
	}
	if g.chance(0.3) {
		p.add(0, Op{K: "sleep", A: g.pick(1, 100, 2000)})
	}
	p.add(0, o)
	if g.chance(0.35) {
		p.add(0, Op{K: "sleep", A: g.pick(0, 1, 2, 20, 100, 1000, 3000, 7000, 30000)})
		p.add(0, Op{K: "intr", A: g.n(4)})
	}
	t := 1
	for h := 0; h < nh; h++ {
		if g.chance(0.6) {
			p.add(t, Op{K: "host", A: h})
			genChaos(g, p, t, g.rng(1, 3), 0)
			if g.chance(0.15) {
				p.add(t, Op{K: "reject", A: g.pick(400, 403, 404, 410, 201, 204, 301, 200), B: g.pick(1, 4000), C: g.pick(0, 0, 100, 400)})
			}
			t++
		}
		p.add(t, Op{K: "host", A: h})
		genStreamOps(g, p, t, g.rng(3, 14), 4)
		t++
	}
	return p
}

func genC20Search(g *G, p *Prog) {
	p.Cfg["mode"] = c20Search
	nh := p.Cfg["hosts"]
	for h := 0; h < nh; h++ {
		p.add(h, Op{K: "host", A: h})
		for i := g.rng(0, 8); i > 0; i-- {
			switch g.n(5) {
			case 0, 1:
				p.add(h, Op{K: "new", A: g.n(4), B: kindColl, C: g.n(8)})
			case 2:
				p.add(h, Op{K: "ev", A: g.n(4), B: g.n(4), D: g.pick(0, 1, 11)})
			case 3:
				p.add(h, Op{K: "fin", A: g.n(4)})
			case 4:
				p.add(h, Op{K: "adv", A: g.rng(1, 9), B: g.n(9)})
			}
		}
		k := fmt.Sprintf("srch%d", h)
		p.Cfg[k] = srchReal
		if g.chance(0.2) {
			p.Cfg[k] = g.pick(srchSlow, srchErr, srchNil, srchBoth, srchNoStats)
		}
		k = fmt.Sprintf("fault%d", h)
		if g.chance(0.25) {
			f := g.n(nfKinds)
			at := g.pick(-1, -2, 0, 1, g.n(100), g.n(2000), g.n(6000))
			if f == nfStatus {
				at = g.pick(201, 202, 204, 206, 301, 304, 400, 401, 404, 429, 500, 502, 503, 504, 599)
			}
			p.Cfg[k], p.Cfg[k+"at"] = f, at
		}
		if g.chance(0.08) {
			p.Cfg[fmt.Sprintf("down%d", h)] = 1 + g.n(2)
		}
	}
	o := genSearch(g, 0)
	o.K = "cli"
	p.Cfg["include"] = g.n(4)
	p.Cfg["depth"] = g.pick(0, 0, -1, 1, 3)
	p.Cfg["unknown"] = g.pick(0, 0, 0, 0, 1) // an address nobody listens at
	p.Cfg["cancel"] = g.pick(0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 5, 40, 700, 2000)
	p.add(nh, o)
}

// cliOut is the tool's standard output.
type cliOut struct {
	b     []byte
	mode  int // 0 fine, 1 slow, 2 stuck for a while, 3 splits
	k     int
	stuck bool
	last  int64
	mark  int // length at the time of the interrupt
}

func (o *cliOut) Write(p []byte) (int, error) {
	rt.Y(920)
	o.k++
	if o.mode == 1 && o.k%3 == 0 {
		rt.Count("fault.slow_output", 1)
		over := false
		rt.AddTimer(200e6, func() { over = true; rt.Wake() })
		rt.Block("slow output", func() bool { return over || !o.stuck })
	}
	if o.mode == 2 && o.k%5 == 2 && o.stuck {
		rt.Count("fault.stuck_output", 1)
		rt.Block("stuck output", func() bool { return !o.stuck })
	}
	i := 0
	if o.mode == 3 {
		i = len(p) / 2
		o.b = append(o.b, p[:i]...)
		rt.Y(921)
	}
	o.b = append(o.b, p[i:]...)
	o.last = rt.Mono()
	return len(p), nil
}

// cliErr is the tool's standard error: never yields, as it is called with
// locks of the standard library held.
type cliErr struct{ b []byte }

func (e *cliErr) Write(p []byte) (int, error) { e.b = append(e.b, p...); return len(p), nil }

type cli struct {
	p       *Prog
	op      Op
	f       *fspec
	args    []string
	out     *cliOut
	err     *cliErr
	ctx     context.Context
	cancel  context.CancelFunc
	started bool
	ret     bool
	rc      error
	retAt   int64
	intrAt  int64
	retry   time.Duration
	path    string
}

func (c *cli) flag(long, short, value string) {
	if c.p.Cfg["short"] == 1 && short != "" {
		c.args = append(c.args, short, value)
	} else {
		c.args = append(c.args, "--"+long+"="+value)
	}
}

func newCLI(p *Prog, o Op, f *fspec) *cli {
	c := &cli{p: p, op: o, f: f, out: &cliOut{mode: p.Cfg["out"], stuck: true}, err: &cliErr{}, intrAt: -1}
	c.ctx, c.cancel = simctx.WithCancel(context.Background())
	if p.Cfg["mode"] == c20Search {
		c.args = append(c.args, "search")
	} else {
		c.args = append(c.args, "stream")
	}
	for h := 0; h < p.Cfg["hosts"]; h++ {
		uri := fmt.Sprintf("host%d", h)
		if h%2 == 1 {
			uri = "http://" + uri + "/some/where"
		}
		c.flag("uri", "-u", uri)
		if p.Cfg["dup"] == 1 {
			c.flag("uri", "-u", uri)
		}
	}
	switch p.Cfg["path"] {
	case 1:
		c.path = "/traces"
		c.flag("uri-path", "", "/traces")
	case 2:
		c.path = "/a b"
		c.flag("uri-path", "", "/a b")
	}
	if x := p.Cfg["fmt"]; x > 0 {
		c.flag("output", "-o", []string{"ndjson", "prettyjson"}[x-1])
	}
	if x := p.Cfg["log"]; x > 0 {
		c.flag("log", "-l", []string{"info", "debug", "trace", "none"}[x-1])
	}
	for _, s := range f.sources {
		c.flag("source", "", s)
	}
	for _, s := range f.ids {
		c.flag("id", "-i", s)
	}
	if f.category != "" {
		c.flag("category", "-c", f.category)
	}
	if f.query != "" {
		c.flag("query", "-q", f.query)
	}
	if f.min >= 0 {
		c.flag("duration", "-d", f.min.String())
	}
	for _, x := range []struct {
		on   bool
		name string
	}{{f.active, "active"}, {f.finished, "finished"}, {f.success, "success"}, {f.errored, "errored"}} {
		if x.on {
			c.args = append(c.args, "--"+x.name)
		}
	}
	return c
}

func (c *cli) start() {
	c.started = true
	rt.Note("trc %q", c.args)
	rt.Spawn("trc", true, func() {
		defer func() {
			if rt.Dying() {
				return
			}
			if x := recover(); x != nil {
				rt.Fail("panic", "trc %q panicked: %v", c.args, x)
			}
		}()
		rc := trccmd.SimExec(c.ctx, strings.NewReader(""), c.out, c.err, c.args)
		c.rc, c.ret, c.retAt = rc, true, rt.Mono()
		rt.Note("trc returns %v", rc)
		rt.Wake()
	})
}

// interrupt as the user, or the context, does.
func (c *cli) interrupt(how int) {
	if !c.started || c.ret || c.intrAt >= 0 {
		return
	}
	if how != 1 && !signal.Registered(os.Interrupt) {
		// before the tool handles signals, one would end the process
		rt.Block("the tool handles signals", func() bool { return signal.Registered(os.Interrupt) || c.ret })
	}
	rt.Count("fault.interrupt", 1)
	c.intrAt = rt.Mono()
	c.out.stuck = false
	c.out.mark = len(c.out.b)
	switch how {
	case 1:
		c.cancel()
	case 2:
		signal.Inject(os.Kill)
	case 3:
		signal.Inject(os.Interrupt)
		signal.Inject(os.Interrupt)
	default:
		signal.Inject(os.Interrupt)
	}
	rt.Wake()
}

// docs are the documents the tool has written; ndjson demands one per line.
func (c *cli) docs() [][]byte {
	pretty := c.p.Cfg["fmt"] == 2
	var r [][]byte
	if !pretty {
		b := c.out.b
		for len(b) > 0 {
			i := bytes.IndexByte(b, '\n')
			if i < 0 {
				rt.Fail("output", "the output ends within a line: %q", clip(string(b), 200))
			}
			if !json.Valid(b[:i]) {
				rt.Fail("output", "a line of the output is not a JSON document: %q", clip(string(b[:i]), 200))
			}
			r = append(r, b[:i])
			b = b[i+1:]
		}
		return r
	}
	d := json.NewDecoder(bytes.NewReader(c.out.b))
	for {
		var m json.RawMessage
		if err := d.Decode(&m); err == io.EOF {
			return r
		} else if err != nil {
			rt.Fail("output", "the output is not a sequence of JSON documents: %v: %q", err, clip(string(c.out.b), 200))
		}
		r = append(r, m)
	}
}

func runC20(p *Prog) {
	n := newNet()
	var ws []*sworld
	for i := 0; i < p.Cfg["hosts"]; i++ {
		sw := &sworld{id: "C20", p: p, n: n, byConn: map[*simConn]*sconn{}}
		sw.h = n.host(fmt.Sprintf("host%d", i), nil)
		sw.h.latency = int64(p.Cfg["latency"]) * 1e6
		sw.h.window = p.Cfg["window"]
		sw.boot()
		ws = append(ws, sw)
	}
	if p.Cfg["mode"] == c20Search {
		runC20Search(p, n, ws)
		return
	}
	var c *cli
	var ts []*rt.Task
	for i, ops := range p.Tasks {
		i, ops := i, ops
		ts = append(ts, rt.Spawn(fmt.Sprintf("task%d", i), false, func() {
			sw := ws[0]
			for _, o := range ops {
				rt.BeginOp(o.ID)
				switch o.K {
				case "host":
					sw = ws[o.A%len(ws)]
				case "cli":
					if c == nil {
						c = c20StreamCLI(p, o, ws)
						c.start()
					}
				case "intr":
					if c != nil {
						c.interrupt(o.A)
					}
				default:
					sw.do(i, o)
				}
			}
			rt.BeginOp(1 << 20)
		}))
	}
	rt.Join(ts...)
	rt.BeginOp(1<<20 + 1)
	if c == nil {
		return
	}
	for _, sw := range ws {
		n.calm(sw.h)
	}
	early := c.intrAt >= 0
	c.out.stuck = false
	rt.Wake()
	lat := 8 * ws[0].h.latency
	bound := 4*int64(c.retry) + 10e9
	settle(bound + lat)
	if !early && c.ret {
		rt.Fail("gave-up", "trc ended without an interrupt: %v\n%s", c.rc, c.err.b)
	}
	var probes []*tinfo
	for k, kind := range []string{"new", "ev", "fin"} {
		for i, sw := range ws {
			sw.inc.w.do(0, Op{ID: 900001 + 10*i + k, K: kind, A: 50, B: map[string]int{"new": kindColl}[kind]})
		}
		settle(1e9 + lat) // one at a time, so that small buffers have room
	}
	for _, sw := range ws {
		probes = append(probes, sw.inc.w.slots[50])
	}
	settle(5e9 + lat)
	// what was received from each server
	c.checkStream(n, ws, probes, early)
	c.interrupt(p.Cfg["sendbuf"] & 1)
	settle(bound + 70e9)
	if !c.ret {
		rt.Fail("stuck", "trc has not ended %v after an interrupt", time.Duration(rt.Mono()-c.intrAt))
	}
	if lim := int64(c.retry) + 2e9 + lat; rt.Prompt() && c.retAt-c.intrAt > lim {
		rt.Fail("late", "trc ended %v after an interrupt, retry interval %v", time.Duration(c.retAt-c.intrAt), c.retry)
	}
	if c.rc != nil && !errors.Is(c.rc, context.Canceled) && !errors.As(c.rc, &run.SignalError{}) {
		rt.Fail("error", "trc returned %v after an interrupt", c.rc)
	}
	if c.out.last > c.retAt {
		rt.Fail("output", "trc wrote after it had returned")
	}
	c.docs() // nothing incomplete
	for _, sw := range ws {
		sw.checkLeftovers()
	}
}

func c20StreamCLI(p *Prog, o Op, ws []*sworld) *cli {
	c := newCLI(p, o, ws[0].inc.w.spec(o, "src"))
	c.retry = time.Second
	if p.Cfg["events"] == 1 {
		if p.Cfg["short"] == 1 {
			c.args = append(c.args, "-e")
		} else {
			c.args = append(c.args, "--events")
		}
	}
	if x := p.Cfg["sendbuf"]; x >= 0 {
		c.flag("send-buffer", "", fmt.Sprint(x))
	}
	if x := p.Cfg["recvbuf"]; x >= 0 {
		c.flag("recv-buffer", "", fmt.Sprint(x))
	}
	if x := p.Cfg["stats"]; x >= 0 {
		c.flag("stats-interval", "", fmt.Sprintf("%ds", x))
	}
	if x := p.Cfg["retry"]; x >= 0 && !(x == 0 && c.f.badQuery) { // 0: retries at once, forever
		c.flag("retry-interval", "", fmt.Sprintf("%ds", x))
		c.retry = time.Duration(x) * time.Second
		if x == 0 {
			c.retry = 3 * time.Second
		}
	}
	return c
}

// doc tells which condition of the filter a streamed trace does not satisfy.
func (f *fspec) doc(st *trc.StaticTrace) string {
	in := func(l []string, s string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return len(l) == 0
	}
	switch {
	case !in(f.sources, st.Source()):
		return "source"
	case !in(f.ids, st.ID()):
		return "ID"
	case f.category != "" && f.category != st.Category():
		return "category"
	case f.success && st.Errored():
		return "success"
	case f.errored && !st.Errored():
		return "errored"
	case f.min >= 0 && !st.Finished():
		return "finished, as for a duration"
	case f.min >= 0 && st.Duration() < f.min:
		return "duration"
	}
	if f.re != nil {
		for _, e := range st.Events() {
			if f.re.MatchString(e.What) {
				return ""
			}
		}
		return "query" // stacks are not streamed
	}
	return ""
}

func (c *cli) checkStream(n *simNet, ws []*sworld, probes []*tinfo, early bool) {
	events := c.p.Cfg["events"] == 1
	var docs []*trc.StaticTrace
	var sizes []int
	for _, b := range c.docs() {
		st := &trc.StaticTrace{}
		if err := json.Unmarshal(b, st); err != nil {
			rt.Fail("output", "a document is not a trace: %v: %q", err, clip(string(b), 200))
		}
		docs = append(docs, st)
		sizes = append(sizes, len(b)+1)
	}
	want := c.f.filter()
	want.IsActive, want.IsFinished = false, !events
	want.Normalize()
	owner := map[string]*sworld{}
	recvd := map[*sworld][]*trc.StaticTrace{}
	connected := map[*sworld]bool{}
	for _, sw := range ws {
		for _, cn := range n.conns {
			if cn.h != sw.h {
				continue
			}
			if exp := map[bool]string{true: c.path, false: map[bool]string{true: "/some/where", false: ""}[strings.HasSuffix(sw.h.name, "1")]}[c.path != ""]; strings.Trim(cn.req.URL.Path, "/") != strings.Trim(exp, "/") {
				rt.Fail("uri", "trc requested %s, expected path %q", cn.req.URL, exp)
			}
			x := sw.byConn[cn]
			if x == nil {
				continue
			}
			if c.f.badQuery {
				rt.Fail("filter", "a stream with an invalid query was accepted")
			}
			f := x.f
			f.Normalize()
			if d := sameFilter(want, f); d != "" {
				rt.Fail("filter", "%s streams with another filter than the flags say: %s", sw.h.name, d)
			}
			if x.inc == sw.inc && x.ret == 1<<62 && cn.broken == nil && !cn.closed && !cn.gone {
				connected[sw] = true
			}
			if cn.code != 200 {
				continue
			}
			for _, e := range parseSSE(cn.got) {
				if e.typ != "trace" {
					continue
				}
				st := &trc.StaticTrace{}
				if err := json.Unmarshal(e.data, st); err != nil {
					rt.Fail("trace", "%v: trace %q: %v", cn, clip(string(e.data), 200), err)
				}
				owner[st.ID()] = sw
				recvd[sw] = append(recvd[sw], st)
			}
		}
	}
	at := map[*sworld]int{}
	printed := map[string]bool{}
	off := 0
	for i, st := range docs {
		off += sizes[i]
		sw := owner[st.ID()]
		if sw == nil {
			rt.Fail("invented", "document %d is trace %s, which trc never received", i, st.ID())
		}
		for early && off > c.out.mark && at[sw] < len(recvd[sw]) && pubKey(recvd[sw][at[sw]]) != pubKey(st) {
			at[sw]++ // some may get lost once interrupted
		}
		k := at[sw]
		if k >= len(recvd[sw]) {
			rt.Fail("repeated", "document %d (%s) is one more than the %d received from %s", i, clip(pubKey(st), 100), k, sw.h.name)
		}
		r := recvd[sw][k]
		if pubKey(r) != pubKey(st) {
			rt.Fail("sequence", "document %d is %s, but the next one received from %s was %s", i, clip(pubKey(st), 100), sw.h.name, clip(pubKey(r), 100))
		}
		if d := sameTrace(r, st); d != "" {
			rt.Fail("altered", "document %d, compared to what was received from %s, is %s", i, sw.h.name, d)
		}
		at[sw]++
		if d := c.f.doc(st); d != "" && !(d == "query" && events) {
			rt.Fail("filter", "document %d (%s) does not match filter %v: %s", i, clip(pubKey(st), 100), c.f, d)
		}
		if st.Finished() {
			if printed[st.ID()] {
				rt.Fail("repeated", "finished trace %s was printed twice", st.ID())
			}
			printed[st.ID()] = true
			c.checkComplete(sw, st)
		} else if !events {
			rt.Fail("active", "document %d is an active trace", i)
		}
		rt.Count("probe.documents", 1)
	}
	if early {
		rt.Count("probe.interrupted_early", 1)
		return
	}
	for _, sw := range ws {
		if at[sw] < len(recvd[sw]) {
			rt.Fail("not-printed", "trc received %d traces from %s but printed only %d; the next one is %s", len(recvd[sw]), sw.h.name, at[sw], clip(pubKey(recvd[sw][at[sw]]), 100))
		}
	}
	if c.f.badQuery || !rt.Prompt() {
		return
	}
	for i, sw := range ws {
		if !connected[sw] {
			rt.Fail("not-resumed", "trc is not connected to %s although faults are over since long", sw.h.name)
		}
		t := probes[i]
		st := &trc.StaticTrace{TraceID: t.id, TraceSource: t.src, TraceCategory: t.cat, TraceFinished: true, TraceDuration: t.tr.Duration(), TraceEvents: t.tr.Events()}
		if c.f.doc(st) == "" && !printed[t.id] {
			rt.Fail("not-resumed", "trace %s, finished on %s after faults were over, was not printed", t.id, sw.h.name)
		}
		if printed[t.id] {
			rt.Count("probe.resumed", 1)
		}
	}
}

// checkComplete: a finished trace is printed with everything it has.
func (c *cli) checkComplete(sw *sworld, st *trc.StaticTrace) {
	for _, inc := range sw.incs {
		t := inc.w.byID[st.ID()]
		if t == nil {
			continue
		}
		evs := t.tr.Events()
		if len(evs) != len(st.Events()) || !t.tr.Finished() || t.tr.Duration() != st.Duration() || t.src != st.Source() || t.cat != st.Category() || t.tr.Errored() != st.Errored() {
			rt.Fail("incomplete", "finished trace %s (%q %q, %v, errored %v, %d events) was printed as %q %q, %v, errored %v, %d events", t.id, t.src, t.cat, t.tr.Duration(), t.tr.Errored(), len(evs), st.Source(), st.Category(), st.Duration(), st.Errored(), len(st.Events()))
		}
		for i, e := range evs {
			if e.What != st.Events()[i].What || e.IsError != st.Events()[i].IsError {
				rt.Fail("incomplete", "event %d of finished trace %s was printed as %q instead of %q", i, t.id, clip(st.Events()[i].What, 100), clip(e.What, 100))
			}
		}
		rt.Count("probe.complete_traces", 1)
	}
}

// ---------------------------------------------------------------- search

func runC20Search(p *Prog, n *simNet, ws []*sworld) {
	recs := map[*sworld]*recSearcher{}
	for i, sw := range ws {
		rec := &recSearcher{real: sw.inc.w.cols[kindColl], kind: p.Cfg[fmt.Sprintf("srch%d", i)], recs: map[*simConn][]*answer{}}
		recs[sw] = rec
		srv := &trcweb.TraceServer{Collector: sw.inc.w.cols[kindColl], Searcher: rec}
		sw.h.handler = srv
		if p.Cfg["mw"] == 2 {
			sw.h.handler = trcweb.Middleware(sw.inc.w.cols[kindLog].NewTrace, func(*http.Request) string { return "web" })(srv)
		}
		if f := p.Cfg[fmt.Sprintf("fault%d", i)]; f != nfNone {
			sw.h.plan = []netFault{{kind: f, at: p.Cfg[fmt.Sprintf("fault%dat", i)]}}
		}
	}
	var cop *Op
	var ts []*rt.Task
	for i, ops := range p.Tasks {
		i, ops := i, ops
		ts = append(ts, rt.Spawn(fmt.Sprintf("task%d", i), false, func() {
			sw := ws[0]
			for _, o := range ops {
				o := o
				rt.BeginOp(o.ID)
				switch o.K {
				case "host":
					sw = ws[o.A%len(ws)]
				case "cli":
					cop = &o
				default:
					sw.do(i, o)
				}
			}
			rt.BeginOp(1 << 20)
		}))
	}
	rt.Join(ts...)
	if cop == nil {
		return
	}
	rt.BeginOp(cop.ID)
	f := ws[0].inc.w.spec(*cop, "src")
	c := newCLI(p, *cop, f)
	if p.Cfg["unknown"] == 1 {
		c.flag("uri", "-u", "nowhere")
	}
	limit := cop.B
	if limit != 10 {
		c.flag("limit", "-n", fmt.Sprint(limit))
	}
	depth := p.Cfg["depth"]
	if depth != 0 {
		c.flag("stack-depth", "", fmt.Sprint(depth))
	} else {
		depth = -1
	}
	if p.Cfg["include"]&1 != 0 {
		c.args = append(c.args, "--include-request")
	}
	if p.Cfg["include"]&2 != 0 {
		c.args = append(c.args, "--include-stats")
	}
	for i, sw := range ws {
		switch p.Cfg[fmt.Sprintf("down%d", i)] {
		case 1:
			sw.h.down = true
		case 2:
			rt.Count("fault.partition", 1)
			sw.h.hole = true
		}
	}
	c.out.stuck = false
	after := p.Cfg["cancel"]
	if after == 0 { // nobody waits forever
		after = 600_000
	}
	cancelled := false
	rt.AddTimer(int64(after)*1e6, func() {
		if !c.ret {
			cancelled = true
			rt.Count("fault.client_cancelled", 1)
			c.cancel()
		}
	})
	c.start()
	rt.Block("trc", func() bool { return c.ret })
	if cancelled && rt.Prompt() && c.retAt > int64(after)*1e6+60e9 {
		rt.Fail("late", "trc search did not end when it was cancelled")
	}
	if c.rc != nil {
		rt.Fail("error", "trc search failed: %v\n%s", c.rc, c.err.b)
	}
	docs := c.docs()
	if len(docs) != 1 {
		rt.Fail("output", "trc search printed %d documents: %q", len(docs), clip(string(c.out.b), 200))
	}
	res := &trc.SearchResponse{}
	if err := json.Unmarshal(docs[0], res); err != nil {
		rt.Fail("output", "the output is not a response: %v", err)
	}
	want := &trc.SearchRequest{Filter: f.filter(), Limit: limit, StackDepth: depth}
	if (res.Request != nil) != (p.Cfg["include"]&1 != 0) {
		rt.Fail("include", "flags %q, but the response has request %v", c.args, res.Request)
	}
	if (res.Stats != nil) != (p.Cfg["include"]&2 != 0) {
		rt.Fail("include", "flags %q, but the response has statistics %v", c.args, res.Stats)
	}
	if res.Request != nil {
		a := *want
		if d := sameRequest(&a, res.Request); d != "" {
			rt.Fail("request", "the response's request has %s", d)
		}
	}
	// who answered
	var sure, maybe []*answer
	failed := 0
	if p.Cfg["unknown"] == 1 {
		failed++
	}
	for _, sw := range ws {
		var cs []*simConn
		for _, x := range n.conns {
			if x.h == sw.h {
				cs = append(cs, x)
			}
		}
		if len(cs) > 1 {
			rt.Fail("repeated", "trc made %d requests to %s", len(cs), sw.h.name)
		}
		if len(cs) == 0 {
			if !cancelled {
				rt.Fail("asked", "trc made no request to %s", sw.h.name)
			}
			failed++
			continue
		}
		cn := cs[0]
		var a *answer
		if as := recs[sw].recs[cn]; len(as) > 1 {
			rt.Fail("repeated", "%s ran the search %d times", sw.h.name, len(as))
		} else if len(as) == 1 {
			a = as[0]
			b := *want
			if d := sameRequest(&b, a.req); d != "" {
				rt.Fail("request", "%s searched for something else than the flags say: %s", sw.h.name, d)
			}
		}
		complete := false
		var m json.RawMessage
		if json.NewDecoder(bytes.NewReader(cn.got)).Decode(&m) == nil {
			complete = true
		}
		switch {
		case a == nil || !a.done || a.err != nil || a.res == nil || cn.code != 200 || !complete:
			failed++
			rt.Count("probe.failed_servers", 1)
		case cn.struck && cn.fault.kind != nfSlow || cancelled:
			maybe = append(maybe, a)
		default:
			sure = append(sure, a)
			rt.Count("probe.merged_servers", 1)
		}
	}
	msg := ""
	for s := 0; s < 1<<len(maybe); s++ {
		as := append([]*answer(nil), sure...)
		nf := failed
		for i, a := range maybe {
			if s>>i&1 == 0 {
				as = append(as, a)
			} else {
				nf++
			}
		}
		m := c.checkMerged(res, want, as, nf)
		if m == "" {
			msg = ""
			break
		}
		if msg == "" {
			msg = m
		}
	}
	if msg != "" {
		kind, text, _ := strings.Cut(msg, ": ")
		rt.Fail(kind, "trc search: %s (%d servers answered, %d failed)", text, len(sure), failed)
	}
	for _, sw := range ws {
		n.calm(sw.h)
	}
	settle(10e9)
	for _, sw := range ws {
		sw.checkLeftovers()
	}
}

// checkMerged tells what is wrong with a response, given the servers' answers.
func (c *cli) checkMerged(res *trc.SearchResponse, want *trc.SearchRequest, as []*answer, failed int) string {
	rq := *want
	ownProblems := len(rq.Normalize())
	total, match := 0, 0
	var names, problems []string
	var union []*trc.StaticTrace
	stats := trc.NewSearchStats(rq.Bucketing)
	for _, a := range as {
		total += a.copy.TotalCount
		match += a.copy.MatchCount
		names = append(names, a.copy.Sources...)
		problems = append(problems, a.copy.Problems...)
		union = append(union, a.copy.Traces...)
		if a.copy.Stats != nil {
			var cats []string
			for name := range a.copy.Stats.Categories {
				cats = append(cats, name)
			}
			sort.Strings(cats)
			for _, name := range cats {
				if stats.Categories[name] == nil {
					stats.Categories[name] = trc.NewCategoryStats(name, stats.Bucketing)
				}
				addCat(stats.Categories[name], a.copy.Stats.Categories[name])
			}
		}
	}
	if res.TotalCount != total || res.MatchCount != match {
		return fmt.Sprintf("counts: total %d and match count %d, the servers have %d and %d", res.TotalCount, res.MatchCount, total, match)
	}
	if fmt.Sprintf("%q", uniq(names)) != fmt.Sprintf("%q", uniq(res.Sources)) || len(uniq(res.Sources)) != len(res.Sources) {
		return fmt.Sprintf("sources: %q instead of %q", res.Sources, uniq(names))
	}
	if res.Stats != nil {
		if d := sameStats(stats, res.Stats); d != "" {
			return "stats: statistics are not the sum over the servers: " + d
		}
	}
	k := len(union)
	if k > rq.Limit {
		k = rq.Limit
	}
	if len(res.Traces) != k {
		return fmt.Sprintf("traces: %d traces printed, the servers returned %d, limit %d", len(res.Traces), len(union), rq.Limit)
	}
	left := map[string]int{}
	for _, st := range union {
		left[traceVal(st)]++
	}
	for i, st := range res.Traces {
		if v := traceVal(st); left[v] == 0 {
			return fmt.Sprintf("traces: trace %s printed, which no server returned, or too often", st.ID())
		} else {
			left[v]--
		}
		if i > 0 && res.Traces[i-1].Started().Before(st.Started()) {
			return "order: traces are not newest first"
		}
	}
	if k > 0 {
		oldest := res.Traces[k-1].Started()
		for _, st := range union {
			if left[traceVal(st)] > 0 && st.Started().After(oldest) {
				return fmt.Sprintf("omitted: trace %s is newer than the oldest printed, but was left out", st.ID())
			}
		}
	}
	all := append([]string(nil), res.Problems...)
	for _, pr := range problems {
		found := false
		for i, q := range all {
			if strings.Contains(q, pr) {
				all = append(all[:i:i], all[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			return fmt.Sprintf("problems: problem %q of a server is not reported: %q", pr, res.Problems)
		}
	}
	if len(all) < failed {
		return fmt.Sprintf("problems: %d servers failed, but the problems are %q", failed, res.Problems)
	}
	if failed == 0 && ownProblems == 0 && len(all) > 0 {
		return fmt.Sprintf("problems: problems %q although no server failed", all)
	}
	return ""
}
