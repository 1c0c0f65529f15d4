package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/trcweb"
	simctx "trcsim/context"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C17", Gen: genC17, Run: runC17, Quick: 150000, Notes: append([]string{
		"real: trcweb.Middleware, eztrc.Middleware, net/http's Client and request parsing",
		"stand-in: the HTTP server's connection handling (simulated network with faults, or a response writer with scripted errors), the decorated handlers"}, realTrc...)})
}

var paths17 = []string{"/", "/a/b?x=1&y=%25d", "/%20space%2Fslash", "/%d%25s?q=%zz", "/日本?ü=1", "/a?b#c"}

func genC17(g *G) *Prog {
	p := newProg()
	p.Cfg["ctor"] = g.n(5)
	p.Cfg["latency"] = g.pick(0, 1, 20)
	p.Cfg["window"] = g.pick(1<<16, 1<<16, 100, 5000)
	nt := g.rng(1, 4)
	for t := 0; t < nt; t++ {
		for i := g.rng(1, 3); i > 0; i-- {
			o := Op{K: "req", A: g.n(4), B: g.n(len(paths17)), C: -1, D: g.n(1 << 10)}
			// A: 0, 1 through the network, 2 scripted writer, 3 the same without Flusher
			p.add(t, o)
			if o.A < 2 {
				f := Op{K: "fault", A: nfNone, C: -1}
				if g.chance(0.4) {
					f.A = g.pick(nfReset, nfCut, nfEOF, nfStall, nfSlow)
					f.B = g.pick(-1, 0, 1, g.n(100), g.n(2000))
				}
				if g.chance(0.3) || f.A == nfStall {
					f.C = g.pick(0, 1, 5, 20, 21, 40, 200)
				}
				p.add(t, f)
			} else if g.chance(0.5) {
				// write errors: after B bytes, kind C
				p.add(t, Op{K: "fault", A: 1, B: g.pick(0, 1, g.n(50), g.n(1500)), C: g.n(4), D: g.n(2)})
			}
			for j := g.rng(0, 6); j > 0; j-- {
				switch g.weighted(2, 4, 6, 4, 4, 1, 2, 1, 1, 1) {
				case 0:
					p.add(t, Op{K: "hdr", A: g.n(4), B: g.n(9)})
				case 1:
					p.add(t, Op{K: "code", A: g.pick(200, 201, 204, 302, 304, 400, 404, 418, 500, 503, 100, 102, 103, 299, 599, 206)})
				case 2:
					p.add(t, Op{K: "write", A: g.pick(0, 1, 3, 10, 100, g.n(700), 1024, 5000, 1023, g.pick(5000, 5000, 70000, 300000)), B: g.n(3)})
				case 3:
					p.add(t, Op{K: "flush", A: g.n(2)})
				case 4:
					p.add(t, Op{K: "ev", A: g.n(4)})
				case 5:
					p.add(t, Op{K: "panic", A: g.n(5)})
				case 6:
					p.add(t, Op{K: "pause", A: g.pick(0, 1, 5, 30)})
				case 7:
					p.add(t, Op{K: "mutate", A: g.n(3)})
				case 8:
					p.add(t, Op{K: "body"})
				case 9:
					p.add(t, Op{K: "wait", A: g.pick(10, 100)})
				}
			}
		}
	}
	return p
}

// mwReq is one request, with everything known about it.
type mwReq struct {
	op, fault Op
	script    []Op
	cat       string
	path      string
	line      string // URL as the server sees it
	method    string
	body      string
	remote    string

	spy     *spyRW
	tr      trc.Trace
	id      string
	began   bool
	evs     []string
	flushes int
	panics  any
	ended   bool // the middleware returned
	out     any  // what it panicked with
	early   string
}

// spyRW sits between the server and the middleware.
type spyRW struct {
	http.ResponseWriter
	code    int
	infos   []int
	hdr     http.Header
	n       int
	err     error
	sum     int
	data    []byte
	marks   []int // positions of flushes
	writes  int
	noFlush bool
}

func (s *spyRW) commit(code int) {
	if s.code == 0 {
		s.code = code
		s.hdr = s.ResponseWriter.Header().Clone()
	}
}

func (s *spyRW) WriteHeader(code int) {
	rt.Y(920)
	if code >= 100 && code < 200 && code != 101 {
		s.infos = append(s.infos, code)
	} else {
		s.commit(code)
	}
	s.ResponseWriter.WriteHeader(code)
}

func (s *spyRW) Write(p []byte) (int, error) {
	rt.Y(921)
	s.commit(200)
	s.writes++
	n, err := s.ResponseWriter.Write(p)
	s.n += n
	s.sum += n
	if err != nil {
		s.err = err
	}
	s.data = append(s.data, p[:n]...)
	return n, err
}

type spyFlusher struct{ *spyRW }

func (s spyFlusher) Flush() {
	s.commit(200)
	s.marks = append(s.marks, s.sum)
	s.ResponseWriter.(http.Flusher).Flush()
}

// scriptRW is a response writer which fails as told.
type scriptRW struct {
	h     http.Header
	f     Op
	code  int
	total int
	fired int
}

func (w *scriptRW) Header() http.Header { return w.h }
func (w *scriptRW) WriteHeader(c int) {
	if w.code == 0 && (c < 100 || c > 199) {
		w.code = c
	}
}
func (w *scriptRW) Flush() {}

var errWire = errors.New("simulated: write tcp: broken pipe")

func (w *scriptRW) Write(p []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	rt.Y(922)
	if w.f.K == "fault" && w.total+len(p) > w.f.B && (w.fired == 0 || w.f.D == 1) {
		w.fired++
		k := w.f.B - w.total
		if k < 0 {
			k = 0
		}
		var err error
		switch w.f.C {
		case 0: // nothing gets through
			k, err = 0, errWire
		case 1: // part of it gets through
			err = errWire
		case 2: // everything does, and there is an error nevertheless
			k, err = len(p), errWire
		case 3: // short write without error
		}
		w.total += k
		rt.Count("fault.write_error", 1)
		return k, err
	}
	w.total += len(p)
	return len(p), nil
}

type mwPanic struct{ n int }

func runC17(p *Prog) {
	w := newTW(p)
	n := newNet()
	byID := map[string]*mwReq{}
	var reqs []*mwReq
	find := func(r *http.Request) *mwReq {
		x := byID[r.Header.Get("X-Sim")]
		if x == nil {
			rt.Fail("request", "the request lost its headers")
		}
		return x
	}
	cols := []*trc.Collector{w.cols[kindColl], w.cols[kindLog], w.cols[kindNoDetail], w.cols[kindEz], nil}
	col := cols[p.Cfg["ctor"]]
	made := map[string]int{} // with the constructor of our own
	var mw func(http.Handler) http.Handler
	categorize := func(r *http.Request) string { return find(r).cat }
	switch p.Cfg["ctor"] {
	case 3:
		mw = eztrc.Middleware(categorize)
	case 4:
		mw = trcweb.Middleware(func(ctx context.Context, category string) (context.Context, trc.Trace) {
			made[category]++
			return trc.New(ctx, "own", category)
		}, categorize)
	default:
		mw = trcweb.Middleware(col.NewTrace, categorize)
	}
	inner := mw(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		find(r).handle(rw, r)
	}))
	outer := http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		x := find(r)
		x.line, x.method, x.remote = r.URL.String(), r.Method, r.RemoteAddr
		x.spy = &spyRW{ResponseWriter: rw}
		_, can := rw.(http.Flusher)
		x.spy.noFlush = !can || x.op.A == 3
		var sw http.ResponseWriter = x.spy
		if !x.spy.noFlush {
			sw = spyFlusher{x.spy}
		}
		normal := false
		defer func() {
			if rt.Dying() {
				return
			}
			x.ended = true
			if normal {
				return
			}
			x.out = recover()
			if x.out == nil {
				rt.Fail("panic", "the middleware neither returned nor panicked")
			}
			x.checkTrace()
			panic(x.out)
		}()
		inner.ServeHTTP(sw, r)
		normal = true
		x.checkTrace()
	})
	h := n.host("server", outer)
	h.latency = int64(p.Cfg["latency"]) * 1e6
	h.window = p.Cfg["window"]
	client := &http.Client{Transport: n, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}

	var ts []*rt.Task
	for i, ops := range p.Tasks {
		var mine []*mwReq
		for _, o := range ops {
			if o.K == "req" {
				x := &mwReq{op: o, cat: catNames[o.D%len(catNames)], path: paths17[o.B], fault: Op{K: "none", C: -1}}
				mine = append(mine, x)
				byID[strconv.Itoa(o.ID)] = x
				reqs = append(reqs, x)
			} else if len(mine) > 0 {
				x := mine[len(mine)-1]
				if o.K == "fault" {
					x.fault = o
				} else {
					x.script = append(x.script, o)
				}
			}
		}
		ts = append(ts, rt.Spawn(fmt.Sprintf("client%d", i), false, func() {
			for _, x := range mine {
				rt.BeginOp(x.op.ID)
				x.request(client, outer)
			}
		}))
	}
	rt.Join(ts...)
	rt.BeginOp(1 << 20)
	settle(120e9)
	per := map[string]int{}
	for _, x := range reqs {
		if x.began {
			per[x.cat]++
		}
		if x.spy != nil && !x.ended {
			rt.Fail("stuck", "request %d is still being served", x.op.ID)
		}
		if x.spy != nil && !x.began {
			rt.Fail("not-called", "the handler was not called for request %d", x.op.ID)
		}
	}
	ids := map[string]bool{}
	for _, x := range reqs {
		if x.id != "" && ids[x.id] {
			rt.Fail("shared", "two requests share trace %s", x.id)
		}
		ids[x.id] = true
	}
	if col == nil {
		for _, c := range catNames {
			if made[c] != per[c] {
				rt.Fail("one-trace", "%d traces in category %q for %d requests", made[c], c, per[c])
			}
		}
		return
	}
	res, err := col.Search(context.Background(), &trc.SearchRequest{Limit: 250})
	if err != nil {
		rt.Fail("search", "%v", err)
	}
	got := map[string]int{}
	for _, st := range res.Traces {
		got[st.Category()]++
		if !st.Finished() {
			rt.Fail("not-finished", "trace %s (%q) is not finished though all requests are over", st.ID(), st.Category())
		}
		if !ids[st.ID()] {
			rt.Fail("one-trace", "trace %s (%q) belongs to no request", st.ID(), st.Category())
		}
	}
	for _, c := range catNames {
		if got[c] != per[c] {
			rt.Fail("one-trace", "%d traces in category %q for %d requests", got[c], c, per[c])
		}
	}
}

func (x *mwReq) request(client *http.Client, outer http.Handler) {
	o := x.op
	method := []string{"GET", "POST", "PUT", "HEAD", "DELETE"}[o.D%5]
	if method == "HEAD" {
		method = "OPTIONS"
	}
	body := strings.Repeat("b", o.D%7*40)
	u, err := url.Parse("http://server" + x.path)
	if err != nil {
		u = &url.URL{Scheme: "http", Host: "server", Path: x.path}
	}
	ctx, cancel := simctx.WithCancel(context.Background())
	defer cancel()
	if x.fault.K == "fault" && x.op.A < 2 && x.fault.C >= 0 {
		rt.AddTimer(int64(x.fault.C)*1e6+int64(x.op.D%3)*500_000, func() {
			rt.Count("fault.client_gone", 1)
			cancel()
		})
	}
	x.body = body
	hdr := http.Header{}
	hdr.Set("X-Sim", strconv.Itoa(o.ID))
	hdr.Set("User-Agent", "agent %d")
	if o.D&64 != 0 {
		hdr.Set("Accept", "*/*")
		hdr.Set("Content-Type", "text/%s")
	}
	if o.A >= 2 {
		req := &http.Request{Method: method, URL: u, Header: hdr, Body: io.NopCloser(strings.NewReader(body)), RemoteAddr: "1.2.3.4:5", Host: "server", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
		req = req.WithContext(ctx)
		func() {
			defer func() {
				if !rt.Dying() {
					recover()
				}
			}()
			outer.ServeHTTP(&scriptRW{h: http.Header{}, f: x.fault}, req)
		}()
		if !x.ended {
			rt.Fail("stuck", "request %d did not end", o.ID)
		}
		return
	}
	cc := &clientCall{}
	if x.fault.K == "fault" {
		cc.fault = netFault{kind: x.fault.A, at: x.fault.B}
	}
	ctx = context.WithValue(ctx, clientKey{}, cc)
	req, err := http.NewRequestWithContext(ctx, method, "http://server/", strings.NewReader(body))
	if err != nil {
		rt.Fail("harness", "%v", err)
	}
	req.URL = u
	req.Header = hdr
	res, err := client.Do(req)
	if err != nil {
		return
	}
	data, rerr := io.ReadAll(res.Body)
	res.Body.Close()
	c := cc.conns[len(cc.conns)-1]
	s := x.spy
	if res.StatusCode != s.code && !(s.code == 0 && res.StatusCode == 200) {
		rt.Fail("status", "the client got status %d, the handler sent %d", res.StatusCode, s.code)
	}
	for k, v := range s.hdr {
		if fmt.Sprint(res.Header[k]) != fmt.Sprint(v) {
			rt.Fail("header", "the client got header %s %q, the handler sent %q", k, res.Header[k], v)
		}
	}
	if rerr == nil && c.fault.kind != nfEOF {
		if !bytes.Equal(data, s.data) {
			rt.Fail("body", "the client got %d bytes, the handler wrote %d", len(data), len(s.data))
		}
	} else if !bytes.HasPrefix(s.data, data) && c.ended {
		rt.Fail("body", "the client got other bytes than the handler wrote")
	}
}

// handle is the decorated handler.
func (x *mwReq) handle(rw http.ResponseWriter, r *http.Request) {
	s := x.spy
	x.began = true
	ctx := r.Context()
	tr, ok := trc.MaybeGet(ctx)
	if !ok {
		rt.Fail("no-trace", "there is no trace in the context of the request")
	}
	if tr.Category() != x.cat {
		rt.Fail("category", "the trace of the request has category %q, expected %q", tr.Category(), x.cat)
	}
	x.tr, x.id = tr, tr.ID()
	var want spyRW // what the client has to see
	want.ResponseWriter = s.ResponseWriter
	check := func(what string) {
		if tr.Finished() {
			rt.Fail("early-finish", "the trace is finished before its handler ends")
		}
		if s.code != want.code {
			rt.Fail("status", "after %s, status %d was sent instead of %d", what, s.code, want.code)
		}
		if fmt.Sprint(s.infos) != fmt.Sprint(want.infos) {
			rt.Fail("status", "after %s, informational status codes %d were sent instead of %d", what, s.infos, want.infos)
		}
		if want.code != 0 && fmt.Sprint(s.hdr) != fmt.Sprint(want.hdr) {
			rt.Fail("header", "after %s, headers %v were sent instead of %v", what, s.hdr, want.hdr)
		}
		if !bytes.Equal(s.data, want.data) {
			rt.Fail("body", "after %s, %d body bytes were sent instead of %d, or others", what, len(s.data), len(want.data))
		}
		if fmt.Sprint(s.marks) != fmt.Sprint(want.marks) {
			rt.Fail("flush", "after %s, flushes happened at %d instead of %d", what, s.marks, want.marks)
		}
	}
	for _, o := range x.script {
		rt.Y(923)
		what := o.K
		switch o.K {
		case "hdr":
			rw.Header().Set([]string{"X-One", "X-Two", "Content-Type", "Etag"}[o.A], fmt.Sprint("v", o.B))
		case "code":
			if c := o.A; c >= 100 && c < 200 {
				want.infos = append(want.infos, c)
			} else {
				want.commit(c)
			}
			rw.WriteHeader(o.A)
		case "write":
			data := bytes.Repeat([]byte(fmt.Sprintf("w%d;", o.ID)), 1+o.A/3)[:o.A]
			s.n, s.err, s.writes = 0, nil, 0
			var n int
			var err error
			if o.A > 0 || o.B < 2 {
				want.commit(200)
			}
			switch o.B {
			case 0:
				n, err = rw.Write(data)
			case 1:
				n, err = io.WriteString(rw, string(data))
			case 2:
				var m int64
				m, err = io.Copy(rw, struct{ io.Reader }{bytes.NewReader(data)})
				n = int(m)
			}
			if n != s.n {
				rt.Fail("write-result", "writing %d bytes, the handler was told that %d were written, but it was %d", len(data), n, s.n)
			}
			if s.err != nil && err != s.err {
				rt.Fail("write-result", "writing failed with %v, but the handler was told %v", s.err, err)
			}
			if s.err == nil && err != nil && !(o.B == 2 && errors.Is(err, io.ErrShortWrite)) {
				rt.Fail("write-result", "writing did not fail, but the handler was told %v", err)
			}
			if n < len(data) && err == nil && x.op.A < 2 {
				rt.Fail("write-result", "a short write without error")
			}
			want.data = append(want.data, data[:n]...)
			want.sum += n
		case "flush":
			var f http.Flusher
			if o.A == 0 {
				f, _ = rw.(http.Flusher)
			}
			can := !s.noFlush
			if can {
				want.commit(200)
				want.marks = append(want.marks, want.sum)
			}
			if o.A == 0 {
				if f == nil && can {
					rt.Fail("flush", "the handler can't flush")
				}
				if f != nil {
					f.Flush()
				}
			} else if err := http.NewResponseController(rw).Flush(); err != nil && can {
				rt.Fail("flush", "the handler can't flush: %v", err)
			}
		case "ev":
			txt := fmt.Sprintf("h%d;", o.ID)
			x.evs = append(x.evs, txt)
			switch o.A {
			case 0:
				trc.Get(ctx).Tracef("%s", txt)
			case 1:
				tr.LazyErrorf("%s", txt)
			case 2:
				trc.Get(ctx).LazyTracef("%s", txt)
			case 3:
				eztrc.Errorf(ctx, "%s", txt)
			}
		case "panic":
			x.panics = []any{"boom", errors.New("boom"), http.ErrAbortHandler, mwPanic{o.ID}, &mwPanic{o.ID}}[o.A]
			rt.Count("fault.handler_panic", 1)
			panic(x.panics)
		case "pause":
			rt.Sleep(int64(o.A) * 1e6)
		case "mutate":
			switch o.A {
			case 0:
				r.URL.Path = "/changed"
			case 1:
				r.Header.Set("User-Agent", "other")
				r.Method = "OTHER"
			case 2:
				r.URL.RawQuery = "changed"
			}
		case "body":
			b, err := io.ReadAll(r.Body)
			if err == nil && string(b) != "" && string(b) != x.body {
				rt.Fail("request-body", "the handler reads body %q instead of %q", b, x.body)
			}
		case "wait":
			over := false
			t := rt.AddTimer(int64(o.A)*1e6, func() { over = true; rt.Wake() })
			c, _ := ctx.Value(connKey{}).(*simConn)
			if x.op.A < 2 && c == nil {
				rt.Fail("context", "the handler's context is not derived from the request's")
			}
			rt.Block("wait for the client to go", func() bool { return over || ctx.Err() != nil })
			t.Stop()
			if c != nil && c.gone && ctx.Err() == nil {
				rt.Fail("context", "the client is gone but the handler's context is not cancelled")
			}
			if ctx.Err() != nil {
				rt.Count("probe.context_cancelled", 1)
			}
		}
		check(what)
	}
}

var bytesRE = regexp.MustCompile(`^([0-9.]+)(B|KB|MB)$`)

func isBytes(tok string, n int) bool {
	m := bytesRE.FindStringSubmatch(tok)
	if m == nil {
		return false
	}
	v, err := strconv.ParseFloat(m[1], 64)
	if err != nil {
		return false
	}
	unit := map[string]float64{"B": 1, "KB": 1 << 10, "MB": 1 << 20}[m[2]]
	d := v*unit - float64(n)
	tol := 0.051 * unit
	if m[2] == "B" {
		tol = 0
	} else if v >= 100 {
		tol = 0.51 * unit
	}
	return d <= tol && d >= -tol
}

// checkTrace runs as soon as the middleware is done.
func (x *mwReq) checkTrace() {
	if x.out != x.panics {
		rt.Fail("panic", "the handler panicked with %v, the middleware with %v", x.panics, x.out)
	}
	if !x.began {
		rt.Fail("not-called", "the handler was not called for request %d", x.op.ID)
	}
	tr := x.tr
	if !tr.Finished() {
		rt.Fail("not-finished", "the trace is not finished though its handler has ended (panic %v)", x.panics)
	}
	evs := tr.Events()
	// events of the handler, in order
	first, last := -1, -1
	k := 0
	for i, e := range evs {
		if k < len(x.evs) && e.What == x.evs[k] {
			k++
			if first < 0 {
				first = i
			}
			last = i
		}
	}
	if k < len(x.evs) {
		rt.Fail("handler-events", "event %s of the handler is missing", x.evs[k])
	}
	ok := false
	for i, e := range evs {
		if first >= 0 && i >= first {
			break
		}
		if f := strings.Fields(e.What); !ok && strings.Contains(e.What, x.line) && contains(f, x.method) {
			ok = true
		}
	}
	if !ok {
		rt.Fail("request-line", "no event before those of the handler has the request line %s %s: %s", x.method, x.line, eventTexts(evs))
	}
	if x.panics != nil && x.spy.code == 0 {
		return // no status was sent
	}
	code := x.spy.code
	if code == 0 {
		code = 200
	}
	ok = false
	for _, e := range evs[last+1:] {
		f := strings.FieldsFunc(e.What, func(r rune) bool { return r == ' ' || r == ',' })
		if !contains(f, strconv.Itoa(code)) {
			continue
		}
		for _, tok := range f {
			if isBytes(tok, x.spy.sum) {
				ok = true
			}
		}
	}
	if !ok {
		rt.Fail("outcome", "no event after those of the handler has status %d and size %d: %s", code, x.spy.sum, eventTexts(evs))
	}
	rt.Count("probe.requests", 1)
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func eventTexts(evs []trc.Event) string {
	var b strings.Builder
	for _, e := range evs {
		fmt.Fprintf(&b, "%q ", e.What)
	}
	return b.String()
}
