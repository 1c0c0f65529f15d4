package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"runtime/debug"
	"strings"

	simctx "trcsim/context"
	"trcsim/rt"
)

// simNet is the simulated network: an http.RoundTripper which runs the real
// handlers in tasks of their own, with latency, flow control and faults.
//
// Like net/http's server, it buffers what a handler writes until it flushes,
// returns, or has written 4 kB; cancels the request's context and fires
// CloseNotify when it notices that the client is gone (or a write fails); and
// recovers panics by cutting the connection.
type simNet struct {
	hosts map[string]*simHost
	conns []*simConn
}

type simHost struct {
	name    string
	handler http.Handler
	down    bool       // connections are refused
	hole    bool       // partition: connections hang, data and closes are held back
	status  int        // something in front answers with this status instead
	latency int64      // ns, each way
	window  int        // bytes in flight before writes block
	plan    []netFault // of the next connections
}

type netFault struct {
	kind int
	at   int // body bytes before it strikes; -1: before the response header
}

const (
	nfNone   = iota
	nfRefuse // connection refused
	nfReset  // connection reset
	nfCut    // connection ends early, noticed by the client
	nfEOF    // connection ends early, looking like a regular end
	nfStall  // nothing more arrives
	nfStatus // a proxy's error page, status at
	nfJunk   // a proxy's page with status 200
	nfSlow   // bytes trickle in
	nfKinds
)

var nfNames = []string{"none", "connection_refused", "connection_reset", "response_cut", "response_ended_early", "response_stalled", "proxy_error_status", "proxy_junk", "slow_response"}

type simConn struct {
	n                      *simNet
	h                      *simHost
	id                     int
	req                    *http.Request // as the client made it
	sreq                   *http.Request // as the server got it
	fault                  netFault
	struck                 bool
	proxied                bool // answered by something in front
	fromEnd                int
	refused                bool
	connecting             bool
	connectedAt, startedAt int64
	blocked                bool // a write was held up

	// client side
	avail     []byte
	eof       bool
	broken    error
	closed    bool // by the client
	closedAt  int64
	done      bool // the exchange is over as far as the client is concerned
	hdr       http.Header
	code      int
	hdrUp     bool // header has arrived
	delivered int
	got       []byte // what the client has read

	// in flight
	lastAt   int64
	inflight int
	held     []func()

	// server side
	started, ended bool
	endedAt        int64
	panicked       any
	gone           bool // the server knows that the client is gone
	goneAt         int64
	cancel         context.CancelFunc
	notify         chan bool
	sbuf           []byte
	shdr           http.Header
	scode          int
	wrote          bool // header committed
	sentHdr        bool
	written        int
	tap            []byte // everything the handler wrote
	flushes        int
}

type connKey struct{}
type clientKey struct{}

// clientCall goes with the context of a client's call: the fault it will meet,
// and the connections it made.
type clientCall struct {
	fault    netFault
	fromEnd  int // instead: bytes before the end of the response
	searcher int // how the server's searcher behaves
	conns    []*simConn
}

var errReset = errors.New("simulated: connection reset by peer")
var errRefused = errors.New("simulated: connection refused")

func newNet() *simNet {
	n := &simNet{hosts: map[string]*simHost{}}
	http.DefaultTransport = n
	http.DefaultClient = &http.Client{Transport: n}
	return n
}

func (n *simNet) host(name string, h http.Handler) *simHost {
	x := &simHost{name: name, handler: h, latency: 1_000_000, window: 1 << 16}
	n.hosts[name] = x
	return x
}

// live tells how many exchanges of a host a client still holds open.
func (n *simNet) open() (r []*simConn) {
	for _, c := range n.conns {
		if c.hdrUp && !c.closed && c.broken == nil && !c.eof {
			r = append(r, c)
		}
	}
	return r
}

func (n *simNet) RoundTrip(req *http.Request) (*http.Response, error) {
	ctx := req.Context()
	h := n.hosts[req.URL.Host]
	c := &simConn{n: n, h: h, id: len(n.conns), req: req}
	n.conns = append(n.conns, c)
	var body []byte
	if req.Body != nil {
		var err error
		body, err = io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
	}
	if cc, ok := ctx.Value(clientKey{}).(*clientCall); ok {
		c.fault = cc.fault
		c.fromEnd = cc.fromEnd
		cc.conns = append(cc.conns, c)
	} else if h != nil && len(h.plan) > 0 {
		c.fault = h.plan[0]
		h.plan = h.plan[1:]
	}
	rt.Note("conn %d: %s %s fault %s at %d", c.id, req.Method, req.URL, nfNames[c.fault.kind], c.fault.at)
	over := false
	lat := int64(1_000_000)
	if h != nil {
		lat = h.latency
	}
	refused := h == nil || h.down || c.fault.kind == nfRefuse
	if refused {
		lat += 100_000_000
	}
	rt.AddTimer(lat, func() { over = true; rt.Wake() })
	c.connecting, c.connectedAt = true, 1<<62
	defer func() { c.connectedAt = rt.Mono() }()
	rt.Block("connecting", func() bool { return ctx.Err() != nil || over && (h == nil || !h.hole) })
	if err := ctx.Err(); err != nil {
		rt.Count("fault.cancelled_while_connecting", 1)
		return nil, err
	}
	if refused || h.down {
		rt.Count("fault.connection_refused", 1)
		c.refused = true
		return nil, errRefused
	}
	if c.fault.kind == nfReset && c.fault.at < 0 && c.fault.at%2 == 0 { // before the request gets there
		c.strike()
		return nil, errReset
	}
	// the request as the server reads it off the wire
	var wire bytes.Buffer
	out := req.Clone(context.Background())
	out.Body = nil
	if req.Body != nil {
		out.Body = io.NopCloser(bytes.NewReader(body))
		out.ContentLength = int64(len(body))
	}
	if err := out.Write(&wire); err != nil {
		return nil, err
	}
	sreq, err := http.ReadRequest(bufio.NewReader(&wire))
	if err != nil {
		return nil, fmt.Errorf("server can't read the request: %v", err)
	}
	sreq.RemoteAddr = fmt.Sprintf("10.0.0.1:%d", 10000+c.id)
	sctx, cancel := simctx.WithCancel(context.WithValue(context.Background(), connKey{}, c))
	c.cancel = cancel
	c.sreq = sreq.WithContext(sctx)
	c.shdr = http.Header{}
	c.notify = rt.Reg(make(chan bool, 1))
	status := h.status
	junk, jsonError := "", ""
	switch c.fault.kind {
	case nfStatus:
		status = c.fault.at
		jsonError = `{"request":{},"response":{"sources":["proxy"],"total_count":3,"match_count":3,"traces":[]}}`
		c.strike()
	case nfJunk:
		status = 200
		junk = "<html>hello</html>"
		c.strike()
	}
	handler := h.handler
	if status != 0 {
		handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if status >= 300 && c.id%2 == 1 && jsonError != "" { // looks like a result
				w.Header().Set("content-type", "application/json; charset=utf-8")
				w.WriteHeader(status)
				io.WriteString(w, jsonError)
				return
			}
			w.WriteHeader(status)
			if status != 204 {
				io.WriteString(w, junk+"answer of a proxy")
			}
		})
	}
	if status != 0 { // takes its time
		c.proxied = true
		rt.Sleep(100e6)
	}
	c.started = true
	c.startedAt = rt.Mono()
	rt.Spawn(fmt.Sprintf("server%d", c.id), true, func() { c.serve(handler) })
	rt.Block("waiting for the response", func() bool { return ctx.Err() != nil || c.hdrUp || c.broken != nil || c.eof })
	switch {
	case ctx.Err() != nil:
		rt.Count("fault.cancelled_while_waiting", 1)
		c.clientClose()
		return nil, ctx.Err()
	case !c.hdrUp && c.broken == nil: // a regular end without a response
		return nil, io.EOF
	case c.broken != nil && !c.hdrUp:
		return nil, c.broken
	}
	res := &http.Response{
		Status: fmt.Sprintf("%d %s", c.code, http.StatusText(c.code)), StatusCode: c.code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: c.hdr, ContentLength: -1, Request: req, Body: &connBody{c, ctx},
	}
	return res, nil
}

func (c *simConn) strike() {
	if !c.struck {
		c.struck = true
		rt.Count("fault."+nfNames[c.fault.kind], 1)
	}
}

// later does something at the other end after the latency, in order.
func (c *simConn) later(extra int64, f func()) {
	at := rt.Mono() + c.h.latency + extra
	if at <= c.lastAt {
		at = c.lastAt
	}
	c.lastAt = at
	rt.AddTimer(at-rt.Mono(), func() {
		if c.h.hole || len(c.held) > 0 {
			c.held = append(c.held, f)
			return
		}
		f()
		rt.Wake()
	})
}

// calm removes faults which have not struck yet.
func (n *simNet) calm(h *simHost) {
	h.down, h.status, h.plan, h.window = false, 0, nil, 1<<20
	for _, c := range n.conns {
		if c.h == h && !c.struck {
			c.fault = netFault{}
		}
	}
	n.heal(h)
	rt.Wake()
}

// heal ends a partition.
func (n *simNet) heal(h *simHost) {
	h.hole = false
	for _, c := range n.conns {
		if c.h == h {
			fs := c.held
			c.held = nil
			for _, f := range fs {
				f()
			}
		}
	}
	rt.Wake()
}

// connOf returns the latest connection of a request.
func (n *simNet) connOf(r *http.Request) *simConn {
	for i := len(n.conns) - 1; i >= 0; i-- {
		if n.conns[i].req == r {
			return n.conns[i]
		}
	}
	rt.Fail("harness", "no connection for the request")
	return nil
}

// crash cuts all connections of a host.
func (n *simNet) crash(h *simHost) {
	for _, c := range n.conns {
		if c.h == h && c.started && !c.over() {
			if h.hole { // the client can't know before the partition ends
				c.serverGone()
				c.held = append(c.held, func() { c.breakConn(errReset) })
				continue
			}
			c.breakConn(errReset)
		}
	}
}

func (c *simConn) over() bool {
	return c.broken != nil || c.closed && c.gone || c.eof && c.ended
}

func (c *simConn) breakConn(err error) {
	if c.broken == nil && !c.eof {
		c.broken = err
	}
	c.serverGone()
	rt.Wake()
}

// serverGone makes the server notice that the client is gone.
func (c *simConn) serverGone() {
	if c.gone {
		return
	}
	c.gone = true
	c.goneAt = rt.Mono()
	if !c.ended {
		rt.NoPreempt(func() {
			c.cancel()
			select {
			case c.notify <- true:
			default:
			}
		})
	}
	rt.Wake()
}

func (c *simConn) clientClose() {
	if c.closed {
		return
	}
	c.closed = true
	c.closedAt = rt.Mono()
	c.later(0, c.serverGone)
	rt.Wake()
}

func (c *simConn) serve(h http.Handler) {
	w := &simRW{c}
	defer func() {
		if c.ended {
			return
		}
		x := recover()
		if rt.Dying() {
			return
		}
		c.panicked = x
		c.ended = true
		c.endedAt = rt.Mono()
		rt.Note("conn %d: handler ended, panic %v", c.id, x)
		if x != nil {
			if x != http.ErrAbortHandler {
				rt.Logf("%s", debug.Stack())
			}
			c.breakConn(io.ErrUnexpectedEOF)
			return
		}
		if !c.wrote {
			w.WriteHeader(200)
		}
		w.push()
		c.later(0, func() {
			if !c.closed && c.broken == nil && !c.stalled() {
				c.eof = true
			}
		})
		c.cancel()
	}()
	h.ServeHTTP(w, c.sreq)
}

func (c *simConn) stalled() bool { return c.fault.kind == nfStall && c.struck }

// arrive delivers bytes to the client, where faults strike.
func (c *simConn) arrive(b []byte) {
	c.inflight -= len(b)
	if c.closed || c.broken != nil || c.eof || c.stalled() {
		return
	}
	cut := len(b)
	strikes := false
	switch c.fault.kind {
	case nfReset, nfCut, nfEOF, nfStall:
		if c.fault.at >= 0 && !c.struck && c.delivered+len(b) >= c.fault.at {
			cut = c.fault.at - c.delivered
			strikes = true
		}
	}
	c.avail = append(c.avail, b[:cut]...)
	c.delivered += cut
	if strikes {
		c.strike()
		c.fail()
	}
}

func (c *simConn) fail() {
	switch c.fault.kind {
	case nfReset:
		c.breakConn(errReset)
	case nfCut:
		c.breakConn(io.ErrUnexpectedEOF)
	case nfEOF:
		c.eof = true
		c.serverGone()
	case nfStall:
	}
}

type simRW struct{ c *simConn }

func (w *simRW) Header() http.Header { return w.c.shdr }

func (w *simRW) WriteHeader(code int) {
	c := w.c
	if code >= 100 && code < 200 && code != 101 {
		return
	}
	if c.wrote {
		return
	}
	c.wrote = true
	c.scode = code
	if c.shdr.Get("Content-Type") == "" && code != 204 {
		c.shdr.Set("Content-Type", "text/plain; charset=utf-8")
	}
	c.hdr = c.shdr.Clone()
}

func (w *simRW) Write(p []byte) (int, error) {
	c := w.c
	rt.Y(910)
	if !c.wrote {
		w.WriteHeader(200)
	}
	if c.ended {
		return 0, http.ErrHandlerTimeout
	}
	if c.gone {
		return 0, errReset
	}
	if c.scode == 204 || c.scode == 304 {
		return 0, http.ErrBodyNotAllowed
	}
	c.sbuf = append(c.sbuf, p...)
	c.tap = append(c.tap, p...)
	if c.fromEnd > 0 && len(c.tap) > c.fromEnd {
		c.fault.at = len(c.tap) - c.fromEnd
	}
	if len(c.sbuf) >= 4096 {
		w.push()
	}
	if c.gone {
		return 0, errReset
	}
	return len(p), nil
}

func (w *simRW) Flush() {
	if !w.c.wrote {
		w.WriteHeader(200)
	}
	w.c.flushes++
	w.push()
}

// push puts what was written on the wire.
func (w *simRW) push() {
	c := w.c
	if c.inflight+len(c.avail) >= c.h.window {
		rt.Count("probe.flow_control", 1)
		c.blocked = true
		stuck := false
		t := rt.AddTimer(60_000_000_000, func() { stuck = true; rt.Wake() }) // TCP gives up when nothing gets through
		rt.Block("flow control", func() bool {
			return c.gone || c.broken != nil || c.inflight+len(c.avail) < c.h.window || stuck && c.h.hole
		})
		t.Stop()
		if stuck && c.h.hole {
			rt.Count("fault.tcp_timeout", 1)
			c.breakConn(errReset)
		}
	}
	if c.gone {
		c.sbuf = nil
		return
	}
	if !c.sentHdr {
		c.sentHdr = true
		c.later(0, func() {
			if c.closed || c.broken != nil {
				return
			}
			if c.fault.at < 0 && !c.struck {
				switch c.fault.kind {
				case nfReset, nfCut, nfEOF, nfStall:
					c.strike()
					c.fail()
				}
			}
			if c.broken == nil && !c.eof && !c.stalled() {
				c.hdrUp = true
				c.code = c.scode
			}
		})
	}
	if len(c.sbuf) == 0 {
		return
	}
	b := c.sbuf
	c.sbuf = nil
	c.inflight += len(b)
	if c.fault.kind == nfSlow {
		c.strike()
		for len(b) > 0 {
			k := 1 + len(b)/3
			x := b[:k]
			b = b[k:]
			c.later(20_000_000, func() { c.arrive(x) })
		}
		return
	}
	c.later(0, func() { c.arrive(b) })
}

func (w *simRW) CloseNotify() <-chan bool { return w.c.notify }

type connBody struct {
	c   *simConn
	ctx context.Context
}

func (b *connBody) Read(p []byte) (int, error) {
	c := b.c
	rt.Y(911)
	if len(p) == 0 {
		return 0, nil
	}
	rt.Block("reading", func() bool {
		return c.closed || len(c.avail) > 0 || c.eof || c.broken != nil || b.ctx.Err() != nil
	})
	switch {
	case c.closed:
		return 0, errors.New("simulated: read on closed response body")
	case b.ctx.Err() != nil:
		c.clientClose()
		return 0, b.ctx.Err()
	case len(c.avail) > 0:
		n := copy(p, c.avail)
		if n > 1 && rt.Chance(rt.TagFault, 0.1) { // short reads
			n = 1 + rt.Choose(rt.TagFault, n)
			if n > len(p) {
				n = len(p)
			}
			rt.Count("fault.short_read", 1)
		}
		if n > len(c.avail) {
			n = len(c.avail)
		}
		c.got = append(c.got, c.avail[:n]...)
		c.avail = c.avail[n:]
		rt.Wake()
		return n, nil
	case c.broken != nil:
		return 0, c.broken
	default:
		c.done = true
		return 0, io.EOF
	}
}

func (b *connBody) Close() error {
	rt.Y(912)
	b.c.clientClose()
	return nil
}

// settle lets d ns pass, with everybody getting their turns.
func settle(d int64) {
	rt.Calm(true)
	defer rt.Calm(false)
	for i := 0; i < 4; i++ {
		rt.Quiesce()
		rt.Sleep(d / 4)
	}
	rt.Quiesce()
}

// checkPanics fails when a handler panicked.
func (n *simNet) checkPanics() {
	for _, c := range n.conns {
		if c.panicked != nil {
			rt.Fail("handler-panic", "the handler of %s %s panicked: %v", c.req.Method, c.req.URL, c.panicked)
		}
	}
}

func (c *simConn) String() string {
	return fmt.Sprintf("connection %d (%s %s)", c.id, c.req.Method, c.req.URL)
}

// rawRequest makes a request without going through the client code.
func rawRequest(ctx context.Context, method, host, query, body string, header map[string]string) *http.Request {
	u := &url.URL{Scheme: "http", Host: host, Path: "/", RawQuery: query}
	r, err := http.NewRequestWithContext(ctx, method, "http://"+host+"/", strings.NewReader(body))
	if err != nil {
		rt.Fail("harness", "%v", err)
	}
	r.URL = u
	for k, v := range header {
		r.Header.Set(k, v)
	}
	return r
}
