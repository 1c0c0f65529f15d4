package main

import (
	"context"
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	simctx "trcsim/context"
	"trcsim/rt"
)

// win is the window of a call: global sequence numbers and monotonic times of
// its invocation and return. ret is 0 while the call is in progress.
type win struct {
	inv, ret int64
	m0, m1   int64
}

func begin() win    { return win{inv: rt.Seq(), m0: rt.Mono()} }
func (w *win) end() { w.ret = rt.Seq(); w.m1 = rt.Mono() }
func (w win) String() string {
	return fmt.Sprintf("[%d,%d]", w.inv, w.ret)
}

// before reports that a returned before b was invoked.
func (a win) before(b win) bool { return a.ret != 0 && a.ret < b.inv }

// strg is an argument whose text is different on every evaluation.
type strg struct {
	id    int
	evals []win
}

func (s *strg) String() string {
	x := begin()
	n := len(s.evals) + 1
	s.evals = append(s.evals, x)
	rt.Y(900)
	s.evals[n-1].end()
	return fmt.Sprintf("s%d.%d", s.id, n)
}

// evRec is a call which records an event.
type evRec struct {
	win
	op             Op
	tr             *tinfo
	key            string
	want           func(n int) string // expected text, given the number of the evaluation
	re             *regexp.Regexp     // instead, for texts with a duration
	st             *strg
	isErr          bool
	lazy           bool
	begun, begunLo int64 // regions: monotonic times after and before entering
}

// readRec is a call which reads a trace.
type readRec struct {
	win
	op     Op
	tr     *tinfo
	what   int
	events []trc.Event
	b      bool
	d      time.Duration
	t      time.Time
	s      string
	static *trc.StaticTrace
}

const (
	rdEvents = iota
	rdFinished
	rdErrored
	rdDuration
	rdStarted
	rdIdent
	rdSearch
)

type view struct {
	ctx   context.Context
	tr    trc.Trace
	pfmt  string
	pargs []any
}

type region struct {
	view
	t      *tinfo
	name   string
	finish func()
	op     Op
	begun  int64
	begun0 int64
}

// tinfo is everything the harness knows about one trace.
type tinfo struct {
	idx    int
	op     Op
	kind   int
	ctx    context.Context
	tr     trc.Trace
	id     string
	src    string
	cat    string
	create win
	views  map[int]*view
	evs    []*evRec
	fins   []*finRec
	reads  []*readRec
	lo, hi int // possible event limits
	sets   int // successful SetMaxEvents calls after creation
	owns   []*ownSet
	gone   int64 // when its collector dropped it
	limit0 int   // limit after creation
	exact  bool  // limit0 is known
}

type finRec struct {
	win
	op Op
}

// tw is the world of the scenarios about traces.
type tw struct {
	p       *Prog
	cols    [5]*trc.Collector
	slots   map[int]*tinfo
	traces  []*tinfo
	byID    map[string]*tinfo
	broker  *trc.Broker
	log     *simWriter
	regions map[int][]*region // per task
	maxHist []maxSet          // history of the global limit
	onNew   func(t *tinfo)
	noisy   bool // someone else may read traces (subscribers, logs)
	clock   []clockStep
	stop    []context.CancelFunc
	shared  []any // arguments shared by many events
	subs    bool  // there are subscribers
}

type maxSet struct {
	win
	n int
}

type clockStep struct{ mono, off int64 }

const (
	kindCore = iota
	kindColl
	kindLog
	kindEz
	kindNoDetail
)

func newTW(p *Prog) *tw {
	w := &tw{p: p, slots: map[int]*tinfo{}, byID: map[string]*tinfo{}, regions: map[int][]*region{}}
	w.broker = trc.NewBroker()
	w.log = &simWriter{name: "log"}
	w.cols[kindColl] = trc.NewCollector(trc.CollectorConfig{Source: "src", Broker: w.broker})
	w.cols[kindLog] = trc.NewCollector(trc.CollectorConfig{Source: "logsrc", Broker: w.broker, Decorators: []trc.DecoratorFunc{trc.LogDecorator(w.log)}})
	w.cols[kindEz] = eztrc.Collector()
	w.cols[kindNoDetail] = trc.NewCollector(trc.CollectorConfig{Source: "ndsrc", Broker: w.broker, NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		return trc.New(ctx, source, category, append([]trc.DecoratorFunc{trc.LogDecorator(w.log)}, ds...)...)
	}})
	w.maxHist = []maxSet{{win: win{inv: -2, ret: -1}, n: 1000}}
	w.clock = []clockStep{{0, 0}}
	w.shared = make([]any, 2, 8)
	w.shared[0], w.shared[1] = "sh%", 4242
	return w
}

// subscribe attaches a subscriber which stays until the end: mode 1 never
// reads, mode 2 reads everything.
func (w *tw) subscribe(mode int) {
	if mode == 0 {
		return
	}
	w.noisy, w.subs = true, true
	for i, c := range []*trc.Collector{w.cols[kindColl], w.cols[kindEz]} {
		ch := rt.Reg(make(chan trc.Trace, 3))
		ctx, cancel := simctx.WithCancel(context.Background())
		w.stop = append(w.stop, cancel)
		c := c
		up := false
		rt.Spawn(fmt.Sprintf("sub%d", i), true, func() { up = true; c.Stream(ctx, trc.Filter{}, ch) })
		if mode == 2 {
			rt.Spawn(fmt.Sprintf("subread%d", i), true, func() {
				for {
					rt.Recv(ch)
				}
			})
		}
		_ = up
		rt.Block("subscribed", func() bool { return up })
	}
}

// churn uses up n traces of a collector of its own, so that whatever the
// implementation recycles has been used, in every way, before.
func (w *tw) churn(n int) {
	if n == 0 {
		return
	}
	c := trc.NewCollector(trc.CollectorConfig{Source: "churn", Broker: trc.NewBroker()})
	c.SetCategorySize(1)
	for i := 0; i < n; i++ {
		_, tr := c.NewTrace(context.Background(), "churn")
		for j := 0; j < 4; j++ {
			switch (i + j) % 4 {
			case 0:
				tr.LazyErrorf("stale lazy error %s %d", w.shared...)
			case 1:
				tr.Tracef("stale %s %d", w.shared...)
			case 2:
				tr.LazyTracef("stale lazy %s %d", w.shared...)
			default:
				tr.Errorf("stale error %s", "x")
			}
		}
		if i%2 == 0 {
			tr.Events()
		}
		tr.Finish()
	}
	c.NewTrace(context.Background(), "churn")
	rt.Count("probe.churn", int64(n))
}

// checkShared verifies that nobody wrote to the arguments passed in.
func (w *tw) checkShared() {
	a := w.shared[:cap(w.shared)]
	if a[0] != any("sh%") || a[1] != any(4242) {
		rt.Fail("args-changed", "the arguments passed to recording calls were changed to %v", a)
	}
	for _, x := range a[2:] {
		if x != nil {
			rt.Fail("args-changed", "something wrote beyond the end of the arguments passed to recording calls: %v", a)
		}
	}
}

// runTasks runs the program's tasks and waits for them.
func (w *tw) runTasks(extra func(task int, o Op) bool) {
	var ts []*rt.Task
	for i, ops := range w.p.Tasks {
		i, ops := i, ops
		ts = append(ts, rt.Spawn(fmt.Sprintf("client%d", i), false, func() {
			for _, o := range ops {
				rt.BeginOp(o.ID)
				if extra != nil && extra(i, o) {
					continue
				}
				w.do(i, o)
			}
			rt.BeginOp(1 << 20)
		}))
	}
	rt.Join(ts...)
	rt.BeginOp(1<<20 + 1)
}

var catNames = []string{"alpha", "alphabet", "overall", "", "délta %d\n", "Alpha", "zeta", "eta", "alpha ", " alpha", "alphA", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c22", "c23", "c24", "c25", "c26", "c27", "c28", "c29", "c30", "c31", "c32", "c33", strings.Repeat("a long category ", 20)}

func (w *tw) newTrace(slot, kind, cat int, op Op) *tinfo {
	t := &tinfo{idx: len(w.traces), op: op, kind: kind, cat: catNames[cat], views: map[int]*view{}}
	w.traces = append(w.traces, t)
	t.create = begin()
	switch kind {
	case kindCore:
		t.src = "core"
		t.ctx, t.tr = trc.New(context.Background(), t.src, t.cat)
	case kindEz:
		t.src = "default"
		t.ctx, t.tr = eztrc.New(context.Background(), t.cat)
	default:
		t.src = map[int]string{kindColl: "src", kindLog: "logsrc", kindNoDetail: "ndsrc"}[kind]
		t.ctx, t.tr = w.cols[kind].NewTrace(context.Background(), t.cat)
	}
	t.create.end()
	t.lo, t.hi = w.limitAt(t.create)
	t.id = t.tr.ID()
	w.byID[t.id] = t
	rt.Note("new trace %d kind %d cat %q id %s in slot %d", t.idx, kind, t.cat, t.id, slot)
	if w.onNew != nil {
		w.onNew(t)
	}
	w.slots[slot] = t
	return t
}

// limitAt returns the bounds of the global limit during a window.
func (w *tw) limitAt(x win) (lo, hi int) {
	lo, hi = 1<<30, 0
	add := func(n int) {
		if n < lo {
			lo = n
		}
		if n > hi {
			hi = n
		}
	}
	// the value in force at the start: any set which may be the last one before
	for i, s := range w.maxHist {
		superseded := false
		for _, u := range w.maxHist[i+1:] {
			if s.before(u.win) && u.ret != 0 && u.ret < x.inv {
				superseded = true
			}
		}
		for _, u := range w.maxHist[:i] {
			if s.before(u.win) && u.ret != 0 && u.ret < x.inv {
				superseded = true
			}
		}
		if !superseded && s.inv <= x.ret {
			add(s.n)
		}
	}
	return lo, hi
}

func (w *tw) view(t *tinfo, v int) *view {
	if x := t.views[v]; x != nil {
		return x
	}
	var x *view
	switch v {
	case 1:
		ctx, tr := trc.Prefix(t.ctx, "pfx")
		x = &view{ctx, tr, "pfx ", nil}
	case 2:
		args := make([]any, 2, 9)
		args[0], args[1] = 7, "a%b"
		ctx, tr := trc.Prefix(t.ctx, "q%d[%s]", args...)
		x = &view{ctx, tr, "q%d[%s] ", []any{7, "a%b"}}
	case 3:
		up := w.view(t, 2)
		args := make([]any, 1, 7)
		args[0] = "X%d"
		ctx, tr := eztrc.Prefix(up.ctx, "  in%s ", args...)
		x = &view{ctx, tr, "q%d[%s] in%s ", []any{7, "a%b", "X%d"}}
	case 6: // the same again
		up := w.view(t, 1)
		ctx, tr := trc.Prefix(up.ctx, "pfx")
		x = &view{ctx, tr, "pfx pfx ", nil}
	case 7: // no prefix at all
		up := w.view(t, 2)
		ctx, tr := trc.Prefix(up.ctx, " \t")
		x = &view{ctx, tr, "q%d[%s] ", []any{7, "a%b"}}
	default:
		x = &view{ctx: t.ctx, tr: t.tr}
	}
	if y := t.views[v]; y != nil {
		return y
	}
	t.views[v] = x
	return x
}

func (w *tw) regionTop(task int, t *tinfo) *region {
	rs := w.regions[task]
	for i := len(rs) - 1; i >= 0; i-- {
		if rs[i].t == t {
			return rs[i]
		}
	}
	return nil
}

const longText = "The quick brown fox jumps over the lazy dog; "

// text makes the format and arguments of an event.
func (w *tw) text(o Op, v *view) (format string, args []any, want func(int) string, st *strg, after func()) {
	after = func() {}
	id := o.ID
	switch o.D {
	case 0:
		format = fmt.Sprintf("e%d;", id)
	case 1:
		format, args = "e%d; a", []any{id}
	case 2:
		format, args = "e%d; %s %5.2f|%x|%q|%v", []any{id, "wörld %d %% <b>&\"'", 3.14159, 255, "q\"uote", []string{"x", "y"}}
	case 3, 4:
		st = &strg{id: id}
		format, args = "e%d; %v!", []any{id, st}
	case 5:
		format = fmt.Sprintf("e%d; 100%%%% sure", id)
	case 6:
		a := make([]any, 2, 8)
		a[0], a[1] = id, "before"
		format, args = "e%d; %s", a
		if o.B == 0 || o.B == 2 { // normal events: the caller may reuse the arguments
			after = func() { a[0], a[1] = -1, "AFTER" }
		}
		args = a
	case 7:
		format, args = "e%d; %s", []any{id, strings.Repeat(longText, 20)}
	case 8:
		format, args = "e%d; line1\nline2\t%s", []any{id, "\x00\u2028é"}
	case 10:
		format, args = "e%d; tail %s\n", []any{id, "x%"}
	case 13: // really long
		n := []int{20, 50, 100, 300, 1700}[id%5]
		if rt.Choose(rt.TagFault+2, 8) != 0 {
			n = 100
		}
		format, args = "e%d; %s", []any{id, strings.Repeat(longText, n)}
	case 14:
		format, args = "  e%d; %s  \t ", []any{id, " spaced "}
	case 12: // always the same arguments: events must leave them alone
		format, args = fmt.Sprintf("e%d; shared %%s and %%d", id), w.shared
	default:
		format, args = "e%d; %[2]s %[2]s", []any{id, "twice"}
		if v.pfmt != "" { // explicit indexes count the prefix's arguments, too
			format, args = "e%d; %s", []any{id, "once"}
		}
	}
	pa := append([]any{}, v.pargs...)
	if st != nil {
		want = func(n int) string {
			return fmt.Sprintf(v.pfmt+format, append(append([]any{}, pa...), id, fmt.Sprintf("s%d.%d", id, n))...)
		}
		return
	}
	s := fmt.Sprintf(v.pfmt+format, append(pa, append([]any{}, args...)...)...)
	want = func(int) string { return s }
	return
}

func (w *tw) record(task int, t *tinfo, o Op) *evRec {
	var v *view
	if o.C == 9 {
		if r := w.regionTop(task, t); r != nil {
			v = &r.view
		}
	}
	if v == nil {
		v = w.view(t, o.C)
	}
	format, args, want, st, after := w.text(o, v)
	e := &evRec{op: o, tr: t, key: fmt.Sprintf("e%d", o.ID), want: want, st: st, isErr: o.B >= 2, lazy: o.B == 1 || o.B == 3}
	t.evs = append(t.evs, e)
	tr := v.tr
	if o.C == 5 {
		tr = trc.Get(t.ctx)
	}
	e.win = begin()
	if o.C == 4 {
		switch o.B {
		case 0:
			eztrc.Tracef(v.ctx, format, args...)
		case 1:
			eztrc.LazyTracef(v.ctx, format, args...)
		case 2:
			eztrc.Errorf(v.ctx, format, args...)
		default:
			eztrc.LazyErrorf(v.ctx, format, args...)
		}
	} else {
		switch o.B {
		case 0:
			tr.Tracef(format, args...)
		case 1:
			tr.LazyTracef(format, args...)
		case 2:
			tr.Errorf(format, args...)
		default:
			tr.LazyErrorf(format, args...)
		}
	}
	e.end()
	after()
	rt.Note("recorded %s on trace %d", e.key, t.idx)
	return e
}

var regionNames = []string{"plain", "with 100%d %s", "ünï·", "a [b] → c", "  spaces ", strings.Repeat("a long name, ", 30)}

func (w *tw) regionBegin(task int, t *tinfo, o Op) {
	base := w.view(t, o.C)
	if o.C == 9 {
		if r := w.regionTop(task, t); r != nil {
			base = &r.view
		} else {
			base = w.view(t, 0)
		}
	}
	name := fmt.Sprintf("r%d;%s", o.ID, regionNames[o.D%len(regionNames)])
	e := &evRec{op: o, tr: t, key: fmt.Sprintf("r%d+", o.ID), lazy: true}
	pre := fmt.Sprintf(base.pfmt, base.pargs...)
	e.want = func(int) string { return pre + "→ " + name }
	t.evs = append(t.evs, e)
	e.win = begin()
	r := &region{t: t, name: name, op: o, begun0: e.m0}
	if o.B == 1 {
		r.ctx, r.tr, r.finish = eztrc.Region(base.ctx, name)
	} else {
		r.ctx, r.tr, r.finish = trc.Region(base.ctx, name)
	}
	e.end()
	r.begun = e.m1
	r.pfmt, r.pargs = base.pfmt+"· ", base.pargs
	w.regions[task] = append(w.regions[task], r)
	rt.Note("region %q entered on trace %d", name, t.idx)
}

func (w *tw) regionEnd(task int, o Op) {
	rs := w.regions[task]
	if len(rs) == 0 {
		return
	}
	r := rs[len(rs)-1]
	w.regions[task] = rs[:len(rs)-1]
	e := &evRec{op: o, tr: r.t, key: fmt.Sprintf("r%d-", r.op.ID), lazy: true}
	pre := strings.TrimSuffix(fmt.Sprintf(r.pfmt, r.pargs...), "· ")
	e.re = regexp.MustCompile(`^` + regexp.QuoteMeta(pre+"← "+r.name) + ` \[([^\[\] ]+)\]$`)
	r.t.evs = append(r.t.evs, e)
	e.begun, e.begunLo = r.begun, r.begun0
	e.win = begin()
	r.finish()
	e.end()
	rt.Note("region %q left", r.name)
}

func (w *tw) finishTrace(t *tinfo, o Op) {
	f := &finRec{op: o}
	t.fins = append(t.fins, f)
	v := w.view(t, o.C)
	f.win = begin()
	v.tr.Finish()
	f.end()
	rt.Note("finished trace %d", t.idx)
}

func cloneEvents(evs []trc.Event) []trc.Event {
	r := append([]trc.Event(nil), evs...)
	for i := range r {
		r[i].Stack = append([]trc.Frame(nil), r[i].Stack...)
	}
	return r
}

func (w *tw) read(t *tinfo, what int, v int, o Op) *readRec {
	r := &readRec{op: o, tr: t, what: what}
	t.reads = append(t.reads, r)
	tr := w.view(t, v).tr
	r.win = begin()
	switch what {
	case rdEvents:
		evs := tr.Events()
		r.events = evs
	case rdFinished:
		r.b = tr.Finished()
	case rdErrored:
		r.b = tr.Errored()
	case rdDuration:
		r.d = tr.Duration()
	case rdStarted:
		r.t = tr.Started()
	case rdIdent:
		r.s = tr.ID() + "|" + tr.Source() + "|" + tr.Category()
	}
	r.end()
	switch what {
	case rdEvents:
		var ks []string
		for _, e := range r.events {
			ks = append(ks, keyOf(e.What))
		}
		rt.Note("read events of trace %d: %v", t.idx, ks)
	default:
		rt.Note("read %d of trace %d: %v %v %v %q", what, t.idx, r.b, r.d, r.t.UnixNano(), r.s)
	}
	return r
}

// search everything and attribute the results to the traces.
func (w *tw) searchRead(kind int, o Op) {
	c := w.cols[kind]
	if c == nil {
		return
	}
	x := begin()
	res, err := c.Search(context.Background(), &trc.SearchRequest{Limit: 250})
	x.end()
	if err != nil {
		rt.Fail("search-error", "search failed: %v", err)
	}
	rt.Note("search kind %d: %d traces", kind, len(res.Traces))
	seen := map[string]bool{}
	for _, st := range res.Traces {
		t := w.byID[st.ID()]
		if t == nil || seen[st.ID()] {
			continue
		}
		seen[st.ID()] = true
		t.reads = append(t.reads, &readRec{win: x, op: o, tr: t, what: rdSearch, events: st.Events(), static: st})
	}
	for _, t := range w.traces {
		if t.kind == kind && !seen[t.id] {
			t.reads = append(t.reads, &readRec{win: x, op: o, tr: t, what: -1})
		}
	}
}

func (w *tw) stepWall(ns int64) {
	rt.StepWall(ns)
	last := w.clock[len(w.clock)-1]
	w.clock = append(w.clock, clockStep{rt.Mono(), last.off + ns})
}

// do performs the operations common to the trace scenarios.
func (w *tw) do(task int, o Op) {
	switch o.K {
	case "new":
		w.newTrace(o.A, o.B, o.C, o)
	case "adv":
		rt.Advance(int64(o.A) * int64(pow10(o.B)))
	case "step":
		w.stepWall(int64(o.A) * int64(pow10(o.B)))
	case "rend":
		w.regionEnd(task, o)
	case "setmax":
		n := o.A
		if n < 10 {
			n = 10
		}
		if n > 10000 {
			n = 10000
		}
		i := len(w.maxHist)
		w.maxHist = append(w.maxHist, maxSet{begin(), n})
		trc.SetTraceMaxEvents(o.A)
		w.maxHist[i].end()
	case "search":
		w.searchRead(o.B, o)
	case "stacks":
		trc.SetTraceStacks(o.A != 0)
	default:
		t := w.slots[o.A]
		if t == nil {
			return
		}
		switch o.K {
		case "ev":
			w.record(task, t, o)
		case "rbeg":
			w.regionBegin(task, t, o)
		case "fin":
			w.finishTrace(t, o)
		case "read":
			w.read(t, o.B, o.C, o)
		default:
			rt.Fail("harness", "unknown operation %v", o)
		}
	}
}

func pow10(n int) int {
	x := 1
	for ; n > 0; n-- {
		x *= 10
	}
	return x
}

var keyRe = regexp.MustCompile(`(→ |← )?([er])(\d+);`)
var truncRe = regexp.MustCompile(`truncated event count (\d+)`)

// keyOf identifies the recording call an event stems from.
func keyOf(text string) string {
	m := keyRe.FindStringSubmatch(text)
	if m == nil {
		if truncRe.MatchString(text) {
			return "TRUNC"
		}
		return "?" + clip(text, 60)
	}
	k := m[2] + m[3]
	if m[2] == "r" {
		if strings.HasPrefix(m[1], "→") {
			k += "+"
		} else {
			k += "-"
		}
	}
	return k
}

// checkText verifies the text and error flag of one event as read.
func checkText(e *evRec, ev trc.Event) string {
	if ev.IsError != e.isErr {
		return fmt.Sprintf("event %s has error flag %v, recorded with %v", e.key, ev.IsError, e.isErr)
	}
	if e.re != nil {
		if !e.re.MatchString(ev.What) {
			return fmt.Sprintf("event %s has text %q, expected to match %v", e.key, ev.What, e.re)
		}
		return ""
	}
	if e.st == nil {
		if ev.What != e.want(0) {
			return fmt.Sprintf("event %s has text %q, expected %q", e.key, ev.What, e.want(0))
		}
		return ""
	}
	for i := range e.st.evals {
		if e.want(i+1) == ev.What {
			return ""
		}
	}
	return fmt.Sprintf("event %s has text %q, which is none of its %d evaluations such as %q", e.key, ev.What, len(e.st.evals), e.want(1))
}

// evalOf tells which evaluation of its argument a text shows.
func evalOf(e *evRec, text string) int {
	for i := range e.st.evals {
		if e.want(i+1) == text {
			return i
		}
	}
	return -1
}
