package main

import (
	"context"
	"fmt"
	"runtime"
	"strconv"
	"strings"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C22", Gen: genC22, Run: runC22, Quick: 150000, Notes: realTrc, Tune: func(g *G, c *rt.Config) {
		c.PoolMode = g.pick(0, 1, 2, 2, 2, 3, 3)
	}})
}

func genC22(g *G) *Prog {
	p := newProg()
	p.Cfg["cap"] = g.pick(1, 1, 1, 2, 3, 9)
	p.Cfg["sub"] = g.pick(0, 0, 0, 1, 2)
	p.Cfg["churn"] = g.pick(0, 1, 2, 4)
	p.Cfg["max"] = g.pick(0, 0, 0, 10)
	toggles := g.chance(0.3)
	if g.chance(0.1) {
		p.Cfg["nostacks"] = 1
	}
	nt := g.rng(1, 5)
	cats := g.rng(1, 3)
	kinds := []int{kindColl, kindColl, kindColl, kindLog, kindEz, kindNoDetail, kindCore}
	for t := 0; t < nt; t++ {
		p.add(t, Op{K: "new", A: t, B: kinds[g.n(len(kinds))], C: g.n(cats)})
	}
	for i, n := 0, g.rng(6, 50); i < n; i++ {
		t := g.n(nt)
		whose := g.picks("own", "own", "any")
		switch g.weighted(5, 20, 5, 6, 5, 1, 2, 2) {
		case 0:
			p.add(t, Op{K: "new", A: i, B: kinds[g.n(len(kinds))], C: g.n(cats)})
		case 1:
			p.add(t, Op{K: "ev", A: g.n(1 << 20), B: g.n(4), C: g.pick(0, 0, 0, 1, 2, 3, 4, 5, 9), D: g.n(8)*16 + g.pick(0, 0, 0, 1, 2, 5, 12), S: whose})
		case 2:
			p.add(t, Op{K: "fin", A: g.n(1 << 20), S: whose})
		case 3:
			p.add(t, Op{K: "read", A: g.n(1 << 20), B: g.pick(0, 0, 0, 1), S: whose})
		case 4:
			p.add(t, Op{K: "ssearch", B: kinds[g.n(6)], C: g.pick(0, 0, 0, -1, 1, 2)})
		case 5:
			p.add(t, Op{K: "cap", A: g.rng(1, 4)})
		case 6:
			p.add(t, Op{K: "rbeg", A: g.n(1 << 20), B: g.n(2), C: g.pick(0, 0, 2, 9), D: g.n(8)*16 + g.pick(0, 0, 3), S: whose})
			p.add(t, Op{K: "rend", D: g.n(8)*16 + g.pick(0, 0, 3)})
		case 7:
			if toggles {
				p.add(t, Op{K: "stk", A: g.n(2)})
			}
		}
	}
	return p
}

// stackEv is an event, with the stack of the call which recorded it.
type stackEv struct {
	key    string
	t      *tinfo
	want   []trc.Frame
	layers int // decorators and the like which the call passes through
	format string
	ctx    context.Context
	tr     trc.Trace
	how    int
	fin    func()
	out    *region
}

type stackWorld struct {
	*tw
	byKey   map[string]*stackEv
	toggles []toggle
	stacks  map[*tinfo][2]int // events seen with and without stacks
}

type toggle struct {
	win
	on bool
}

// here returns the stack of its caller.
//
//go:noinline
func here() []trc.Frame {
	var pc [64]uintptr
	n := runtime.Callers(2, pc[:])
	fs := runtime.CallersFrames(pc[:n])
	var r []trc.Frame
	for {
		f, more := fs.Next()
		r = append(r, trc.Frame{Function: f.Function, FileLine: f.File + ":" + strconv.Itoa(f.Line)})
		if !more {
			return r
		}
	}
}

func (e *stackEv) mark(fs []trc.Frame) string { e.want = fs; return e.format }

// The call sites: each recording call is on the line which takes its stack.

//go:noinline
func siteOne(e *stackEv) {
	switch e.how {
	case 0:
		e.tr.Tracef(e.mark(here()))
	case 1:
		e.tr.LazyTracef(e.mark(here()))
	case 2:
		e.tr.Errorf(e.mark(here()))
	case 3:
		e.tr.LazyErrorf(e.mark(here()))
	}
}

//go:noinline
func siteTracef(e *stackEv) {
	n := 0
	switch e.how {
	case 1:
		e.tr.LazyTracef("%[2]s", n, e.mark(here()))
	case 3:
		e.tr.LazyErrorf("%[2]s", n, e.mark(here()))
	case 0:
		e.tr.Tracef("%[2]s", n, e.mark(here()))
	case 2:
		e.tr.Errorf("%[2]s", n, e.mark(here()))
	}
}

//go:noinline
func siteErrorf(e *stackEv) {
	switch e.how {
	case 0:
		eztrc.Tracef(e.ctx, e.mark(here()))
	case 1:
		eztrc.LazyTracef(e.ctx, e.mark(here()))
	case 2:
		eztrc.Errorf(e.ctx, e.mark(here()))
	case 3:
		eztrc.LazyErrorf(e.ctx, e.mark(here()))
	}
}

type siteT struct{ e *stackEv }

//go:noinline
func (s siteT) Tracefully(depth int) {
	e := s.e
	func() {
		defer func() {
			switch e.how {
			case 0:
				e.tr.Tracef(e.mark(here()))
			case 1:
				e.tr.LazyTracef(e.mark(here()))
			case 2:
				e.tr.Errorf(e.mark(here()))
			case 3:
				e.tr.LazyErrorf(e.mark(here()))
			}
		}()
	}()
}

//go:noinline
func siteRegion(e *stackEv) {
	switch {
	case e.how == 1:
		e.out.ctx, e.out.tr, e.out.finish = eztrc.Region(e.ctx, e.mark(here()))
	default:
		e.out.ctx, e.out.tr, e.out.finish = trc.Region(e.ctx, e.mark(here()))
	}
}

// siteRegionEnd calls the finish function of a region.
//
//go:noinline
func siteRegionEnd(e *stackEv) {
	e.finish(here())()
}

func (e *stackEv) finish(fs []trc.Frame) func() { e.want = fs; return e.fin }

//go:noinline
func descend(n int, f func(*stackEv), e *stackEv) {
	if n > 0 {
		descend(n-1, f, e)
		rt.Count("probe.deep_calls", 1)
		return
	}
	f(e)
}

func sitePick(n int) func(*stackEv) {
	switch n % 4 {
	case 0, 1:
		return siteOne
	case 2:
		return siteTracef
	default:
		return func(e *stackEv) { siteT{e}.Tracefully(3) }
	}
}

var kindLayers = map[int]int{kindCore: 0, kindColl: 1, kindLog: 2, kindEz: 1, kindNoDetail: 2}
var viewLayers = map[int]int{1: 1, 2: 1, 3: 2, 4: 1, 9: 1}

func runC22(p *Prog) {
	w := &stackWorld{tw: newTW(p), byKey: map[string]*stackEv{}, stacks: map[*tinfo][2]int{}}
	w.setCap(p.Cfg["cap"])
	if p.Cfg["max"] > 0 {
		w.do(0, Op{K: "setmax", A: p.Cfg["max"]})
	}
	w.toggles = []toggle{{win{inv: -2, ret: -1}, true}}
	w.churn(p.Cfg["churn"])
	if p.Cfg["nostacks"] == 1 {
		w.toggle(false)
	}
	w.subscribe(p.Cfg["sub"])
	mine := map[int][]*tinfo{}
	pick := func(task int, o Op) *tinfo {
		l := w.traces
		if o.S == "own" {
			l = mine[task]
		}
		var m []*tinfo
		for _, t := range l {
			if t.id != "" {
				m = append(m, t)
			}
		}
		if len(m) == 0 {
			return nil
		}
		if o.S == "own" {
			return m[len(m)-1]
		}
		return m[o.A%len(m)]
	}
	w.runTasks(func(task int, o Op) bool {
		switch o.K {
		case "new":
			mine[task] = append(mine[task], w.newTrace(o.A, o.B, o.C, o))
		case "cap":
			w.setCap(o.A)
		case "stk":
			w.toggle(o.A == 1)
		case "ssearch":
			res, err := w.cols[o.B%len(w.cols)].Search(context.Background(), &trc.SearchRequest{Limit: 250, StackDepth: o.C})
			if err != nil {
				rt.Fail("search-error", "search failed: %v", err)
			}
			for _, st := range res.Traces {
				if t := w.byID[st.ID()]; t != nil {
					w.checkStacks(t, st.Events(), fmt.Sprintf("found by a search with stack depth %d", o.C), o.C)
				}
			}
		case "rend":
			w.leave(task, o)
		default:
			t := pick(task, o)
			if t == nil {
				return true
			}
			switch o.K {
			case "ev":
				w.recordAt(task, t, o)
			case "fin":
				w.finishTrace(t, o)
			case "rbeg":
				w.enter(task, t, o)
			case "read":
				if d, ok := t.tr.(interface {
					EventsDetail(n int, stacks bool) []trc.Event
				}); ok && o.B == 1 {
					d.EventsDetail(1, false) // must not matter to later readers
					break
				}
				w.checkStacks(t, t.tr.Events(), "read", 0)
			}
		}
		return true
	})
	for _, t := range w.traces {
		w.checkStacks(t, t.tr.Events(), "read in the end", 0)
	}
	for _, t := range w.traces {
		n := w.stacks[t]
		if n[0] > 0 && n[1] > 0 {
			rt.Fail("mixed", "of the events of trace %d, %d had a stack and %d had none", t.idx, n[0], n[1])
		}
		on, off := w.enabledAt(t.create)
		if n[0] > 0 && !on {
			rt.Fail("unwanted", "events of trace %d have stacks, which were disabled when it was created", t.idx)
		}
		if n[1] > 0 && !off {
			rt.Fail("none", "events of trace %d have no stacks, which were enabled when it was created", t.idx)
		}
	}
}

func (w *stackWorld) toggle(on bool) {
	i := len(w.toggles)
	w.toggles = append(w.toggles, toggle{begin(), on})
	trc.SetTraceStacks(on)
	w.toggles[i].end()
}

// enabledAt tells whether stacks may have been enabled, or disabled, at some
// point of a window.
func (w *stackWorld) enabledAt(x win) (on, off bool) {
	for _, s := range w.toggles {
		superseded := false
		for _, u := range w.toggles {
			if s.before(u.win) && u.ret != 0 && u.ret < x.inv {
				superseded = true
			}
		}
		if !superseded && s.inv <= x.ret {
			on, off = on || s.on, off || !s.on
		}
	}
	return on, off
}

func (w *stackWorld) recordAt(task int, t *tinfo, o Op) {
	v, vl := w.view(t, 0), viewLayers[o.C]
	if o.C == 9 {
		if r := w.regionTop(task, t); r != nil {
			v, vl = &r.view, len(w.regions[task])
		}
	} else if o.C <= 3 {
		v = w.view(t, o.C)
	}
	e := &stackEv{t: t, key: fmt.Sprintf("e%d", o.ID), ctx: v.ctx, tr: v.tr, how: o.B, layers: kindLayers[t.kind] + vl}
	e.format = e.key + ";"
	w.byKey[e.key] = e
	site := sitePick(o.D / 16)
	if o.C == 4 {
		site = siteErrorf
	}
	if o.C == 5 {
		e.tr = trc.Get(v.ctx)
	}
	if o.D/16%4 == 2 && v.pfmt != "" { // explicit indexes count the prefix's arguments, too
		site = siteOne
	}
	descend(o.D%16, site, e)
}

func (w *stackWorld) enter(task int, t *tinfo, o Op) {
	v, vl := w.view(t, o.C%9), viewLayers[o.C%9]
	if r := w.regionTop(task, t); r != nil && o.C == 9 {
		v, vl = &r.view, len(w.regions[task])
	}
	e := &stackEv{t: t, key: fmt.Sprintf("r%d+", o.ID), ctx: v.ctx, tr: v.tr, how: o.B, layers: kindLayers[t.kind] + vl + 1 + o.B}
	e.format = fmt.Sprintf("r%d;", o.ID)
	e.out = &region{t: t, op: o}
	e.out.pfmt = v.pfmt + "· "
	w.byKey[e.key] = e
	descend(o.D%16, siteRegion, e)
	e.out.begun = int64(e.layers)
	w.regions[task] = append(w.regions[task], e.out)
}

func (w *stackWorld) leave(task int, o Op) {
	rs := w.regions[task]
	if len(rs) == 0 {
		return
	}
	r := rs[len(rs)-1]
	w.regions[task] = rs[:len(rs)-1]
	e := &stackEv{t: r.t, key: fmt.Sprintf("r%d-", r.op.ID), fin: r.finish, layers: int(r.begun)}
	w.byKey[e.key] = e
	descend(o.D%16, siteRegionEnd, e)
}

// checkStacks verifies the stacks of events of t. A depth of 0 means all
// frames, a negative one none.
func (w *stackWorld) checkStacks(t *tinfo, evs []trc.Event, how string, depth int) {
	for _, ev := range evs {
		k := keyOf(ev.What)
		if k == "TRUNC" {
			if len(ev.Stack) > 0 {
				rt.Fail("marker", "the truncation marker of trace %d has a stack", t.idx)
			}
			continue
		}
		e := w.byKey[k]
		if e == nil || e.t != t {
			continue // not this property's matter
		}
		if depth < 0 {
			if len(ev.Stack) > 0 {
				rt.Fail("unwanted", "event %s of trace %d (%s) has a stack", k, t.idx, how)
			}
			continue
		}
		n := w.stacks[t]
		if len(ev.Stack) == 0 {
			if e.layers <= 2 {
				n[1]++
			}
		} else {
			n[0]++
		}
		w.stacks[t] = n
		if len(ev.Stack) == 0 {
			continue
		}
		rt.Count("probe.stacks", 1)
		if depth > 0 && len(ev.Stack) > depth {
			rt.Fail("depth", "event %s of trace %d (%s) has %d frames", k, t.idx, how, len(ev.Stack))
		}
		got, own := splitStack(ev.Stack)
		for _, f := range own {
			if ownFunction(f.Function) {
				rt.Fail("own-frame", "event %s of trace %d (%s) has the library's frame %v", k, t.idx, how, f)
			}
		}
		for i, f := range got {
			if i >= len(e.want) || f != e.want[i] {
				rt.Fail("stack", "event %s of trace %d (%s) has frame %d %v, but was recorded from %v", k, t.idx, how, i, f, clipFrames(e.want))
			}
		}
		if min := 2 - e.layers; len(got) < min && (depth == 0 || len(own) == 0 && depth >= min) && len(e.want) > min {
			rt.Fail("short", "event %s of trace %d (%s) has only the %d frames %v of %v", k, t.idx, how, len(ev.Stack), ev.Stack, clipFrames(e.want))
		}
	}
}

const libPrefix = "github.com/peterbourgon/trc"

// splitStack splits off leading frames of the library. Its unexported helpers
// may show up, for all we know.
func splitStack(fs []trc.Frame) (rest, own []trc.Frame) {
	i := 0
	for i < len(fs) && strings.HasPrefix(fs[i].Function, libPrefix) {
		i++
	}
	return fs[i:], fs[:i]
}

// ownFunction tells the functions of the library by which events are recorded.
func ownFunction(f string) bool {
	return strings.HasSuffix(f, "Tracef") || strings.HasSuffix(f, "Errorf") ||
		strings.HasPrefix(f, libPrefix+".Region") || strings.HasPrefix(f, libPrefix+"/eztrc.")
}

func clipFrames(fs []trc.Frame) []trc.Frame {
	if len(fs) > 4 {
		fs = fs[:4]
	}
	return fs
}
