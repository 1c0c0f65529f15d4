package main

import (
	"context"
	"fmt"
	"time"

	"github.com/peterbourgon/trc"
	simctx "trcsim/context"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C24", Gen: genC24, Run: runC24, Quick: 200000, Notes: append([]string{
		"stand-in: an implementation of trc.Trace by the user, with a Free method, which notes what is called when",
	}, realTrc...)})
}

const (
	relPlain   = iota // the user's trace as it is
	relLog            // with a log decorator
	relWrapped        // a trace of the library in a decorator of the user
	relBoth           // the user's trace with decorators of the user and the log
	relNoFree         // the user's trace has no Free method
	relKinds
)

func genC24(g *G) *Prog {
	p := newProg()
	p.Cfg["cap"] = g.pick(1, 1, 2, 2, 3, 5)
	p.Cfg["kind"] = g.n(relKinds)
	if g.chance(0.6) {
		p.Cfg["kind"] = g.pick(relPlain, relBoth)
	}
	p.Cfg["sub"] = g.pick(0, 0, 1)
	nt := g.rng(1, 4)
	cats := g.pick(1, 1, 2)
	capW := g.pick(0, 1, 3)
	findW := g.pick(1, 3, 6)
	for i, n := 0, g.rng(5, 26); i < n; i++ {
		t := g.n(nt)
		switch g.weighted(10, capW, findW, 4, 2, 1) {
		case 0:
			p.add(t, Op{K: "create", A: g.n(4), C: g.n(cats)})
		case 1:
			p.add(t, Op{K: "resize", A: g.pick(1, 1, 2, 3, 4, 6, 0, -1)})
		case 2:
			p.add(t, Op{K: "look", A: g.pick(1, 2, 250), B: g.n(4)})
		case 3:
			p.add(t, Op{K: "note", A: g.n(4), B: g.n(4)})
		case 4:
			p.add(t, Op{K: "done", A: g.n(4)})
		case 5:
			p.add(t, Op{K: "limit", A: g.n(4)})
		}
	}
	return p
}

type relWorld struct {
	*tw
	c       *trc.Collector
	made    []*relTrace
	busy    map[*rt.Task]int // tasks inside calls which may touch any trace
	order   map[*relTrace][]string
	handles map[int]trc.Trace
}

// relTrace is the user's own trace.
type relTrace struct {
	w        *relWorld
	idx      int
	inner    trc.Trace // or nil
	id       string
	src, cat string
	started  time.Time
	events   []trc.Event
	finished bool
	errored  bool
	max      int
	frees    int
	freeing  bool
	decors   []string
}

func (t *relTrace) use(what string) {
	rt.Y(901)
	if t.frees > 0 && t.w.busy[rt.Cur()] == 0 {
		rt.Fail("used", "%s of trace %d was called by a search after the trace was released", what, t.idx)
	}
}

func (t *relTrace) ID() string         { t.use("ID"); return t.id }
func (t *relTrace) Source() string     { t.use("Source"); return t.src }
func (t *relTrace) Category() string   { t.use("Category"); return t.cat }
func (t *relTrace) Started() time.Time { t.use("Started"); return t.started }
func (t *relTrace) Finished() bool     { t.use("Finished"); return t.finished }
func (t *relTrace) Errored() bool      { t.use("Errored"); return t.errored }
func (t *relTrace) SetMaxEvents(n int) { t.use("SetMaxEvents"); t.max = n }
func (t *relTrace) Finish()            { t.use("Finish"); t.finished = true }
func (t *relTrace) Events() []trc.Event {
	t.use("Events")
	return append([]trc.Event(nil), t.events...)
}
func (t *relTrace) Duration() time.Duration {
	t.use("Duration")
	return time.Duration(rt.Mono())
}
func (t *relTrace) add(isErr bool, format string, args []any) {
	t.use("recording")
	if t.finished {
		return
	}
	t.events = append(t.events, trc.Event{When: t.started, What: fmt.Sprintf(format, args...), IsError: isErr})
	t.errored = t.errored || isErr
}
func (t *relTrace) Tracef(format string, args ...any)     { t.add(false, format, args) }
func (t *relTrace) LazyTracef(format string, args ...any) { t.add(false, format, args) }
func (t *relTrace) Errorf(format string, args ...any)     { t.add(true, format, args) }
func (t *relTrace) LazyErrorf(format string, args ...any) { t.add(true, format, args) }

// relFree adds the Free method.
type relFree struct{ *relTrace }

func (t relFree) Free() { t.relTrace.free() }

func (t *relTrace) free() {
	if t.frees++; t.frees > 1 {
		rt.Fail("released-twice", "trace %d was released %d times", t.idx, t.frees)
	}
	rt.Count("probe.released", 1)
	rt.Y(902)
}

// relDecor is a decorator of the user.
type relDecor struct {
	trc.Trace
	t *relTrace
}

func (d *relDecor) Free() {
	if f, ok := d.Trace.(interface{ Free() }); ok {
		f.Free()
	}
	if d.t.inner != nil { // counted here, as the library's own trace can't tell
		d.t.free()
	}
}

type relKey struct{}

func (w *relWorld) call(f func()) {
	t := rt.Cur()
	w.busy[t]++
	f()
	w.busy[t]--
}

func runC24(p *Prog) {
	w := &relWorld{tw: newTW(p), busy: map[*rt.Task]int{}, handles: map[int]trc.Trace{}}
	kind := p.Cfg["kind"]
	log := &simWriter{name: "log"}
	byID := map[string]*relTrace{}
	decor := func(name string) trc.DecoratorFunc {
		return func(tr trc.Trace) trc.Trace {
			t := byID[tr.ID()]
			t.decors = append(t.decors, name)
			return &relDecor{tr, t}
		}
	}
	cfg := trc.CollectorConfig{Source: "rel"}
	var want []string
	cfg.NewTrace = func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		t := &relTrace{w: w, idx: len(w.made), src: source, cat: category, started: time.Unix(1700000000, rt.Mono()+int64(len(w.made))).UTC()}
		w.made = append(w.made, t)
		var tr trc.Trace
		switch {
		case kind == relWrapped:
			ctx, tr = trc.New(ctx, source, category)
			t.inner, t.id = tr, tr.ID()
		default:
			t.id = fmt.Sprintf("rel-%d", t.idx)
			if kind == relNoFree {
				tr = t
			} else {
				tr = relFree{t}
			}
		}
		byID[t.id] = t
		for _, d := range ds {
			tr = d(tr)
		}
		return trc.Put(context.WithValue(ctx, relKey{}, t.idx), tr)
	}
	switch kind {
	case relLog:
		cfg.Decorators = []trc.DecoratorFunc{trc.LogDecorator(log)}
	case relWrapped:
		cfg.Decorators = []trc.DecoratorFunc{decor("a")}
		want = []string{"a"}
	case relBoth:
		cfg.Decorators = []trc.DecoratorFunc{decor("a"), trc.LogDecorator(log), decor("b"), decor("c")}
		want = []string{"a", "b", "c"}
	}
	w.c = trc.NewCollector(cfg)
	w.c.SetCategorySize(p.Cfg["cap"])
	if p.Cfg["sub"] == 1 {
		ctx, cancel := simctx.WithCancel(context.Background())
		ch := rt.Reg(make(chan trc.Trace, 1))
		s := rt.Spawn("sub", false, func() { w.c.Stream(ctx, trc.Filter{}, ch) })
		defer func() { cancel(); rt.Join(s) }()
	}
	w.runTasks(func(task int, o Op) bool {
		switch o.K {
		case "create":
			w.call(func() {
				ctx, tr := w.c.NewTrace(context.Background(), catNames[o.C])
				t := byID[tr.ID()]
				if t == nil {
					rt.Fail("other", "NewTrace returned a trace which the constructor did not make")
				}
				if i, ok := ctx.Value(relKey{}).(int); !ok || i != t.idx {
					rt.Fail("context", "the context of trace %d is not derived from the constructor's", t.idx)
				}
				if trc.Get(ctx) != tr {
					rt.Fail("context", "the context of trace %d has another trace", t.idx)
				}
				if t.src != "rel" || t.cat != catNames[o.C] {
					rt.Fail("other", "trace %d was constructed with %q, %q", t.idx, t.src, t.cat)
				}
				if fmt.Sprint(t.decors) != fmt.Sprint(want) {
					rt.Fail("decorators", "trace %d was decorated with %v instead of %v", t.idx, t.decors, want)
				}
				w.handles[o.A] = tr
			})
		case "resize":
			w.call(func() { w.c.SetCategorySize(o.A) })
		case "look":
			f := trc.Filter{}
			switch o.B {
			case 1:
				f.IsFinished = true
			case 2:
				f.Query = "note 1"
			case 3:
				f.Category = catNames[0]
			}
			res, err := w.c.Search(context.Background(), &trc.SearchRequest{Limit: o.A, Filter: f})
			if err != nil {
				rt.Fail("search-error", "search failed: %v", err)
			}
			for _, st := range res.Traces {
				if byID[st.ID()] == nil {
					rt.Fail("other", "a search found trace %q", st.ID())
				}
			}
		case "note":
			if tr := w.handles[o.A]; tr != nil {
				w.call(func() {
					switch o.B {
					case 0:
						tr.Tracef("note %d", o.ID)
					case 1:
						tr.LazyTracef("note %d", o.ID)
					case 2:
						tr.Errorf("note %d", o.ID)
					case 3:
						tr.LazyErrorf("note %d", o.ID)
					}
				})
			}
		case "done":
			if tr := w.handles[o.A]; tr != nil {
				w.call(tr.Finish)
			}
		case "limit":
			if tr := w.handles[o.A]; tr != nil {
				w.call(func() { trc.SetMaxEvents(tr, 17) })
			}
		default:
			return false
		}
		return true
	})
	res, err := w.c.Search(context.Background(), &trc.SearchRequest{Limit: 250})
	if err != nil {
		rt.Fail("search-error", "search failed: %v", err)
	}
	held := map[string]bool{}
	for _, st := range res.Traces {
		held[st.ID()] = true
	}
	if kind == relNoFree {
		return
	}
	for _, t := range w.made {
		switch {
		case held[t.id] && t.frees > 0:
			rt.Fail("released-early", "trace %d was released, but is still held", t.idx)
		case !held[t.id] && t.frees == 0:
			rt.Fail("not-released", "trace %d was dropped, but not released", t.idx)
		case !held[t.id]:
			rt.Count("probe.dropped", 1)
		default:
			rt.Count("probe.held", 1)
		}
	}
}
