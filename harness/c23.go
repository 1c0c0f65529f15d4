package main

import (
	"context"
	"fmt"
	"net/http"
	"runtime"
	"strings"
	gotime "time"
	"weak"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/trcweb"
	simctx "trcsim/context"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C23", Gen: genC23, Run: runC23, Quick: 30000, Notes: append([]string{
		"real: trcweb.Middleware; Go's garbage collector, run to completion at the end of each run, with weak pointers telling what is still reachable",
	}, realTrc...)})
}

func genC23(g *G) *Prog {
	p := newProg()
	p.Cfg["cap"] = g.pick(1, 1, 1, 2, 3)
	p.Cfg["churn"] = g.pick(0, 0, 2)
	nt := g.rng(1, 4)
	cats := g.pick(1, 1, 1, 2)
	kinds := []int{kindColl, kindLog, kindEz, kindNoDetail, kindCore}
	one := kinds[g.n(len(kinds))]
	many := g.chance(0.3)
	for i, n := 0, g.rng(4, 18); i < n; i++ {
		t := g.n(nt)
		k := one
		if many {
			k = kinds[g.n(len(kinds))]
		}
		switch g.weighted(12, 1, 3, 2, 2, 2, 1) {
		case 0:
			p.add(t, Op{K: "burst", A: g.rng(1, 8), B: k, C: g.n(cats), D: g.n(1 << 16)})
		case 1:
			p.add(t, Op{K: "cap", A: g.pick(1, 1, 2, 3)})
		case 2:
			p.add(t, Op{K: "find", B: k, C: g.pick(0, -1), D: g.n(4)})
		case 3:
			p.add(t, Op{K: "sub", A: g.n(2), B: g.n(4)})
		case 4:
			p.add(t, Op{K: "unsub"})
		case 5:
			p.add(t, Op{K: "mw", A: g.rng(1, 6), B: g.n(2), C: g.n(cats)})
		case 6:
			p.add(t, Op{K: "adv", A: g.rng(1, 99), B: g.n(9)})
		}
	}
	return p
}

// blob is something whose lifetime is observed.
type blob struct {
	n   int
	pad [4]int
}

func (b *blob) String() string { return fmt.Sprintf("blob%d", b.n) }

// life is what is left of a trace when its users have let it go.
type life struct {
	idx   int
	id    string
	kind  int
	blobs []weak.Pointer[blob]
	fin   bool
	how   string
}

func (l *life) alive() bool {
	for _, w := range l.blobs {
		if w.Value() != nil {
			return true
		}
	}
	return false
}

type memWorld struct {
	*tw
	lives  []*life
	nblob  int
	kept   []*trc.SearchResponse
	subs   []*memSub
	maxCap int
	used   map[[2]int]bool // collector and category
	ended  []weak.Pointer[durBox]
}

// durBox is too large for the allocator of tiny objects, which keeps
// neighbours alive.
type durBox struct {
	d   gotime.Duration
	pad [7]int
}

type memSub struct {
	cancel context.CancelFunc
	task   *rt.Task
	w      weak.Pointer[durBox]
}

func (w *memWorld) blob(l *life) *blob {
	w.nblob++
	b := &blob{n: w.nblob}
	l.blobs = append(l.blobs, weak.Make(b))
	return b
}

type blobKey struct{}

//go:noinline
func (w *memWorld) burst(o Op) {
	for i := 0; i < o.A; i++ {
		w.oneTrace(o, o.D+i*7)
	}
}

//go:noinline
func (w *memWorld) oneTrace(o Op, x int) {
	l := &life{idx: len(w.lives), kind: o.B}
	w.lives = append(w.lives, l)
	w.used[[2]int{o.B, o.C}] = true
	ctx := context.WithValue(context.Background(), blobKey{}, w.blob(l))
	var tr trc.Trace
	switch o.B {
	case kindCore:
		ctx, tr = trc.New(ctx, "core", catNames[o.C])
	case kindEz:
		ctx, tr = eztrc.New(ctx, catNames[o.C])
	default:
		ctx, tr = w.cols[o.B].NewTrace(ctx, catNames[o.C])
	}
	l.id = tr.ID()
	if x%3 == 0 {
		ctx, tr = trc.Prefix(ctx, "p %s", w.blob(l))
	}
	done := func() {}
	if x%5 == 0 {
		ctx, tr, done = trc.Region(ctx, "reg")
	}
	for j := 0; j <= x%4; j++ {
		switch (x + j) % 5 {
		case 0:
			tr.Tracef("a %v", w.blob(l))
		case 1:
			tr.LazyTracef("b %v", w.blob(l))
		case 2:
			tr.Errorf("c %v", w.blob(l))
		case 3:
			tr.LazyErrorf("d %v", w.blob(l))
		case 4:
			eztrc.LazyTracef(ctx, "e %v %v", w.blob(l), w.blob(l))
		}
	}
	done()
	if x%7 == 0 {
		tr.Events()
	}
	if x%4 != 1 {
		tr.Finish()
		l.fin = true
	}
	if x%11 == 0 {
		tr.LazyTracef("late %v", w.blob(l))
		tr.Finish()
	}
	l.how = fmt.Sprintf("kind %d, category %q, variant %d", o.B, catNames[o.C], x)
}

type nullRW struct{ h http.Header }

func (n *nullRW) Header() http.Header         { return n.h }
func (n *nullRW) Write(p []byte) (int, error) { return len(p), nil }
func (n *nullRW) WriteHeader(int)             {}

//go:noinline
func (w *memWorld) request(o Op) {
	kind := []int{kindColl, kindEz}[o.B]
	w.used[[2]int{kind, o.C}] = true
	categorize := func(*http.Request) string { return catNames[o.C] }
	mw := eztrc.Middleware(categorize)
	if kind == kindColl {
		mw = trcweb.Middleware(w.cols[kindColl].NewTrace, categorize)
	}
	for i := 0; i < o.A; i++ {
		l := &life{idx: len(w.lives), kind: kind, fin: true, how: fmt.Sprintf("kind %d, category %q, request", kind, catNames[o.C])}
		w.lives = append(w.lives, l)
		req, _ := http.NewRequestWithContext(context.WithValue(context.Background(), blobKey{}, w.blob(l)), "GET", "http://host/path", strings.NewReader("body"))
		req.Header.Set("User-Agent", "x")
		mw(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			tr := trc.Get(r.Context())
			l.id = tr.ID()
			tr.LazyTracef("in %v", w.blob(l))
			rw.Write([]byte("hello"))
		})).ServeHTTP(&nullRW{http.Header{}}, req)
	}
}

//go:noinline
func (w *memWorld) subscribeMem(o Op) {
	c := []*trc.Collector{w.cols[kindColl], w.cols[kindEz]}[o.A]
	d := new(durBox)
	ctx, cancel := simctx.WithCancel(context.Background())
	f := trc.Filter{MinDuration: &d.d}
	ch := rt.Reg(make(chan trc.Trace, o.B))
	up := false
	s := &memSub{cancel: cancel, w: weak.Make(d)}
	s.task = rt.Spawn("sub", false, func() { up = true; c.Stream(ctx, f, ch) })
	rt.Block("subscribed", func() bool { return up })
	w.subs = append(w.subs, s)
}

func (w *memWorld) unsubscribe() {
	if len(w.subs) == 0 {
		return
	}
	s := w.subs[0]
	w.subs = w.subs[1:]
	s.cancel()
	rt.Join(s.task)
	w.ended = append(w.ended, s.w)
}

func runC23(p *Prog) {
	w := &memWorld{tw: newTW(p), used: map[[2]int]bool{}}
	w.setCap(p.Cfg["cap"])
	w.maxCap = p.Cfg["cap"]
	w.churn(p.Cfg["churn"])
	w.runTasks(func(task int, o Op) bool {
		switch o.K {
		case "burst":
			w.burst(o)
		case "cap":
			if o.A > w.maxCap {
				w.maxCap = o.A
			}
			w.setCap(o.A)
		case "find":
			if c := w.cols[o.B]; c != nil {
				f := trc.Filter{}
				if o.D == 1 {
					f.Query = "blob[0-9]*1"
				}
				res, err := c.Search(context.Background(), &trc.SearchRequest{Limit: 250, StackDepth: o.C, Filter: f})
				if err != nil {
					rt.Fail("search-error", "search failed: %v", err)
				}
				if o.D > 1 {
					w.kept = append(w.kept, res)
				}
			}
		case "sub":
			w.subscribeMem(o)
		case "unsub":
			w.unsubscribe()
		case "mw":
			w.request(o)
		default:
			return false
		}
		return true
	})
	for len(w.subs) > 0 {
		w.unsubscribe()
	}
	held := map[string]bool{}
	for _, c := range w.cols {
		if c == nil {
			continue
		}
		res, err := c.Search(context.Background(), &trc.SearchRequest{Limit: 250})
		if err != nil {
			rt.Fail("search-error", "search failed: %v", err)
		}
		for _, st := range res.Traces {
			held[st.ID()] = true
		}
	}
	// A bounded remainder is fine: as much again as the categories can hold.
	slack := 1 + w.maxCap*len(w.used)
	var left []*life
	subsLeft := 0
	for try := 0; try < 6; try++ {
		if try > 0 {
			gotime.Sleep(gotime.Millisecond) // goroutines of ended tasks may still be on their way out
		}
		rt.Purge()
		rt.Forget()
		runtime.GC()
		left, subsLeft = left[:0], 0
		for _, l := range w.lives {
			if !held[l.id] && l.alive() {
				left = append(left, l)
			}
		}
		for _, s := range w.ended {
			if s.Value() != nil {
				subsLeft++
			}
		}
		if len(left) <= slack && subsLeft <= 1 {
			break
		}
	}
	n := 0
	for _, l := range w.lives {
		if !held[l.id] {
			n++
		} else if l.alive() {
			rt.Count("probe.held_and_reachable", 1)
		}
	}
	rt.Count("probe.let_go", int64(n))
	rt.Count("probe.subscriptions_ended", int64(len(w.ended)))
	if len(left) > 0 {
		rt.Count("probe.remainder", int64(len(left)))
	}
	if len(left) > slack {
		rt.Fail("leak", "%d of %d traces which their collector no longer holds are still reachable, such as trace %d (%s, finished %v); the capacity is %d, for %d categories", len(left), n, left[0].idx, left[0].how, left[0].fin, w.maxCap, len(w.used))
	}
	if subsLeft > 1 {
		rt.Fail("leak-subscription", "%d of %d ended subscriptions are still reachable", subsLeft, len(w.ended))
	}
	runtime.KeepAlive(w.kept)
	runtime.KeepAlive(w)
}
