package main

import (
	"context"
	"fmt"
	"log"
	"strings"

	"github.com/peterbourgon/trc"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C18", Gen: genC18, Run: runC18, Quick: 400000, Notes: append([]string{
		"stand-in: the log destinations (writers which fail, write short, are slow or get stuck), pass-through decorators of our own"}, realTrc...)})
}

const (
	decLog1 = iota
	decLog2
	decLogger
	decCount
	decKinds
)

// texts without newlines: one line per event
var texts18 = []int{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 14, 13}

func genC18(g *G) *Prog {
	p := newProg()
	p.Cfg["sub"] = g.pick(0, 0, 1, 2)
	p.Cfg["mode1"] = g.pick(0, 0, 1, 2, 3, 4, 5)
	p.Cfg["mode2"] = g.pick(0, 0, 1, 2, 3, 4, 5)
	p.Cfg["mode3"] = g.pick(0, 0, 1, 2, 3)
	p.Cfg["release"] = g.n(2)
	nt := g.rng(1, 4)
	slots := g.rng(1, 3)
	newOp := func(s int) Op {
		// C: category; D: decorators, one digit each (base 5, 0 ends)
		d := 0
		for i := g.rng(1, 3); i > 0; i-- {
			d = d*5 + 1 + g.n(decKinds)
		}
		return Op{K: "new18", A: s, B: g.n(4), C: g.n(len(cats18)), D: d}
	}
	for s := 0; s < slots; s++ {
		p.add(0, newOp(s))
	}
	n := g.rng(2, 20)
	for i := 0; i < n; i++ {
		t := 1 + g.n(nt)
		s := g.n(slots)
		switch x := g.n(20); {
		case x < 12:
			e := genEvent(g, s)
			e.D = texts18[g.n(len(texts18))]
			p.add(t, e)
		case x < 14:
			p.add(t, Op{K: "rbeg", A: s, B: g.n(2), C: g.pick(0, 0, 1, 2, 3, 9), D: g.n(len(regionNames))})
		case x < 16:
			p.add(t, Op{K: "rend"})
		case x < 17:
			p.add(t, Op{K: "read", A: s, B: g.n(rdSearch), C: g.pick(0, 1, 3)})
		case x < 18:
			p.add(t, Op{K: "search", B: g.pick(1, 2, 3)})
		case x < 19:
			p.add(t, Op{K: "fin", A: s, C: g.pick(0, 0, 1, 3)})
		default:
			p.add(t, newOp(g.n(slots)))
		}
	}
	for t := 1; t <= nt; t++ {
		if g.chance(0.7) {
			p.add(t, Op{K: "rend"})
		}
	}
	for len(p.Tasks) <= nt {
		p.Tasks = append(p.Tasks, nil)
	}
	return p
}

var cats18 = []string{"alpha", "beta %d", "", "gämma '%s'"}

// countTrace is a decorator of our own: it counts calls.
type countTrace struct {
	trc.Trace
	n, fin int
}

func (c *countTrace) Tracef(f string, a ...any)     { c.n++; c.Trace.Tracef(f, a...) }
func (c *countTrace) LazyTracef(f string, a ...any) { c.n++; c.Trace.LazyTracef(f, a...) }
func (c *countTrace) Errorf(f string, a ...any)     { c.n++; c.Trace.Errorf(f, a...) }
func (c *countTrace) LazyErrorf(f string, a ...any) { c.n++; c.Trace.LazyErrorf(f, a...) }
func (c *countTrace) Finish()                       { c.fin++; c.Trace.Finish() }

const loggerPrefix = "logger: "

type t18 struct {
	*tinfo
	decs   []int
	counts []*countTrace
}

func runC18(p *Prog) {
	w := newTW(p)
	w.subscribe(p.Cfg["sub"])
	var ws [3]*simWriter
	for i := range ws {
		ws[i] = &simWriter{name: fmt.Sprint("log", i+1), mode: p.Cfg[fmt.Sprintf("mode%d", i+1)]}
	}
	ws[2].noYield = true // a log.Logger holds a lock of the standard library meanwhile
	logger := log.New(ws[2], loggerPrefix, log.Lmsgprefix)
	var all []*t18
	create := func(o Op) {
		t := &t18{tinfo: &tinfo{idx: len(w.traces), op: o, kind: o.B, cat: cats18[o.C], src: "so'u %d", views: map[int]*view{}}}
		w.traces = append(w.traces, t.tinfo)
		all = append(all, t)
		var ds []trc.DecoratorFunc
		for d := o.D; d > 0; d /= 5 {
			k := d%5 - 1
			switch k {
			case decLog1, decLog2:
				if containsInt(t.decs, k) { // one line per event and destination
					continue
				}
				ds = append(ds, trc.LogDecorator(ws[k]))
			case decLogger:
				if containsInt(t.decs, k) {
					continue
				}
				ds = append(ds, trc.LoggerDecorator(logger))
			case decCount:
				ds = append(ds, func(tr trc.Trace) trc.Trace {
					c := &countTrace{Trace: tr}
					t.counts = append(t.counts, c)
					return c
				})
			}
			t.decs = append(t.decs, k)
		}
		t.create = begin()
		switch o.B {
		case 0:
			t.ctx, t.tr = trc.New(context.Background(), t.src, t.cat, ds...)
		case 1, 2:
			cfg := trc.CollectorConfig{Source: t.src, Broker: w.broker}
			if o.B == 1 {
				cfg.Decorators = ds
			} else {
				cfg.NewTrace = func(ctx context.Context, source, category string, more ...trc.DecoratorFunc) (context.Context, trc.Trace) {
					return trc.New(ctx, source, category, append(ds[:len(ds):len(ds)], more...)...)
				}
			}
			w.cols[kindColl] = trc.NewCollector(cfg)
			t.ctx, t.tr = w.cols[kindColl].NewTrace(context.Background(), t.cat)
		case 3: // decorators set afterwards, some inside and some outside
			k := len(ds) / 2
			c := trc.NewCollector(trc.CollectorConfig{Source: "other", Broker: w.broker})
			c.SetSourceName(t.src).SetDecorators(ds[k:]...).SetNewTrace(func(ctx context.Context, source, category string, more ...trc.DecoratorFunc) (context.Context, trc.Trace) {
				return trc.New(ctx, source, category, append(ds[:k:k], more...)...)
			})
			w.cols[kindLog] = c
			t.ctx, t.tr = c.NewTrace(context.Background(), t.cat)
		}
		t.create.end()
		t.lo, t.hi = 1000, 1000
		t.id = t.tr.ID()
		w.byID[t.id] = t.tinfo
		w.slots[o.A] = t.tinfo
		rt.Note("new trace %d id %s", t.idx, t.id)
	}
	if len(p.Tasks) == 0 {
		return
	}
	for _, o := range p.Tasks[0] {
		rt.BeginOp(o.ID)
		create(o)
	}
	stuck := false
	for _, x := range ws[:2] {
		if x.mode == 5 {
			x.stall = true
			stuck = true
		}
	}
	var ts []*rt.Task
	for i, ops := range p.Tasks[1:] {
		i, ops := i, ops
		ts = append(ts, rt.Spawn(fmt.Sprintf("client%d", i), false, func() {
			for _, o := range ops {
				rt.BeginOp(o.ID)
				if o.K == "new18" {
					create(o)
				} else {
					w.do(i+1, o)
				}
			}
			rt.BeginOp(1 << 20)
		}))
	}
	if stuck {
		// everybody who can goes on as far as possible; meanwhile traces can be read
		rt.Quiesce()
		for _, t := range w.traces {
			if t.tr != nil {
				w.read(t, rdEvents, 0, Op{})
				t.tr.Finished()
				t.tr.Duration()
			}
		}
		for k := range w.cols[1:] {
			w.searchRead(1+k, Op{})
		}
		rt.Count("probe.read_while_stuck", 1)
		for _, x := range ws {
			x.stall = false
		}
		rt.Wake()
	}
	rt.Join(ts...)
	rt.BeginOp(1<<20 + 1)
	for i, x := range ws {
		for _, r := range x.writes {
			if !strings.HasSuffix(r.data, "\n") || strings.Count(r.data, "\n") != 1 {
				rt.Fail("line", "destination %d got a write which is not one line: %q", i+1, clip(r.data, 300))
			}
			id, _, _ := strings.Cut(strings.TrimPrefix(r.data, loggerPrefix), " ")
			t := w.byID[id]
			if t == nil {
				rt.Fail("line", "destination %d got a line without the ID of a trace: %q", i+1, clip(r.data, 300))
			}
			if !containsInt(all[t.idx].decs, i) {
				rt.Fail("foreign-line", "destination %d got a line of a trace which is not logged there: %q", i+1, clip(r.data, 300))
			}
		}
	}
	w.checkShared()
	for _, t := range all {
		w.checkTrace18(t)
		for _, d := range t.decs {
			if d <= decLogger {
				w.checkLog(t, ws[d])
			}
		}
	}
}

func containsInt(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func (t *tinfo) firstFinish() win {
	f := win{inv: 1 << 62, ret: 1 << 62}
	for _, x := range t.fins {
		if x.inv < f.inv {
			f.inv = x.inv
		}
		if x.ret < f.ret {
			f.ret = x.ret
		}
	}
	return f
}

// checkTrace18: the trace has what was recorded, whatever happened to the log.
func (w *tw) checkTrace18(t *t18) {
	firstRead := rt.Seq()
	for _, r := range t.reads {
		if (r.what == rdEvents || r.what == rdSearch) && r.inv < firstRead {
			firstRead = r.inv
		}
	}
	final := t.tr.Events()
	byKey := map[string]*evRec{}
	for _, e := range t.evs {
		byKey[e.key] = e
	}
	fin := t.firstFinish()
	pos := map[string]int{}
	for i, ev := range final {
		k := keyOf(ev.What)
		e := byKey[k]
		if e == nil {
			rt.Fail("foreign", "trace %d contains event %q, which nobody recorded on it", t.idx, clip(ev.What, 200))
		}
		if _, dup := pos[k]; dup {
			rt.Fail("duplicate", "event %s appears twice in trace %d", k, t.idx)
		}
		pos[k] = i
		if d := checkText(e, ev); d != "" {
			rt.Fail("text", "trace %d: %s", t.idx, d)
		}
		if e.st == nil {
			continue
		}
		// decorated or not: normal events are formatted when recorded, lazy
		// ones when read
		x := e.st.evals[evalOf(e, ev.What)]
		if !e.lazy && (x.inv < e.inv || x.ret > e.ret) {
			rt.Fail("formatted-late", "normal event %s recorded at %v shows the value of an evaluation at %v", e.key, e.win, x)
		}
		if e.lazy && !w.subs && x.inv < firstRead {
			rt.Fail("lazy-early", "lazy event %s recorded at %v shows the value of an evaluation at %v, before any read", e.key, e.win, x)
		}
	}
	for _, e := range t.evs {
		i, ok := pos[e.key]
		if !ok {
			if e.ret < fin.inv {
				rt.Fail("lost", "event %s %v recorded on trace %d does not appear in it", e.key, e.win, t.idx)
			}
			continue
		}
		for _, f := range t.evs {
			if j, ok := pos[f.key]; ok && e.before(f.win) && i > j {
				rt.Fail("order", "trace %d: event %s is after %s", t.idx, e.key, f.key)
			}
		}
	}
	if t.tr.Finished() != (len(t.fins) > 0) {
		rt.Fail("finished", "trace %d: finished %v after %d calls of Finish", t.idx, t.tr.Finished(), len(t.fins))
	}
	errored := false
	for _, ev := range final {
		errored = errored || ev.IsError
	}
	if t.tr.Errored() != errored {
		rt.Fail("errored", "trace %d: errored %v with events %s", t.idx, t.tr.Errored(), eventTexts(final))
	}
	for i, c := range t.counts {
		// calls on a finished trace may not get that far
		if c.n > len(t.evs) || c.n < len(final) || c.fin > len(t.fins) || (c.fin > 0) != (len(t.fins) > 0) || len(t.fins) == 0 && c.n != len(t.evs) {
			rt.Fail("decorator", "decorator %d of trace %d saw %d events and %d calls of Finish, made were %d and %d", i, t.idx, c.n, c.fin, len(t.evs), len(t.fins))
		}
	}
}

func (w *tw) checkLog(t *t18, dst *simWriter) {
	var lines []wrRec
	for _, r := range dst.writes {
		if strings.HasPrefix(strings.TrimPrefix(r.data, loggerPrefix), t.id+" ") {
			r.data = strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(r.data, loggerPrefix), t.id+" "), "\n")
			lines = append(lines, r)
		}
	}
	if len(lines) == 0 {
		rt.Fail("start-line", "%s: no line for trace %d", dst.name, t.idx)
	}
	if l := lines[0].data; !strings.Contains(l, t.src) || !strings.Contains(l, t.cat) {
		rt.Fail("start-line", "%s: the first line of trace %d is %q, source %q and category %q are expected", dst.name, t.idx, l, t.src, t.cat)
	}
	at := map[string]int{}
	done := -1
	fin := t.firstFinish()
	byKey := map[string]*evRec{}
	for _, e := range t.evs {
		byKey[e.key] = e
	}
	for i, l := range lines {
		if i == 0 {
			continue
		}
		k := keyOf(l.data)
		e := byKey[k]
		if e != nil {
			if _, dup := at[k]; dup {
				rt.Fail("twice", "%s: event %s of trace %d is logged twice", dst.name, k, t.idx)
			}
			at[k] = i
			if d := lineText(e, l.data); d != "" {
				rt.Fail("line-text", "%s: trace %d: %s", dst.name, t.idx, d)
			}
			continue
		}
		switch {
		case strings.Contains(l.data, "success") || strings.Contains(l.data, "errored"):
			if len(t.fins) == 0 {
				rt.Fail("outcome", "%s: outcome %q of trace %d, which is not finished", dst.name, l.data, t.idx)
			}
			if strings.Contains(l.data, "errored") != t.tr.Errored() {
				rt.Fail("outcome", "%s: outcome %q of trace %d, whose errored state is %v", dst.name, l.data, t.idx, t.tr.Errored())
			}
			if done < 0 {
				done = i
			}
		default:
			rt.Fail("foreign-line", "%s: unexpected line of trace %d: %q", dst.name, t.idx, clip(l.data, 200))
		}
	}
	if len(t.fins) > 0 && done < 0 {
		rt.Fail("outcome", "%s: no outcome of finished trace %d", dst.name, t.idx)
	}
	for _, ev := range t.tr.Events() {
		k := keyOf(ev.What)
		i, ok := at[k]
		if !ok {
			rt.Fail("not-logged", "%s: event %s of trace %d is not logged", dst.name, k, t.idx)
		}
		if done >= 0 && i > done {
			rt.Fail("line-order", "%s: event %s of trace %d is logged after the outcome", dst.name, k, t.idx)
		}
	}
	for _, e := range t.evs {
		i, ok := at[e.key]
		if !ok {
			if e.ret < fin.inv {
				rt.Fail("not-logged", "%s: event %s of trace %d is not logged", dst.name, e.key, t.idx)
			}
			continue
		}
		// within the call
		if l := lines[i]; l.inv < e.inv || l.ret > e.ret {
			rt.Fail("line-order", "%s: event %s of trace %d recorded at %v is logged at %v", dst.name, e.key, t.idx, e.win, l.win)
		}
	}
	rt.Count("probe.lines", int64(len(lines)))
}

// lineText checks a log line against the event it is for.
func lineText(e *evRec, line string) string {
	mark := ""
	ok := false
	if e.isErr {
		i := strings.Index(line, "ERR")
		if i < 0 {
			return fmt.Sprintf("error event %s is logged without mark: %q", e.key, clip(line, 200))
		}
	}
	switch {
	case e.re != nil:
		ok = e.re.MatchString(line)
	case e.st == nil:
		ok = strings.HasSuffix(line, strings.TrimSuffix(e.want(0), "\n"))
		mark = strings.TrimSuffix(line, strings.TrimSuffix(e.want(0), "\n"))
	default:
		for i := range e.st.evals {
			if x := e.want(i + 1); strings.HasSuffix(line, x) {
				ok = true
				mark = strings.TrimSuffix(line, x)
			}
		}
	}
	if !ok {
		return fmt.Sprintf("event %s is logged as %q, expected e.g. %q", e.key, clip(line, 200), e.sample())
	}
	if !e.isErr && mark != "" {
		return fmt.Sprintf("normal event %s is logged with mark %q", e.key, mark)
	}
	return ""
}

func (e *evRec) sample() string {
	if e.re != nil {
		return e.re.String()
	}
	return clip(e.want(1), 200)
}
