package main

import (
	"context"
	"fmt"

	"github.com/peterbourgon/trc"
	simctx "trcsim/context"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C11", Gen: genC11, Run: runC11, Quick: 350000, Steps: 4_000_000, Notes: realTrc})
}

func genC11(g *G) *Prog {
	p := newProg()
	nt := g.rng(1, 4)
	slots := g.rng(1, 4)
	cats := g.rng(1, 3)
	p.Cfg["cap"] = g.pick(0, 0, 1, 2)
	p.Cfg["subs"] = g.rng(1, 3)
	p.Cfg["stalled"] = g.pick(0, 0, 1, 2)
	kinds := []int{kindColl, kindColl, kindColl, kindLog, kindNoDetail}
	if g.chance(0.2) { // a collector with a broker of its own
		p.Cfg["own"] = 1
		kinds = kinds[:1]
	}
	early := g.chance(0.6)
	for s := 0; s < p.Cfg["subs"]; s++ {
		o := Op{K: "sub", B: s}
		if g.chance(0.6) {
			genFilter(g, &o)
			o.A &^= fIDs
		}
		t := g.n(nt)
		if early || g.chance(0.5) {
			t = nt // before everything else
		}
		p.add(t, o)
	}
	n := g.rng(6, 36)
	if g.chance(0.1) { // more events than a trace can have
		p.Cfg["max"] = 10
		n = g.rng(20, 60)
		slots = g.rng(1, 2)
	}
	if g.chance(0.002) {
		p.Cfg["max"] = 3000
		p.add(0, Op{K: "new", A: 0, B: kindColl, C: 0})
		p.add(0, Op{K: "burst", A: 0, D: g.rng(950, 1100)})
		p.add(0, Op{K: "fin", A: 0})
		n = 4
	}
	for i := 0; i < n; i++ {
		t, s := g.n(nt), g.n(slots)
		switch g.weighted(6, 14, 5, 1, 1, 1, 1) {
		case 0:
			p.add(t, Op{K: "new", A: s, B: kinds[g.n(len(kinds))], C: g.n(cats)})
		case 1:
			o := genEvent(g, s)
			o.D = g.pick(0, 1, 2, 5, 6, 8)
			if o.C == 9 || o.C == 4 {
				o.C = 0
			}
			p.add(t, o)
		case 2:
			p.add(t, Op{K: "fin", A: s, C: g.pick(0, 1)})
		case 3:
			p.add(t, Op{K: "adv", A: g.rng(1, 99), B: g.n(9)})
		case 4:
			p.add(t, Op{K: "unsub", B: g.n(p.Cfg["subs"])})
		case 5:
			p.add(t, Op{K: "cap", A: g.rng(1, 3)})
		case 6:
			p.add(t, Op{K: "noise", A: g.n(3), B: g.n(3)})
		}
	}
	p.Cfg["pre"] = nt
	for len(p.Tasks) <= nt {
		p.Tasks = append(p.Tasks, nil)
	}
	return p
}

// subRec is a subscription.
type subRec struct {
	i      int
	op     Op
	f      *fspec
	ch     chan trc.Trace
	ctx    context.Context
	cancel context.CancelFunc
	up     int64 // sequence number at which it was surely subscribed
	inv    int64 // of Stream
	cut    int64 // of the cancellation
	ret    int64 // of Stream
	got    []*trc.StaticTrace
	stats  trc.StreamStats
	err    error
	task   *rt.Task
}

func newSub(i int, o Op, f *fspec, size int) *subRec {
	s := &subRec{i: i, op: o, f: f, ch: rt.Reg(make(chan trc.Trace, size)), up: 1 << 62, cut: 1 << 62, ret: 1 << 62}
	s.ctx, s.cancel = simctx.WithCancel(context.Background())
	return s
}

type streamer interface {
	Stream(context.Context, trc.Filter, chan<- trc.Trace) (trc.StreamStats, error)
	StreamStats(context.Context, chan<- trc.Trace) (trc.StreamStats, error)
}

func (s *subRec) start(b streamer) {
	s.inv = rt.Seq()
	s.task = rt.Spawn(fmt.Sprintf("stream%d", s.i), true, func() {
		s.stats, s.err = b.Stream(s.ctx, s.f.filter(), s.ch)
		s.ret = rt.Seq()
	})
	// subscribed as soon as there are statistics
	for i := 0; ; i++ {
		if _, err := b.StreamStats(context.Background(), s.ch); err == nil {
			s.up = rt.Seq()
			return
		}
		if s.task.Done() || s.cut < 1<<62 {
			return
		}
		rt.Sleep(1000)
		if i > 100_000 {
			rt.Fail("never-subscribed", "a subscription never came up")
		}
	}
}

func (s *subRec) stop() {
	if s.cut == 1<<62 {
		s.cut = rt.Seq()
		s.cancel()
	}
}

func runC11(p *Prog) {
	w := newTW(p)
	if p.Cfg["cap"] > 0 {
		w.setCap(p.Cfg["cap"])
	}
	if p.Cfg["own"] == 1 {
		w.cols[kindColl] = trc.NewCollector(trc.CollectorConfig{Source: "src"})
	}
	others := []*trc.Collector{trc.NewCollector(trc.CollectorConfig{Source: "src"}), trc.NewDefaultCollector(), trc.NewCollector(trc.CollectorConfig{Source: "src", Broker: trc.NewBroker()})}
	var subs []*subRec
	byIdx := map[int]*subRec{}
	op := func(task int, o Op) bool {
		switch o.K {
		case "sub":
			if byIdx[o.B] != nil {
				return true
			}
			s := newSub(o.B, o, w.spec(o, "src"), 4000)
			byIdx[o.B] = s
			subs = append(subs, s)
			s.start(w.cols[kindColl])
		case "unsub":
			if s := byIdx[o.B]; s != nil {
				s.stop()
			}
		case "cap":
			w.setCap(o.A)
		case "noise": // in another collector, which is none of the subscribers' business
			_, tr := others[o.A].NewTrace(context.Background(), catNames[o.B])
			tr.Tracef("noise")
			tr.Errorf("noise")
			tr.Finish()
			rt.Count("probe.other_collector", 1)
		case "burst":
			if t := w.slots[o.A]; t != nil {
				for i := 0; i < o.D; i++ {
					w.record(task, t, Op{ID: o.ID*100000 + i, K: "ev", A: o.A, B: i % 2, D: 1})
				}
			}
		default:
			return false
		}
		return true
	}
	if p.Cfg["max"] > 0 {
		w.do(0, Op{K: "setmax", A: p.Cfg["max"]})
	}
	// others, who never read, are nobody else's problem
	for i := 0; i < p.Cfg["stalled"]; i++ {
		s := newSub(100+i, Op{}, &fspec{min: -1}, i)
		s.start(w.cols[kindColl])
		defer s.stop()
		rt.Count("fault.stalled_subscriber", 1)
	}
	nt := p.Cfg["pre"]
	for _, o := range p.Tasks[nt] {
		rt.BeginOp(o.ID)
		op(nt, o)
	}
	q := *p
	q.Tasks = p.Tasks[:nt]
	w.p = &q
	w.runTasks(op)
	for _, s := range subs {
		s.stop()
		rt.Join(s.task)
		for len(s.ch) > 0 {
			s.got = append(s.got, rt.Recv(s.ch).(*trc.StaticTrace))
		}
		if s.stats.Drops > 0 {
			rt.Fail("dropped", "%d traces were dropped though the channel had room", s.stats.Drops)
		}
	}
	for _, s := range subs {
		w.oracleC11(s)
	}
}

func (f *fspec) streamEvent(t *tinfo, e *evRec) (sure, maybe bool) {
	// the single event copy of e
	if !f.static(t) || f.finished || f.min >= 0 {
		return false, false
	}
	sure, maybe = true, true
	// errors recorded before, or maybe before
	mayErr, sureErr := false, false
	for _, x := range t.evs {
		if e != nil && x.isErr {
			mayErr = mayErr || x == e || x.inv < e.ret
			sureErr = sureErr || x == e || x.before(e.win)
		}
	}
	if f.success {
		sure, maybe = !mayErr, !sureErr
	}
	if f.errored {
		sure, maybe = sure && sureErr, maybe && mayErr
	}
	if f.re != nil {
		if e == nil || !f.re.MatchString(e.want(1)) {
			return false, false
		}
	}
	return
}

// streamMarker reports that the filter may let pass a copy whose only event is
// the one standing for those beyond the limit.
func (f *fspec) streamMarker(t *tinfo, text string) bool {
	return f.static(t) && !f.finished && f.min < 0 && (f.re == nil || f.re.MatchString(text))
}

// stored reports that an event was surely stored, rather than counted; not
// first: and is surely not the first one.
func (t *tinfo) stored(e *evRec, notFirst bool) bool {
	n, first := 0, true
	for _, x := range t.evs {
		if x != e && x.inv < e.ret {
			n++
		}
		if x != e && x.before(e.win) {
			first = false
		}
	}
	if n >= t.lo {
		return false
	}
	return !notFirst || len(t.evs) <= t.lo || !first
}

func (w *tw) oracleC11(s *subRec) {
	idx := w.index()
	got := map[*tinfo][]*trc.StaticTrace{}
	for _, st := range s.got {
		t := w.byID[st.ID()]
		if t == nil {
			rt.Fail("phantom", "subscriber %d got trace %s, which nobody created", s.i, st.ID())
		}
		got[t] = append(got[t], st)
	}
	rt.Count("probe.deliveries", int64(len(s.got)))
	for _, t := range w.traces {
		x := idx[t]
		byKey := map[string]*evRec{}
		for _, e := range t.evs {
			byKey[e.key] = e
		}
		var finished []*trc.StaticTrace
		created := 0
		seen := map[string]int{}
		var order []string
		markers := 0
		truncates := len(t.evs) > t.lo
		for _, st := range got[t] {
			if st.Source() != t.src || st.Category() != t.cat || !st.Started().Equal(x.started) {
				rt.Fail("identity", "subscriber %d got trace %d with wrong identity %+v", s.i, t.idx, st)
			}
			for _, ev := range st.Events() {
				if len(ev.Stack) > 0 {
					rt.Fail("stack", "subscriber %d got an event with a stack", s.i)
				}
				if truncates && keyOf(ev.What) == "TRUNC" {
					if ev.IsError {
						rt.Fail("text", "subscriber %d, trace %d: the marker is an error", s.i, t.idx)
					}
					continue
				}
				e := byKey[keyOf(ev.What)]
				if e == nil {
					rt.Fail("foreign", "subscriber %d got trace %d with event %q, which was not recorded on it", s.i, t.idx, clip(ev.What, 100))
				}
				if msg := checkText(e, ev); msg != "" {
					rt.Fail("text", "subscriber %d, trace %d: %s", s.i, t.idx, msg)
				}
			}
			if st.Finished() {
				finished = append(finished, st)
				continue
			}
			if len(finished) > 0 {
				rt.Fail("after-finish", "subscriber %d got an active copy of trace %d after the finished one", s.i, t.idx)
			}
			switch len(st.Events()) {
			case 0:
				created++
				if len(order) > 0 {
					rt.Fail("order", "subscriber %d got the creation of trace %d after %v", s.i, t.idx, order)
				}
				if _, maybe := s.f.streamEvent(t, nil); !maybe {
					rt.Fail("no-match", "subscriber %d with filter %v got the creation of trace %d", s.i, s.f, t.idx)
				}
			case 1:
				k := keyOf(st.Events()[0].What)
				if k == "TRUNC" {
					var n int
					fmt.Sscanf(truncRe.FindStringSubmatch(st.Events()[0].What)[1], "%d", &n)
					if n <= markers {
						rt.Fail("order", "subscriber %d got %q of trace %d after %d", s.i, st.Events()[0].What, t.idx, markers)
					}
					if !s.f.streamMarker(t, st.Events()[0].What) {
						rt.Fail("no-match", "subscriber %d with filter %v got %q of trace %d", s.i, s.f, st.Events()[0].What, t.idx)
					}
					markers = n
					rt.Count("probe.marker_copies", 1)
					continue
				}
				if markers > 0 {
					rt.Fail("order", "subscriber %d got event %s of trace %d after the marker", s.i, k, t.idx)
				}
				e := byKey[k]
				seen[k]++
				order = append(order, k)
				if seen[k] > 1 {
					rt.Fail("duplicate", "subscriber %d got event %s of trace %d twice", s.i, k, t.idx)
				}
				if e.inv > x.finRet {
					rt.Fail("after-finish", "subscriber %d got event %s, recorded at %v on trace %d, which finished at %d", s.i, k, e.win, t.idx, x.finRet)
				}
				if e.ret < s.inv || e.inv > s.ret {
					rt.Fail("not-subscribed", "subscriber %d got event %s, recorded while it was not subscribed", s.i, k)
				}
				if _, maybe := s.f.streamEvent(t, e); !maybe {
					rt.Fail("no-match", "subscriber %d with filter %v got event %s of trace %d", s.i, s.f, k, t.idx)
				}
				if e.isErr && !st.Errored() {
					rt.Fail("state", "subscriber %d got error event %s in a trace which is not errored", s.i, k)
				}
				if !st.Errored() {
					for _, f := range t.evs {
						if f.isErr && f.before(e.win) && f.ret < x.finInv {
							rt.Fail("state", "subscriber %d got event %s in a trace which is not errored, after the error %s", s.i, k, f.key)
						}
					}
				}
			default:
				rt.Fail("single", "subscriber %d got active trace %d with %d events", s.i, t.idx, len(st.Events()))
			}
			if st.Errored() && !x.errored {
				rt.Fail("state", "subscriber %d got trace %d as errored", s.i, t.idx)
			}
		}
		// order
		for i, a := range order {
			for _, b := range order[i+1:] {
				if byKey[b].before(byKey[a].win) {
					rt.Fail("order", "subscriber %d got event %s of trace %d before %s, which was recorded earlier", s.i, a, t.idx, b)
				}
			}
		}
		ref := x.final
		if len(finished) > 0 {
			ref = finished[0].Events()
		}
		pos := map[string]int{}
		for i, ev := range ref {
			pos[keyOf(ev.What)] = i
		}
		if len(ref) > 0 {
			last := -1
			for _, k := range order {
				q, ok := pos[k]
				if !ok && truncates && k == order[0] {
					continue // gave way to the marker
				}
				if !ok {
					rt.Fail("not-recorded", "subscriber %d got event %s, which is not in trace %d", s.i, k, t.idx)
				}
				if q < last {
					rt.Fail("order", "subscriber %d got the events of trace %d in order %v, the trace has another", s.i, t.idx, order)
				}
				last = q
			}
		}
		// completeness
		in := func(inv, ret int64) bool { return s.up < inv && ret < s.cut }
		if sure, _ := s.f.streamEvent(t, nil); sure && in(t.create.inv, t.create.ret) && created != 1 || created > 1 {
			rt.Fail("creation", "subscriber %d got the creation of trace %d %d times", s.i, t.idx, created)
		}
		for _, e := range t.evs {
			if sure, _ := s.f.streamEvent(t, e); sure && in(e.inv, e.ret) && e.ret < x.finInv && seen[e.key] != 1 && t.stored(e, false) {
				rt.Fail("missed", "subscriber %d with filter %v, subscribed from %d to %d, did not get event %s, recorded at %v on trace %d", s.i, s.f, s.up, s.cut, e.key, e.win, t.idx)
			}
		}
		if f := s.f; truncates && in(t.create.inv, x.finInv) && x.finInv < 1<<62 && f.static(t) && !f.finished && !f.success && !f.errored && f.min < 0 && f.re == nil {
			// every event shows, as itself or as a change of the marker
			sure, all := 0, 0
			for _, e := range t.evs {
				if e.ret < x.finInv {
					sure++
				}
				if e.inv < x.finRet {
					all++
				}
			}
			if n := len(order) + markers; n < sure || n > all {
				rt.Fail("missed", "subscriber %d got %d events of trace %d and the marker up to %d, %d to %d events were recorded", s.i, len(order), t.idx, markers, sure, all)
			}
		}
		if len(finished) > 1 {
			rt.Fail("finished-twice", "subscriber %d got %d finished copies of trace %d", s.i, len(finished), t.idx)
		}
		if len(finished) == 1 {
			st := finished[0]
			if len(t.fins) == 0 || x.finRet < s.inv {
				rt.Fail("finished", "subscriber %d got a finished copy of trace %d, which did not finish then", s.i, t.idx)
			}
			if st.Errored() != x.errored || st.Duration() != x.dur {
				rt.Fail("state", "finished copy of trace %d has errored %v, duration %v; the trace has %v, %v", t.idx, st.Errored(), st.Duration(), x.errored, x.dur)
			}
			if len(x.final) > 0 && len(x.final) != len(st.Events()) {
				rt.Fail("incomplete", "finished copy of trace %d has %d of %d events", t.idx, len(st.Events()), len(x.final))
			}
			for i := range x.final {
				if x.final[i].What != st.Events()[i].What {
					rt.Fail("incomplete", "finished copy of trace %d differs at event %d", t.idx, i)
				}
			}
			for _, e := range t.evs {
				_, ok := pos[e.key]
				if !ok && e.ret < x.finInv && t.stored(e, true) {
					rt.Fail("incomplete", "finished copy of trace %d lacks event %s", t.idx, e.key)
				}
			}
			if ok := s.f.matchesFinished(t, x, st); !ok {
				rt.Fail("no-match", "subscriber %d with filter %v got finished trace %d", s.i, s.f, t.idx)
			}
			rt.Count("probe.finished_copies", 1)
		} else if len(t.fins) > 0 && in(x.finInv, x.finRet) && s.f.surelyFinished(t, x) {
			rt.Fail("missed-finish", "subscriber %d with filter %v, subscribed from %d to %d, got no finished copy of trace %d, finished in [%d,%d]", s.i, s.f, s.up, s.cut, t.idx, x.finInv, x.finRet)
		}
	}
}

func (f *fspec) matchesFinished(t *tinfo, x *sidx, st *trc.StaticTrace) bool {
	if !f.static(t) || f.active || f.min >= 0 && x.dur < f.min || f.success && x.errored || f.errored && !x.errored {
		return false
	}
	if f.re != nil {
		for _, ev := range st.Events() {
			if f.re.MatchString(ev.What) {
				return true
			}
		}
		return false
	}
	return true
}

// surelyFinished: the finished trace satisfies the filter.
func (f *fspec) surelyFinished(t *tinfo, x *sidx) bool {
	if !f.static(t) || f.active || f.min >= 0 && x.dur < f.min || f.success && x.errored || f.errored && !x.errored {
		return false
	}
	if f.re != nil {
		for _, e := range t.evs {
			if e.ret < x.finInv && t.stored(e, true) && f.re.MatchString(e.want(1)) {
				return true
			}
		}
		return false
	}
	return true
}
