package main

import (
	"context"

	"github.com/peterbourgon/trc"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C12", Gen: genC12, Run: runC12, Quick: 350000, Steps: 4_000_000, Notes: realTrc, Tune: func(g *G, c *rt.Config) {
		c.Strategy.TimeRace = 0
		c.Tick = int64(g.pick(0, 1, 1000))
	}})
}

func genC12(g *G) *Prog {
	p := newProg()
	nt := g.rng(1, 4)
	slots := g.rng(1, 3)
	p.Cfg["subs"] = g.rng(1, 4)
	kinds := []int{kindColl, kindColl, kindLog, kindNoDetail}
	for s := 0; s < p.Cfg["subs"]; s++ {
		// C: what the reader does: 0 nothing ever, 1 reads everything, 2 reads some and stops, 3 reads only when told
		o := Op{K: "sub", B: s, C: g.n(4), D: g.pick(0, 0, 1, 2, 3, 7, 500)*16 + g.n(8)}
		if g.chance(0.5) {
			x := Op{}
			genFilter(g, &x)
			x.A &^= fIDs
			o.A, o.S = x.A, x.S
			o.D |= x.D % 1024 << 16
		}
		p.add(nt, o)
	}
	n := g.rng(6, 40)
	for i := 0; i < n; i++ {
		t, s := g.n(nt), g.n(slots)
		switch g.weighted(5, 14, 4, 2, 2) {
		case 0:
			p.add(t, Op{K: "new", A: s, B: kinds[g.n(len(kinds))], C: g.n(3)})
		case 1:
			o := genEvent(g, s)
			o.D = g.pick(0, 1, 2, 5, 6, 8)
			if o.C == 9 || o.C == 4 {
				o.C = 0
			}
			p.add(t, o)
		case 2:
			p.add(t, Op{K: "fin", A: s})
		case 3:
			p.add(t, Op{K: "poll", B: g.n(4)})
		case 4:
			p.add(t, Op{K: "go", B: g.n(4), A: g.rng(1, 5)})
		}
	}
	p.Cfg["pre"] = nt
	if g.chance(0.01) {
		p.Cfg["burst"] = g.pick(130, 260, 300, 520)
	}
	return p
}

type pollRec struct {
	win
	st trc.StreamStats
}

func runC12(p *Prog) {
	w := newTW(p)
	type sub struct {
		*subRec
		size, mode, budget int
		polls              []pollRec
		waiting            bool
	}
	subs := map[int]*sub{}
	b := w.cols[kindColl]
	nt := p.Cfg["pre"]
	if nt >= len(p.Tasks) {
		return
	}
	for _, o := range p.Tasks[nt] {
		f := w.spec(Op{A: o.A, D: o.D >> 16, S: o.S}, "src")
		s := &sub{subRec: newSub(o.B, o, f, o.D%65536/16), mode: o.C, size: o.D % 65536 / 16}
		subs[o.B] = s
		s.start(b)
		switch s.mode {
		case 1:
			s.budget = 1 << 30
		case 2:
			s.budget = o.D % 8
		}
		if s.mode > 0 {
			rt.Spawn("reader", true, func() {
				for {
					rt.Block("told to read", func() bool { return s.budget > 0 })
					s.budget--
					s.waiting = true
					tr := rt.Recv(s.ch)
					s.waiting = false
					s.got = append(s.got, tr.(*trc.StaticTrace))
				}
			})
		}
		if s.mode == 0 || s.mode == 3 {
			rt.Count("fault.stalled_subscriber", 1)
		}
	}
	q := *p
	q.Tasks = p.Tasks[:nt]
	w.p = &q
	if n := p.Cfg["burst"]; n > 0 {
		t := w.newTrace(0, kindColl, 0, Op{})
		for i := 0; i < n; i++ {
			w.record(0, t, Op{ID: 1000000 + i, K: "ev", B: i % 4, D: 1})
		}
	}
	m0 := rt.Mono()
	w.runTasks(func(task int, o Op) bool {
		switch o.K {
		case "poll":
			if s := subs[o.B]; s != nil {
				x := begin()
				st, err := b.StreamStats(context.Background(), s.ch)
				x.end()
				if err != nil {
					rt.Fail("no-stats", "no statistics for active subscription %d: %v", o.B, err)
				}
				s.polls = append(s.polls, pollRec{x, st})
			}
		case "go":
			if s := subs[o.B]; s != nil && s.mode > 1 {
				s.budget += o.A
			}
		default:
			return false
		}
		return true
	})
	if d := rt.Mono() - m0; d > 10_000_000 {
		rt.Fail("delayed", "tracing calls took %d ns of simulated time: they waited for something", d)
	}
	rt.Quiesce()
	// One more event, with every reader either ready or not, and nothing else going on.
	type before struct {
		stats   trc.StreamStats
		waiting bool
		room    bool
		n       int
	}
	pre := map[int]before{}
	for i, s := range subs {
		st, _ := b.StreamStats(context.Background(), s.ch)
		pre[i] = before{st, s.waiting, len(s.ch) < s.size, len(s.got)}
	}
	_, last := w.cols[kindColl].NewTrace(context.Background(), "last")
	w.byID[last.ID()] = &tinfo{id: last.ID()}
	rt.Quiesce()
	idx := w.index()
	for i := 0; i < 4; i++ {
		s := subs[i]
		if s == nil {
			continue
		}
		s.stop()
		rt.Join(s.task)
		left := 0
		budget := s.budget
		s.budget = -1 << 40
		for len(s.ch) > 0 {
			s.got = append(s.got, rt.Recv(s.ch).(*trc.StaticTrace))
			left++
		}
		s.budget = budget
		st := s.stats
		rt.Note("sub %d: stats %v, received %d", i, st, len(s.got))
		if st.Sends != len(s.got) {
			rt.Fail("sends", "subscription %d reports %d sends, %d traces were put on its channel", i, st.Sends, len(s.got))
		}
		// published changes, while everything else was quiet at both ends: exact
		lo, hi := 1, 1 // the last trace
		matchLo, matchHi := 0, 0
		count := func(sure bool, match, mayMatch bool) {
			if sure {
				lo++
				if match {
					matchLo++
				}
			}
			hi++
			if mayMatch {
				matchHi++
			}
		}
		if sm, mm := s.f.streamEvent(&tinfo{src: "src", cat: "last"}, nil); mm {
			matchHi++
			if sm {
				matchLo++
			}
		}
		for _, t := range w.traces {
			x := idx[t]
			sm, mm := s.f.streamEvent(t, nil)
			count(true, sm, mm)
			for _, e := range t.evs {
				sm, mm := s.f.streamEvent(t, e)
				if e.inv < x.finRet {
					count(e.ret < x.finInv, sm, mm)
				}
			}
			if len(t.fins) > 0 {
				may := s.f.static(t) && !s.f.active && !(s.f.min >= 0 && x.dur < s.f.min) && !(s.f.success && x.errored) && !(s.f.errored && !x.errored)
				count(true, s.f.surelyFinished(t, x), may)
			}
		}
		sum := st.Skips + st.Sends + st.Drops
		if sum < lo || sum > hi {
			rt.Fail("accounting", "subscription %d accounts for %d changes (%v), there were between %d and %d", i, sum, st, lo, hi)
		}
		if lo == hi {
			rt.Count("probe.exact_accounting", 1)
		}
		if n := st.Sends + st.Drops; n < matchLo || n > matchHi {
			rt.Fail("skips", "subscription %d with filter %v sent or dropped %d changes (%v), between %d and %d matched", i, s.f, n, st, matchLo, matchHi)
		}
		if st.Drops > 0 && st.Drops > matchHi-s.size {
			rt.Fail("drops", "subscription %d dropped %d of at most %d matching changes though its channel has room for %d", i, st.Drops, matchHi, s.size)
		}
		if s.mode == 0 {
			want := matchLo
			if want > s.size {
				want = s.size
			}
			if st.Sends < want || st.Sends > s.size {
				rt.Fail("sends", "subscription %d, never read, sent %d changes to a channel of size %d, %d matched", i, st.Sends, s.size, matchLo)
			}
		}
		// the last one
		b4 := pre[i]
		d := trc.StreamStats{Skips: st.Skips - b4.stats.Skips, Sends: st.Sends - b4.stats.Sends, Drops: st.Drops - b4.stats.Drops}
		var want trc.StreamStats
		switch sm, _ := s.f.streamEvent(&tinfo{src: "src", cat: "last"}, nil); {
		case !sm:
			want.Skips = 1
		case b4.waiting || b4.room:
			want.Sends = 1
			rt.Count("probe.last_sent", 1)
		default:
			want.Drops = 1
			rt.Count("probe.last_dropped", 1)
		}
		if d != want {
			rt.Fail("last", "one more change was accounted for as %v, not %v, by subscription %d (reader waiting %v, room %v)", d, want, i, b4.waiting, b4.room)
		}
		fin := begin()
		s.polls = append(s.polls, pollRec{fin, st})
		for _, x := range s.polls {
			for _, y := range s.polls {
				if x.before(y.win) && (x.st.Skips > y.st.Skips || x.st.Sends > y.st.Sends || x.st.Drops > y.st.Drops) {
					rt.Fail("decreasing", "statistics of subscription %d went from %v to %v", i, x.st, y.st)
				}
			}
		}
	}
}
