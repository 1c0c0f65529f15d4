package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/peterbourgon/trc"
	simctx "trcsim/context"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C13", Gen: genC13, Run: runC13, Quick: 180000, Notes: realTrc})
}

func genC13(g *G) *Prog {
	p := newProg()
	nt := g.rng(2, 5)
	chans := g.rng(1, 3)
	n := g.rng(6, 34)
	for i := 0; i < n; i++ {
		t := g.n(nt)
		switch g.weighted(7, 7, 4, 8, 3, 2) {
		case 0:
			// D: context: 0 plain, 1 cancelled before, 2 deadline, 3 with a cause
			p.add(t, Op{K: "stream", A: g.n(chans), D: g.pick(0, 0, 0, 0, 1, 2, 3)})
		case 1:
			p.add(t, Op{K: "cancel", A: g.n(1 << 16)})
		case 2:
			p.add(t, Op{K: "stats", A: g.n(chans)})
		case 3:
			p.add(t, Op{K: "pub", B: g.n(3)})
		case 4:
			// a whole life: subscribe, wait, cancel, wait for the return, then close or subscribe again
			p.add(t, Op{K: "life", A: g.n(3), B: g.n(3), C: g.n(3), D: g.pick(0, 0, 1, 4)})
		case 5:
			p.add(t, Op{K: "adv", A: g.rng(1, 99), B: g.n(9)})
		}
	}
	p.Cfg["bufs"] = g.pick(0, 1, 3, 64)
	p.Cfg["kind"] = g.pick(kindColl, kindColl, kindLog)
	return p
}

type streamCall struct {
	win
	id     int
	ch     int
	ctx    context.Context
	cancel context.CancelFunc
	cut    int64
	stats  trc.StreamStats
	err    error
	task   *rt.Task
}

type statCall struct {
	win
	ch int
	ok bool
}

type subState struct{ by int } // 0: not subscribed, otherwise 1+call

func (s subState) key() string { return fmt.Sprint(s.by) }

func runC13(p *Prog) {
	w := newTW(p)
	b := w.broker
	kind := p.Cfg["kind"]
	pubs := 0
	publish := func(style int) {
		_, tr := w.cols[kind].NewTrace(context.Background(), "x")
		tr.Tracef("one")
		tr.Finish()
		pubs += 3
	}
	// an observer, which nothing may disturb
	obs := newSub(99, Op{}, &fspec{min: -1}, 4000)
	obs.start(w.cols[kindColl])
	var chans []chan trc.Trace
	for i := 0; i < 3; i++ {
		ch := rt.Reg(make(chan trc.Trace, p.Cfg["bufs"]))
		chans = append(chans, ch)
		if i%2 == 0 {
			rt.Spawn("reader", true, func() {
				for {
					if _, ok := rt.Recv2(ch); !ok {
						return
					}
				}
			})
		}
	}
	var calls []*streamCall
	var stats []*statCall
	mk := func(d int, c *streamCall) {
		switch d {
		case 2:
			ctx, cancel := simctx.WithTimeout(context.Background(), 5*time.Millisecond)
			c.ctx, c.cancel = ctx, cancel
			c.cut = rt.Seq() // may be over any time
			rt.Count("fault.deadline", 1)
		case 3:
			ctx, cancel := simctx.WithCancelCause(context.Background())
			c.ctx, c.cancel = ctx, func() { cancel(errors.New("the cause")) }
		default:
			c.ctx, c.cancel = simctx.WithCancel(context.Background())
			if d == 1 {
				c.cut = rt.Seq()
				c.cancel()
				rt.Count("fault.cancelled_before", 1)
			}
		}
	}
	w.runTasks(func(task int, o Op) bool {
		switch o.K {
		case "stream":
			c := &streamCall{id: len(calls) + 1, ch: o.A, cut: 1 << 62}
			c.ret = 1 << 62
			mk(o.D, c)
			calls = append(calls, c)
			c.inv = rt.Seq()
			c.task = rt.Spawn(fmt.Sprintf("stream%d", c.id), true, func() {
				c.stats, c.err = b.Stream(c.ctx, trc.Filter{}, chans[o.A])
				c.ret = rt.Seq()
				rt.Note("stream call %d on channel %d returned %v %v", c.id, c.ch, c.stats, c.err)
			})
		case "cancel":
			if len(calls) > 0 {
				c := calls[o.A%len(calls)]
				if c.cut == 1<<62 {
					c.cut = rt.Seq()
				}
				c.cancel()
				rt.Count("fault.cancel", 1)
			}
		case "stats":
			x := &statCall{ch: o.A, win: begin()}
			_, err := b.StreamStats(context.Background(), chans[o.A])
			x.end()
			x.ok = err == nil
			stats = append(stats, x)
		case "pub":
			publish(o.B)
		case "life":
			ch := rt.Reg(make(chan trc.Trace, o.B*2))
			for round := 0; round <= o.A; round++ {
				c := &streamCall{}
				mk(o.C/2*3, c)
				up := false
				done := false
				t := rt.Spawn("life", true, func() {
					up = true
					c.stats, c.err = b.Stream(c.ctx, trc.Filter{}, ch)
					done = true
				})
				rt.Block("up", func() bool { return up })
				for i := 0; i < o.D; i++ {
					publish(0)
				}
				if done {
					rt.Fail("ended", "a stream ended by itself: %v %v", c.stats, c.err)
				}
				c.cancel()
				rt.Join(t)
				n := 0
				for len(ch) > 0 {
					rt.Recv(ch)
					n++
				}
				if !errors.Is(c.err, context.Canceled) {
					rt.Fail("result", "a cancelled stream returned %v", c.err)
				}
				if n != c.stats.Sends {
					rt.Fail("stats", "%d traces on the channel, final statistics say %v", n, c.stats)
				}
				if _, err := b.StreamStats(context.Background(), ch); err == nil {
					rt.Fail("stats-after", "statistics are available after the stream has returned")
				}
				publish(0)
				if len(ch) > 0 {
					rt.Fail("late-send", "a trace was sent after the stream had returned")
				}
				rt.Count("probe.lives", 1)
			}
			rt.Close(ch)
		default:
			return false
		}
		return true
	})
	publish(0)
	if obs.task.Done() {
		rt.Fail("ended", "a stream ended though nobody cancelled it")
	}
	for _, c := range calls {
		if c.cut == 1<<62 && c.ret < 1<<62 && c.err == nil {
			rt.Fail("ended", "stream call %d ended without being cancelled and without error", c.id)
		}
		if c.cut == 1<<62 {
			c.cut = rt.Seq()
		}
		c.cancel()
	}
	for _, c := range calls {
		rt.Join(c.task)
	}
	obs.stop()
	rt.Join(obs.task)
	if obs.stats.Sends != pubs || obs.stats.Drops != 0 || len(obs.ch) != pubs {
		rt.Fail("disturbed", "an undisturbed subscription got %d of %d changes, statistics %v", len(obs.ch), pubs, obs.stats)
	}
	publish(0)
	for i := range chans {
		if _, err := b.StreamStats(context.Background(), chans[i]); err == nil {
			rt.Fail("stats-after", "statistics are available after all streams have returned")
		}
		if i%2 == 1 {
			n := len(chans[i])
			publish(0)
			if len(chans[i]) != n {
				rt.Fail("late-send", "a trace was sent after all streams had returned")
			}
		}
		rt.Close(chans[i])
	}
	publish(0) // would panic if anything was still subscribed
	for ch := range chans {
		var ops []linOp
		for _, c := range calls {
			c := c
			if c.ch != ch {
				continue
			}
			if ctxErr := c.ctx.Err(); !errors.Is(c.err, ctxErr) || c.err == nil {
				// refused
				if c.err == nil || c.stats != (trc.StreamStats{}) {
					rt.Fail("result", "stream call %d returned %v, %v", c.id, c.stats, c.err)
				}
				rt.Count("probe.refused", 1)
				ops = append(ops, linOp{inv: c.inv, ret: c.ret, desc: fmt.Sprintf("call %d refused", c.id), step: func(s linState) (linState, bool) {
					return s, s.(subState).by != 0
				}})
				continue
			}
			ops = append(ops, linOp{inv: c.inv, ret: c.ret, desc: fmt.Sprintf("call %d subscribes", c.id), step: func(s linState) (linState, bool) {
				return subState{c.id}, s.(subState).by == 0
			}})
			cut := c.cut
			if c.inv > cut {
				cut = c.inv
			}
			ops = append(ops, linOp{inv: cut, ret: c.ret, desc: fmt.Sprintf("call %d unsubscribes", c.id), step: func(s linState) (linState, bool) {
				return subState{0}, s.(subState).by == c.id
			}})
		}
		for _, x := range stats {
			if x.ch == ch {
				x := x
				ops = append(ops, linOp{inv: x.inv, ret: x.ret, desc: fmt.Sprintf("statistics available: %v", x.ok), step: func(s linState) (linState, bool) {
					return s, (s.(subState).by != 0) == x.ok
				}})
			}
		}
		sort.Slice(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
		switch linearizable(subState{}, ops, 100000) {
		case linBad:
			rt.Fail("subscription", "no order of these calls explains their results:%s", describeOps(ops))
		case linUnknown:
			rt.Count("probe.lin_unknown", 1)
		case linOK:
			rt.Count("probe.lin_ok", 1)
		}
	}
}
