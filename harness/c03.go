package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C03", Gen: genC03, Run: runC03, Quick: 500000, Notes: realTrc})
}

func genC03(g *G) *Prog {
	p := newProg()
	p.Cfg["sub"] = g.pick(0, 0, 0, 1, 2)
	p.Cfg["kind0"] = g.pick(kindCore, kindColl, kindColl, kindLog, kindEz, kindNoDetail)
	p.Cfg["max"] = g.pick(0, 0, 0, 10)
	nt := g.rng(2, 4)
	n := g.rng(4, 20)
	finW := g.pick(1, 2, 4)
	for i := 0; i < n; i++ {
		t := g.n(nt)
		switch g.weighted(6, finW, 2, 2, 4, 3, 1) {
		case 0:
			o := genEvent(g, 0)
			if o.D == 7 {
				o.D = 0
			}
			p.add(t, o)
		case 1:
			p.add(t, Op{K: "fin", C: g.pick(0, 0, 1, 3)})
		case 2:
			p.add(t, Op{K: "read", B: rdFinished, C: g.pick(0, 1)})
		case 3:
			p.add(t, Op{K: "read", B: rdErrored, C: g.pick(0, 1)})
		case 4:
			p.add(t, Op{K: "read", B: rdEvents, C: g.pick(0, 1)})
		case 5:
			p.add(t, Op{K: "read", B: rdDuration, C: g.pick(0, 1)})
		case 6:
			p.add(t, Op{K: "adv", A: g.rng(1, 9), B: g.n(9)})
		}
	}
	// what happens after everything has calmed down
	for i := g.rng(0, 4); i > 0; i-- {
		switch g.n(4) {
		case 3:
			p.add(nt, Op{K: "evict"})
		case 0:
			p.add(nt, genEvent(g, 0))
		case 1:
			p.add(nt, Op{K: "fin"})
		default:
			p.add(nt, Op{K: "adv", A: g.rng(1, 9), B: g.n(10)})
		}
	}
	p.Cfg["after"] = nt
	for len(p.Tasks) <= nt {
		p.Tasks = append(p.Tasks, nil)
	}
	return p
}

func runC03(p *Prog) {
	w := newTW(p)
	if p.Cfg["max"] > 0 {
		w.do(0, Op{K: "setmax", A: p.Cfg["max"]})
	}
	w.subscribe(p.Cfg["sub"])
	t := w.newTrace(0, p.Cfg["kind0"], 0, Op{})
	nt := p.Cfg["after"]
	after := p.Tasks[nt]
	q := *p
	q.Tasks = p.Tasks[:nt]
	w.p = &q
	w.runTasks(nil)
	readAll := func() {
		for what := rdEvents; what <= rdDuration; what++ {
			w.read(t, what, 0, Op{})
		}
	}
	readAll()
	for _, o := range after {
		rt.BeginOp(o.ID)
		if o.K != "evict" {
			w.do(nt, o)
			continue
		}
		if c := w.cols[t.kind]; c != nil {
			c.SetCategorySize(1)
			_, tr := c.NewTrace(context.Background(), t.cat)
			tr.Tracef("e99999; of another trace")
			if t.gone == 0 {
				t.gone = rt.Seq()
			}
			rt.Count("probe.evicted", 1)
		}
	}
	readAll()
	w.oracleC03(t)
	// A finished trace looks exactly the same for good.
	frozen := int64(1 << 62)
	for _, f := range t.fins {
		if f.ret < frozen {
			frozen = f.ret
		}
	}
	var first *readRec
	for _, r := range t.eventReads() {
		if r.inv < frozen || t.evictedRead(r) {
			continue
		}
		if first == nil {
			first = r
			continue
		}
		for i := range r.events {
			if i >= len(first.events) || r.events[i].What != first.events[i].What || !r.events[i].When.Equal(first.events[i].When) || r.events[i].IsError != first.events[i].IsError || fmt.Sprint(r.events[i].Stack) != fmt.Sprint(first.events[i].Stack) {
				rt.Fail("thawed", "event %d of finished trace changed to %+v", i, r.events[i])
			}
		}
		rt.Count("probe.frozen_reads", 1)
	}
}

// evictedRead: the events of a finished trace may be gone once its collector
// has dropped it, but only all at once, and its state stays.
func (t *tinfo) evictedRead(r *readRec) bool {
	return t.gone != 0 && r.inv > t.gone && len(t.fins) > 0 && len(r.events) == 0
}

// traceState is the sequential model of a trace.
type traceState struct {
	events   string // keys, joined
	n        int
	errored  bool
	finished bool
	last     time.Duration // largest duration read while active
	final    time.Duration // duration once finished, -1 if not known yet
}

func (s traceState) key() string { return fmt.Sprintf("%+v", s) }

func (w *tw) oracleC03(t *tinfo) {
	limit := t.hi
	var ops []linOp
	for _, e := range t.evs {
		e := e
		ops = append(ops, linOp{inv: e.inv, ret: e.ret, desc: fmt.Sprintf("record %s (error %v)", e.key, e.isErr), step: func(s linState) (linState, bool) {
			x := s.(traceState)
			if x.finished {
				return x, true
			}
			x.events += e.key + " "
			x.n++
			x.errored = x.errored || e.isErr
			return x, true
		}})
	}
	for _, f := range t.fins {
		ops = append(ops, linOp{inv: f.inv, ret: f.ret, desc: "finish", step: func(s linState) (linState, bool) {
			x := s.(traceState)
			x.finished = true
			return x, true
		}})
	}
	for _, r := range t.reads {
		r := r
		o := linOp{inv: r.inv, ret: r.ret}
		switch r.what {
		case rdEvents:
			if t.evictedRead(r) {
				continue
			}
			var ks []string
			trunc := false
			for _, ev := range r.events {
				k := keyOf(ev.What)
				if k == "TRUNC" {
					trunc = true
					k = truncRe.FindString(ev.What)
				}
				ks = append(ks, k)
			}
			got := strings.Join(ks, " ")
			if got != "" {
				got += " "
			}
			o.desc = "events -> " + got
			o.step = func(s linState) (linState, bool) {
				x := s.(traceState)
				want := x.events
				if x.n > limit {
					f := strings.Fields(x.events)
					want = strings.Join(f[1:limit], " ") + fmt.Sprintf(" truncated event count %d ", x.n-limit)
				} else if trunc {
					return x, false
				}
				return x, want == got
			}
		case rdFinished:
			o.desc = fmt.Sprintf("finished -> %v", r.b)
			o.step = func(s linState) (linState, bool) { x := s.(traceState); return x, x.finished == r.b }
		case rdErrored:
			o.desc = fmt.Sprintf("errored -> %v", r.b)
			o.step = func(s linState) (linState, bool) { x := s.(traceState); return x, x.errored == r.b }
		case rdDuration:
			o.desc = fmt.Sprintf("duration -> %v", r.d)
			o.step = func(s linState) (linState, bool) {
				x := s.(traceState)
				if r.d < x.last {
					return x, false
				}
				if !x.finished {
					x.last = r.d
					return x, true
				}
				if x.final >= 0 {
					return x, r.d == x.final
				}
				x.final = r.d
				return x, true
			}
		default:
			continue
		}
		ops = append(ops, o)
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	switch linearizable(traceState{final: -1}, ops, 200000) {
	case linBad:
		rt.Fail("linearizability", "no order of these calls on a trace explains their results:%s", describeOps(ops))
	case linUnknown:
		rt.Count("probe.lin_unknown", 1)
	case linOK:
		rt.Count("probe.lin_ok", 1)
	}
}
