package main

import (
	"fmt"
	"slices"
	"sort"
	"strconv"

	"github.com/peterbourgon/trc"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C02", Gen: genC02, Run: runC02, Quick: 200000, Steps: 6_000_000, Notes: realTrc})
}

func genC02(g *G) *Prog {
	p := newProg()
	p.Cfg["sub"] = g.pick(0, 0, 0, 0, 1, 2)
	limit := func() int {
		switch g.n(8) {
		case 0:
			return g.rng(-5, 9)
		case 1:
			return 10
		case 2:
			return 11
		default:
			return g.rng(10, 22)
		}
	}
	if g.chance(0.002) { // the default and the largest limit
		n := g.pick(0, 0, 0, 0, 9999, 10000, 12345)
		p.add(0, Op{K: "setmax", A: 1000})
		if n > 0 {
			p.add(0, Op{K: "setmax", A: n})
		} else {
			n = 1000
		}
		if n > 10000 {
			n = 10000
		}
		o := Op{K: "new", A: 0, B: g.pick(kindCore, kindColl), C: 0}
		if o.B == kindCore && g.chance(0.3) {
			p.Tasks[0] = p.Tasks[0][:0]
			n = 10000
			o.D = g.pick(10000, 10001, 54321)
		}
		p.add(0, o)
		p.add(0, Op{K: "burst", A: 0, B: g.n(2), D: n + g.rng(-1, 3)})
		p.add(0, Op{K: "ev", A: 0, B: g.n(4), D: 1})
		p.add(0, Op{K: "read", A: 0, B: rdEvents})
		return p
	}
	nt := g.rng(1, 4)
	owns := g.chance(0.4)
	slots := g.rng(1, 3)
	p.add(0, Op{K: "setmax", A: limit()})
	changes := g.chance(0.5)
	var cur [3]bool
	for s := 0; s < slots; s++ {
		if g.chance(0.3) && changes {
			p.add(g.n(nt), Op{K: "setmax", A: limit()})
		}
		own := 0
		if g.chance(0.4) {
			own = limit()
			if own == 0 {
				own = -1
			}
		}
		p.add(g.n(nt), Op{K: "new", A: s, B: g.pick(kindCore, kindCore, kindColl, kindLog, kindEz, kindNoDetail), C: s, D: own})
		cur[s] = true
	}
	n := g.rng(20, 60)
	fin := g.chance(0.3)
	for i := 0; i < n; i++ {
		t, s := g.n(nt), g.n(slots)
		switch x := g.n(30); {
		case x < 20:
			o := genEvent(g, s)
			if o.D == 7 {
				o.D = 1
			}
			p.add(t, o)
		case x < 23:
			p.add(t, Op{K: "burst", A: s, B: g.n(2), D: g.rng(2, 9)})
		case x < 26:
			p.add(t, Op{K: "read", A: s, B: rdEvents, C: g.pick(0, 1)})
		case x < 27:
			p.add(t, Op{K: "read", A: s, B: rdErrored})
		case x < 28 && changes:
			p.add(t, Op{K: "setmax", A: limit()})
		case x < 29 && fin:
			p.add(t, Op{K: "fin", A: s})
		case x < 29 && owns:
			p.add(t, Op{K: "own", A: s, B: limit()})
		case x < 30:
			p.add(t, Op{K: "search", B: g.pick(kindColl, kindLog, kindEz)})
		}
	}
	return p
}

func runC02(p *Prog) {
	w := newTW(p)
	w.subscribe(p.Cfg["sub"])
	w.runTasks(func(task int, o Op) bool {
		switch o.K {
		case "new":
			t := w.newTraceHidden(o)
			if o.D != 0 {
				if _, ok := trc.SetMaxEvents(t.tr, o.D); ok {
					n := clampLimit(o.D)
					t.lo, t.hi = n, n
				}
			}
			t.limit0 = t.lo
			t.exact = t.lo == t.hi
			w.slots[o.A] = t
			return true
		case "own":
			t := w.slots[o.A]
			if t == nil {
				return true
			}
			s := &ownSet{n: clampLimit(o.B)}
			s.win = begin()
			_, ok := trc.SetMaxEvents(t.tr, o.B)
			s.end()
			if !ok {
				return true
			}
			t.owns = append(t.owns, s)
			t.sets++
			t.lo, t.hi = min(t.lo, s.n), max(t.hi, s.n)
			return true
		case "burst":
			t := w.slots[o.A]
			if t == nil {
				return true
			}
			for i := 0; i < o.D; i++ {
				w.record(task, t, Op{ID: o.ID*100000 + i, K: "ev", A: o.A, B: o.B, D: 1})
			}
			return true
		}
		return false
	})
	for _, t := range w.traces {
		w.read(t, rdErrored, 0, Op{})
		w.read(t, rdEvents, 0, Op{})
		w.read(t, rdEvents, 0, Op{})
		w.oracleC02(t)
	}
}

// newTraceHidden creates a trace without making it available to other tasks.
func (w *tw) newTraceHidden(o Op) *tinfo {
	old := w.slots[1000+o.ID]
	_ = old
	t := w.newTrace(1000+o.ID, o.B, o.C, o)
	delete(w.slots, 1000+o.ID)
	return t
}

func clampLimit(n int) int {
	return min(max(n, 10), 10000)
}

// ownSet is a call which set the limit of one trace.
type ownSet struct {
	win
	n int
}

// exactC02 replays the calls on a trace when no two of them overlapped: then
// there is exactly one correct answer to every read.
func (w *tw) exactC02(t *tinfo) {
	type call struct {
		win
		ev   *evRec
		set  *ownSet
		read *readRec
		fin  bool
	}
	var cs []call
	for _, e := range t.evs {
		cs = append(cs, call{win: e.win, ev: e})
	}
	for _, s := range t.owns {
		cs = append(cs, call{win: s.win, set: s})
	}
	for _, f := range t.fins {
		cs = append(cs, call{win: f.win, fin: true})
	}
	for _, r := range t.eventReads() {
		cs = append(cs, call{win: r.win, read: r})
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].inv < cs[j].inv })
	for i := range cs {
		if i > 0 && !cs[i-1].before(cs[i].win) {
			return
		}
	}
	rt.Count("probe.exact", 1)
	limit, lost, finished := t.limit0, 0, false
	var kept []string
	for _, c := range cs {
		switch {
		case c.set != nil:
			limit = c.set.n
		case c.fin:
			finished = true
		case c.ev != nil:
			if finished {
				break
			}
			if len(kept) < limit {
				kept = append(kept, c.ev.key)
			} else {
				lost++
			}
		default:
			var ks []string
			n := 0
			for _, ev := range c.read.events {
				if k := keyOf(ev.What); k != "TRUNC" {
					ks = append(ks, k)
				} else {
					n, _ = strconv.Atoi(truncRe.FindStringSubmatch(ev.What)[1])
				}
			}
			want := kept
			if lost > 0 && len(ks) < len(kept) {
				want = kept[1:]
			}
			if n != lost || !slices.Equal(ks, want) {
				rt.Fail("exact", "trace %d (limit now %d) shows %v and %d more, expected %v and %d more", t.idx, limit, ks, n, want, lost)
			}
		}
	}
}

func (w *tw) oracleC02(t *tinfo) {
	if t.exact {
		w.exactC02(t)
	}
	byKey := map[string]*evRec{}
	for _, e := range t.evs {
		byKey[e.key] = e
	}
	// bounds of the number of events recorded at a moment
	bounds := func(x win) (lo, hi int) {
		for _, e := range t.evs {
			late, sure := false, e.before(x)
			for _, f := range t.fins {
				if f.before(e.win) {
					late = true // the trace was finished already
				}
				if f.inv < e.ret {
					sure = false // may have been finished already
				}
			}
			if late {
				continue
			}
			if sure {
				lo++
			}
			if e.inv < x.ret {
				hi++
			}
		}
		return
	}
	var markerKeys []string
	for _, r := range t.eventReads() {
		n := len(r.events)
		if n > t.hi {
			rt.Fail("limit", "trace %d with a limit of at most %d events reports %d", t.idx, t.hi, n)
		}
		lo, hi := bounds(r.win)
		seen := map[string]bool{}
		var shown []*evRec
		marker := -1
		for i, ev := range r.events {
			k := keyOf(ev.What)
			if k == "TRUNC" {
				if marker >= 0 {
					rt.Fail("marker", "trace %d has two markers", t.idx)
				}
				if i != n-1 {
					rt.Fail("marker", "trace %d has its marker at position %d of %d", t.idx, i, n)
				}
				if ev.IsError {
					rt.Fail("marker", "trace %d has a marker flagged as error", t.idx)
				}
				marker, _ = strconv.Atoi(truncRe.FindStringSubmatch(ev.What)[1])
				continue
			}
			e := byKey[k]
			if e == nil || seen[k] {
				rt.Fail("foreign", "trace %d contains unexpected event %q", t.idx, clip(ev.What, 100))
			}
			if msg := checkText(e, ev); msg != "" {
				rt.Fail("text", "trace %d: %s", t.idx, msg)
			}
			seen[k] = true
			shown = append(shown, e)
		}
		for i := range shown {
			for j := i + 1; j < len(shown); j++ {
				if shown[j].before(shown[i].win) {
					rt.Fail("order", "event %s was recorded before %s, but appears after it", shown[j].key, shown[i].key)
				}
			}
			if len(shown) > 200 && i > 50 {
				break
			}
		}
		if marker < 0 {
			if n < lo || n > hi {
				rt.Fail("count", "trace %d (limit %d..%d) reports %d events and no marker, %d..%d were recorded", t.idx, t.lo, t.hi, n, lo, hi)
			}
			continue
		}
		rt.Count("probe.truncated", 1)
		// marker: the limit's worth of events is stored, the rest counted
		if marker < 1 || marker < lo-t.hi || marker > hi-t.lo {
			rt.Fail("marker-count", "trace %d (limit %d..%d) says that %d events were not stored, %d..%d were recorded", t.idx, t.lo, t.hi, marker, lo, hi)
		}
		if len(shown)+1 < t.lo || len(shown)+1 > t.hi {
			rt.Fail("kept", "trace %d (limit %d..%d) keeps %d events beside the marker", t.idx, t.lo, t.hi, len(shown))
		}
		if x := len(shown) + marker; x > hi || x+1 < lo {
			rt.Fail("conservation", "trace %d shows %d events and says that %d were not stored, %d..%d were recorded", t.idx, len(shown), marker, lo, hi)
		}
		if t.sets > 0 {
			continue // the limit was changed meanwhile
		}
		// at most one event not shown may have been recorded before one that is
		gone := 0
		for _, e := range t.evs {
			if seen[e.key] {
				continue
			}
			for _, s := range shown {
				if e.before(s.win) {
					gone++
					break
				}
			}
		}
		if gone > 1 {
			rt.Fail("not-earliest", "trace %d dropped %d events which were recorded before others it kept", t.idx, gone)
		}
		var ks []string
		for _, s := range shown {
			ks = append(ks, s.key)
		}
		if markerKeys == nil {
			markerKeys = ks
		} else if fmt.Sprint(markerKeys) != fmt.Sprint(ks) {
			rt.Fail("kept-changed", "trace %d kept %v, and later %v", t.idx, markerKeys, ks)
		}
	}
	// errors beyond the limit count
	for _, r := range t.reads {
		if r.what != rdErrored {
			continue
		}
		must, may := false, false
		for _, e := range t.evs {
			if !e.isErr {
				continue
			}
			late, sure := false, e.before(r.win)
			for _, f := range t.fins {
				if f.before(e.win) {
					late = true
				}
				if f.inv < e.ret {
					sure = false
				}
			}
			must = must || sure
			may = may || !late && e.inv < r.ret
		}
		if must && !r.b || !may && r.b {
			rt.Fail("errored", "trace %d reports errored=%v, expected between %v and %v", t.idx, r.b, must, may)
		}
	}
}
