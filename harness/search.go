package main

import (
	"context"
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	simctx "trcsim/context"
	"trcsim/rt"
)

// Searches: the world of the scenarios about searching (C08, C09, C10, C14).

// fspec describes a filter.
type fspec struct {
	active, finished, success, errored bool
	sources                            []string
	ids                                []string
	category                           string
	min                                time.Duration // <0: none
	query                              string
	badQuery                           bool
	re                                 *regexp.Regexp
}

func (f *fspec) filter() trc.Filter {
	x := trc.Filter{Sources: f.sources, IDs: f.ids, Category: f.category, IsActive: f.active, IsFinished: f.finished, IsSuccess: f.success, IsErrored: f.errored, Query: f.query}
	if f.min >= 0 {
		d := f.min
		x.MinDuration = &d
	}
	return x
}

func (f *fspec) String() string {
	return fmt.Sprintf("{act %v fin %v ok %v err %v src %v ids %d cat %q min %v q %q}", f.active, f.finished, f.success, f.errored, f.sources, len(f.ids), f.category, f.min, f.query)
}

const (
	fActive = 1 << iota
	fFinished
	fSuccess
	fErrored
	fSrc
	fSrcNone
	fIDs
	fMin
	fCat
)

var fqueries = []string{"e1[0-9]*;", "sure", `q7\[`, "([", "no such text", `tw\)\.record`, "(?i)WÖRLD", `e[0-9]*[02468];`, "^pfx", `E[0-9]+;`, "PFX", `/world\.go:[0-9]+$`, `no/such/file\.go:`, "e[0-9]+;", "pfx", "SURE"}

// genFilter encodes a filter into an operation's A, D and S.
func genFilter(g *G, o *Op) {
	if g.chance(0.25) {
		return
	}
	for _, b := range []int{fActive, fFinished, fSuccess, fErrored, fSrc, fIDs, fMin, fCat} {
		if g.chance(0.18) {
			o.A |= b
		}
	}
	if g.chance(0.04) {
		o.A |= fSrcNone
	}
	o.D = g.n(1 << 16)
	if g.chance(0.3) {
		o.S = fqueries[g.n(len(fqueries))]
	}
}

func (w *tw) spec(o Op, src string) *fspec {
	f := &fspec{min: -1, query: o.S}
	f.active, f.finished = o.A&fActive != 0, o.A&fFinished != 0
	f.success, f.errored = o.A&fSuccess != 0, o.A&fErrored != 0
	if o.A&fSrc != 0 {
		f.sources = []string{"elsewhere", src}
		if o.D/11%2 == 0 {
			f.sources = []string{src, "elsewhere"}
		}
	}
	if o.A&fSrcNone != 0 { // nearly
		f.sources = []string{"elsewhere", src + "x", src[:len(src)-1], strings.ToUpper(src)}
	}
	if o.A&fIDs != 0 && len(w.traces) > 0 {
		n := 1 + o.D%3
		if o.D/17%4 == 0 {
			n = 9
		}
		for i := 0; i < n; i++ {
			if t := w.traces[(o.D/7+i*5)%len(w.traces)]; t.id != "" {
				id := t.id
				switch o.D / 13 % 8 { // nearly
				case 0:
					id = id[:20]
				case 1:
					id = strings.ToLower(id)
				}
				if !contains(f.ids, id) {
					f.ids = append(f.ids, id)
				}
			}
		}
	}
	if o.A&fMin != 0 {
		f.min = []time.Duration{0, 1, time.Microsecond, time.Millisecond, 50 * time.Millisecond, time.Second, time.Minute, 2 * time.Hour}[o.D/3%8]
	}
	if o.A&fCat != 0 {
		f.category = []string{catNames[0], catNames[0], catNames[1], catNames[2], "alph", "ALPHA"}[o.D/5%6]
	}
	if f.query != "" {
		re, err := regexp.Compile(f.query)
		if err != nil {
			f.badQuery = true
		}
		f.re = re
	}
	return f
}

// sidx is what is known about a trace's history, for judging searches.
type sidx struct {
	t          *tinfo
	finInv     int64 // earliest call to finish
	finRet     int64 // earliest return
	errored    bool  // in the end
	finished   bool
	dur        time.Duration // when finished
	final      []trc.Event   // in the end, may be empty when recycled
	finalStack map[string][]trc.Frame
	started    time.Time
}

func (w *tw) index() map[*tinfo]*sidx {
	m := map[*tinfo]*sidx{}
	for _, t := range w.traces {
		x := &sidx{t: t, finInv: 1 << 62, finRet: 1 << 62, errored: t.tr.Errored(), finished: t.tr.Finished(), started: t.tr.Started(), finalStack: map[string][]trc.Frame{}}
		for _, f := range t.fins {
			if f.inv < x.finInv {
				x.finInv = f.inv
			}
			if f.ret < x.finRet {
				x.finRet = f.ret
			}
		}
		if x.finished {
			x.dur = t.tr.Duration()
		}
		x.final = t.tr.Events()
		for _, ev := range x.final {
			x.finalStack[keyOf(ev.What)] = ev.Stack
		}
		m[t] = x
	}
	return m
}

func (x *sidx) surely(e *evRec, s win) bool { return e.ret < s.inv && e.ret < x.finInv }
func (x *sidx) maybe(e *evRec, s win) bool  { return e.inv < s.ret && e.inv < x.finRet }

// text of a recorded event, for queries: only events without self-changing
// arguments are used in these scenarios.
func (f *fspec) evMatches(e *evRec) bool {
	if f.re.MatchString(e.want(1)) {
		return true
	}
	return f.query == `tw\)\.record` || f.query == `/world\.go:[0-9]+$`
}

// surely reports that the trace satisfies the filter during the whole window.
func (f *fspec) surely(x *sidx, s win) bool {
	if !f.static(x.t) {
		return false
	}
	if f.active && x.finInv < s.ret {
		return false
	}
	if f.finished && !(x.finRet < s.inv) {
		return false
	}
	if f.min >= 0 && !(x.finRet < s.inv && x.dur >= f.min) {
		return false
	}
	anyErr, sureErr := false, false
	for _, e := range x.t.evs {
		if e.isErr && x.maybe(e, s) {
			anyErr = true
		}
		if e.isErr && x.surely(e, s) {
			sureErr = true
		}
	}
	if f.success && anyErr || f.errored && !sureErr {
		return false
	}
	if f.re != nil {
		ok := false
		for _, e := range x.t.evs {
			if x.surely(e, s) && f.evMatches(e) {
				ok = true
			}
		}
		return ok
	}
	return true
}

// maybe reports that the trace may satisfy each condition at some point of the
// window; otherwise it tells which condition it can't satisfy.
func (f *fspec) maybe(x *sidx, s win) (bool, string) {
	if !f.static(x.t) {
		return false, "source, id or category"
	}
	if f.active && x.finRet < s.inv {
		return false, "active"
	}
	if f.finished && x.finInv > s.ret {
		return false, "finished"
	}
	if f.min >= 0 && (x.finInv > s.ret || x.dur < f.min) {
		return false, "min duration"
	}
	anyErr, sureErr := false, false
	for _, e := range x.t.evs {
		if e.isErr && x.maybe(e, s) {
			anyErr = true
		}
		if e.isErr && x.surely(e, s) {
			sureErr = true
		}
	}
	if f.success && sureErr {
		return false, "success"
	}
	if f.errored && !anyErr {
		return false, "errored"
	}
	if f.re != nil {
		for _, e := range x.t.evs {
			if x.maybe(e, s) && f.evMatches(e) {
				return true, ""
			}
		}
		return false, "query"
	}
	return true, ""
}

func (f *fspec) static(t *tinfo) bool {
	if len(f.sources) > 0 {
		ok := false
		for _, s := range f.sources {
			ok = ok || s == t.src
		}
		if !ok {
			return false
		}
	}
	if len(f.ids) > 0 {
		ok := false
		for _, s := range f.ids {
			ok = ok || s == t.id
		}
		if !ok {
			return false
		}
	}
	return f.category == "" || f.category == t.cat
}

// searchRec is a search and its result.
type searchRec struct {
	win
	op     Op
	kind   int
	f      *fspec
	limit  int // as requested
	depth  int
	bucket []time.Duration
	res    *trc.SearchResponse
}

func (s *searchRec) effLimit() int {
	switch {
	case s.limit <= 0:
		return 10
	case s.limit > 250:
		return 250
	}
	return s.limit
}

var bucketings = [][]time.Duration{
	nil,
	{0, time.Microsecond, time.Millisecond, time.Second},
	{time.Millisecond, time.Microsecond},
	{50 * time.Millisecond},
	{-time.Second, time.Millisecond},
	{0},
	{time.Second, 30 * time.Second, 5 * time.Minute, time.Hour, 24 * time.Hour},
	{time.Millisecond, 0, 0, time.Millisecond},
	{time.Hour, 10 * time.Millisecond, 0, time.Nanosecond},
}

// capHist is the history of a collector's capacity.
type capHist []*capRec

// bounds of the capacity during a window.
func (h capHist) minmax(x win) (lo, hi int) {
	lo, hi = 1<<30, 0
	all := append(capHist{{win: win{inv: -2, ret: -1}, n: 1000}}, h...)
	for _, s := range all {
		if s.n <= 0 || s.inv > x.ret {
			continue
		}
		superseded := false
		for _, u := range all {
			if u.n > 0 && s != u && s.before(u.win) && u.ret != 0 && u.ret < x.inv {
				superseded = true
			}
		}
		if superseded {
			continue
		}
		if s.n < lo {
			lo = s.n
		}
		if s.n > hi {
			hi = s.n
		}
	}
	return lo, hi
}

// held tells whether a trace is surely, and whether it may be, in the
// collector for the whole (any part) of the window.
func (w *tw) held(t *tinfo, kind int, caps capHist, s win) (surely, maybe bool) {
	if t.kind != kind || t.create.inv > s.ret {
		return false, false
	}
	var after, strictly int // traces of the category which may have, or have, come later
	for _, u := range w.traces {
		if u == t || u.kind != kind || u.cat != t.cat || u.create.inv > s.ret {
			continue
		}
		if !(u.create.before(t.create)) {
			after++
		}
		if t.create.before(u.create) && u.create.ret < s.inv {
			strictly++
		}
	}
	lo, _ := caps.minmax(win{inv: t.create.inv, ret: s.ret})
	surely = t.create.ret < s.inv && after < lo
	// evicted for sure if at some point before the search the later ones filled it
	_, hi := caps.minmax(win{inv: t.create.inv, ret: s.ret})
	maybe = strictly < hi
	return surely, maybe
}

// search performs a search operation on a searcher.
func (w *tw) search(sr trc.Searcher, kind int, o Op, src string, reuse *trc.SearchRequest) *searchRec {
	s := &searchRec{op: o, kind: kind, f: w.spec(o, src), limit: o.B, depth: []int{0, 0, -1, 1, 3}[o.C%5]}
	s.bucket = append([]time.Duration(nil), bucketings[o.C/5%len(bucketings)]...)
	req := &trc.SearchRequest{Filter: s.f.filter(), Limit: s.limit, StackDepth: s.depth, Bucketing: append([]time.Duration(nil), s.bucket...)}
	if o.D%3 == 1 { // a request used before, for something else
		f := &reuse.Filter
		f.Sources, f.IDs, f.Category, f.IsActive, f.IsFinished = req.Filter.Sources, req.Filter.IDs, req.Filter.Category, req.Filter.IsActive, req.Filter.IsFinished
		f.MinDuration, f.IsSuccess, f.IsErrored, f.Query = req.Filter.MinDuration, req.Filter.IsSuccess, req.Filter.IsErrored, req.Filter.Query
		reuse.Limit, reuse.StackDepth, reuse.Bucketing = req.Limit, req.StackDepth, req.Bucketing
		req = reuse
		rt.Count("probe.request_used_again", 1)
	}
	ctx := context.Background()
	gone := o.D%7 == 2
	if gone { // nobody waits for it any more
		c, cancel := simctx.WithCancel(ctx)
		cancel()
		ctx = c
		rt.Count("fault.search_cancelled", 1)
	}
	s.win = begin()
	res, err := sr.Search(ctx, req)
	s.end()
	if err != nil && gone && res == nil {
		return nil
	}
	if err != nil {
		rt.Fail("search-error", "search failed: %v", err)
	}
	s.res = res
	rt.Note("search %v limit %d: total %d match %d returned %d problems %v", s.f, s.limit, res.TotalCount, res.MatchCount, len(res.Traces), res.Problems)
	return s
}

func genSearch(g *G, kind int) Op {
	o := Op{K: "srch", B: g.pick(0, 1, 1, 2, 3, 5, 10, 250, 999, -3), C: g.n(5 * len(bucketings))}
	genFilter(g, &o)
	return o
}

// checkCopy verifies that a returned trace is a faithful copy of the trace.
func checkCopy(x *sidx, st *trc.StaticTrace, s win, depth int, fullStacks bool) {
	t := x.t
	if st.Source() != t.src || st.Category() != t.cat || !st.Started().Equal(x.started) {
		rt.Fail("copy-identity", "trace %d (source %q, category %q, started %v) returned with %q, %q, %v", t.idx, t.src, t.cat, x.started, st.Source(), st.Category(), st.Started())
	}
	if st.Finished() && x.finInv > s.ret || !st.Finished() && x.finRet < s.inv {
		rt.Fail("copy-state", "trace %d returned with finished %v by a search at %v; finished in [%d,%d]", t.idx, st.Finished(), s, x.finInv, x.finRet)
	}
	if st.Finished() && st.Duration() != x.dur {
		rt.Fail("copy-state", "finished trace %d returned with duration %v, it has %v", t.idx, st.Duration(), x.dur)
	}
	anyErr, sureErr := false, false
	byKey := map[string]*evRec{}
	for _, e := range t.evs {
		byKey[e.key] = e
		if e.isErr && x.maybe(e, s) {
			anyErr = true
		}
		if e.isErr && (x.surely(e, s) || st.Finished() && e.ret < x.finInv) {
			sureErr = true
		}
	}
	if st.Errored() && !anyErr || !st.Errored() && sureErr {
		rt.Fail("copy-state", "trace %d returned with errored %v by a search at %v", t.idx, st.Errored(), s)
	}
	pos := map[string]int{}
	for i, ev := range st.Events() {
		k := keyOf(ev.What)
		e := byKey[k]
		if e == nil || !x.maybe(e, s) {
			rt.Fail("copy-events", "trace %d returned with event %q, which it did not have at the time", t.idx, clip(ev.What, 100))
		}
		if _, dup := pos[k]; dup {
			rt.Fail("copy-events", "trace %d returned with event %s twice", t.idx, k)
		}
		pos[k] = i
		if msg := checkText(e, ev); msg != "" {
			rt.Fail("copy-events", "trace %d: %s", t.idx, msg)
		}
		full, ok := x.finalStack[k]
		if !ok {
			continue
		}
		want := full
		if depth < 0 {
			want = nil
		} else if depth > 0 && len(full) > depth {
			want = full[:depth]
		}
		if !fullStacks {
			continue
		}
		if len(want) != len(ev.Stack) {
			rt.Fail("copy-stack", "event %s of trace %d returned with %d frames of %d, depth %d requested", k, t.idx, len(ev.Stack), len(full), depth)
		}
		for j := range want {
			if want[j] != ev.Stack[j] {
				rt.Fail("copy-stack", "event %s of trace %d returned with frame %v instead of %v", k, t.idx, ev.Stack[j], want[j])
			}
		}
		if len(want) > 0 {
			rt.Count("probe.stacks_compared", 1)
		}
	}
	for _, e := range t.evs {
		if _, ok := pos[e.key]; !ok && x.surely(e, s) {
			rt.Fail("copy-events", "trace %d returned without event %s, recorded at %v before the search at %v", t.idx, e.key, e.win, s)
		}
		if _, ok := pos[e.key]; !ok && st.Finished() && e.ret < x.finInv {
			rt.Fail("copy-events", "trace %d returned as finished by a search at %v, but without event %s recorded before it finished", t.idx, s, e.key)
		}
		for _, f := range t.evs {
			pe, ok1 := pos[e.key]
			pf, ok2 := pos[f.key]
			if ok1 && ok2 && e.before(f.win) && pe > pf {
				rt.Fail("copy-events", "trace %d returned with events %s and %s in the wrong order", t.idx, e.key, f.key)
			}
			if ok2 && !ok1 && e.before(f.win) && e.ret < x.finInv {
				rt.Fail("copy-events", "trace %d returned with event %s but without the earlier %s", t.idx, f.key, e.key)
			}
		}
	}
}
