package main

import (
	"math"
	"sort"
	"time"

	"github.com/peterbourgon/trc"
	"trcsim/rt"
	simtime "trcsim/time"
)

func runC09(p *Prog) {
	w, recs, caps := runSearchProg(p)
	idx := w.index()
	since := simtime.Peek()
	for _, s := range recs {
		w.oracleC09(s, idx, caps)
		checkRates("a search", s.res.Stats, []*trc.SearchStats{s.res.Stats}, since)
	}
	checkMerges(recs, since)
}

// checkRates: the rates of a category are the sums of the rates of its parts,
// a part's being what it counts over the time since its oldest trace. They may
// have been computed at any time between since and now.
func checkRates(what string, st *trc.SearchStats, parts []*trc.SearchStats, since time.Time) {
	type bound struct{ lo, hi float64 }
	var names []string
	for name := range st.Categories {
		names = append(names, name)
	}
	sort.Strings(names)
	var all [2]bound
	check := func(name string, cs *trc.CategoryStats, b [2]bound) {
		for k, r := range []float64{cs.TraceRate(), cs.EventRate()} {
			if !(r >= b[k].lo*(1-1e-9) && r <= b[k].hi*(1+1e-9)) {
				rt.Fail("rate", "%s: category %q has a rate of %v %s per second, should be between %v and %v", what, name, r, []string{"traces", "events"}[k], b[k].lo, b[k].hi)
			}
		}
	}
	for _, name := range names { // first fix all rates
		st.Categories[name].TraceRate()
		st.Categories[name].EventRate()
	}
	o := st.Overall()
	until := simtime.Peek()
	for _, name := range names {
		var b [2]bound
		for _, p := range parts {
			if p == nil || p.Categories[name] == nil {
				continue
			}
			cs := p.Categories[name]
			for k, n := range []int{cs.TotalCount(), cs.EventCount} {
				if n == 0 || cs.Oldest.IsZero() {
					continue
				}
				e0, e1 := since.Sub(cs.Oldest).Seconds(), until.Sub(cs.Oldest).Seconds()
				if e1 > 0 {
					b[k].lo += float64(n) / e1
				}
				if e0 > 0 {
					b[k].hi += float64(n) / e0
				} else {
					b[k].lo, b[k].hi = 0, math.Inf(1)
				}
				rt.Count("probe.rates", 1)
			}
		}
		for k := range b {
			all[k].lo += b[k].lo
			all[k].hi += b[k].hi
		}
		check(name, st.Categories[name], b)
	}
	check("overall", o, all)
}

type rngI struct{ lo, hi int }

func (r rngI) has(n int) bool { return r.lo <= n && n <= r.hi }

func (w *tw) oracleC09(s *searchRec, idx map[*tinfo]*sidx, caps capHist) {
	st := s.res.Stats
	if st == nil {
		rt.Fail("no-stats", "search returned no statistics")
	}
	checkBucketing(s.bucket, st.Bucketing)
	sum := 0
	_, hiCap := caps.minmax(s.win)
	for cat, cs := range st.Categories {
		if cs.Category != cat {
			rt.Fail("category", "statistics of category %q are called %q", cat, cs.Category)
		}
		sum += cs.TotalCount()
		if len(cs.BucketCounts) != len(st.Bucketing) {
			rt.Fail("buckets", "category %q has %d bucket counts for %d buckets", cat, len(cs.BucketCounts), len(st.Bucketing))
		}
	}
	if sum != s.res.TotalCount {
		rt.Fail("sum", "the categories count %d traces, the response %d", sum, s.res.TotalCount)
	}
	for _, cat := range catNames {
		var total, active, errored, events rngI
		buckets := make([]rngI, len(st.Bucketing))
		var sureTimes, maybeTimes []time.Time
		for _, t := range w.traces {
			if t.cat != cat {
				continue
			}
			x := idx[t]
			sure, maybe := w.held(t, s.kind, caps, s.win)
			add := func(r *rngI, surely, possibly bool) {
				if sure && surely {
					r.lo++
				}
				if maybe && possibly {
					r.hi++
				}
			}
			add(&total, true, true)
			surelyFin, maybeFin := x.finRet < s.inv, x.finInv < s.ret
			add(&active, !maybeFin, !surelyFin)
			add(&errored, surelyFin && x.errored, maybeFin && x.errored)
			for i, b := range st.Bucketing {
				in := !x.errored && x.dur >= b
				add(&buckets[i], surelyFin && in, maybeFin && in)
			}
			for _, e := range t.evs {
				add(&events, x.surely(e, s.win), x.maybe(e, s.win))
			}
			if sure {
				sureTimes = append(sureTimes, x.started)
			}
			if maybe {
				maybeTimes = append(maybeTimes, x.started)
			}
		}
		if total.hi > hiCap {
			total.hi = hiCap
		}
		cs := st.Categories[cat]
		if cs == nil {
			if total.lo > 0 {
				rt.Fail("missing", "no statistics for category %q, which has %d traces", cat, total.lo)
			}
			continue
		}
		bad := func(what string, n int, r rngI) {
			if !r.has(n) {
				rt.Fail("count", "search at %v: category %q has %s %d, should be between %d and %d", s.win, cat, what, n, r.lo, r.hi)
			}
			if r.lo == r.hi {
				rt.Count("probe.exact_counts", 1)
			}
		}
		bad("total count", cs.TotalCount(), total)
		bad("active count", cs.ActiveCount, active)
		bad("errored count", cs.ErroredCount, errored)
		bad("event count", cs.EventCount, events)
		for i := range buckets {
			bad("bucket "+st.Bucketing[i].String()+" count", cs.BucketCounts[i], buckets[i])
			if i > 0 && cs.BucketCounts[i] > cs.BucketCounts[i-1] {
				rt.Fail("buckets", "category %q counts more traces in bucket %v than in %v", cat, st.Bucketing[i], st.Bucketing[i-1])
			}
		}
		isOne := func(x time.Time) bool {
			for _, y := range maybeTimes {
				if x.Equal(y) {
					return true
				}
			}
			return false
		}
		if cs.TotalCount() > 0 {
			if !isOne(cs.Oldest) || !isOne(cs.Newest) {
				rt.Fail("extremes", "oldest %v and newest %v of category %q are no start times of its traces", cs.Oldest, cs.Newest, cat)
			}
			for _, x := range sureTimes {
				if x.Before(cs.Oldest) || x.After(cs.Newest) {
					rt.Fail("extremes", "category %q holds a trace started %v, outside of %v to %v", cat, x, cs.Oldest, cs.Newest)
				}
			}
		}
	}
	checkOverall(st)
}

// checkBucketing: all requested buckets which make sense, and zero, in order.
func checkBucketing(req, got []time.Duration) {
	has := map[time.Duration]bool{}
	for i, b := range got {
		has[b] = true
		if i > 0 && b < got[i-1] {
			rt.Fail("bucketing", "buckets %v are not in order", got)
		}
	}
	if len(got) == 0 || got[0] != 0 {
		rt.Fail("bucketing", "buckets %v don't start with 0", got)
	}
	for _, b := range req {
		if b >= 0 && !has[b] {
			rt.Fail("bucketing", "requested bucket %v is not in %v", b, got)
		}
	}
}

func cloneStats(st *trc.SearchStats) *trc.SearchStats {
	if st == nil {
		return nil
	}
	c := &trc.SearchStats{Bucketing: append([]time.Duration(nil), st.Bucketing...), Categories: map[string]*trc.CategoryStats{}}
	for k, v := range st.Categories {
		c.Categories[k] = &trc.CategoryStats{Category: v.Category, EventCount: v.EventCount, ActiveCount: v.ActiveCount, BucketCounts: append([]int(nil), v.BucketCounts...), ErroredCount: v.ErroredCount, Oldest: v.Oldest, Newest: v.Newest}
	}
	return c
}

func addCat(dst, src *trc.CategoryStats) {
	empty := dst.TotalCount() == 0 && dst.Oldest.IsZero()
	dst.EventCount += src.EventCount
	dst.ActiveCount += src.ActiveCount
	dst.ErroredCount += src.ErroredCount
	for i := range src.BucketCounts {
		if i < len(dst.BucketCounts) {
			dst.BucketCounts[i] += src.BucketCounts[i]
		}
	}
	if empty || !src.Oldest.IsZero() && src.Oldest.Before(dst.Oldest) {
		dst.Oldest = src.Oldest
	}
	if empty || src.Newest.After(dst.Newest) {
		dst.Newest = src.Newest
	}
}

func sameCat(a, b *trc.CategoryStats) bool {
	if a.EventCount != b.EventCount || a.ActiveCount != b.ActiveCount || a.ErroredCount != b.ErroredCount || len(a.BucketCounts) != len(b.BucketCounts) || !a.Oldest.Equal(b.Oldest) || !a.Newest.Equal(b.Newest) {
		return false
	}
	for i := range a.BucketCounts {
		if a.BucketCounts[i] != b.BucketCounts[i] {
			return false
		}
	}
	return true
}

func sameStats(a, b *trc.SearchStats) string {
	if len(a.Categories) != len(b.Categories) {
		return "different categories"
	}
	for k, x := range a.Categories {
		y := b.Categories[k]
		if y == nil || x.Category != y.Category || !sameCat(x, y) {
			return "different statistics of category " + k
		}
	}
	return ""
}

func checkOverall(st *trc.SearchStats) {
	before := cloneStats(st)
	want := &trc.CategoryStats{BucketCounts: make([]int, len(st.Bucketing))}
	for _, cs := range before.Categories {
		addCat(want, cs)
	}
	o := st.Overall()
	if o.Category != "overall" {
		rt.Fail("overall", "the overall statistics are called %q", o.Category)
	}
	if !sameCat(o, want) {
		rt.Fail("overall", "overall statistics are %+v, the categories add up to %+v", o, want)
	}
	all := st.AllCategories()
	if len(all) != len(st.Categories)+1 || !sameCat(all[len(all)-1], want) {
		rt.Fail("overall", "the list of all categories has %d entries for %d categories, or no overall row", len(all), len(st.Categories))
	}
	if d := sameStats(before, st); d != "" {
		rt.Fail("mutated", "computing overall statistics changed the statistics: %s", d)
	}
}

// checkMerges merges the statistics of several searches in different orders.
func checkMerges(recs []*searchRec, since time.Time) {
	groups := map[string][]*trc.SearchStats{}
	var keys []string
	for _, s := range recs {
		k := ""
		for _, b := range s.res.Stats.Bucketing {
			k += b.String() + ","
		}
		if groups[k] == nil {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], s.res.Stats)
	}
	sort.Strings(keys)
	for _, k := range keys {
		in := groups[k]
		want := trc.NewSearchStats(in[0].Bucketing)
		var before []*trc.SearchStats
		for _, st := range in {
			c := cloneStats(st)
			before = append(before, c)
			for name, cs := range c.Categories {
				if want.Categories[name] == nil {
					want.Categories[name] = trc.NewCategoryStats(name, in[0].Bucketing)
				}
				addCat(want.Categories[name], cs)
			}
		}
		for variant := 0; variant < 4; variant++ {
			var parts []*trc.SearchStats
			for _, st := range before {
				parts = append(parts, st)
			}
			if variant%2 == 0 {
				parts = append([]*trc.SearchStats(nil), in...)
			}
			// another order
			for i := len(parts) - 1; i > 0 && variant > 0; i-- {
				j := rt.Choose(rt.TagFault+1, i+1)
				parts[i], parts[j] = parts[j], parts[i]
			}
			if rt.Chance(rt.TagFault+1, 0.3) {
				parts = append(parts, nil, trc.NewSearchStats(in[0].Bucketing))
			}
			var got *trc.SearchStats
			switch variant {
			case 0, 1:
				got = trc.NewSearchStats(in[0].Bucketing)
				for _, st := range parts {
					got.Merge(st)
				}
			case 2:
				got = &trc.SearchStats{}
				for _, st := range parts {
					got.Merge(st)
				}
			default: // halves first
				a, b := trc.NewSearchStats(in[0].Bucketing), trc.NewSearchStats(in[0].Bucketing)
				for i, st := range parts {
					if i%2 == 0 {
						a.Merge(st)
					} else {
						b.Merge(st)
					}
				}
				a.Merge(b)
				got = a
			}
			if d := sameStats(want, got); d != "" {
				rt.Fail("merge", "merging %d statistics gave a wrong result: %s: want %+v got %+v", len(in), d, flat(want), flat(got))
			}
			checkOverall(got)
			checkRates("merged statistics", got, parts, since)
			for i := range in {
				if d := sameStats(before[i], in[i]); d != "" {
					rt.Fail("mutated", "merging changed one of the merged statistics: %s", d)
				}
			}
			if len(in) > 1 {
				rt.Count("probe.merges", 1)
			}
		}
	}
}

func flat(st *trc.SearchStats) []trc.CategoryStats {
	var r []trc.CategoryStats
	for _, c := range st.Categories {
		r = append(r, *c)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Category < r[j].Category })
	return r
}
