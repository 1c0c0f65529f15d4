From 315103f3d1158a58891cf0215485427428b37cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:27 +0000
Subject: [PATCH 01/24] fix: don't recycle stack frames that were handed out to
 callers

Event.Stack returned by Events, searches and streams aliases the memory of
the pooled core event. When the trace was evicted and its events recycled,
stacks in results which were already handed out changed to those of unrelated
traces.
---
 trace_core.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trace_core.go b/trace_core.go
index 5bb8d3e..a2e94ee 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -360,7 +360,7 @@ func newCoreEvent(flags uint8, format string, args ...any) *coreEvent {
 		cev.what = newNormalStringer(format, args...)
 	}
 
-	cev.stack = cev.stack[:0] // be safe
+	cev.stack = nil // may be retained by callers, so never recycle it
 
 	if flags&flagNoStack != 0 {
 		cev.pcn = 0 // be safe
@@ -401,7 +401,7 @@ func (cev *coreEvent) free() {
 	cev.what.free()
 	cev.what = nil
 	cev.pcn = 0
-	cev.stack = cev.stack[:0]
+	cev.stack = nil // may be retained by callers, so never recycle it
 	trcdebug.CoreEventFreeCount.Add(1)
 	coreEventPool.Put(cev)
 }
-- 
2.43.0


From 1f9b215fe0cb4fddb6fbd6d2dadb60e3589b61a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:28 +0000
Subject: [PATCH 02/24] fix: don't recycle traces which callers may still hold

A finished trace evicted from a collector went to a pool and was reused for
the next trace, while callers could still hold the old handle: reads returned
another trace's ID and events, late events ended up in another trace, and a
late Finish finished another trace. Core traces are small, leave them to the
garbage collector; events and stringers are still recycled.
---
 trace_core.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/trace_core.go b/trace_core.go
index a2e94ee..e51d066 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -101,18 +101,13 @@ type traceContextKey struct{}
 
 var traceContextVal traceContextKey
 
-var coreTracePool = sync.Pool{
-	New: func() any {
-		trcdebug.CoreTraceAllocCount.Add(1)
-		return &coreTrace{}
-	},
-}
-
 // newCoreTrace starts a new trace with the given source and category.
 func newCoreTrace(source, category string) *coreTrace {
 	trcdebug.CoreTraceNewCount.Add(1)
+	trcdebug.CoreTraceAllocCount.Add(1)
 	now := time.Now().UTC()
-	tr := coreTracePool.Get().(*coreTrace)
+	// Traces aren't pooled, because callers can hold on to them indefinitely.
+	tr := &coreTrace{}
 	tr.id = ulid.MustNew(ulid.Timestamp(now), traceIDEntropy) // defer String computation
 	tr.source = source
 	tr.category = category
@@ -121,7 +116,7 @@ func newCoreTrace(source, category string) *coreTrace {
 	tr.finished = false
 	tr.duration = 0
 	tr.nostackflag = iff(traceNoStacks.Load(), flagNoStack, uint8(0))
-	tr.events = tr.events[:0]
+	tr.events = nil
 	tr.eventsmax = int(traceMaxEvents.Load())
 	tr.truncated = 0
 	return tr
@@ -311,10 +306,9 @@ func (tr *coreTrace) Free() {
 	for _, ev := range tr.events {
 		ev.free() // TODO: these individual frees can show up in profiles, maybe pre-allocate?
 	}
-	tr.events = tr.events[:0]
+	tr.events = nil
 
 	trcdebug.CoreTraceFreeCount.Add(1)
-	coreTracePool.Put(tr)
 }
 
 //
-- 
2.43.0


From 53b7f72ddac98e6865aa250cae96baa193296459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:05 +0000
Subject: [PATCH 03/24] fix: stream traces that don't implement EventsDetail

NewStreamTrace panicked for an active trace without events which doesn't
implement EventsDetail, e.g. any trace decorated before it is published, as
soon as someone subscribed. It also cut the stacks of event slices owned by
the trace, and read the finished state twice, so that a trace finished in
between was streamed as finished but with only its last event.
---
 trace_static.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index 4d69aa6..e4281e0 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -39,7 +39,8 @@ func NewSearchTrace(tr Trace) *StaticTrace {
 // every event.
 func NewStreamTrace(tr Trace) *StaticTrace {
 	var (
-		isActive          = !tr.Finished()
+		isFinished        = tr.Finished()
+		isActive          = !isFinished
 		detail, canDetail = tr.(interface{ EventsDetail(int, bool) []Event })
 		events            = []Event{}
 	)
@@ -49,15 +50,17 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 	case canDetail && !isActive:
 		events = detail.EventsDetail(-1, false)
 	case !canDetail && isActive:
-		events = tr.Events()
-		events = events[len(events)-1:]
-		for i := range events {
-			events[i].Stack = events[i].Stack[:0]
+		all := tr.Events()
+		if n := len(all); n > 1 {
+			all = all[n-1:]
 		}
+		events = append(events, all...) // copy, the trace may own the slice
 	case !canDetail && !isActive:
-		events = tr.Events()
+		events = append(events, tr.Events()...)
+	}
+	if !canDetail {
 		for i := range events {
-			events[i].Stack = events[i].Stack[:0]
+			events[i].Stack = nil
 		}
 	}
 
@@ -70,7 +73,7 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 		TraceDuration:    duration,
 		TraceDurationStr: duration.String(),
 		TraceDurationSec: duration.Seconds(),
-		TraceFinished:    tr.Finished(),
+		TraceFinished:    isFinished,
 		TraceErrored:     tr.Errored(),
 		TraceEvents:      events,
 	}
-- 
2.43.0


From bcf85404cd8c7c006665cf61ac903c5b75405aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:05 +0000
Subject: [PATCH 04/24] fix: publish every change of a trace exactly once

Recording an event and publishing it were two separate steps, so concurrent
events on a trace published the newest event twice and others never, and a
trace which was evicted between the steps of Finish was published without its
events. Calls on a finished trace, which are no-ops, published the complete
trace again.
---
 decorators.go | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/decorators.go b/decorators.go
index bf6fefa..9310121 100644
--- a/decorators.go
+++ b/decorators.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"log"
 	"strings"
+	"sync"
 
 	"github.com/peterbourgon/trc/internal/trcutil"
 )
@@ -120,39 +121,80 @@ type publisher interface {
 	Publish(ctx context.Context, tr Trace)
 }
 
+// publishTrace publishes the trace on every change. The mutex ensures that each
+// change is published before the next one is made.
 type publishTrace struct {
 	Trace
-	p publisher
+	p   publisher
+	mtx sync.Mutex
 }
 
 var _ interface{ Free() } = (*publishTrace)(nil)
 
 func (ptr *publishTrace) Tracef(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
+	if ptr.Trace.Finished() {
+		return
+	}
+
 	ptr.Trace.Tracef(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) LazyTracef(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
+	if ptr.Trace.Finished() {
+		return
+	}
+
 	ptr.Trace.LazyTracef(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) Errorf(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
+	if ptr.Trace.Finished() {
+		return
+	}
+
 	ptr.Trace.Errorf(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) LazyErrorf(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
+	if ptr.Trace.Finished() {
+		return
+	}
+
 	ptr.Trace.LazyErrorf(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) Finish() {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
+	if ptr.Trace.Finished() {
+		return
+	}
+
 	ptr.Trace.Finish()
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) Free() {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
 	if f, ok := ptr.Trace.(interface{ Free() }); ok {
 		f.Free()
 	}
-- 
2.43.0


From 83a607e7ae7ebc6b7dd8ae0035377c3561a98728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:06 +0000
Subject: [PATCH 05/24] fix: don't share memory between the args of prefixed
 events

Args of events were appended to the prefix args. If the prefix args slice had
spare capacity, every event overwrote the args of previous lazy events, and
concurrent events raced.
---
 helpers.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/helpers.go b/helpers.go
index 535496d..e65c3f2 100644
--- a/helpers.go
+++ b/helpers.go
@@ -115,18 +115,24 @@ type prefixTrace struct {
 	args   []any
 }
 
+// prefixArgs always returns a new slice, as callers can provide prefix args with
+// spare capacity, which must not be shared between events.
+func (ptr *prefixTrace) prefixArgs(args []any) []any {
+	return append(ptr.args[:len(ptr.args):len(ptr.args)], args...)
+}
+
 func (ptr *prefixTrace) Tracef(format string, args ...any) {
-	ptr.Trace.Tracef(ptr.format+format, append(ptr.args, args...)...)
+	ptr.Trace.Tracef(ptr.format+format, ptr.prefixArgs(args)...)
 }
 
 func (ptr *prefixTrace) LazyTracef(format string, args ...any) {
-	ptr.Trace.LazyTracef(ptr.format+format, append(ptr.args, args...)...)
+	ptr.Trace.LazyTracef(ptr.format+format, ptr.prefixArgs(args)...)
 }
 
 func (ptr *prefixTrace) Errorf(format string, args ...any) {
-	ptr.Trace.Errorf(ptr.format+format, append(ptr.args, args...)...)
+	ptr.Trace.Errorf(ptr.format+format, ptr.prefixArgs(args)...)
 }
 
 func (ptr *prefixTrace) LazyErrorf(format string, args ...any) {
-	ptr.Trace.LazyErrorf(ptr.format+format, append(ptr.args, args...)...)
+	ptr.Trace.LazyErrorf(ptr.format+format, ptr.prefixArgs(args)...)
 }
-- 
2.43.0


From 562bdc42c23f8a73a990d21b4e8eac43f282ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:08 +0000
Subject: [PATCH 06/24] fix: don't interpret region names as format strings

A region name containing a percent sign produced garbled events.
---
 helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index e65c3f2..adfc22e 100644
--- a/helpers.go
+++ b/helpers.go
@@ -77,10 +77,10 @@ func Region(ctx context.Context, name string) (context.Context, Trace, func()) {
 	outputContext, outputTrace := Prefix(ctx, "·")
 	region := trace.StartRegion(outputContext, name)
 
-	inputTrace.LazyTracef("→ " + name)
+	inputTrace.LazyTracef("→ %s", name)
 	finish := func() {
 		took := time.Since(begin)
-		inputTrace.LazyTracef("← "+name+" [%s]", trcutil.HumanizeDuration(took))
+		inputTrace.LazyTracef("← %s [%s]", name, trcutil.HumanizeDuration(took))
 		region.End()
 	}
 
-- 
2.43.0


From a8e2749336912cf36444ea14550b4565ec712e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:33 +0000
Subject: [PATCH 07/24] fix: merge event counts of search stats, and don't
 modify the merged stats

Merging category stats ignored the event count, so that multi-source searches
and the overall row were missing events, depending on the order of merging.
Also, merged stats shared bucket counts and categories with the first of the
stats merged into them, so that further merges modified those too.
---
 search_stats.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/search_stats.go b/search_stats.go
index f8e1664..7863160 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -82,8 +82,7 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 	}
 
 	if ss.IsZero() {
-		*ss = *other
-		return
+		*ss = *NewSearchStats(other.Bucketing)
 	}
 
 	if dst, src := len(ss.Bucketing), len(other.Bucketing); dst != src {
@@ -93,8 +92,7 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 	for category, theirs := range other.Categories {
 		ours, ok := ss.Categories[category]
 		if !ok {
-			cp := *theirs
-			ss.Categories[category] = &cp
+			ss.Categories[category] = theirs.clone()
 			continue
 		}
 		ours.Merge(theirs)
@@ -156,6 +154,13 @@ func NewCategoryStats(category string, bucketing []time.Duration) *CategoryStats
 	}
 }
 
+// clone returns a copy which shares no memory with the original.
+func (cs *CategoryStats) clone() *CategoryStats {
+	cp := *cs
+	cp.BucketCounts = append([]int(nil), cs.BucketCounts...)
+	return &cp
+}
+
 // IsZero returns true if the stats are not properly initialized or empty.
 func (cs *CategoryStats) IsZero() bool {
 	if cs == nil {
@@ -249,7 +254,7 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 	}
 
 	if cs.IsZero() {
-		*cs = *other
+		*cs = *other.clone()
 		return
 	}
 
@@ -260,6 +265,8 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", dst, src))
 	}
 
+	cs.EventCount += other.EventCount
+
 	cs.ActiveCount += other.ActiveCount
 
 	for i := range cs.BucketCounts {
-- 
2.43.0


From 17253410ab5e12e9c8958c64fd012bb028573ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:34 +0000
Subject: [PATCH 08/24] fix: ignore negative buckets in search requests

With a negative bucket every Normalize added another zero bucket, and the zero
bucket wasn't the first one. A search over several sources, or a remote one,
normalizes repeatedly, and panicked when merging inconsistent buckets.
---
 search_types.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/search_types.go b/search_types.go
index 9ac15c8..a2e7efa 100644
--- a/search_types.go
+++ b/search_types.go
@@ -34,6 +34,12 @@ type SearchRequest struct {
 func (req *SearchRequest) Normalize() []error {
 	var errs []error
 
+	for _, bucket := range req.Bucketing {
+		if bucket < 0 {
+			req.Bucketing = withoutNegative(req.Bucketing)
+			break
+		}
+	}
 	if len(req.Bucketing) <= 0 {
 		req.Bucketing = DefaultBucketing
 	}
@@ -60,6 +66,16 @@ func (req *SearchRequest) Normalize() []error {
 	return errs
 }
 
+func withoutNegative(ds []time.Duration) []time.Duration {
+	var res []time.Duration
+	for _, d := range ds {
+		if d >= 0 {
+			res = append(res, d)
+		}
+	}
+	return res
+}
+
 // String implements fmt.Stringer.
 func (req SearchRequest) String() string {
 	var elems []string
-- 
2.43.0


From 364d1f31265be5302ff8324ff1569bcd1a17db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:15 +0000
Subject: [PATCH 09/24] fix: report failed searches to the client instead of
 panicking

When the searcher of a trace server returned an error, the handler panicked
with a nil pointer dereference. Answer with an internal server error, so that
search clients report the failure rather than an empty result.
---
 trcweb/trace_server.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 4681e68..92cf001 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -136,18 +136,22 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 	tr.LazyTracef("search request %s", data.Request)
 
 	res, err := s.Searcher.Search(ctx, &data.Request)
+	if err == nil && res == nil {
+		err = fmt.Errorf("empty response")
+	}
 	if err != nil {
-		data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))
-	} else {
-		data.Response = *res
+		tr.Errorf("execute search request: %v -- returning error", err)
+		http.Error(w, err.Error(), http.StatusInternalServerError)
+		return
 	}
+	data.Response = *res
 
 	for _, problem := range data.Response.Problems {
 		data.Problems = append(data.Problems, fmt.Errorf("response: %s", problem))
 	}
 
-	if n := len(data.Response.Stats.Categories); n >= 100 {
-		data.Problems = append(data.Problems, fmt.Errorf("way too many categories (%d)", n))
+	if stats := data.Response.Stats; stats != nil && len(stats.Categories) >= 100 {
+		data.Problems = append(data.Problems, fmt.Errorf("way too many categories (%d)", len(stats.Categories)))
 	}
 
 	renderResponse(ctx, w, r, assets.FS, "traces.html", nil, data)
-- 
2.43.0


From 0ee259701fc9bca674895b1bdeda48c9dbba7bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:15 +0000
Subject: [PATCH 10/24] fix: limit the stats interval of stream requests

A stats parameter of zero or less made the stream handler panic in NewTicker,
and then hang in its deferred wait for the subscription. Apply the same range
as the stream client does.
---
 trcweb/trace_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 92cf001..f68145f 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -261,7 +261,7 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 	}
 
 	var (
-		stats   = parseDefault(r.URL.Query().Get("stats"), time.ParseDuration, 10*time.Second)
+		stats   = parseRange(r.URL.Query().Get("stats"), time.ParseDuration, 1*time.Second, 10*time.Second, 60*time.Second)
 		sendbuf = parseRange(r.URL.Query().Get("sendbuf"), strconv.Atoi, 0, 100, 100000)
 		tracec  = make(chan trc.Trace, sendbuf)
 		donec   = make(chan struct{})
-- 
2.43.0


From 035f861b16f1512d7451b71f50c4c9ae6665b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:16 +0000
Subject: [PATCH 11/24] fix: close the connection when a stream client returns

When Stream returned because of an error, or was canceled while connecting,
the connection to the server stayed open, and so did the subscription on the
server. After an error, the goroutine waiting for the context leaked, too.
---
 trcweb/trace_server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index f68145f..73aeaa6 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -482,7 +482,11 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 		req = r
 	}
 
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
 	es := eventsource.New(req, c.RetryInterval)
+	defer es.Close()
 	go func() {
 		<-ctx.Done()
 		es.Close()
-- 
2.43.0


From fe808aed9f320aa2613f94d71e2327418405bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:17 +0000
Subject: [PATCH 12/24] fix: don't modify the trace server when serving
 requests

ServeHTTP initialized the fields of a TraceServer on every request without
synchronization, a data race for servers not made via NewTraceServer.
---
 trcweb/trace_server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 73aeaa6..2acfe32 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -73,6 +73,8 @@ func (s *TraceServer) initialize() {
 
 // ServeHTTP implements http.Handler.
 func (s *TraceServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
+	cp := *s // don't modify fields during concurrent requests
+	s = &cp
 	s.initialize()
 
 	switch Categorize(r) {
-- 
2.43.0


From f446899b8cb4b81dee79c383ed2971a03d7c313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:18 +0000
Subject: [PATCH 13/24] fix: give the truncation event a fixed timestamp

The event was stamped with the time of reading, so that events of a finished
trace kept changing, and lay after its end.
---
 trace_core.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/trace_core.go b/trace_core.go
index e51d066..a3fe975 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -82,6 +82,7 @@ type coreTrace struct {
 	events      []*coreEvent
 	eventsmax   int
 	truncated   int
+	truncatedAt time.Time
 }
 
 var _ Trace = (*coreTrace)(nil)
@@ -166,7 +167,7 @@ func (tr *coreTrace) Tracef(format string, args ...any) {
 
 	switch {
 	case len(tr.events) >= tr.eventsmax:
-		tr.truncated++
+		tr.truncate()
 	default:
 		tr.events = append(tr.events, newCoreEvent(flagNormal|tr.nostackflag, format, args...))
 	}
@@ -182,7 +183,7 @@ func (tr *coreTrace) LazyTracef(format string, args ...any) {
 
 	switch {
 	case len(tr.events) >= tr.eventsmax:
-		tr.truncated++
+		tr.truncate()
 	default:
 		tr.events = append(tr.events, newCoreEvent(flagLazy|tr.nostackflag, format, args...))
 	}
@@ -200,7 +201,7 @@ func (tr *coreTrace) Errorf(format string, args ...any) {
 
 	switch {
 	case len(tr.events) >= tr.eventsmax:
-		tr.truncated++
+		tr.truncate()
 	default:
 		tr.events = append(tr.events, newCoreEvent(flagError|tr.nostackflag, format, args...))
 	}
@@ -218,12 +219,18 @@ func (tr *coreTrace) LazyErrorf(format string, args ...any) {
 
 	switch {
 	case len(tr.events) >= tr.eventsmax:
-		tr.truncated++
+		tr.truncate()
 	default:
 		tr.events = append(tr.events, newCoreEvent(flagLazy|flagError|tr.nostackflag, format, args...))
 	}
 }
 
+// truncate must be called with the mutex held.
+func (tr *coreTrace) truncate() {
+	tr.truncated++
+	tr.truncatedAt = time.Now().UTC()
+}
+
 func (tr *coreTrace) Finish() {
 	tr.mtx.Lock()
 	defer tr.mtx.Unlock()
@@ -267,7 +274,7 @@ func (tr *coreTrace) EventsDetail(n int, stacks bool) []Event {
 
 	if tr.truncated > 0 {
 		events = append(events, Event{
-			When:    time.Now().UTC(),
+			When:    tr.truncatedAt,
 			What:    fmt.Sprintf("(truncated event count %d)", tr.truncated),
 			Stack:   nil,
 			IsError: false,
-- 
2.43.0


From 4123b51d8c82c2ff07f782120fa2e9315457b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:32 +0000
Subject: [PATCH 14/24] fix: record the status code which was really sent

The middleware recorded the code of a WriteHeader after the first Write or
Flush, which is ignored by net/http, and recorded informational codes, such as
103, as the final status.
---
 trcweb/middleware.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/trcweb/middleware.go b/trcweb/middleware.go
index 85724ac..e7d42da 100644
--- a/trcweb/middleware.go
+++ b/trcweb/middleware.go
@@ -62,21 +62,31 @@ type interceptor struct {
 }
 
 func newInterceptor(w http.ResponseWriter) *interceptor {
-	flush := func() {}
+	i := &interceptor{ResponseWriter: w, flush: func() {}}
 	if f, ok := w.(http.Flusher); ok {
-		flush = f.Flush
+		i.flush = func() {
+			i.setCode(http.StatusOK) // implicit, if there was no WriteHeader
+			f.Flush()
+		}
 	}
-	return &interceptor{ResponseWriter: w, flush: flush}
+	return i
 }
 
 func (i *interceptor) WriteHeader(code int) {
-	if i.code == 0 {
+	i.setCode(code)
+	i.ResponseWriter.WriteHeader(code)
+}
+
+// setCode captures the first final status code, i.e. the one sent to the client.
+func (i *interceptor) setCode(code int) {
+	isInformational := code >= 100 && code <= 199 && code != http.StatusSwitchingProtocols
+	if i.code == 0 && !isInformational {
 		i.code = code
 	}
-	i.ResponseWriter.WriteHeader(code)
 }
 
 func (i *interceptor) Write(p []byte) (int, error) {
+	i.setCode(http.StatusOK) // implicit, if there was no WriteHeader
 	n, err := i.ResponseWriter.Write(p)
 	i.n += n
 	return n, err
-- 
2.43.0


From 68fe1face6f6b1c04ea95957b16391deb7a699ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:53 +0000
Subject: [PATCH 15/24] fix: measure trace durations with the monotonic clock

Time.UTC strips the monotonic clock reading, so durations of traces
were off, or even negative, when the wall clock was stepped.
---
 trace_core.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trace_core.go b/trace_core.go
index a3fe975..4249640 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -106,7 +106,7 @@ var traceContextVal traceContextKey
 func newCoreTrace(source, category string) *coreTrace {
 	trcdebug.CoreTraceNewCount.Add(1)
 	trcdebug.CoreTraceAllocCount.Add(1)
-	now := time.Now().UTC()
+	now := time.Now() // not UTC, which would drop the monotonic clock reading
 	// Traces aren't pooled, because callers can hold on to them indefinitely.
 	tr := &coreTrace{}
 	tr.id = ulid.MustNew(ulid.Timestamp(now), traceIDEntropy) // defer String computation
@@ -143,7 +143,7 @@ func (tr *coreTrace) Category() string {
 }
 
 func (tr *coreTrace) Started() time.Time {
-	return tr.start // immutable
+	return tr.start.UTC() // immutable
 }
 
 func (tr *coreTrace) Duration() time.Duration {
-- 
2.43.0


From a1c65fa4a086ef098d5b8bb81313518cf659aca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:34 +0000
Subject: [PATCH 16/24] fix: report problems of a search request to remote
 clients

The trace server normalized requests before searching, so that an invalid query
was silently ignored for users of the search client.
---
 trcweb/trace_server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 2acfe32..b8ed491 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -133,7 +133,8 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 		}
 	}
 
-	data.Problems = append(data.Problems, data.Request.Normalize()...)
+	normalizeErrs := data.Request.Normalize()
+	data.Problems = append(data.Problems, normalizeErrs...)
 
 	tr.LazyTracef("search request %s", data.Request)
 
@@ -152,6 +153,9 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 		data.Problems = append(data.Problems, fmt.Errorf("response: %s", problem))
 	}
 
+	// Remote searchers should get those problems, too.
+	data.Response.Problems = append(trcutil.FlattenErrors(normalizeErrs...), data.Response.Problems...)
+
 	if stats := data.Response.Stats; stats != nil && len(stats.Categories) >= 100 {
 		data.Problems = append(data.Problems, fmt.Errorf("way too many categories (%d)", len(stats.Categories)))
 	}
-- 
2.43.0


From b9a29fde58b0ee998e6e2395bc8154f71bcd71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:35 +0000
Subject: [PATCH 17/24] fix: send the init event before any other stream event

---
 trcweb/trace_server.go | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index b8ed491..dcbd176 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -294,29 +294,21 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 		stats := time.NewTicker(stats)
 		defer stats.Stop()
 
-		initc := make(chan struct{}, 1)
-		initc <- struct{}{}
+		data, err := json.Marshal(map[string]any{
+			"filter":  f,
+			"sendbuf": cap(tracec),
+		})
+		if err != nil {
+			tr.Errorf("JSON marshal init: %v", err)
+		} else if err := encoder.Encode(eventsource.Event{
+			Type: "init",
+			Data: data,
+		}); err != nil {
+			tr.Errorf("encode init: %v", err)
+		}
 
 		for {
 			select {
-			case <-initc:
-				data, err := json.Marshal(map[string]any{
-					"filter":  f,
-					"sendbuf": cap(tracec),
-				})
-				if err != nil {
-					tr.Errorf("JSON marshal init: %v", err)
-					continue
-				}
-
-				if err := encoder.Encode(eventsource.Event{
-					Type: "init",
-					Data: data,
-				}); err != nil {
-					tr.Errorf("encode init: %v", err)
-					continue
-				}
-
 			case <-stats.C:
 				stats, err := s.Streamer.StreamStats(ctx, tracec)
 				if err != nil {
-- 
2.43.0


From 339a26cc4964435b59d62a2910252f9502259a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:57 +0000
Subject: [PATCH 18/24] fix: don't get stuck connecting when a stream is
 canceled

StreamClient.Stream waited for a pending connection attempt, e.g. to a
server which doesn't respond, even if its context was canceled.
---
 trcweb/trace_server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index dcbd176..ed06aef 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -449,11 +449,16 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 
 	// Explicitly don't provide the context to the request, because EventSource
 	// (incorrectly) treats context cancelation as a recoverable error, in which
-	// case Read can block for a single retry duration before returning.
+	// case Read can block for a single retry duration before returning. The
+	// request gets its own context instead, which is canceled only after the
+	// EventSource is closed, so that a connection attempt can't get stuck.
 	//
 	// Also, EventSource directly re-uses this request over reconnect attempts,
 	// which prevents the use of a body, and means we have to encode the filter
 	// in the URL.
+	reqctx, reqcancel := context.WithCancel(context.Background())
+	defer reqcancel()
+
 	var req *http.Request
 	{
 		uri, err := url.Parse(c.URI)
@@ -470,7 +475,7 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 		}
 		uri.RawQuery = query.Encode()
 
-		r, err := http.NewRequest("GET", uri.String(), nil)
+		r, err := http.NewRequestWithContext(reqctx, "GET", uri.String(), nil)
 		if err != nil {
 			return err
 		}
@@ -488,6 +493,7 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 	go func() {
 		<-ctx.Done()
 		es.Close()
+		reqcancel()
 	}()
 
 	for {
-- 
2.43.0


From 5d56e4ab1f854f69aacd659ab349cb4cc189bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:30 +0000
Subject: [PATCH 19/24] fix: escape queries, sources and categories in the
 links of the trace page

A query such as a+b, or a category such as a&b, was put into the links
as it is, so that they led to another search.
---
 trcweb/assets/traces.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index c634c05..4681b61 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -105,12 +105,12 @@ function highlightQuery() {
 {{ $query_params := printf "n=%d" $n | SafeURL }}
 
 {{ if $q }}
-	{{ $query_params = printf "%s&q=%s" $query_params $q | SafeURL }}
+	{{ $query_params = printf "%s&q=%s" $query_params (QueryEscape $q) | SafeURL }}
 {{ end }}
 
 {{ if $f.Sources }}
 	{{ range $f.Sources }}
-		{{ $query_params = printf "%s&source=%s" $query_params . | SafeURL }}
+		{{ $query_params = printf "%s&source=%s" $query_params (QueryEscape .) | SafeURL }}
 	{{ end }}
 {{ end }}
 
@@ -170,7 +170,7 @@ function highlightQuery() {
 
 		{{ $category_query_params := $query_params }}
 		{{ if ne $category_name "overall" }}
-			{{ $category_query_params = printf "%s&category=%s" $query_params $category_name | SafeURL }}
+			{{ $category_query_params = printf "%s&category=%s" $query_params (QueryEscape $category_name) | SafeURL }}
 		{{ end }}
 
 		{{ $active_count  := .ActiveCount                           }}
-- 
2.43.0


From 395c099b6acb511d10f9b44db61772d22ddc540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:52 +0000
Subject: [PATCH 20/24] fix: don't interpret event texts as HTML when
 highlighting a query

The text of a matching element was put back as HTML, so that an event
like 'k1 <img src=x onerror=...>' ran its script in the browser.
---
 trcweb/assets/traces.html | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index 4681b61..74444d3 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -79,10 +79,13 @@ function highlightQuery() {
 	{{ if .Request.Filter.Query }}
 	let re = new RegExp('('+{{.Request.Filter.Query}}+')');
 	document.getElementById("traces").querySelectorAll(".searchable").forEach(elem => {
-		if (re.test(elem.innerHTML)) {
-			let oldText = elem.textContent.replace(/(<mark class="highlight">|<\/mark>)/gim, ' ');
-			let newText = oldText.replace(re, '<mark class="highlight">$&</mark>');
-			elem.innerHTML = newText;
+		let text = elem.textContent;
+		let match = re.exec(text);
+		if (match) {
+			let mark = document.createElement("mark");
+			mark.className = "highlight";
+			mark.textContent = match[0];
+			elem.replaceChildren(text.slice(0, match.index), mark, text.slice(match.index + match[0].length));
 			let details = elem.closest("details");
 			if (details != null) {
 				details.open = true;
-- 
2.43.0


From 09661017f754d2553e484436050a66e85a9c0e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:15 +0000
Subject: [PATCH 21/24] fix: don't panic when a searcher's response can't be
 merged with others

A single source answering with different buckets, nil category stats, or
nil traces (e.g. a different version of the program) brought down the
whole process. Such a response is now reported as a problem, like an
error of that source.
---
 search_types.go | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/search_types.go b/search_types.go
index a2e7efa..73acc26 100644
--- a/search_types.go
+++ b/search_types.go
@@ -139,6 +139,40 @@ type SearchResponse struct {
 	Duration   time.Duration  `json:"duration"`
 }
 
+// checkMerge returns an error if the response can't be merged with other
+// responses to the same request, because (for example) it came from a source
+// that uses different buckets.
+func (res *SearchResponse) checkMerge(req *SearchRequest) error {
+	if res == nil {
+		return nil
+	}
+
+	for _, tr := range res.Traces {
+		if tr == nil {
+			return fmt.Errorf("nil trace")
+		}
+	}
+
+	if res.Stats.IsZero() {
+		return nil
+	}
+
+	if have, want := res.Stats.Bucketing, req.Bucketing; !reflect.DeepEqual(have, want) {
+		return fmt.Errorf("inconsistent buckets: %v vs. %v", have, want)
+	}
+
+	for category, cs := range res.Stats.Categories {
+		if cs == nil {
+			return fmt.Errorf("category %q: nil stats", category)
+		}
+		if have, want := len(cs.BucketCounts), len(req.Bucketing); have != want {
+			return fmt.Errorf("category %q: inconsistent buckets: %d vs. %d", category, have, want)
+		}
+	}
+
+	return nil
+}
+
 //
 //
 //
@@ -184,6 +218,15 @@ func (ms MultiSearcher) Search(ctx context.Context, req *SearchRequest) (*Search
 	// Gather.
 	for i := 0; i < cap(tuplec); i++ {
 		t := <-tuplec
+		if err := t.res.checkMerge(req); err != nil { // can't be merged
+			tr.Tracef("%s: bad response: %v", t.id, err)
+			aggregate.Problems = append(aggregate.Problems, fmt.Sprintf("%s: bad response: %v", t.id, err))
+			aggregate.Problems = append(aggregate.Problems, t.res.Problems...)
+			if t.err != nil {
+				aggregate.Problems = append(aggregate.Problems, t.err.Error())
+			}
+			continue
+		}
 		switch {
 		case t.res == nil && t.err == nil: // weird
 			tr.Tracef("%s: weird: no result, no error", t.id)
-- 
2.43.0


From bfeaef2268726ce22e4316c47c227bcf4ffac21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:14 +0000
Subject: [PATCH 22/24] fix: don't count traces and events twice in the rates
 of merged stats

CategoryStats.Merge added the other's rate to its own after adding the
other's counts, which its own rate is computed from: merging 1/s and 1/s
gave 3/s.
---
 search_stats.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/search_stats.go b/search_stats.go
index 7863160..1f66381 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -265,6 +265,12 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", dst, src))
 	}
 
+	// Rates are computed from the other fields, so sum them before those change.
+	var (
+		tracerate = cs.TraceRate() + other.TraceRate()
+		eventrate = cs.EventRate() + other.EventRate()
+	)
+
 	cs.EventCount += other.EventCount
 
 	cs.ActiveCount += other.ActiveCount
@@ -278,8 +284,8 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 	cs.Oldest = olderOf(cs.Oldest, other.Oldest)
 	cs.Newest = newerOf(cs.Newest, other.Newest)
 
-	cs.tracerate = cs.TraceRate() + other.TraceRate()
-	cs.eventrate = cs.EventRate() + other.EventRate()
+	cs.tracerate = tracerate
+	cs.eventrate = eventrate
 }
 
 //
-- 
2.43.0


From 3c24fc94886ad343650bac2a779d156e561cd0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:07 +0000
Subject: [PATCH 23/24] fix: search results of finished traces carry their
 final duration

NewSearchTrace read the duration before the finished flag, so the copy of a
trace which finished in between was finished with a duration that isn't the
trace's.
---
 trace_static.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trace_static.go b/trace_static.go
index e4281e0..1d9c10e 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -22,13 +22,14 @@ var _ Trace = (*StaticTrace)(nil) // needs to be passed to Filter.Allow
 
 // NewSearchTrace produces a static trace intended for a search response.
 func NewSearchTrace(tr Trace) *StaticTrace {
+	finished := tr.Finished() // first, so that everything else is final if true
 	return &StaticTrace{
 		TraceSource:   tr.Source(),
 		TraceID:       tr.ID(),
 		TraceCategory: tr.Category(),
 		TraceStarted:  tr.Started(),
 		TraceDuration: tr.Duration(),
-		TraceFinished: tr.Finished(),
+		TraceFinished: finished,
 		TraceErrored:  tr.Errored(),
 		TraceEvents:   tr.Events(),
 	}
-- 
2.43.0


From 67fbf669580a536ad3ab3e15778a2af23656c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:05 +0000
Subject: [PATCH 24/24] fix: a filter used again with another query no longer
 matches by the old one

The compiled expression was kept whatever Query was set to afterwards, so a
search request which is used several times gave the results of its first query.
---
 filter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filter.go b/filter.go
index 97f55e1..5f1b4a5 100644
--- a/filter.go
+++ b/filter.go
@@ -170,6 +170,10 @@ func (f *Filter) Allow(tr Trace) bool {
 }
 
 func (f *Filter) initializeQueryRegexp() error {
+	if f.regexp != nil && f.regexp.String() != f.Query {
+		f.regexp = nil // of another query, the filter has been changed since
+	}
+
 	if f.regexp != nil {
 		return nil
 	}
-- 
2.43.0

