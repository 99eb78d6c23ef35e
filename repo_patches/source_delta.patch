From 0c888aa6f5604b444f920c4e75ecf7886b6daa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:42 +0000
Subject: [PATCH 01/15] fix: merge event counts of category stats

---
 search_stats.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search_stats.go b/search_stats.go
index f8e1664..6bd9f98 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -260,6 +260,8 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", dst, src))
 	}
 
+	cs.EventCount += other.EventCount
+
 	cs.ActiveCount += other.ActiveCount
 
 	for i := range cs.BucketCounts {
-- 
2.43.0


From 735276ba4ad4d84aa5ed1ce4c11131a8ce3134e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:42 +0000
Subject: [PATCH 02/15] fix: merging stats must not alias the merged stats

---
 search_stats.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/search_stats.go b/search_stats.go
index 6bd9f98..3a9cc9d 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -82,8 +82,11 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 	}
 
 	if ss.IsZero() {
-		*ss = *other
-		return
+		*ss = *NewSearchStats(append([]time.Duration(nil), other.Bucketing...))
+	}
+
+	if ss.Categories == nil {
+		ss.Categories = map[string]*CategoryStats{}
 	}
 
 	if dst, src := len(ss.Bucketing), len(other.Bucketing); dst != src {
@@ -93,8 +96,7 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 	for category, theirs := range other.Categories {
 		ours, ok := ss.Categories[category]
 		if !ok {
-			cp := *theirs
-			ss.Categories[category] = &cp
+			ss.Categories[category] = theirs.clone()
 			continue
 		}
 		ours.Merge(theirs)
@@ -242,6 +244,13 @@ func (cs *CategoryStats) EventRate() (r float64) {
 	return float64(total) / float64(delta.Seconds())
 }
 
+// clone returns a copy that shares no memory with the original.
+func (cs *CategoryStats) clone() *CategoryStats {
+	cp := *cs
+	cp.BucketCounts = append([]int(nil), cs.BucketCounts...)
+	return &cp
+}
+
 // Merge the other category stats into this one.
 func (cs *CategoryStats) Merge(other *CategoryStats) {
 	if other.IsZero() {
@@ -249,7 +258,7 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 	}
 
 	if cs.IsZero() {
-		*cs = *other
+		*cs = *other.clone()
 		return
 	}
 
-- 
2.43.0


From 9c4f037692fa136a993ece011384ac0be6068e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:21 +0000
Subject: [PATCH 03/15] fix: normalize must produce sorted bucketing from
 negative buckets

---
 search_types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/search_types.go b/search_types.go
index 9ac15c8..c1095f2 100644
--- a/search_types.go
+++ b/search_types.go
@@ -40,7 +40,10 @@ func (req *SearchRequest) Normalize() []error {
 	sort.Slice(req.Bucketing, func(i, j int) bool {
 		return req.Bucketing[i] < req.Bucketing[j]
 	})
-	if req.Bucketing[0] != 0 {
+	for len(req.Bucketing) > 0 && req.Bucketing[0] < 0 {
+		req.Bucketing = req.Bucketing[1:] // durations are never negative
+	}
+	if len(req.Bucketing) <= 0 || req.Bucketing[0] != 0 {
 		req.Bucketing = append([]time.Duration{0}, req.Bucketing...)
 	}
 
-- 
2.43.0


From 68d166fc5a04b492c23004ab5090589691fc1944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:21 +0000
Subject: [PATCH 04/15] fix: stream traces of any trace implementation

---
 trace_static.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index 4d69aa6..24860db 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -49,16 +49,12 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 	case canDetail && !isActive:
 		events = detail.EventsDetail(-1, false)
 	case !canDetail && isActive:
-		events = tr.Events()
-		events = events[len(events)-1:]
-		for i := range events {
-			events[i].Stack = events[i].Stack[:0]
+		events = withoutStacks(tr.Events())
+		if len(events) > 1 {
+			events = events[len(events)-1:]
 		}
 	case !canDetail && !isActive:
-		events = tr.Events()
-		for i := range events {
-			events[i].Stack = events[i].Stack[:0]
-		}
+		events = withoutStacks(tr.Events())
 	}
 
 	duration := tr.Duration()
@@ -70,12 +66,22 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 		TraceDuration:    duration,
 		TraceDurationStr: duration.String(),
 		TraceDurationSec: duration.Seconds(),
-		TraceFinished:    tr.Finished(),
+		TraceFinished:    !isActive,
 		TraceErrored:     tr.Errored(),
 		TraceEvents:      events,
 	}
 }
 
+// withoutStacks returns a copy of the events with every stack removed.
+func withoutStacks(events []Event) []Event {
+	res := make([]Event, len(events))
+	for i, ev := range events {
+		ev.Stack = nil
+		res[i] = ev
+	}
+	return res
+}
+
 // ID implements the Trace interface.
 func (st *StaticTrace) ID() string { return st.TraceID }
 
-- 
2.43.0


From a9f893033cee173af40996fbc33b71c5a4768386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:21 +0000
Subject: [PATCH 05/15] fix: search traces must be coherent when the trace
 finishes concurrently

---
 trace_static.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index 24860db..9c67287 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -22,15 +22,19 @@ var _ Trace = (*StaticTrace)(nil) // needs to be passed to Filter.Allow
 
 // NewSearchTrace produces a static trace intended for a search response.
 func NewSearchTrace(tr Trace) *StaticTrace {
+	// If the trace was finished, then everything read after is final. And if
+	// an event is an error, then errored must be true.
+	finished := tr.Finished()
+	events := tr.Events()
 	return &StaticTrace{
 		TraceSource:   tr.Source(),
 		TraceID:       tr.ID(),
 		TraceCategory: tr.Category(),
 		TraceStarted:  tr.Started(),
 		TraceDuration: tr.Duration(),
-		TraceFinished: tr.Finished(),
+		TraceFinished: finished,
 		TraceErrored:  tr.Errored(),
-		TraceEvents:   tr.Events(),
+		TraceEvents:   events,
 	}
 }
 
-- 
2.43.0


From 8220a9691c8057d0b0f0bb9ded581a01d73f094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:21 +0000
Subject: [PATCH 06/15] fix: trimming stacks must not modify the source trace

---
 trace_static.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trace_static.go b/trace_static.go
index 9c67287..10cf95a 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -134,6 +134,7 @@ func (st *StaticTrace) TrimStacks(depth int) *StaticTrace {
 	if depth < 0 {
 		depth = 0 // negative value means remove all stacks
 	}
+	st.TraceEvents = append([]Event(nil), st.TraceEvents...) // may be shared with the source trace
 	for i, ev := range st.TraceEvents {
 		if len(ev.Stack) > depth {
 			ev.Stack = ev.Stack[:depth]
-- 
2.43.0


From 52ce638dfac6a69f812e20522cf87b7948bf8a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:21 +0000
Subject: [PATCH 07/15] fix: recycled events must not overwrite stacks in
 earlier snapshots

---
 trace_core.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trace_core.go b/trace_core.go
index 5bb8d3e..0dedc17 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -360,7 +360,7 @@ func newCoreEvent(flags uint8, format string, args ...any) *coreEvent {
 		cev.what = newNormalStringer(format, args...)
 	}
 
-	cev.stack = cev.stack[:0] // be safe
+	cev.stack = nil // be safe
 
 	if flags&flagNoStack != 0 {
 		cev.pcn = 0 // be safe
@@ -401,7 +401,7 @@ func (cev *coreEvent) free() {
 	cev.what.free()
 	cev.what = nil
 	cev.pcn = 0
-	cev.stack = cev.stack[:0]
+	cev.stack = nil // may be referenced by snapshots
 	trcdebug.CoreEventFreeCount.Add(1)
 	coreEventPool.Put(cev)
 }
-- 
2.43.0


From 6b10344e5d337f03c2ea607c0b1aaade6d057947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:21 +0000
Subject: [PATCH 08/15] fix: prefix args must not be overwritten by concurrent
 events

---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 535496d..beadf7d 100644
--- a/helpers.go
+++ b/helpers.go
@@ -102,7 +102,7 @@ func Prefix(ctx context.Context, format string, args ...any) (context.Context, T
 	prefixed := &prefixTrace{
 		Trace:  original,
 		format: format + " ",
-		args:   args,
+		args:   args[:len(args):len(args)], // so append will copy
 	}
 
 	return Put(ctx, prefixed)
-- 
2.43.0


From de1b212d8cbc88c8bf0c338982857644c4ab6c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:21 +0000
Subject: [PATCH 09/15] fix: region names are not format strings

---
 helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index beadf7d..d31976b 100644
--- a/helpers.go
+++ b/helpers.go
@@ -77,10 +77,10 @@ func Region(ctx context.Context, name string) (context.Context, Trace, func()) {
 	outputContext, outputTrace := Prefix(ctx, "·")
 	region := trace.StartRegion(outputContext, name)
 
-	inputTrace.LazyTracef("→ " + name)
+	inputTrace.LazyTracef("→ %s", name)
 	finish := func() {
 		took := time.Since(begin)
-		inputTrace.LazyTracef("← "+name+" [%s]", trcutil.HumanizeDuration(took))
+		inputTrace.LazyTracef("← %s [%s]", name, trcutil.HumanizeDuration(took))
 		region.End()
 	}
 
-- 
2.43.0


From 9ac48a1338c8f7da5a0abb5ad90518297654a313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:21 +0000
Subject: [PATCH 10/15] fix: filter string must show IDs

---
 filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter.go b/filter.go
index 97f55e1..8fee7e6 100644
--- a/filter.go
+++ b/filter.go
@@ -42,7 +42,7 @@ func (f Filter) String() string {
 	}
 
 	if len(f.IDs) > 0 {
-		elems = append(elems, fmt.Sprintf("IDs=%v", f.Sources))
+		elems = append(elems, fmt.Sprintf("IDs=%v", f.IDs))
 	}
 
 	if f.Category != "" {
-- 
2.43.0


From 849425367226994f3ed39894d185365059cb76a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:46 +0000
Subject: [PATCH 11/15] fix: search handler must survive searcher errors and
 missing stats

---
 trcweb/trace_server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 4681e68..507b08a 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -138,9 +138,12 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 	res, err := s.Searcher.Search(ctx, &data.Request)
 	if err != nil {
 		data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))
-	} else {
+	} else if res != nil {
 		data.Response = *res
 	}
+	if data.Response.Stats == nil {
+		data.Response.Stats = trc.NewSearchStats(data.Request.Bucketing)
+	}
 
 	for _, problem := range data.Response.Problems {
 		data.Problems = append(data.Problems, fmt.Errorf("response: %s", problem))
-- 
2.43.0


From 839a8a848da918ff7ea014bb3b915047c9ecdcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:46 +0000
Subject: [PATCH 12/15] fix: stream handler must survive non-positive stats
 intervals

---
 trcweb/trace_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 507b08a..d675a40 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -260,7 +260,7 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 	}
 
 	var (
-		stats   = parseDefault(r.URL.Query().Get("stats"), time.ParseDuration, 10*time.Second)
+		stats   = parseRange(r.URL.Query().Get("stats"), time.ParseDuration, 1*time.Second, 10*time.Second, 60*time.Second)
 		sendbuf = parseRange(r.URL.Query().Get("sendbuf"), strconv.Atoi, 0, 100, 100000)
 		tracec  = make(chan trc.Trace, sendbuf)
 		donec   = make(chan struct{})
-- 
2.43.0


From 62b5ea70d00918c1492b831535a4dd2e8cbb44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:46 +0000
Subject: [PATCH 13/15] fix: middleware must record the status code that was
 sent

---
 trcweb/middleware.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/trcweb/middleware.go b/trcweb/middleware.go
index 85724ac..b0c2eac 100644
--- a/trcweb/middleware.go
+++ b/trcweb/middleware.go
@@ -62,21 +62,29 @@ type interceptor struct {
 }
 
 func newInterceptor(w http.ResponseWriter) *interceptor {
-	flush := func() {}
+	i := &interceptor{ResponseWriter: w, flush: func() {}}
 	if f, ok := w.(http.Flusher); ok {
-		flush = f.Flush
+		i.flush = func() {
+			if i.code == 0 {
+				i.code = http.StatusOK // implicit
+			}
+			f.Flush()
+		}
 	}
-	return &interceptor{ResponseWriter: w, flush: flush}
+	return i
 }
 
 func (i *interceptor) WriteHeader(code int) {
-	if i.code == 0 {
+	if i.code == 0 && (code >= 200 || code == http.StatusSwitchingProtocols) { // other 1xx are provisional
 		i.code = code
 	}
 	i.ResponseWriter.WriteHeader(code)
 }
 
 func (i *interceptor) Write(p []byte) (int, error) {
+	if i.code == 0 {
+		i.code = http.StatusOK // implicit
+	}
 	n, err := i.ResponseWriter.Write(p)
 	i.n += n
 	return n, err
-- 
2.43.0


From 9f4ea28b85a66732a93748fa4193e2690f34221d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:14 +0000
Subject: [PATCH 14/15] fix: merged rates must not double count

---
 search_stats.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/search_stats.go b/search_stats.go
index 3a9cc9d..b961b62 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -269,6 +269,10 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", dst, src))
 	}
 
+	// Rates are derived from the counts, so sum them before changing the counts.
+	tracerate := cs.TraceRate() + other.TraceRate()
+	eventrate := cs.EventRate() + other.EventRate()
+
 	cs.EventCount += other.EventCount
 
 	cs.ActiveCount += other.ActiveCount
@@ -282,8 +286,8 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 	cs.Oldest = olderOf(cs.Oldest, other.Oldest)
 	cs.Newest = newerOf(cs.Newest, other.Newest)
 
-	cs.tracerate = cs.TraceRate() + other.TraceRate()
-	cs.eventrate = cs.EventRate() + other.EventRate()
+	cs.tracerate = tracerate
+	cs.eventrate = eventrate
 }
 
 //
-- 
2.43.0


From 71c899c540c97604f7d72c9be713322f83564ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:24 +0000
Subject: [PATCH 15/15] fix: finished traces must not be recycled while they
 are being published or logged

---
 decorators.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/decorators.go b/decorators.go
index bf6fefa..0a8b5b8 100644
--- a/decorators.go
+++ b/decorators.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"log"
 	"strings"
+	"sync/atomic"
 
 	"github.com/peterbourgon/trc/internal/trcutil"
 )
@@ -49,8 +50,9 @@ func (lw *loggerWriter) Write(p []byte) (int, error) {
 
 type logTrace struct {
 	Trace
-	id  string
-	dst io.Writer
+	id   string
+	dst  io.Writer
+	done atomic.Bool // Finish doesn't need the trace anymore
 }
 
 var _ interface{ Free() } = (*logTrace)(nil)
@@ -88,6 +90,7 @@ func (ltr *logTrace) Finish() {
 		outcome = "success"
 	}
 	ltr.logEvent("done, %s, %s", outcome, duration)
+	ltr.done.Store(true)
 }
 
 func (ltr *logTrace) logEvent(format string, args ...any) {
@@ -96,6 +99,9 @@ func (ltr *logTrace) logEvent(format string, args ...any) {
 }
 
 func (ltr *logTrace) Free() {
+	if !ltr.done.Load() { // still in use
+		return // can't recycle, will be GC'd
+	}
 	if f, ok := ltr.Trace.(interface{ Free() }); ok {
 		f.Free()
 	}
@@ -122,7 +128,8 @@ type publisher interface {
 
 type publishTrace struct {
 	Trace
-	p publisher
+	p    publisher
+	done atomic.Bool // Finish doesn't need the trace anymore
 }
 
 var _ interface{ Free() } = (*publishTrace)(nil)
@@ -150,9 +157,13 @@ func (ptr *publishTrace) LazyErrorf(format string, args ...any) {
 func (ptr *publishTrace) Finish() {
 	ptr.Trace.Finish()
 	ptr.p.Publish(context.Background(), ptr.Trace)
+	ptr.done.Store(true)
 }
 
 func (ptr *publishTrace) Free() {
+	if !ptr.done.Load() { // still in use
+		return // can't recycle, will be GC'd
+	}
 	if f, ok := ptr.Trace.(interface{ Free() }); ok {
 		f.Free()
 	}
-- 
2.43.0

