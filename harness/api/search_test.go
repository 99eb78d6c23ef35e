package verifharness

import (
	"context"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

// fake is an arbitrary trace implementation with settable content. Reads are
// counted, and it has no optional methods.
type fake struct {
	id, source, category string
	started              time.Time
	duration             time.Duration
	finished, errored    bool
	events               []trc.Event
	calls                []string
}

func (f *fake) ID() string              { return f.id }
func (f *fake) Source() string          { return f.source }
func (f *fake) Category() string        { return f.category }
func (f *fake) Started() time.Time      { return f.started }
func (f *fake) Duration() time.Duration { return f.duration }
func (f *fake) Finished() bool          { return f.finished }
func (f *fake) Errored() bool           { return f.errored }
func (f *fake) Events() []trc.Event     { return f.events }
func (f *fake) Finish()                 { f.calls = append(f.calls, "Finish") }
func (f *fake) rec(kind, format string, args []any) {
	f.calls = append(f.calls, kind+" "+fmt.Sprintf(format, args...))
}
func (f *fake) Tracef(format string, args ...any)     { f.rec("Tracef", format, args) }
func (f *fake) LazyTracef(format string, args ...any) { f.rec("LazyTracef", format, args) }
func (f *fake) Errorf(format string, args ...any)     { f.rec("Errorf", format, args) }
func (f *fake) LazyErrorf(format string, args ...any) { f.rec("LazyErrorf", format, args) }

var epoch = time.Date(2020, 2, 3, 4, 5, 6, 7, time.UTC)

func randFake(r *rand.Rand, i int) *fake {
	f := &fake{
		id:       fmt.Sprintf("id%d", r.Intn(6)),
		source:   fmt.Sprintf("s%d", r.Intn(4)),
		category: fmt.Sprintf("c%d", r.Intn(3)),
		started:  epoch.Add(time.Duration(r.Intn(50)) * time.Second),
		duration: time.Duration(r.Intn(6)) * 10 * time.Millisecond,
		finished: r.Intn(2) == 0,
		errored:  r.Intn(2) == 0,
	}
	if r.Intn(8) == 0 {
		f.source, f.category = "", ""
	}
	for n := r.Intn(4); n > 0; n-- {
		ev := trc.Event{When: f.started, What: []string{"foo", "bar", "foobar", "", "x.go:7", "a b"}[r.Intn(6)], IsError: r.Intn(3) == 0}
		for k := r.Intn(3); k > 0; k-- {
			ev.Stack = append(ev.Stack, trc.Frame{Function: []string{"main.foo", "example.com/a/b.Quux", "q.bar"}[r.Intn(3)], FileLine: []string{"/x/y/z.go:12", "/home/u/src/deep/file.go:345", "z.go:9"}[r.Intn(3)]})
		}
		f.events = append(f.events, ev)
	}
	return f
}

func randFilter(r *rand.Rand) trc.Filter {
	var f trc.Filter
	p := func() bool { return r.Intn(4) == 0 }
	if p() {
		for n := r.Intn(3); n >= 0; n-- {
			f.Sources = append(f.Sources, fmt.Sprintf("s%d", r.Intn(4)))
		}
	}
	if p() {
		for n := r.Intn(4); n >= 0; n-- {
			f.IDs = append(f.IDs, fmt.Sprintf("id%d", r.Intn(6)))
		}
	}
	if p() {
		f.Category = fmt.Sprintf("c%d", r.Intn(3))
	}
	f.IsActive, f.IsFinished = p(), p()
	if p() {
		d := time.Duration(r.Intn(6)-1) * 10 * time.Millisecond
		f.MinDuration = &d
	}
	f.IsSuccess, f.IsErrored = p(), p()
	if r.Intn(2) == 0 {
		f.Query = []string{"foo", "^foo$", "bar", "Quux", "deep/file.go:345", "z.go:12", "(", "[", "*x", "^$", "x.go", "main", "^a/b", "FOO", "(?i)FOO", "345$", "home"}[r.Intn(17)]
	}
	return f
}

func compact(fr trc.Frame) string {
	file, line := fr.FileLine, ""
	if i := strings.Index(file, ":"); i >= 0 {
		file, line = file[:i], file[i+1:]
	}
	parts := strings.Split(file, "/")
	if len(parts) > 2 {
		parts = parts[len(parts)-2:]
	}
	file = strings.Join(parts, "/")
	if i := strings.LastIndex(fr.Function, "/"); i >= 0 {
		file = fr.Function[:i] + "/" + file
	}
	return file + ":" + line
}

// allow is the specification of Filter.Allow.
func allow(f trc.Filter, tr trc.Trace) bool {
	in := func(list []string, s string) bool {
		for _, x := range list {
			if x == s {
				return true
			}
		}
		return len(list) == 0
	}
	ok := in(f.Sources, tr.Source()) && in(f.IDs, tr.ID())
	ok = ok && (f.Category == "" || f.Category == tr.Category())
	ok = ok && (!f.IsActive || !tr.Finished())
	ok = ok && (!f.IsFinished || tr.Finished())
	ok = ok && (f.MinDuration == nil || tr.Finished() && tr.Duration() >= *f.MinDuration)
	ok = ok && (!f.IsSuccess || !tr.Errored())
	ok = ok && (!f.IsErrored || tr.Errored())
	if re, err := regexp.Compile(f.Query); f.Query != "" && err == nil {
		found := false
		for _, ev := range tr.Events() {
			found = found || re.MatchString(ev.What)
			for _, fr := range ev.Stack {
				found = found || re.MatchString(fr.Function) || re.MatchString(compact(fr))
			}
		}
		ok = ok && found
	}
	return ok
}

func TestC09_allow(t *testing.T) {
	r := newRand(9)
	yes := 0
	for k := 0; k < iters(1500); k++ {
		f := randFilter(r)
		orig := f
		for i := 0; i < 20; i++ {
			tr := randFake(r, i)
			want := allow(orig, tr)
			if want {
				yes++
			}
			if have := f.Allow(tr); have != want {
				t.Fatalf("filter %s, trace %+v: Allow is %v, want %v (trace %d with this filter)", orig, *tr, have, want, i)
			}
			if len(tr.calls) != 0 {
				t.Fatalf("filter %s: evaluating it called %v", orig, tr.calls)
			}
			g := orig // a fresh copy must agree
			if g.Allow(tr) != want {
				t.Fatalf("filter %s, trace %+v: fresh copy disagrees", orig, *tr)
			}
			g = orig
			g.Normalize()
			if g.Allow(tr) != want {
				t.Fatalf("filter %s, trace %+v: normalized copy disagrees", orig, *tr)
			}
		}
		note(t, "filter %s", orig)
	}
	if yes < 1000 {
		t.Fatalf("only %d allowed", yes)
	}
}

// each single condition on traces differing in one thing
func TestC09_single(t *testing.T) {
	d := 20 * time.Millisecond
	zero := time.Duration(0)
	neg := -d
	filters := []trc.Filter{
		{}, {Sources: []string{"s0"}}, {Sources: []string{"s1", "s0"}}, {Sources: []string{"s1"}}, {Sources: []string{""}}, {Sources: []string{"s"}},
		{IDs: []string{"id0"}}, {IDs: []string{"id1", "id2", "id0"}}, {IDs: []string{"id"}}, {IDs: []string{"ID0"}},
		{Category: "c0"}, {Category: "c1"}, {Category: "c"}, {Category: "C0"}, {IsActive: true}, {IsFinished: true}, {IsActive: true, IsFinished: true},
		{MinDuration: &d}, {MinDuration: &zero}, {MinDuration: &neg}, {IsSuccess: true}, {IsErrored: true}, {IsSuccess: true, IsErrored: true},
		{Query: "needle"}, {Query: "("}, {Query: "pkg/sub.Fn"}, {Query: "^pkg/dir/file.go:12$"}, {Query: "/abs"}, {Query: "."},
		{IsActive: true, MinDuration: &zero}, {Query: "needle", IsErrored: true},
	}
	for _, f0 := range filters {
		for bits := 0; bits < 64; bits++ {
			f := f0
			tr := &fake{id: "id0", source: "s0", category: "c0", duration: time.Duration(bits>>2&3) * 10 * time.Millisecond, finished: bits&1 > 0, errored: bits&2 > 0}
			switch bits >> 4 {
			case 1:
				tr.events = []trc.Event{{What: "a"}, {What: "hay needle hay"}}
			case 2:
				tr.events = []trc.Event{{What: "a", Stack: []trc.Frame{{Function: "other", FileLine: "f.go:1"}, {Function: "pkg/sub.Fn", FileLine: "/abs/dir/file.go:12"}}}}
			case 3:
				tr.events = []trc.Event{{What: ""}}
			}
			want := allow(f0, tr)
			if have := f.Allow(tr); have != want {
				t.Fatalf("filter %s, trace %+v: Allow is %v, want %v", f0, *tr, have, want)
			}
			note(t, "filter %s, trace %+v", f0, *tr)
		}
	}
}

// ---------------------------------------------------------------------------

func sorted(ds []time.Duration) []time.Duration {
	out := append([]time.Duration{}, ds...)
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func TestC10_normalize(t *testing.T) {
	r := newRand(10)
	def := append([]time.Duration{}, trc.DefaultBucketing...)
	for k := 0; k < iters(2000); k++ {
		var req trc.SearchRequest
		req.Limit = []int{0, -1, 1, 2, 9, 10, 11, 249, 250, 251, 1 << 40, -1 << 60}[r.Intn(12)]
		if r.Intn(2) == 0 {
			req.Limit = r.Intn(300)
		}
		if r.Intn(4) > 0 {
			for n := r.Intn(16); n > 0; n-- {
				req.Bucketing = append(req.Bucketing, time.Duration(r.Intn(9)-3)*time.Millisecond)
			}
			if r.Intn(4) == 0 {
				for i := range req.Bucketing {
					if req.Bucketing[i] > 0 {
						req.Bucketing[i] *= -1 // only negative ones and zeros
					}
				}
			}
		}
		if r.Intn(8) == 0 { // a part of the default bucketing
			i := r.Intn(len(def) - 1)
			req.Bucketing = trc.DefaultBucketing[i : i+1+r.Intn(len(def)-i)]
		}
		req.Filter = randFilter(r)
		req.StackDepth = r.Intn(5) - 2
		orig := req
		origB := append([]time.Duration{}, req.Bucketing...)
		desc := fmt.Sprintf("limit %d, bucketing %v, query %q", orig.Limit, origB, orig.Filter.Query)

		errs := req.Normalize()

		wantLimit := orig.Limit
		if wantLimit <= 0 {
			wantLimit = 10
		} else if wantLimit > 250 {
			wantLimit = 250
		}
		eq(t, desc+": limit", req.Limit, wantLimit)
		wantB := def
		if len(origB) > 0 {
			wantB = nil
			for _, b := range sorted(origB) {
				if b >= 0 {
					wantB = append(wantB, b)
				}
			}
			if len(wantB) == 0 || wantB[0] != 0 {
				wantB = append([]time.Duration{0}, wantB...)
			}
		}
		eq(t, desc+": bucketing", req.Bucketing, wantB)
		_, cerr := regexp.Compile(orig.Filter.Query)
		wantQ := orig.Filter.Query
		if cerr != nil {
			wantQ = ""
		}
		eq(t, desc+": query", req.Filter.Query, wantQ)
		eq(t, desc+": reported problem", len(errs) > 0, cerr != nil)
		eq(t, desc+": depth", req.StackDepth, orig.StackDepth)
		eq(t, desc+": sources", req.Filter.Sources, orig.Filter.Sources)
		eq(t, desc+": category", req.Filter.Category, orig.Filter.Category)

		tr := randFake(r, 0)
		f := req.Filter
		if f.Allow(tr) != allow(orig.Filter, tr) {
			t.Fatalf("%s: normalized filter behaves differently on %+v", desc, *tr)
		}

		s1 := fmt.Sprintf("%v %v %v", req.Limit, req.Bucketing, req)
		if errs := req.Normalize(); len(errs) > 0 {
			t.Fatalf("%s: normalizing again reports %v", desc, errs)
		}
		if s2 := fmt.Sprintf("%v %v %v", req.Limit, req.Bucketing, req); s1 != s2 {
			t.Fatalf("%s: normalizing again gives\n  %s\nafter\n  %s", desc, s2, s1)
		}
		eq(t, desc+": default bucketing", trc.DefaultBucketing, def)
		note(t, "%s", desc)
	}
}

func TestRaceC10_defaultBucketing(t *testing.T) {
	// several requests may be normalized at the same time
	done := make(chan struct{})
	for i := 0; i < 4; i++ {
		go func() {
			defer func() { done <- struct{}{} }()
			for j := 0; j < 50; j++ {
				var req trc.SearchRequest
				req.Normalize()
			}
		}()
	}
	for i := 0; i < 4; i++ {
		<-done
	}
	note(t, "4 goroutines")
}

// ---------------------------------------------------------------------------

type mCat struct {
	events, active, errored int
	buckets                 []int
	oldest, newest          time.Time
	total                   int
}

func observeModel(m map[string]*mCat, bucketing []time.Duration, trs ...*fake) {
	for _, tr := range trs {
		c := m[tr.category]
		if c == nil {
			c = &mCat{buckets: make([]int, len(bucketing))}
			m[tr.category] = c
		}
		c.total++
		c.events += len(tr.events)
		switch {
		case !tr.finished:
			c.active++
		case tr.errored:
			c.errored++
		default:
			for i, b := range bucketing {
				if b <= tr.duration {
					c.buckets[i]++
				}
			}
		}
		if c.oldest.IsZero() || tr.started.Before(c.oldest) {
			c.oldest = tr.started
		}
		if c.newest.IsZero() || tr.started.After(c.newest) {
			c.newest = tr.started
		}
	}
}

func checkStats(t *testing.T, what string, ss *trc.SearchStats, m map[string]*mCat) {
	t.Helper()
	if len(ss.Categories) != len(m) {
		t.Fatalf("%s: %d categories, want %d", what, len(ss.Categories), len(m))
	}
	for cat, c := range m {
		cs := ss.Categories[cat]
		if cs == nil {
			t.Fatalf("%s: no category %q", what, cat)
		}
		have := fmt.Sprintf("%s events %d active %d errored %d buckets %v oldest %v newest %v total %d", cs.Category, cs.EventCount, cs.ActiveCount, cs.ErroredCount, cs.BucketCounts, cs.Oldest.UnixNano(), cs.Newest.UnixNano(), cs.TotalCount())
		want := fmt.Sprintf("%s events %d active %d errored %d buckets %v oldest %v newest %v total %d", cat, c.events, c.active, c.errored, c.buckets, c.oldest.UnixNano(), c.newest.UnixNano(), c.total)
		if have != want {
			t.Fatalf("%s: category %q\n  have %s\n  want %s", what, cat, have, want)
		}
	}
}

func randBucketing(r *rand.Rand) []time.Duration {
	b := []time.Duration{0}
	for n := r.Intn(6); n > 0; n-- {
		b = append(b, b[len(b)-1]+time.Duration(r.Intn(4))*5*time.Millisecond)
	}
	return b
}

func TestC11_observe(t *testing.T) {
	r := newRand(110)
	for k := 0; k < iters(300); k++ {
		b := randBucketing(r)
		ss := trc.NewSearchStats(b)
		m := map[string]*mCat{}
		hist := fmt.Sprintf("bucketing %v:", b)
		for i := 0; i < 15; i++ {
			var ms []*fake
			var ts []trc.Trace
			for n := r.Intn(4); n > 0; n-- {
				tr := randFake(r, i)
				ms = append(ms, tr)
				ts = append(ts, tr)
				hist += fmt.Sprintf(" %s/%v/%v/%v", tr.category, tr.finished, tr.errored, tr.duration)
			}
			ss.Observe(ts...)
			observeModel(m, b, ms...)
			checkStats(t, hist, ss, m)
			for _, f := range ms {
				if len(f.calls) > 0 {
					t.Fatalf("observing called %v", f.calls)
				}
			}
		}
		note(t, "%s", hist)
	}
}

func TestC11_liveTraces(t *testing.T) {
	col := trc.NewDefaultCollector()
	total, events := 0, 0
	for i := 0; i < 40; i++ {
		_, tr := col.NewTrace(context.Background(), "c")
		for j := 0; j < i%5; j++ {
			tr.LazyTracef("x")
			events++
		}
		if i%3 == 0 {
			tr.Errorf("x")
			events++
		}
		if i%2 == 0 {
			tr.Finish()
		}
		total++
		res, err := col.Search(context.Background(), &trc.SearchRequest{})
		if err != nil {
			t.Fatal(err)
		}
		cs := res.Stats.Categories["c"]
		eq(t, "total and events", fmt.Sprint(cs.TotalCount(), cs.EventCount, cs.ActiveCount+cs.ErroredCount+cs.BucketCounts[0]), fmt.Sprint(total, events, total))
		note(t, "%d traces", total)
	}
}

// ---------------------------------------------------------------------------

func describe(ss *trc.SearchStats) string {
	var out []string
	for k, c := range ss.Categories {
		out = append(out, fmt.Sprintf("%s:%s %d %d %v %d %d %d", k, c.Category, c.EventCount, c.ActiveCount, c.BucketCounts, c.ErroredCount, c.Oldest.UnixNano(), c.Newest.UnixNano()))
	}
	sort.Strings(out)
	return fmt.Sprint(ss.Bucketing, out)
}

func TestC12_merge(t *testing.T) {
	r := newRand(120)
	for k := 0; k < iters(400); k++ {
		b := randBucketing(r)
		all := map[string]*mCat{}
		dst := trc.NewSearchStats(b)
		if r.Intn(5) == 0 {
			dst = &trc.SearchStats{}
		}
		hist := fmt.Sprintf("bucketing %v:", b)
		var others []*trc.SearchStats
		var descs []string
		for i := 0; i < 5; i++ {
			o := trc.NewSearchStats(append([]time.Duration{}, b...))
			var ms []*fake
			for n := r.Intn(5); n > 0; n-- {
				ms = append(ms, randFake(r, i))
				o.Observe(ms[len(ms)-1])
			}
			if r.Intn(6) == 0 {
				switch r.Intn(3) {
				case 0:
					o, ms = nil, nil
				case 1:
					o, ms = &trc.SearchStats{}, nil
				case 2:
					o.Categories["zero"] = trc.NewCategoryStats("zero", b)
					if _, ok := all["zero"]; !ok {
						all["zero"] = &mCat{buckets: make([]int, len(b))}
					}
				}
			}
			if o != nil && r.Intn(4) == 0 {
				for _, c := range o.Categories { // reading derived values must not matter
					c.TraceRate()
					c.EventRate()
					c.TotalCount()
				}
				o.Overall()
			}
			before := ""
			if o != nil {
				before = describe(o)
			}
			hist += fmt.Sprintf(" merge(%s)", before)
			dst.Merge(o)
			observeModel(all, b, ms...)
			if z := all["zero"]; z != nil && z.total == 0 {
				if _, ok := dst.Categories["zero"]; !ok {
					delete(all, "zero") // whether an empty category is listed is unspecified
				}
			}
			checkStatsZero(t, hist, dst, all)
			if o != nil {
				if after := describe(o); after != before {
					t.Fatalf("%s: the merged-in statistics changed to %s", hist, after)
				}
				others = append(others, o)
				descs = append(descs, before)
			}
			// later observations on either side do not show on the other
			if r.Intn(2) == 0 {
				tr := randFake(r, i)
				if len(dst.Bucketing) > 0 && dst.Categories != nil {
					dst.Observe(tr)
					observeModel(all, b, tr)
					checkStatsZero(t, hist+" observe", dst, all)
				}
			}
			for j, x := range others {
				if now := describe(x); now != descs[j] {
					t.Fatalf("%s: statistics merged in earlier changed\n  from %s\n  to   %s", hist, descs[j], now)
				}
			}
			if o != nil && len(o.Bucketing) > 0 && r.Intn(2) == 0 {
				tr := randFake(r, i)
				o.Observe(tr)
				for _, c := range o.Categories {
					c.BucketCounts[0] += 0
				}
				o.Bucketing[0] = -5 // even overwriting its slices
				o.Bucketing[0] = b[0]
				for _, c := range o.Categories {
					for i := range c.BucketCounts {
						c.BucketCounts[i] += 100
					}
					c.ErroredCount += 100
				}
				descs[len(descs)-1] = describe(o)
				checkStatsZero(t, hist+" (after changing the merged-in one)", dst, all)
			}
		}
		// the overall statistics are the sum of all categories
		if len(dst.Bucketing) > 0 {
			ov := dst.Overall()
			w := &mCat{buckets: make([]int, len(b))}
			for _, c := range all {
				w.total += c.total
				w.events += c.events
				w.active += c.active
				w.errored += c.errored
				for i := range c.buckets {
					w.buckets[i] += c.buckets[i]
				}
				if !c.oldest.IsZero() && (w.oldest.IsZero() || c.oldest.Before(w.oldest)) {
					w.oldest = c.oldest
				}
				if c.newest.After(w.newest) {
					w.newest = c.newest
				}
			}
			have := fmt.Sprint(ov.EventCount, ov.ActiveCount, ov.ErroredCount, ov.BucketCounts, ov.Oldest.UnixNano(), ov.Newest.UnixNano(), ov.TotalCount())
			want := fmt.Sprint(w.events, w.active, w.errored, w.buckets, w.oldest.UnixNano(), w.newest.UnixNano(), w.total)
			if have != want {
				t.Fatalf("%s: overall\n  have %s\n  want %s", hist, have, want)
			}
			checkStatsZero(t, hist+" (after Overall)", dst, all)
			// the listing has every category once, in order, and then the overall line
			list := dst.AllCategories()
			if len(list) != len(dst.Categories)+1 {
				t.Fatalf("%s: %d categories listed, want %d and the overall one", hist, len(list), len(dst.Categories))
			}
			for i, c := range list[:len(list)-1] {
				if dst.Categories[c.Category] != c || i > 0 && list[i-1].Category >= c.Category {
					t.Fatalf("%s: category %d listed is %q", hist, i, c.Category)
				}
			}
			last := list[len(list)-1]
			if have := fmt.Sprint(last.EventCount, last.ActiveCount, last.ErroredCount, last.BucketCounts, last.Oldest.UnixNano(), last.Newest.UnixNano(), last.TotalCount()); last.Category != ov.Category || have != want {
				t.Fatalf("%s: listed overall\n  have %s\n  want %s", hist, have, want)
			}
			checkStatsZero(t, hist+" (after AllCategories)", dst, all)
			for _, o := range []*trc.CategoryStats{ov, last} { // in memory of their own
				o.EventCount, o.ActiveCount = o.EventCount+1, o.ActiveCount+1
				for i := range o.BucketCounts {
					o.BucketCounts[i]++
				}
			}
			checkStatsZero(t, hist+" (after changing the overall one)", dst, all)
		}
		note(t, "%s", hist)
	}
}

// like checkStats, but categories without traces may be missing
func checkStatsZero(t *testing.T, what string, ss *trc.SearchStats, m map[string]*mCat) {
	t.Helper()
	mm := map[string]*mCat{}
	for k, c := range m {
		if _, ok := ss.Categories[k]; ok || c.total > 0 {
			mm[k] = c
		}
	}
	checkStats(t, what, ss, mm)
}

func TestC12_category(t *testing.T) {
	r := newRand(121)
	for k := 0; k < iters(500); k++ {
		b := randBucketing(r)
		mk := func(cat string) (*trc.CategoryStats, map[string]*mCat) {
			m := map[string]*mCat{}
			var trs []*fake
			ss := trc.NewSearchStats(b)
			for n := r.Intn(4); n > 0; n-- {
				f := randFake(r, 0)
				f.category = cat
				trs = append(trs, f)
				ss.Observe(f)
			}
			observeModel(m, b, trs...)
			if c := ss.Categories[cat]; c != nil {
				return c, m
			}
			return trc.NewCategoryStats(cat, b), map[string]*mCat{cat: {buckets: make([]int, len(b))}}
		}
		x, mx := mk("x")
		y, my := mk("x")
		cx, cy := mx["x"], my["x"]
		before := fmt.Sprintf("%+v", *y)
		x.Merge(y)
		w := &mCat{events: cx.events + cy.events, active: cx.active + cy.active, errored: cx.errored + cy.errored, total: cx.total + cy.total, oldest: cx.oldest, newest: cx.newest}
		for i := range cx.buckets {
			w.buckets = append(w.buckets, cx.buckets[i]+cy.buckets[i])
		}
		if w.oldest.IsZero() || !cy.oldest.IsZero() && cy.oldest.Before(w.oldest) {
			w.oldest = cy.oldest
		}
		if cy.newest.After(w.newest) {
			w.newest = cy.newest
		}
		ss := &trc.SearchStats{Bucketing: b, Categories: map[string]*trc.CategoryStats{"x": x}}
		checkStats(t, "merge of "+before, ss, map[string]*mCat{"x": w})
		for i := range y.BucketCounts {
			y.BucketCounts[i] = -77
		}
		checkStats(t, "merge of "+before+" after changing it", ss, map[string]*mCat{"x": w})
		note(t, "merge %v into %v", *cy, *cx)
	}
	// rates are not sticky zero or double counted
	var nilStats *trc.CategoryStats
	x := trc.NewCategoryStats("x", []time.Duration{0})
	x.Merge(nilStats)
	eq(t, "merge of nil", x.TotalCount(), 0)
}

// ---------------------------------------------------------------------------

func TestC08_search(t *testing.T) {
	r := newRand(8)
	for k := 0; k < iters(150); k++ {
		size := 1 + r.Intn(8)
		i := 0
		byID := map[string]*fake{}
		col := trc.NewCollector(trc.CollectorConfig{
			Source: "src",
			NewTrace: func(ctx context.Context, source, category string, _ ...trc.DecoratorFunc) (context.Context, trc.Trace) {
				f := randFake(r, i)
				f.id = fmt.Sprintf("%03d", i)
				f.category = category
				f.source = source
				f.started = epoch.Add(time.Duration(r.Intn(10)) * time.Second) // ties, any order
				byID[f.id] = f
				return trc.Put(ctx, f)
			},
		})
		col.SetCategorySize(size)
		held := map[string][]*fake{}
		for n := r.Intn(40); n > 0; n-- {
			cat := fmt.Sprintf("c%d", r.Intn(3))
			col.NewTrace(context.Background(), cat)
			f := byID[fmt.Sprintf("%03d", i)]
			i++
			held[cat] = append([]*fake{f}, held[cat]...)
			if len(held[cat]) > size {
				held[cat] = held[cat][:size]
			}
		}
		for q := 0; q < 8; q++ {
			req := trc.SearchRequest{Filter: randFilter(r), Limit: 1 + r.Intn(12), StackDepth: r.Intn(4) - 1}
			if r.Intn(3) == 0 {
				req.Filter.Sources, req.Filter.IDs = nil, nil
			}
			if r.Intn(3) == 0 {
				req.Filter = trc.Filter{}
			}
			if r.Intn(5) == 0 {
				req.Filter.IDs = []string{"000", "003", "005", "009", "014"}
			}
			orig := req
			desc := fmt.Sprintf("size %d, %d traces, request %v", size, i, orig)
			res, err := col.Search(context.Background(), &req)
			if err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
			// the specification
			var match []*fake
			total := 0
			m := map[string]*mCat{}
			for _, fs := range held {
				n := 0
				for _, f := range fs {
					total++
					observeModel(m, trc.DefaultBucketing, f)
					if n < req.Limit && allow(orig.Filter, f) {
						match = append(match, f)
						n++
					}
				}
			}
			sort.Slice(match, func(i, j int) bool {
				if !match[i].started.Equal(match[j].started) {
					return match[i].started.After(match[j].started)
				}
				return match[i].id > match[j].id
			})
			if len(match) > req.Limit {
				match = match[:req.Limit]
			}
			eq(t, desc+": total count", res.TotalCount, total)
			checkStats(t, desc, res.Stats, m)
			eq(t, desc+": number of traces", len(res.Traces), len(match))
			seen := map[string]bool{}
			for j, st := range res.Traces {
				if seen[st.ID()] {
					t.Fatalf("%s: trace %s twice", desc, st.ID())
				}
				seen[st.ID()] = true
				f := byID[st.ID()]
				if f == nil {
					t.Fatalf("%s: unknown trace %s", desc, st.ID())
				}
				if !allow(orig.Filter, f) {
					t.Fatalf("%s: trace %+v is not allowed", desc, *f)
				}
				if j > 0 && st.Started().After(res.Traces[j-1].Started()) {
					t.Fatalf("%s: trace %d is newer than the one before", desc, j)
				}
				if !st.Started().Equal(match[j].started) {
					t.Fatalf("%s: trace %d started %v, want %v", desc, j, st.Started(), match[j].started)
				}
			}
			note(t, "%s", desc)
		}
	}
}

// within one category the most recently collected matching traces win
func TestC08_recent(t *testing.T) {
	for _, limit := range []int{1, 2, 3, 5, 100} {
		for n := 0; n < 12; n++ {
			col := trc.NewDefaultCollector()
			var want []string
			for i := 0; i < n; i++ {
				_, tr := col.NewTrace(context.Background(), "c")
				if i%3 == 1 {
					tr.Errorf("x")
				} else {
					want = append([]string{tr.ID()}, want...)
				}
			}
			if len(want) > limit {
				want = want[:limit]
			}
			res, err := col.Search(context.Background(), &trc.SearchRequest{Limit: limit, Filter: trc.Filter{IsSuccess: true}})
			if err != nil {
				t.Fatal(err)
			}
			var have []string
			for _, st := range res.Traces {
				have = append(have, st.ID())
			}
			eq(t, fmt.Sprintf("limit %d, %d traces", limit, n), have, want)
			eq(t, "total", res.TotalCount, n)
			note(t, "limit %d, %d traces", limit, n)
		}
	}
}
