package verifharness

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

// ---------------------------------------------------------------------------
// A model of one trace, driven by random histories.

type mEvent struct {
	text  string
	isErr bool
	lo    time.Time
	hi    time.Time
}

type mTrace struct {
	max       int
	events    []mEvent
	truncated int
	finished  bool
	errored   bool
}

func (m *mTrace) add(text string, isErr bool, lo, hi time.Time) {
	if m.finished {
		return
	}
	if isErr {
		m.errored = true
	}
	if len(m.events) >= m.max {
		m.truncated++
		return
	}
	m.events = append(m.events, mEvent{text, isErr, lo, hi})
}

// want is what Events must return.
func (m *mTrace) want() []mEvent {
	if m.truncated == 0 {
		return m.events
	}
	out := append([]mEvent{}, m.events[1:]...)
	return append(out, mEvent{text: fmt.Sprintf("(truncated event count %d)", m.truncated)})
}

func (m *mTrace) check(t *testing.T, hist string, evs []trc.Event) {
	t.Helper()
	want := m.want()
	if len(evs) != len(want) {
		t.Fatalf("%s: %d events, want %d\n  have %q", hist, len(evs), len(want), texts(evs))
	}
	for i, ev := range evs {
		w := want[i]
		if ev.What != w.text {
			t.Fatalf("%s: event %d is %q, want %q", hist, i, ev.What, w.text)
		}
		if ev.IsError != w.isErr {
			t.Fatalf("%s: event %d (%q) error mark %v, want %v", hist, i, ev.What, ev.IsError, w.isErr)
		}
		if ev.When.Location() != time.UTC {
			t.Fatalf("%s: event %d (%q) has time zone %v, want UTC", hist, i, ev.What, ev.When.Location())
		}
		if !w.lo.IsZero() && (ev.When.Before(w.lo) || ev.When.After(w.hi)) {
			t.Fatalf("%s: event %d (%q) has timestamp %v outside its call %v..%v", hist, i, ev.What, ev.When, w.lo, w.hi)
		}
	}
}

// call makes one random event call and returns its text and error mark.
func call(r *rand.Rand, tr trc.Trace, i int) (text string, isErr bool, name string) {
	var format string
	var args []any
	switch r.Intn(7) {
	case 0:
		format = fmt.Sprintf("e%d", i)
	case 1:
		format, args = "e %d", []any{i}
	case 2:
		format, args = "%d %s %v", []any{i, "x y", []int{i, 2}}
	case 3:
		format, args = "100%% %d", []any{i}
	case 4:
		format, args = "", nil
	case 5:
		format, args = "%d missing %d", []any{i} // malformed on purpose
	case 6:
		format, args = "%v\n", []any{struct{ A, B int }{i, 2}}
	}
	text = fmt.Sprintf(format, args...)
	switch r.Intn(4) {
	case 0:
		tr.Tracef(format, args...)
		name = "Tracef"
	case 1:
		tr.LazyTracef(format, args...)
		name = "LazyTracef"
	case 2:
		tr.Errorf(format, args...)
		isErr = true
		name = "Errorf"
	case 3:
		tr.LazyErrorf(format, args...)
		isErr = true
		name = "LazyErrorf"
	}
	return text, isErr, name
}

type opts struct {
	min, max int // clamped maximum requested per trace
	length   int
	finish   bool
	errs     bool
}

func history(t *testing.T, r *rand.Rand, o opts) {
	req := o.min + r.Intn(o.max-o.min+1)
	tr := newTrace("c")
	if _, ok := trc.SetMaxEvents(tr, req); !ok {
		t.Fatalf("SetMaxEvents not supported by the core trace")
	}
	m := &mTrace{max: clamp(req)}
	hist := fmt.Sprintf("max=%d:", req)
	var dur time.Duration
	for i := 0; i < o.length; i++ {
		switch {
		case r.Intn(12) == 0:
			hist += " Events"
			m.check(t, hist, tr.Events())
		case o.finish && r.Intn(o.length) == 0:
			hist += " Finish"
			before := m.finished
			lo := time.Since(tr.Started())
			tr.Finish()
			hi := time.Since(tr.Started())
			m.finished = true
			if !tr.Finished() {
				t.Fatalf("%s: not finished", hist)
			}
			if before {
				if tr.Duration() != dur {
					t.Fatalf("%s: duration changed from %v to %v", hist, dur, tr.Duration())
				}
			} else {
				dur = tr.Duration()
				if dur < lo || dur > hi {
					t.Fatalf("%s: duration %v, want between %v and %v", hist, dur, lo, hi)
				}
			}
		default:
			lo := time.Now()
			text, isErr, name := call(r, tr, i)
			hi := time.Now()
			hist += " " + name
			m.add(text, isErr, lo, hi)
		}
		if tr.Errored() != m.errored {
			t.Fatalf("%s: errored %v, want %v", hist, tr.Errored(), m.errored)
		}
		if tr.Finished() != m.finished {
			t.Fatalf("%s: finished %v, want %v", hist, tr.Finished(), m.finished)
		}
		if m.finished && tr.Duration() != dur {
			t.Fatalf("%s: duration changed from %v to %v", hist, dur, tr.Duration())
		}
	}
	m.check(t, hist, tr.Events())
	m.check(t, hist+" (second read)", tr.Events())
	note(t, "%s", hist)
}

func clamp(n int) int {
	switch {
	case n < 10:
		return 10
	case n > 10000:
		return 10000
	default:
		return n
	}
}

func TestC01_histories(t *testing.T) {
	r := newRand(1)
	for k := 0; k < iters(200); k++ {
		history(t, r, opts{min: 100, max: 200, length: 1 + r.Intn(60)})
	}
}

func TestC01_long(t *testing.T) {
	r := newRand(11)
	for k := 0; k < iters(3); k++ {
		history(t, r, opts{min: 900, max: 1100, length: 800})
	}
}

func TestC01_variadicReuse(t *testing.T) {
	// The caller's argument slice may be reused by the caller afterwards in
	// immediate calls, and the callee must never write to it.
	tr := newTrace("c")
	args := make([]any, 2, 8)
	for i := 0; i < 20; i++ {
		args[0], args[1] = i, i+1
		tr.Tracef("%d %d", args...)
		if args[0] != i || args[1] != i+1 || args[:8][2] != nil {
			t.Fatalf("arguments were modified: %v", args[:8])
		}
	}
	for i, ev := range tr.Events() {
		eq(t, "text", ev.What, fmt.Sprintf("%d %d", i, i+1))
	}
	note(t, "20 calls with one argument slice")
}

func TestRaceC01_concurrent(t *testing.T) {
	const g, n = 8, 100
	for k := 0; k < iters(5); k++ {
		tr := newTrace("c")
		trc.SetMaxEvents(tr, 10000)
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				last := -1
				for {
					select {
					case <-stop:
						return
					default:
					}
					if evs := tr.Events(); len(evs) < last {
						t.Errorf("events went from %d to %d", last, len(evs))
						return
					} else {
						last = len(evs)
					}
				}
			}()
		}
		var ww sync.WaitGroup
		for i := 0; i < g; i++ {
			ww.Add(1)
			go func(i int) {
				defer ww.Done()
				for j := 0; j < n; j++ {
					switch j % 4 {
					case 0:
						tr.Tracef("%d:%d", i, j)
					case 1:
						tr.LazyTracef("%d:%d", i, j)
					case 2:
						tr.Errorf("%d:%d", i, j)
					case 3:
						tr.LazyErrorf("%d:%d", i, j)
					}
				}
			}(i)
		}
		ww.Wait()
		close(stop)
		wg.Wait()
		next := make([]int, g)
		evs := tr.Events()
		eq(t, "number of events", len(evs), g*n)
		for _, ev := range evs {
			var i, j int
			if _, err := fmt.Sscanf(ev.What, "%d:%d", &i, &j); err != nil {
				t.Fatalf("event %q: %v", ev.What, err)
			}
			if next[i] != j {
				t.Fatalf("event %q: goroutine %d is at %d", ev.What, i, next[i])
			}
			if ev.IsError != (j%4 >= 2) {
				t.Fatalf("event %q: error mark %v", ev.What, ev.IsError)
			}
			next[i]++
		}
		for i := 1; i < len(evs); i++ {
			if evs[i].When.Before(evs[i-1].When) {
				t.Fatalf("event %d is before event %d", i, i-1)
			}
		}
		note(t, "%d goroutines x %d events, run %d", g, n, k)
	}
}

func TestC02_histories(t *testing.T) {
	r := newRand(2)
	for k := 0; k < iters(200); k++ {
		history(t, r, opts{min: 10, max: 60, length: 1 + r.Intn(60), finish: true})
	}
}

func TestC02_frozen(t *testing.T) {
	r := newRand(21)
	for k := 0; k < iters(60); k++ {
		tr := newTrace("c")
		trc.SetMaxEvents(tr, 10+r.Intn(5))
		n := r.Intn(20)
		for i := 0; i < n; i++ {
			call(r, tr, i)
		}
		if tr.Finished() {
			t.Fatal("finished without Finish")
		}
		tr.Finish()
		d, e, evs := tr.Duration(), tr.Errored(), fmt.Sprintf("%q", texts(tr.Events()))
		whens := whenOf(tr.Events())
		for i := 0; i < 12; i++ {
			if r.Intn(4) == 0 {
				tr.Finish()
			} else {
				call(r, tr, 1000+i)
			}
			if tr.Duration() != d || tr.Errored() != e || !tr.Finished() {
				t.Fatalf("after %d events, Finish and %d calls: duration %v -> %v, errored %v -> %v", n, i+1, d, tr.Duration(), e, tr.Errored())
			}
			if now := fmt.Sprintf("%q", texts(tr.Events())); now != evs {
				t.Fatalf("events changed after Finish:\n  %s\n  %s", evs, now)
			}
			if now := whenOf(tr.Events()); n <= 10 && now != whens {
				t.Fatalf("timestamps changed after Finish:\n  %s\n  %s", whens, now)
			}
		}
		note(t, "%d events, then 12 calls after Finish", n)
	}
}

func whenOf(evs []trc.Event) string {
	var s []string
	for _, ev := range evs {
		s = append(s, ev.When.Format(time.RFC3339Nano))
	}
	return strings.Join(s, " ")
}

func TestC02_duration(t *testing.T) {
	for k := 0; k < iters(10); k++ {
		t0 := time.Now()
		tr := newTrace("c")
		t1 := time.Now()
		time.Sleep(time.Duration(k%4) * time.Millisecond)
		a := tr.Duration()
		if a < time.Since(t1)-time.Second && a < 0 || a > time.Since(t0) {
			t.Fatalf("active duration %v, want at most %v", a, time.Since(t0))
		}
		t2 := time.Now()
		if k%2 == 0 {
			tr.LazyErrorf("x")
		}
		tr.Finish()
		t3 := time.Now()
		d := tr.Duration()
		if d < t2.Sub(t1) || d > t3.Sub(t0) {
			t.Fatalf("duration %v, want %v..%v", d, t2.Sub(t1), t3.Sub(t0))
		}
		time.Sleep(2 * time.Millisecond)
		tr.Finish()
		if tr.Duration() != d {
			t.Fatalf("second Finish changed the duration from %v to %v", d, tr.Duration())
		}
		note(t, "run %d", k)
	}
}

// argFunc calls a function when it is formatted.
type argFunc func()

func (f argFunc) String() string { f(); return "x" }

func TestC02_finishWhileFormatting(t *testing.T) {
	for k := 0; k < 4; k++ {
		tr := newTrace("c")
		state := func() string {
			return fmt.Sprint(tr.Finished(), tr.Duration(), tr.Errored(), len(tr.Events()))
		}
		after := make(chan string, 1)
		arg := argFunc(func() {
			finished := make(chan struct{})
			go func() {
				tr.Finish()
				after <- state()
				close(finished)
			}()
			select {
			case <-finished:
			case <-time.After(20 * time.Millisecond): // Finish may have to wait for this call
			}
		})
		switch k {
		case 0, 2:
			tr.Tracef("%v", arg)
		case 1, 3:
			tr.Errorf("%v", arg)
		}
		if a, b := <-after, state(); a != b {
			t.Fatalf("finished, duration, errored, events: %s after Finish, later %s", a, b)
		}
		note(t, "run %d", k)
	}
}

func TestC02_unfinishedDuration(t *testing.T) {
	tr := newTrace("c")
	last := time.Duration(-1)
	for k := 0; k < 5; k++ {
		time.Sleep(2 * time.Millisecond)
		if k == 2 {
			tr.Errorf("x")
		}
		d := tr.Duration()
		if d < last+2*time.Millisecond-100*time.Microsecond || d > time.Since(tr.Started())+time.Second {
			t.Fatalf("duration %v, 2ms after it was %v", d, last)
		}
		last = d
	}
	note(t, "growing")
}

func TestRaceC02_finish(t *testing.T) {
	for k := 0; k < iters(30); k++ {
		tr := newTrace("c")
		trc.SetMaxEvents(tr, 10000)
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for j := 0; j < 50; j++ {
					tr.LazyErrorf("%d:%d", i, j)
				}
			}(i)
		}
		var mtx sync.Mutex
		seen := map[string]bool{}
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				tr.Finish()
				s := fmt.Sprint(tr.Finished(), tr.Duration(), tr.Errored(), len(tr.Events()))
				mtx.Lock()
				seen[s] = true
				mtx.Unlock()
			}()
		}
		wg.Wait()
		seen[fmt.Sprint(tr.Finished(), tr.Duration(), tr.Errored(), len(tr.Events()))] = true
		if len(seen) != 1 {
			t.Fatalf("different outcomes seen after Finish: %v", seen)
		}
		note(t, "run %d", k)
	}
}

func TestC03_histories(t *testing.T) {
	r := newRand(3)
	for k := 0; k < iters(150); k++ {
		history(t, r, opts{min: 10, max: 14, length: 1 + r.Intn(40), finish: true})
	}
}

func TestC03_single(t *testing.T) {
	for _, max := range []int{10, 11, 20} {
		for n := 0; n <= 25; n++ {
			for kind := 0; kind < 5; kind++ {
				tr := newTrace("c")
				trc.SetMaxEvents(tr, max)
				for i := 0; i < n; i++ {
					if i%2 == 0 {
						tr.Tracef("ERROR %d", i)
					} else {
						tr.LazyTracef("error %v", io.EOF)
					}
				}
				if tr.Errored() {
					t.Fatalf("errored after %d normal events", n)
				}
				want := false
				switch kind {
				case 0:
					tr.Errorf("x")
					want = true
				case 1:
					tr.LazyErrorf("x %d", 1)
					want = true
				case 2:
					tr.Finish()
					tr.Errorf("x")
				case 3:
					tr.Finish()
					tr.LazyErrorf("x")
				case 4:
				}
				eq(t, fmt.Sprintf("errored, max %d, %d events, kind %d", max, n, kind), tr.Errored(), want)
				tr.Tracef("y")
				tr.LazyTracef("y")
				tr.Events()
				tr.Finish()
				eq(t, fmt.Sprintf("errored later, max %d, %d events, kind %d", max, n, kind), tr.Errored(), want)
				note(t, "max %d, %d events, kind %d", max, n, kind)
			}
		}
	}
}

// must run before anything sets the process-wide maximum
func TestC04_aDefault(t *testing.T) {
	for _, extra := range []int{-1, 0, 1, 2, 7} {
		tr := newTrace("c")
		m := &mTrace{max: 1000}
		for i := 0; i < 1000+extra; i++ {
			tr.LazyTracef("%d", i)
			m.add(fmt.Sprint(i), false, time.Time{}, time.Time{})
		}
		m.check(t, fmt.Sprintf("default maximum, %d events", 1000+extra), tr.Events())
		note(t, "default maximum, %d events", 1000+extra)
	}
}

func TestC04_histories(t *testing.T) {
	r := newRand(4)
	for k := 0; k < iters(150); k++ {
		history(t, r, opts{min: -3, max: 25, length: 1 + r.Intn(50), finish: true})
	}
}

func TestC04_exact(t *testing.T) {
	for _, req := range []int{-1 << 62, -1, 0, 1, 9, 10, 11, 12, 100, 999, 1001, 9999, 10000, 10001, 1 << 40} {
		for _, extra := range []int{-1, 0, 1, 2, 3} {
			for _, global := range []bool{false, true} {
				if global && req > 1<<31 {
					// still clamped to the maximum
				}
				var tr trc.Trace
				if global {
					trc.SetTraceMaxEvents(req)
					tr = newTrace("c")
					trc.SetTraceMaxEvents(1000)
				} else {
					tr = newTrace("c")
					trc.SetMaxEvents(tr, req)
				}
				m := &mTrace{max: clamp(req)}
				for i := 0; i < m.max+extra; i++ {
					if i%3 == 2 {
						tr.LazyErrorf("%d", i)
					} else {
						tr.Tracef("%d", i)
					}
					m.add(fmt.Sprint(i), i%3 == 2, time.Time{}, time.Time{})
				}
				m.check(t, fmt.Sprintf("maximum %d (process-wide %v), %d events", req, global, m.max+extra), tr.Events())
				note(t, "maximum %d (process-wide %v), %d events", req, global, m.max+extra)
			}
		}
	}
}

func TestC04_laterSetting(t *testing.T) {
	// The process-wide maximum only counts for traces created later, and the
	// maximum of one trace only for that trace.
	defer trc.SetTraceMaxEvents(1000)
	trc.SetTraceMaxEvents(20)
	a := newTrace("c")
	trc.SetTraceMaxEvents(10)
	b := newTrace("c")
	c := newTrace("c")
	trc.SetMaxEvents(c, 15)
	d := newTrace("c")
	trc.SetTraceMaxEvents(40)
	for i, x := range []struct {
		tr  trc.Trace
		max int
	}{{a, 20}, {b, 10}, {c, 15}, {d, 10}} {
		m := &mTrace{max: x.max}
		for j := 0; j < 50; j++ {
			x.tr.Tracef("%d", j)
			m.add(fmt.Sprint(j), false, time.Time{}, time.Time{})
		}
		m.check(t, fmt.Sprintf("trace %d", i), x.tr.Events())
	}
	// raising the maximum of a full trace makes room again
	trc.SetMaxEvents(b, 12)
	b.Tracef("more")
	evs := b.Events()
	eq(t, "texts after raising", fmt.Sprint(texts(evs)), "[1 2 3 4 5 6 7 8 9 more (truncated event count 40)]")
	note(t, "four traces")
}

func TestC04_stream(t *testing.T) {
	// The marker also appears in stream snapshots.
	for n := 8; n < 15; n++ {
		tr := newTrace("c")
		trc.SetMaxEvents(tr, 10)
		for i := 0; i < n; i++ {
			tr.Tracef("%d", i)
		}
		want := fmt.Sprint(n - 1)
		if n > 10 {
			want = fmt.Sprintf("(truncated event count %d)", n-10)
		}
		eq(t, "active stream snapshot", fmt.Sprint(texts(trc.NewStreamTrace(tr).Events())), "["+want+"]")
		tr.Finish()
		eq(t, "finished stream snapshot", fmt.Sprint(texts(trc.NewStreamTrace(tr).Events())), fmt.Sprint(texts(tr.Events())))
		note(t, "%d events", n)
	}
}

// countArg counts how often it is formatted, and shows its current value.
type countArg struct {
	mtx sync.Mutex
	n   int
	val string
}

func (c *countArg) String() string {
	c.mtx.Lock()
	defer c.mtx.Unlock()
	c.n++
	return c.val
}
func (c *countArg) set(s string) { c.mtx.Lock(); c.val = s; c.mtx.Unlock() }
func (c *countArg) count() int   { c.mtx.Lock(); defer c.mtx.Unlock(); return c.n }

func TestC05_formatting(t *testing.T) {
	r := newRand(5)
	for k := 0; k < iters(100); k++ {
		tr := newTrace("c")
		type item struct {
			c    *countArg
			pre  string
			lazy bool
			want string
			read bool
		}
		var items []*item
		hist := ""
		verify := func(evs []trc.Event) {
			t.Helper()
			for i, it := range items {
				if !it.read && it.lazy {
					it.want = it.c.val
				}
				it.read = true
				if evs[i].What != it.pre+it.want {
					t.Fatalf("%s: event %d is %q, want %q", hist, i, evs[i].What, it.pre+it.want)
				}
				if it.c.count() != 1 {
					t.Fatalf("%s: argument of event %d (lazy %v) formatted %d times", hist, i, it.lazy, it.c.count())
				}
			}
		}
		for i := 0; i < 25; i++ {
			switch x := r.Intn(8); {
			case x < 4:
				val := fmt.Sprintf("v%d", i)
				if r.Intn(3) == 0 {
					val = ""
				}
				it := &item{c: &countArg{val: val}, pre: []string{"", "v="}[r.Intn(2)], lazy: x&1 == 1, want: val}
				switch x {
				case 0:
					tr.Tracef(it.pre+"%v", it.c)
				case 1:
					tr.LazyTracef(it.pre+"%v", it.c)
				case 2:
					tr.Errorf(it.pre+"%s", it.c)
				case 3:
					tr.LazyErrorf(it.pre+"%s", it.c)
				}
				hist += fmt.Sprintf(" add%d", x)
				want := 1
				if it.lazy {
					want = 0
				}
				if it.c.count() != want {
					t.Fatalf("%s: argument formatted %d times during the call, want %d", hist, it.c.count(), want)
				}
				items = append(items, it)
			case x < 6 && len(items) > 0:
				it := items[r.Intn(len(items))]
				it.c.set([]string{"", fmt.Sprintf("changed%d", i)}[r.Intn(2)])
				hist += " change"
			case x == 6:
				hist += " read"
				verify(tr.Events())
			case x == 7 && r.Intn(3) == 0:
				hist += " search"
				verify(trc.NewSearchTrace(tr).Events())
			}
		}
		verify(tr.Events())
		for _, it := range items {
			it.c.set("late")
		}
		verify(tr.Events())
		tr.Finish()
		verify(trc.NewSearchTrace(tr).Events())
		verify(trc.NewStreamTrace(tr).Events())
		note(t, "%s", hist)
	}
}

func TestC05_mutableArgs(t *testing.T) {
	tr := newTrace("c")
	p := []int{1, 2}
	tr.Tracef("%v", p)
	tr.LazyTracef("%v", p)
	p[0] = 7
	eq(t, "texts", fmt.Sprint(texts(tr.Events())), "[[1 2] [7 2]]")
	p[0] = 9
	eq(t, "texts again", fmt.Sprint(texts(tr.Events())), "[[1 2] [7 2]]")
	note(t, "slice argument")
}

func TestRaceC05_readers(t *testing.T) {
	for k := 0; k < iters(20); k++ {
		tr := newTrace("c")
		args := make([]*countArg, 50)
		for i := range args {
			args[i] = &countArg{val: fmt.Sprint(i)}
			tr.LazyTracef("%v", args[i])
		}
		var wg sync.WaitGroup
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j, ev := range tr.Events() {
					if ev.What != fmt.Sprint(j) {
						t.Errorf("event %d is %q", j, ev.What)
					}
				}
			}()
		}
		wg.Wait()
		for i, a := range args {
			if a.count() != 1 {
				t.Fatalf("argument %d formatted %d times", i, a.count())
			}
		}
		note(t, "run %d", k)
	}
}

func TestC05_truncated(t *testing.T) {
	// also when the trace is full or finished, lazy calls never format
	tr := newTrace("c")
	trc.SetMaxEvents(tr, 10)
	for i := 0; i < 10; i++ {
		tr.Tracef("x")
	}
	c := &countArg{}
	tr.LazyTracef("%v", c)
	tr.LazyErrorf("%v", c)
	tr.Events()
	tr.Finish()
	tr.LazyTracef("%v", c)
	tr.LazyErrorf("%v", c)
	tr.Events()
	eq(t, "formatted", c.count(), 0)
	note(t, "full and finished trace")
}

// ---------------------------------------------------------------------------
// Identity

func TestC23_identity(t *testing.T) {
	r := newRand(23)
	ids := map[string]bool{}
	for k := 0; k < iters(60); k++ {
		src, cat := fmt.Sprintf("src%d", r.Intn(5)), fmt.Sprintf("cat%d", r.Intn(5))
		if r.Intn(10) == 0 {
			src, cat = "", ""
		}
		col := trc.NewCollector(trc.CollectorConfig{Source: src})
		if src == "" {
			src = "default"
		}
		var decs []trc.DecoratorFunc
		if r.Intn(2) == 0 {
			decs = append(decs, trc.LogDecorator(io.Discard))
		}
		col.SetDecorators(decs...)
		lo := time.Now()
		ctx, tr := col.NewTrace(context.Background(), cat)
		hi := time.Now()
		if ids[tr.ID()] {
			t.Fatalf("ID %s seen before", tr.ID())
		}
		ids[tr.ID()] = true
		started := tr.Started()
		if started.Before(lo) || started.After(hi) || started.Location() != time.UTC {
			t.Fatalf("started %v, want UTC within %v..%v", started, lo, hi)
		}
		id := tr.ID()
		same := func(what string, x trc.Trace) {
			t.Helper()
			if x.ID() != id || x.Source() != src || x.Category() != cat || !x.Started().Equal(started) {
				t.Fatalf("%s: %s/%s/%s/%v, want %s/%s/%s/%v", what, x.ID(), x.Source(), x.Category(), x.Started(), id, src, cat, started)
			}
		}
		for i := 0; i < 20; i++ {
			switch r.Intn(10) {
			case 0:
				tr.Finish()
			case 1:
				tr.Events()
			case 2:
				_, p := trc.Prefix(ctx, "p%d", i)
				p.Tracef("x")
				same("prefixed", p)
			case 3:
				_, p, f := trc.Region(ctx, "region")
				f()
				same("region", p)
			case 4:
				same("search", trc.NewSearchTrace(tr))
			case 5:
				same("stream", trc.NewStreamTrace(tr))
			case 6:
				res, err := col.Search(context.Background(), &trc.SearchRequest{Filter: trc.Filter{Category: cat, IDs: []string{id}}})
				if err != nil || len(res.Traces) != 1 {
					t.Fatalf("search: %v, %d traces", err, len(res.Traces))
				}
				same("found", res.Traces[0])
			case 7:
				col.SetSourceName("other")
				col.SetSourceName(src)
			case 8:
				c2, x := col.NewTrace(ctx, "other")
				same("again", x)
				same("in context", trc.Get(c2))
			default:
				call(r, tr, i)
			}
			same("trace", tr)
		}
		note(t, "source %q, category %q, %d decorators", src, cat, len(decs))
	}
	for i := 0; i < iters(2000); i++ {
		id := newTrace("x").ID()
		if ids[id] {
			t.Fatalf("ID %s seen before", id)
		}
		ids[id] = true
	}
}

func TestRaceC23_ids(t *testing.T) {
	var mtx sync.Mutex
	ids := map[string]bool{}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < iters(300); j++ {
				tr := newTrace("x")
				id := tr.ID()
				mtx.Lock()
				if ids[id] {
					t.Errorf("ID %s seen before", id)
				}
				ids[id] = true
				mtx.Unlock()
			}
		}()
	}
	wg.Wait()
	note(t, "8 goroutines")
}

// ---------------------------------------------------------------------------
// Recycling

func pristine(t *testing.T, hist string, tr trc.Trace, max int) {
	t.Helper()
	if tr.Finished() || tr.Errored() || len(tr.Events()) != 0 {
		t.Fatalf("%s: new trace has finished %v, errored %v, events %q", hist, tr.Finished(), tr.Errored(), texts(tr.Events()))
	}
	if d := tr.Duration(); d > time.Minute || d < 0 {
		t.Fatalf("%s: new trace has duration %v", hist, d)
	}
	m := &mTrace{max: max}
	for i := 0; i < max+2; i++ {
		tr.LazyTracef("%d", i)
		m.add(fmt.Sprint(i), false, time.Time{}, time.Time{})
	}
	m.check(t, hist, tr.Events())
}

func TestC24_pristine(t *testing.T) {
	r := newRand(24)
	defer trc.SetTraceMaxEvents(1000)
	for k := 0; k < iters(20); k++ {
		col := trc.NewDefaultCollector()
		col.SetCategorySize(1 + r.Intn(4))
		max := 10 + r.Intn(4)
		trc.SetTraceMaxEvents(max)
		for i := 0; i < 60; i++ {
			_, tr := col.NewTrace(context.Background(), fmt.Sprint(r.Intn(2)))
			hist := fmt.Sprintf("run %d, trace %d", k, i)
			if r.Intn(3) == 0 {
				max = 10 + r.Intn(4)
				trc.SetTraceMaxEvents(max)
				continue
			}
			pristine(t, hist, tr, max)
			if r.Intn(2) == 0 {
				call(r, tr, i)
				tr.Errorf("e")
			}
			if r.Intn(4) != 0 {
				tr.Finish()
			}
			if r.Intn(10) == 0 {
				col.SetCategorySize(1 + r.Intn(4))
			}
		}
		note(t, "run %d: 60 traces in 2 categories, last maximum %d", k, max)
	}
}

func TestC24_unfinishedSurvives(t *testing.T) {
	r := newRand(241)
	for k := 0; k < iters(40); k++ {
		col := trc.NewDefaultCollector()
		col.SetCategorySize(2)
		type held struct {
			tr trc.Trace
			m  *mTrace
			id string
		}
		var hs []*held
		for i := 0; i < 12; i++ {
			_, tr := col.NewTrace(context.Background(), "x")
			if r.Intn(2) == 0 {
				tr.Tracef("finished one %d", i)
				tr.Errorf("e")
				tr.Finish() // will be recycled, so it is not used any more
				continue
			}
			hs = append(hs, &held{tr, &mTrace{max: 1000}, tr.ID()})
			for _, h := range hs {
				text, isErr, _ := call(r, h.tr, i)
				h.m.add(text, isErr, time.Time{}, time.Time{})
			}
			if r.Intn(5) == 0 {
				col.SetCategorySize(1 + r.Intn(3))
			}
		}
		for i, h := range hs {
			hist := fmt.Sprintf("run %d, held trace %d", k, i)
			h.m.check(t, hist, h.tr.Events())
			if h.tr.Finished() || h.tr.Errored() != h.m.errored || h.tr.ID() != h.id || h.tr.Category() != "x" {
				t.Fatalf("%s: finished %v, errored %v (want %v), ID %s (want %s)", hist, h.tr.Finished(), h.tr.Errored(), h.m.errored, h.tr.ID(), h.id)
			}
			h.tr.Finish()
			if !h.tr.Finished() {
				t.Fatalf("%s: cannot be finished", hist)
			}
			h.m.check(t, hist, h.tr.Events())
		}
		note(t, "run %d: %d unfinished traces held", k, len(hs))
	}
}

func TestC24_collectedStayIntact(t *testing.T) {
	// A trace still held by the collector is never recycled.
	r := newRand(242)
	for k := 0; k < iters(20); k++ {
		col := trc.NewDefaultCollector()
		size := 1 + r.Intn(5)
		col.SetCategorySize(size)
		var want []string
		for i := 0; i < 40; i++ {
			_, tr := col.NewTrace(context.Background(), "x")
			tr.Tracef("event of %d", i)
			tr.Errorf("error of %d", i)
			tr.Finish()
			want = append([]string{fmt.Sprintf("%s [event of %d error of %d] true true", tr.ID(), i, i)}, want...)
			if len(want) > size {
				want = want[:size]
			}
			if r.Intn(3) == 0 {
				newTrace("noise").Tracef("noise")
			}
			res, err := col.Search(context.Background(), &trc.SearchRequest{Limit: 100})
			if err != nil {
				t.Fatal(err)
			}
			var have []string
			for _, st := range res.Traces {
				have = append(have, fmt.Sprintf("%s %v %v %v", st.ID(), texts(st.Events()), st.Finished(), st.Errored()))
			}
			eq(t, fmt.Sprintf("size %d after %d traces", size, i+1), fmt.Sprint(have), fmt.Sprint(want))
		}
		note(t, "run %d: size %d", k, size)
	}
}
