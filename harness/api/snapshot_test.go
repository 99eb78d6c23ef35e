package verifharness

import (
	"context"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

func dump(evs []trc.Event) string {
	var sb strings.Builder
	for _, ev := range evs {
		fmt.Fprintf(&sb, "%s|%q|%v|%v\n", ev.When.Format(time.RFC3339Nano), ev.What, ev.IsError, ev.Stack)
	}
	return sb.String()
}

func dumpStatic(st *trc.StaticTrace) string {
	return fmt.Sprintf("%s %s %s %v %v %v %v\n%s", st.TraceSource, st.TraceID, st.TraceCategory, st.TraceStarted, st.TraceDuration, st.TraceFinished, st.TraceErrored, dump(st.TraceEvents))
}

// Keep snapshots of all kinds while traces are used, evicted and recycled.
func TestC13_stable(t *testing.T) {
	r := newRand(13)
	for k := 0; k < iters(15); k++ {
		col := trc.NewDefaultCollector()
		col.SetCategorySize(1 + r.Intn(4))
		if r.Intn(2) == 0 {
			col.SetDecorators(trc.LogDecorator(io.Discard))
		}
		type snap struct {
			what string
			show func() string
			was  string
		}
		var snaps []snap
		add := func(what string, show func() string) { snaps = append(snaps, snap{what, show, show()}) }
		var live []trc.Trace
		hist := ""
		for i := 0; i < 150; i++ {
			switch x := r.Intn(12); {
			case x < 3 || len(live) == 0:
				_, tr := col.NewTrace(context.Background(), fmt.Sprint(r.Intn(2)))
				live = append(live, tr)
				hist = "new"
			case x < 7:
				tr := live[r.Intn(len(live))]
				trc.SetMaxEvents(tr, 10)
				for n := r.Intn(6); n >= 0; n-- {
					deep(r.Intn(4), func() { call(r, tr, i) })
				}
				hist = "event"
			case x == 7:
				i := r.Intn(len(live))
				live[i].Finish()
				live = append(live[:i], live[i+1:]...) // may be recycled from now on
				hist = "finish"
			case x == 8:
				tr := live[r.Intn(len(live))]
				evs := tr.Events()
				add("Events", func() string { return dump(evs) })
				hist = "Events"
			case x == 9:
				tr := live[r.Intn(len(live))]
				st := trc.NewSearchTrace(tr)
				if r.Intn(2) == 0 {
					st = st.TrimStacks(r.Intn(4) - 1)
				}
				add("NewSearchTrace", func() string { return dumpStatic(st) })
				hist = "NewSearchTrace"
			case x == 10:
				tr := live[r.Intn(len(live))]
				st := trc.NewStreamTrace(tr)
				add("NewStreamTrace", func() string { return dumpStatic(st) })
				hist = "NewStreamTrace"
			case x == 11:
				res, err := col.Search(context.Background(), &trc.SearchRequest{Limit: 5, StackDepth: r.Intn(4) - 1})
				if err != nil {
					t.Fatal(err)
				}
				for _, st := range res.Traces {
					st := st
					add("Search", func() string { return dumpStatic(st) })
				}
				hist = "Search"
			}
			for j, s := range snaps {
				if now := s.show(); now != s.was {
					t.Fatalf("run %d, step %d (%s): snapshot %d (%s) changed\nfrom %s\nto   %s", k, i, hist, j, s.what, s.was, now)
				}
			}
			if len(snaps) > 60 {
				snaps = snaps[20:]
			}
			if r.Intn(40) == 0 {
				runtime.GC()
			}
		}
		note(t, "run %d: 150 steps", k)
	}
}

func deep(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	deep(n-1, f)
}

// Taking snapshots of any trace, trimming and streaming them leaves the source alone.
func TestC13_source(t *testing.T) {
	r := newRand(131)
	for k := 0; k < iters(200); k++ {
		var tr trc.Trace
		switch r.Intn(3) {
		case 0:
			f := randFake(r, k)
			for i := range f.events {
				f.events[i].Stack = append(make([]trc.Frame, 0, 8), f.events[i].Stack...)
				for len(f.events[i].Stack) < 4 {
					f.events[i].Stack = append(f.events[i].Stack, trc.Frame{Function: "f", FileLine: "x:1"})
				}
			}
			tr = f
		case 1:
			tr = newTrace("c")
			for i := r.Intn(14); i > 0; i-- {
				call(r, tr, i)
			}
			if r.Intn(2) == 0 {
				tr.Finish()
			}
		case 2:
			c := newTrace("c")
			for i := r.Intn(14); i > 0; i-- {
				call(r, c, i)
			}
			tr = trc.NewSearchTrace(c) // a static trace is a trace as well
		}
		first := tr.Events()
		was := dump(first)
		var hist string
		type kept struct {
			st  *trc.StaticTrace
			was string
		}
		var ks []kept
		for i := 0; i < 12; i++ {
			switch r.Intn(3) {
			case 0:
				st := trc.NewSearchTrace(tr)
				hist += " search"
				ks = append(ks, kept{st, dumpStatic(st)})
			case 1:
				depth := r.Intn(6) - 2
				st := trc.NewSearchTrace(tr)
				before := fmt.Sprint(texts(st.Events()))
				st.TrimStacks(depth)
				hist += fmt.Sprintf(" trim(%d)", depth)
				eq(t, hist+": texts after trimming", fmt.Sprint(texts(st.Events())), before)
				for j, ev := range st.Events() {
					want := len(first[j].Stack)
					if depth < 0 {
						want = 0
					} else if depth > 0 && want > depth {
						want = depth
					}
					eq(t, fmt.Sprintf("%s: stack depth of event %d", hist, j), len(ev.Stack), want)
					for l := range ev.Stack {
						if ev.Stack[l] != first[j].Stack[l] {
							t.Fatalf("%s: frame %d of event %d changed", hist, l, j)
						}
					}
				}
				ks = append(ks, kept{st, dumpStatic(st)})
			case 2:
				st := trc.NewStreamTrace(tr)
				hist += " stream"
				ks = append(ks, kept{st, dumpStatic(st)})
			}
			if now := dump(tr.Events()); now != was {
				t.Fatalf("%T after%s: events changed\nfrom %s\nto   %s", tr, hist, was, now)
			}
			if now := dump(first); now != was {
				t.Fatalf("%T after%s: earlier events changed\nfrom %s\nto   %s", tr, hist, was, now)
			}
			for _, x := range ks {
				if now := dumpStatic(x.st); now != x.was {
					t.Fatalf("%T after%s: earlier snapshot changed\nfrom %s\nto   %s", tr, hist, x.was, now)
				}
			}
		}
		note(t, "%T:%s", tr, hist)
	}
}

// what a reader does to its own snapshot is its own business
func TestC13_private(t *testing.T) {
	for k := 0; k < 20; k++ {
		tr := newTrace("c")
		trc.SetMaxEvents(tr, 10)
		for i := 0; i < k; i++ {
			tr.LazyTracef("%d", i)
		}
		was := fmt.Sprint(texts(tr.Events()))
		a, b := tr.Events(), tr.Events()
		for i := range a {
			a[i].What = "overwritten"
			a[i].IsError = true
		}
		_ = append(a, trc.Event{What: "more"})
		eq(t, "other snapshot", fmt.Sprint(texts(b)), was)
		eq(t, "trace", fmt.Sprint(texts(tr.Events())), was)
		note(t, "%d events", k)
	}
}

func TestRaceC13_recycling(t *testing.T) {
	// the owner uses each trace only until it has finished it
	col := trc.NewDefaultCollector()
	col.SetCategorySize(3)
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < iters(150); j++ {
				_, tr := col.NewTrace(context.Background(), "c")
				for n := 0; n < 5; n++ {
					tr.LazyTracef("%d:%d:%d", i, j, n)
				}
				evs := tr.Events()
				was := dump(evs)
				tr.Finish()
				runtime.Gosched()
				if now := dump(evs); now != was {
					t.Errorf("snapshot changed from %s to %s", was, now)
					return
				}
			}
		}(i)
	}
	var sg sync.WaitGroup
	for i := 0; i < 2; i++ {
		sg.Add(1)
		go func() {
			defer sg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				res, err := col.Search(context.Background(), &trc.SearchRequest{Limit: 10, StackDepth: 1})
				if err != nil {
					t.Error(err)
					return
				}
				for _, st := range res.Traces {
					was := dumpStatic(st)
					runtime.Gosched()
					if now := dumpStatic(st); now != was {
						t.Errorf("search result changed from %s to %s", was, now)
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	sg.Wait()
	note(t, "4 writers, 2 searchers")
}

// ---------------------------------------------------------------------------
// C14: a trace which changes between any two calls made on it.

type volatile struct {
	fake
	script func(call int) // called before every read
	n      int
}

func (v *volatile) tick()                   { v.n++; v.script(v.n) }
func (v *volatile) ID() string              { v.tick(); return v.fake.id }
func (v *volatile) Source() string          { v.tick(); return v.fake.source }
func (v *volatile) Category() string        { v.tick(); return v.fake.category }
func (v *volatile) Started() time.Time      { v.tick(); return v.fake.started }
func (v *volatile) Finished() bool          { v.tick(); return v.fake.finished }
func (v *volatile) Errored() bool           { v.tick(); return v.fake.errored }
func (v *volatile) Duration() time.Duration { v.tick(); return v.fake.duration }
func (v *volatile) Events() []trc.Event {
	v.tick()
	return append([]trc.Event(nil), v.fake.events...)
}

type volatileDetail struct{ volatile }

func (v *volatileDetail) EventsDetail(n int, stacks bool) []trc.Event {
	evs := v.Events()
	if n > 0 && n < len(evs) {
		evs = evs[len(evs)-n:]
	}
	if !stacks {
		for i := range evs {
			evs[i].Stack = nil
		}
	}
	return evs
}

func TestC14_interleaved(t *testing.T) {
	// an error event and Finish happen before the i-th and j-th read
	for detail := 0; detail < 2; detail++ {
		for pre := 0; pre < 4; pre++ {
			for i := 1; i < 14; i++ {
				for j := i; j < 14; j++ {
					for _, kind := range []string{"search", "stream"} {
						for _, withErr := range []bool{true, false} {
							d := &volatileDetail{}
							v := &d.volatile
							v.fake = fake{id: "I", source: "S", category: "C", started: epoch, duration: 1}
							for p := 0; p < pre; p++ {
								v.fake.events = append(v.fake.events, trc.Event{What: fmt.Sprint(p), Stack: []trc.Frame{{Function: "f"}}})
							}
							v.script = func(n int) {
								if !v.fake.finished {
									v.fake.duration++
								}
								if n == i {
									if withErr {
										v.fake.errored = true
									}
									v.fake.events = append(v.fake.events, trc.Event{What: "late", IsError: withErr, Stack: []trc.Frame{{Function: "f"}}})
								}
								if n == j {
									v.fake.finished = true
								}
							}
							var tr trc.Trace = v
							if detail == 1 {
								tr = d
							}
							var st *trc.StaticTrace
							if kind == "search" {
								st = trc.NewSearchTrace(tr)
							} else {
								st = trc.NewStreamTrace(tr)
							}
							desc := fmt.Sprintf("%s of %T with %d events, event before read %d (error %v), Finish before read %d", kind, tr, pre, i, withErr, j)
							v.script = func(int) {}
							eq(t, desc+": identity", fmt.Sprint(st.TraceID, st.TraceSource, st.TraceCategory, st.TraceStarted), fmt.Sprint("I", "S", "C", epoch))
							for _, ev := range st.TraceEvents {
								if ev.IsError && !st.TraceErrored {
									t.Fatalf("%s: has an error event but is not errored", desc)
								}
								if kind == "stream" && len(ev.Stack) > 0 {
									t.Fatalf("%s: has stacks", desc)
								}
								if kind == "search" && len(ev.Stack) != 1 {
									t.Fatalf("%s: stack lost", desc)
								}
							}
							if st.TraceFinished {
								if !v.fake.finished {
									t.Fatalf("%s: says finished, but is not", desc)
								}
								if st.TraceDuration != v.fake.duration || st.TraceErrored != v.fake.errored || fmt.Sprint(texts(st.TraceEvents)) != fmt.Sprint(texts(v.fake.events)) {
									t.Fatalf("%s: says finished, but has duration %v, errored %v, events %q instead of the final %v, %v, %q", desc, st.TraceDuration, st.TraceErrored, texts(st.TraceEvents), v.fake.duration, v.fake.errored, texts(v.fake.events))
								}
							} else if kind == "stream" && len(st.TraceEvents) > 1 {
								t.Fatalf("%s: active, but has %d events", desc, len(st.TraceEvents))
							} else if kind == "stream" && pre > 0 && len(st.TraceEvents) != 1 {
								t.Fatalf("%s: active, but has %d events", desc, len(st.TraceEvents))
							} else if kind == "search" && len(st.TraceEvents) < pre {
								t.Fatalf("%s: only %d events", desc, len(st.TraceEvents))
							}
							note(t, "%s", desc)
						}
					}
				}
			}
		}
	}
}

// quiescent traces of all kinds
func TestC14_quiescent(t *testing.T) {
	r := newRand(141)
	for k := 0; k < iters(300); k++ {
		var tr trc.Trace
		switch r.Intn(4) {
		case 0:
			tr = randFake(r, k)
		case 1:
			tr = newTrace("c")
			trc.SetMaxEvents(tr, 10)
		case 2:
			_, tr = trc.NewDefaultCollector().NewTrace(context.Background(), "c")
		case 3:
			ctx, _ := trc.New(context.Background(), "s", "c", trc.LogDecorator(io.Discard))
			_, tr = trc.Prefix(ctx, "p")
		}
		for i := r.Intn(14); i > 0; i-- {
			call(r, tr, i)
		}
		if r.Intn(2) == 0 {
			tr.Finish()
		}
		evs := tr.Events()
		desc := fmt.Sprintf("%T with %d events, finished %v", tr, len(evs), tr.Finished())
		for _, kind := range []string{"search", "stream"} {
			var st *trc.StaticTrace
			want := evs
			if kind == "search" {
				st = trc.NewSearchTrace(tr)
			} else {
				st = trc.NewStreamTrace(tr)
				if !tr.Finished() && len(evs) > 1 {
					want = evs[len(evs)-1:]
				}
			}
			id := func(x trc.Trace) string {
				return fmt.Sprint(x.ID(), x.Source(), x.Category(), x.Started(), x.Finished(), x.Errored())
			}
			eq(t, desc+": "+kind+" identity", id(st), id(tr))
			if tr.Finished() {
				eq(t, desc+": "+kind+" duration", st.Duration(), tr.Duration())
			} else if st.Duration() > tr.Duration() {
				t.Fatalf("%s: %s duration %v", desc, kind, st.Duration())
			}
			eq(t, desc+": "+kind+" number of events", len(st.TraceEvents), len(want))
			for i, ev := range st.TraceEvents {
				marker := strings.HasPrefix(ev.What, "(truncated")
				if ev.What != want[i].What || ev.IsError != want[i].IsError || !marker && !ev.When.Equal(want[i].When) {
					t.Fatalf("%s: %s event %d is %v, want %v", desc, kind, i, ev, want[i])
				}
				if kind == "stream" && len(ev.Stack) != 0 {
					t.Fatalf("%s: stream event %d has a stack", desc, i)
				}
				if kind == "search" && fmt.Sprint(ev.Stack) != fmt.Sprint(want[i].Stack) {
					t.Fatalf("%s: search event %d has stack %v, want %v", desc, i, ev.Stack, want[i].Stack)
				}
			}
		}
		note(t, "%s", desc)
	}
}

func TestC14_stacks(t *testing.T) {
	// search snapshots of core traces carry the stack of the call
	tr := newTrace("c")
	tr.Tracef("x")
	tr.LazyErrorf("y")
	for _, ev := range trc.NewSearchTrace(tr).Events() {
		if len(ev.Stack) == 0 || !strings.Contains(ev.Stack[0].Function, "TestC14_stacks") {
			t.Fatalf("event %q has stack %v", ev.What, ev.Stack)
		}
	}
	note(t, "two events")
}

func TestRaceC14_live(t *testing.T) {
	for k := 0; k < iters(100); k++ {
		tr := newTrace("c")
		trc.SetMaxEvents(tr, 10000)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 20; j++ {
				tr.LazyTracef("%d", j)
			}
			tr.Errorf("error")
			tr.Finish()
		}()
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for {
					st := trc.NewSearchTrace(tr)
					if i == 0 {
						st = trc.NewStreamTrace(tr)
					}
					for _, ev := range st.Events() {
						if ev.IsError && !st.Errored() {
							t.Errorf("has an error event but is not errored")
							return
						}
					}
					if st.Finished() {
						if len(st.Events()) != 21 || !st.Errored() || st.Duration() != tr.Duration() {
							t.Errorf("says finished, but has %d events, errored %v, duration %v (final %v)", len(st.Events()), st.Errored(), st.Duration(), tr.Duration())
						}
						return
					}
				}
			}(i)
		}
		wg.Wait()
		note(t, "run %d", k)
	}
}
