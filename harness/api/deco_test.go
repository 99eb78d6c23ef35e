package verifharness

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
)

// recorder records the event calls it gets, verbatim.
type recorder struct {
	fake
	mtx   sync.Mutex
	raw   []string
	calls []string
}

func (c *recorder) add(kind, format string, args []any) {
	c.mtx.Lock()
	defer c.mtx.Unlock()
	c.calls = append(c.calls, kind+" "+fmt.Sprintf(format, args...))
	c.raw = append(c.raw, fmt.Sprintf("%s %q %v", kind, format, args))
}
func (c *recorder) Tracef(format string, args ...any)     { c.add("Tracef", format, args) }
func (c *recorder) LazyTracef(format string, args ...any) { c.add("LazyTracef", format, args) }
func (c *recorder) Errorf(format string, args ...any)     { c.add("Errorf", format, args) }
func (c *recorder) LazyErrorf(format string, args ...any) { c.add("LazyErrorf", format, args) }
func (c *recorder) Finish()                               { c.add("Finish", "", nil) }

func emit(tr trc.Trace, kind int, format string, args ...any) string {
	switch kind {
	case 0:
		tr.Tracef(format, args...)
		return "Tracef"
	case 1:
		tr.LazyTracef(format, args...)
		return "LazyTracef"
	case 2:
		tr.Errorf(format, args...)
		return "Errorf"
	default:
		tr.LazyErrorf(format, args...)
		return "LazyErrorf"
	}
}

var prefixes = []struct {
	format string
	args   []any
}{
	{"foo", nil}, {"%d", []any{7}}, {"<%s>", []any{"x y"}}, {"%s/%d:", []any{"a", 3}}, {"  spaced out\t", nil}, {"100%%", nil},
	{"", nil}, {"   ", nil}, {"%v", []any{[]int{1, 2}}}, {"\n%d\n", []any{9}}, {"· ", nil},
}

func randArgs(r *rand.Rand, i int) (string, []any) {
	switch r.Intn(6) {
	case 0:
		return fmt.Sprintf("event %d", i), nil
	case 1:
		return "event %d", []any{i}
	case 2:
		return "%s-%d", []any{"x%dy", i}
	case 3:
		return "", nil
	case 4:
		return "50%% %v", []any{[]string{"a", "b"}}
	default:
		return " lead %d trail \n", []any{i}
	}
}

func TestC17_wrappers(t *testing.T) {
	r := newRand(17)
	for k := 0; k < iters(400); k++ {
		rec := &recorder{}
		ctx, top := trc.Put(context.Background(), rec)
		prefix := ""
		desc := ""
		for n := r.Intn(5); n > 0; n-- {
			switch r.Intn(5) {
			case 0, 1:
				p := prefixes[r.Intn(len(prefixes))]
				args := append(make([]any, 0, len(p.args)+4), p.args...)
				ctx, top = trc.Prefix(ctx, p.format, args...)
				desc += fmt.Sprintf(" prefix(%q)", p.format)
				if s := strings.TrimSpace(p.format); s != "" {
					prefix += fmt.Sprintf(s+" ", p.args...)
				}
			case 2:
				// the prefix arguments must not be overwritten by later appends
				backing := make([]any, 1, 5)
				backing[0] = k
				ctx, top = trc.Prefix(ctx, "%d", backing...)
				desc += " prefix(%d)"
				prefix += fmt.Sprintf("%d ", k)
			case 3:
				ctx, top = trc.Put(ctx, trc.LogDecorator(io.Discard)(top))
				desc += " log"
			case 4:
				ctx, top = trc.Put(ctx, trc.LoggerDecorator(log.New(io.Discard, "", 0))(top))
				desc += " logger"
			}
		}
		if trc.Get(ctx) != top {
			t.Fatalf("%s: the context does not carry the wrapped trace", desc)
		}
		var want []string
		for i := 0; i < 10; i++ {
			format, args := randArgs(r, i)
			kind := r.Intn(4)
			args = append(make([]any, 0, len(args)+3), args...)
			before := fmt.Sprint(args)
			name := emit(top, kind, format, args...)
			if fmt.Sprint(args) != before || len(args) < cap(args) && args[:cap(args)][len(args)] != nil {
				t.Fatalf("%s: arguments were modified", desc)
			}
			want = append(want, name+" "+prefix+fmt.Sprintf(format, args...))
			if fmt.Sprintf("%q", rec.calls) != fmt.Sprintf("%q", want) {
				t.Fatalf("wrappers%s, event %s(%q, %v):\n  have %q\n  want %q", desc, name, format, args, rec.calls, want)
			}
		}
		note(t, "wrappers%s, %d events", desc, len(want))
	}
}

func TestC17_published(t *testing.T) {
	// the collector's own wrapper
	r := newRand(171)
	for k := 0; k < iters(60); k++ {
		rec := &recorder{}
		col := trc.NewCollector(trc.CollectorConfig{NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
			var tr trc.Trace = rec
			for _, d := range ds {
				tr = d(tr)
			}
			return trc.Put(ctx, tr)
		}})
		if r.Intn(2) == 0 {
			col.SetDecorators(trc.LogDecorator(io.Discard))
		}
		ctx, tr := col.NewTrace(context.Background(), "c")
		var want []string
		for i := 0; i < 10; i++ {
			format, args := randArgs(r, i)
			name := emit(tr, r.Intn(4), format, args...)
			want = append(want, fmt.Sprintf("%s %q %v", name, format, args))
			eq(t, "calls", fmt.Sprint(rec.raw), fmt.Sprint(want))
		}
		for i, f := range []func(context.Context, string, ...any){eztrc.Tracef, eztrc.LazyTracef, eztrc.Errorf, eztrc.LazyErrorf} {
			f(ctx, "ez %d", i)
			want = append(want, fmt.Sprintf("%s %q %v", []string{"Tracef", "LazyTracef", "Errorf", "LazyErrorf"}[i], "ez %d", []any{i}))
			eq(t, "calls", fmt.Sprint(rec.raw), fmt.Sprint(want))
		}
		tr.Finish()
		want = append(want, `Finish "" []`)
		eq(t, "calls", fmt.Sprint(rec.raw), fmt.Sprint(want))
		note(t, "run %d", k)
	}
}

func TestC17_region(t *testing.T) {
	names := []string{"foo", "a b", "100%", "%d", "%s%v", "%!", "", "→", "foo\n", "a%%b", "%[1]d"}
	for _, outer := range names {
		for _, inner := range names {
			for depth := 0; depth < 2; depth++ {
				tr := newTrace("c")
				ctx, _ := trc.Put(context.Background(), tr)
				pre := ""
				if depth == 1 {
					ctx, _ = trc.Prefix(ctx, "<%d>", 1)
					pre = "<1> "
				}
				ctx1, tr1, end1 := trc.Region(ctx, outer)
				if trc.Get(ctx1) != tr1 {
					t.Fatal("the context does not carry the region's trace")
				}
				tr1.Tracef("one %d", 1)
				ctx2, tr2, end2 := eztrc.Region(ctx1, inner)
				tr2.Errorf("two")
				eztrc.LazyTracef(ctx2, "three %s", "x")
				end2()
				tr1.LazyErrorf("four")
				end1()
				tr.Tracef("five")
				want := []string{
					"n " + pre + "→ " + outer,
					"n " + pre + "· one 1",
					"n " + pre + "· → " + inner,
					"e " + pre + "· · two",
					"n " + pre + "· · three x",
					"n " + pre + "· ← " + inner + " [",
					"e " + pre + "· four",
					"n " + pre + "← " + outer + " [",
					"n five",
				}
				evs := tr.Events()
				eq(t, "number of events", len(evs), len(want))
				for i, ev := range evs {
					have := "n " + ev.What
					if ev.IsError {
						have = "e " + ev.What
					}
					w := want[i]
					if strings.HasSuffix(w, " [") {
						if !strings.HasPrefix(have, w) || !strings.HasSuffix(have, "]") {
							t.Fatalf("regions %q, %q: event %d is %q, want %q...", outer, inner, i, have, w)
						}
						if _, err := time.ParseDuration(strings.TrimSuffix(strings.TrimPrefix(have, w), "]")); err != nil {
							t.Fatalf("regions %q, %q: event %d: %v", outer, inner, i, err)
						}
					} else if have != w {
						t.Fatalf("regions %q, %q: event %d is %q, want %q", outer, inner, i, have, w)
					}
				}
				note(t, "regions %q, %q, depth %d", outer, inner, depth)
			}
		}
	}
}

func TestC17_log(t *testing.T) {
	// wrapping with a log leaves the trace alone and writes one line per event
	r := newRand(172)
	for k := 0; k < iters(50); k++ {
		var buf bytes.Buffer
		rec := &recorder{fake: fake{id: "ID"}}
		tr := trc.LogDecorator(&buf)(rec)
		base := strings.Count(buf.String(), "\n")
		var want []string
		for i := 0; i < 8; i++ {
			kind := r.Intn(4)
			name := emit(tr, kind, "x %d %s", i, "y")
			want = append(want, fmt.Sprintf("%s %q %v", name, "x %d %s", []any{i, "y"}))
			lines := strings.Split(strings.TrimSuffix(buf.String(), "\n"), "\n")
			eq(t, "number of lines", len(lines), base+i+1)
			w := fmt.Sprintf("ID x %d y", i)
			if kind >= 2 {
				w = fmt.Sprintf("ID ERROR: x %d y", i)
			}
			eq(t, "line", lines[len(lines)-1], w)
		}
		eq(t, "calls", fmt.Sprint(rec.raw), fmt.Sprint(want))
		note(t, "run %d", k)
	}
}

func TestRaceC17_concurrent(t *testing.T) {
	for k := 0; k < iters(10); k++ {
		rec := &recorder{}
		ctx, _ := trc.Put(context.Background(), rec)
		args := make([]any, 1, 16)
		args[0] = "P"
		_, p := trc.Prefix(ctx, "%s", args...)
		ctx2, _ := trc.Put(ctx, p)
		_, q := trc.Prefix(ctx2, "%d", 5)
		var wg sync.WaitGroup
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for j := 0; j < 50; j++ {
					if i%2 == 0 {
						p.Tracef("%d %d", i, j)
					} else {
						q.LazyErrorf("%d %d", i, j)
					}
				}
			}(i)
		}
		wg.Wait()
		next := map[int]int{}
		for _, c := range rec.calls {
			var i, j int
			if strings.HasPrefix(c, "Tracef P ") {
				fmt.Sscanf(c, "Tracef P %d %d", &i, &j)
			} else if _, err := fmt.Sscanf(c, "LazyErrorf P 5 %d %d", &i, &j); err != nil {
				t.Fatalf("call %q: %v", c, err)
			}
			if next[i] != j {
				t.Fatalf("call %q: goroutine %d is at %d", c, i, next[i])
			}
			next[i]++
		}
		eq(t, "number of calls", len(rec.calls), 300)
		note(t, "run %d", k)
	}
}

// ---------------------------------------------------------------------------

type tagged struct {
	trc.Trace
	tag string
}

func tags(tr trc.Trace) string {
	if x, ok := tr.(*tagged); ok {
		return x.tag + tags(x.Trace)
	}
	return ""
}

func TestC18_newTrace(t *testing.T) {
	r := newRand(18)
	type key struct{}
	for k := 0; k < iters(150); k++ {
		src := fmt.Sprintf("src%d", r.Intn(3))
		col := trc.NewCollector(trc.CollectorConfig{Source: src})
		var decs []trc.DecoratorFunc
		want := ""
		for i := r.Intn(4); i > 0; i-- {
			tag := fmt.Sprint(i)
			decs = append(decs, func(tr trc.Trace) trc.Trace { return &tagged{tr, tag} })
			want = tag + want
		}
		if r.Intn(2) == 0 {
			col.SetDecorators(decs...)
		} else {
			col = trc.NewCollector(trc.CollectorConfig{Source: src, Decorators: decs})
		}
		count := 0
		byCat := map[string]int{}
		size := 1000
		ctx := context.WithValue(context.Background(), key{}, k)
		hist := fmt.Sprintf("%d decorators:", len(decs))
		for i := 0; i < 12; i++ {
			cat := []string{"a", "b", "", "%d", "c d"}[r.Intn(5)]
			switch r.Intn(3) {
			case 0, 1: // new
				base := ctx
				if r.Intn(3) == 0 {
					c2, cancel := context.WithCancel(ctx)
					defer cancel()
					base = c2
				}
				lo := time.Now()
				nctx, tr := col.NewTrace(base, cat)
				hi := time.Now()
				count++
				byCat[cat]++
				hist += fmt.Sprintf(" new(%q)", cat)
				if tr.Source() != src || tr.Category() != cat || tr.Finished() || tr.Errored() || len(tr.Events()) != 0 || tr.Started().Before(lo) || tr.Started().After(hi) {
					t.Fatalf("%s: new trace has source %q, category %q, %d events", hist, tr.Source(), tr.Category(), len(tr.Events()))
				}
				eq(t, hist+": decorators", tags(tr), want)
				if got, ok := trc.MaybeGet(nctx); !ok || got != tr || trc.Get(nctx) != tr || eztrc.Get(nctx) != tr {
					t.Fatalf("%s: the returned context carries %v", hist, got)
				}
				if nctx.Value(key{}) != k {
					t.Fatalf("%s: the context lost a value", hist)
				}
				if _, ok := trc.MaybeGet(base); ok {
					t.Fatalf("%s: the given context was changed", hist)
				}
				if r.Intn(2) == 0 {
					// again, in the derived context
					d := context.WithValue(nctx, "x", 1)
					for j := 1; j <= 3; j++ {
						other := []string{"a", "zz", "%s"}[r.Intn(3)]
						hist += fmt.Sprintf(" again(%q)", other)
						ctx3, tr3 := col.NewTrace(d, other)
						if ctx3 != d || tr3 != tr {
							t.Fatalf("%s: not the same trace and context", hist)
						}
						evs := tr.Events()
						eq(t, hist+": events", len(evs), j)
						eq(t, hist+": last event", evs[j-1].What, "(+ "+other+")")
						eq(t, hist+": error mark", evs[j-1].IsError, false)
					}
				}
				if r.Intn(3) == 0 {
					tr.Finish()
				}
				got := trc.SearchRequest{Filter: trc.Filter{IDs: []string{tr.ID()}}}
				res, err := col.Search(context.Background(), &got)
				if err != nil || len(res.Traces) != 1 || res.Traces[0].Category() != cat {
					t.Fatalf("%s: collected %d times, %v", hist, len(res.Traces), err)
				}
			case 2: // a foreign trace in the context is used as well
				f := &fake{id: "foreign"}
				fctx, _ := trc.Put(ctx, f)
				nctx, tr := col.NewTrace(fctx, cat)
				hist += fmt.Sprintf(" foreign(%q)", cat)
				if nctx != fctx || tr != trc.Trace(f) || len(f.calls) != 1 || !strings.HasSuffix(f.calls[0], "Tracef (+ "+cat+")") || strings.Contains(f.calls[0], "Error") {
					t.Fatalf("%s: the foreign trace got %q", hist, f.calls)
				}
			}
			res, err := col.Search(context.Background(), &trc.SearchRequest{})
			if err != nil {
				t.Fatal(err)
			}
			eq(t, hist+": total", res.TotalCount, count)
			for c, n := range byCat {
				eq(t, hist+": category "+c, res.Stats.Categories[c].TotalCount(), n)
			}
		}
		_ = size
		note(t, "%s", hist)
	}
}

func TestC18_orphan(t *testing.T) {
	if tr, ok := trc.MaybeGet(context.Background()); ok || tr != nil {
		t.Fatalf("empty context gives %v", tr)
	}
	tr := trc.Get(context.Background())
	if tr == nil {
		t.Fatal("no orphan")
	}
	tr.Tracef("x")
	if trc.Get(context.Background()) == tr {
		t.Fatal("orphan is shared")
	}
	// the innermost trace wins, and outer contexts keep theirs
	a, b := newTrace("a"), newTrace("b")
	c1, _ := trc.Put(context.Background(), a)
	c2, _ := trc.Put(c1, b)
	if trc.Get(c1) != a || trc.Get(c2) != b {
		t.Fatal("Put does not shadow")
	}
	note(t, "orphans and shadowing")
}

func TestC18_newFunc(t *testing.T) {
	for n := 0; n < 4; n++ {
		var ds []trc.DecoratorFunc
		want := ""
		for i := 0; i < n; i++ {
			tag := fmt.Sprint(i)
			ds = append(ds, func(tr trc.Trace) trc.Trace { return &tagged{tr, tag} })
			want = tag + want
		}
		ctx, tr := trc.New(context.Background(), "s", "c", ds...)
		if trc.Get(ctx) != tr || tr.Source() != "s" || tr.Category() != "c" || tags(tr) != want {
			t.Fatalf("New with %d decorators: %s/%s/%s", n, tr.Source(), tr.Category(), tags(tr))
		}
		note(t, "%d decorators", n)
	}
}
