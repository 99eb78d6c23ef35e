package verifharness

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

type answer struct {
	res   *trc.SearchResponse
	err   error
	delay chan struct{}
	n     atomic.Int32
	lim   int
}

func (a *answer) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	a.n.Add(1)
	if a.delay != nil {
		<-a.delay
	}
	return a.res, a.err
}

func TestC16_aggregate(t *testing.T) {
	r := newRand(16)
	for k := 0; k < iters(300); k++ {
		bucketing := randBucketing(r)
		n := r.Intn(6)
		var ms trc.MultiSearcher
		var as []*answer
		m := map[string]*mCat{}
		sources := map[string]bool{}
		total, match, failed := 0, 0, 0
		var problems []string
		var traces []*trc.StaticTrace
		hist := fmt.Sprintf("%d searchers:", n)
		for i := 0; i < n; i++ {
			a := &answer{}
			kind := r.Intn(6)
			hist += fmt.Sprintf(" %d", kind)
			if kind <= 3 {
				a.res = &trc.SearchResponse{TotalCount: r.Intn(50), MatchCount: r.Intn(20)}
				for j := r.Intn(4); j > 0; j-- {
					a.res.Sources = append(a.res.Sources, fmt.Sprintf("s%d", r.Intn(5)))
				}
				for j := r.Intn(3); j > 0; j-- {
					a.res.Problems = append(a.res.Problems, fmt.Sprintf("p%d.%d", i, j))
				}
				for j := r.Intn(6); j > 0; j-- {
					a.res.Traces = append(a.res.Traces, &trc.StaticTrace{TraceID: fmt.Sprintf("t%d.%d", i, j), TraceStarted: epoch.Add(time.Duration(r.Intn(8)) * time.Second)})
				}
				if r.Intn(5) > 0 {
					a.res.Stats = trc.NewSearchStats(append([]time.Duration{}, bucketing...))
					for j := r.Intn(4); j > 0; j-- {
						f := randFake(r, j)
						a.res.Stats.Observe(f)
						observeModel(m, bucketing, f)
					}
				}
				for _, s := range a.res.Sources {
					sources[s] = true
				}
				total += a.res.TotalCount
				match += a.res.MatchCount
				problems = append(problems, a.res.Problems...)
				traces = append(traces, a.res.Traces...)
			}
			if kind >= 3 && kind < 5 {
				a.err = fmt.Errorf("failure %d", i)
			}
			if kind >= 3 { // error, or nothing
				failed++
			}
			as = append(as, a)
			ms = append(ms, a)
		}
		// answers come in a random order
		perm := r.Perm(n)
		for i := range as {
			as[i].delay = make(chan struct{})
		}
		go func() {
			for _, i := range perm {
				close(as[i].delay)
			}
		}()
		limit := r.Intn(14) - 1
		req := &trc.SearchRequest{Bucketing: append([]time.Duration{}, bucketing...), Limit: limit}
		badQuery := r.Intn(5) == 0
		if badQuery {
			req.Filter.Query = "("
		}
		hist += fmt.Sprintf(" limit %d, bad query %v", limit, badQuery)
		var res *trc.SearchResponse
		var err error
		mustPanicFree(t, hist, func() { res, err = ms.Search(context.Background(), req) })
		if err != nil {
			t.Fatalf("%s: %v", hist, err)
		}
		if res == nil {
			t.Fatalf("%s: no response", hist)
		}
		for i, a := range as {
			if a.n.Load() != 1 {
				t.Fatalf("%s: searcher %d was asked %d times", hist, i, a.n.Load())
			}
		}
		eq(t, hist+": total", res.TotalCount, total)
		eq(t, hist+": match", res.MatchCount, match)
		var ws []string
		for s := range sources {
			ws = append(ws, s)
		}
		sort.Strings(ws)
		eq(t, hist+": sources", res.Sources, ws)
		checkStats(t, hist, res.Stats, m)
		// problems
		wantN := len(problems) + failed
		if badQuery {
			wantN++
		}
		if len(res.Problems) != wantN {
			t.Fatalf("%s: problems %q, want %d of them", hist, res.Problems, wantN)
		}
		all := strings.Join(res.Problems, "\n")
		for _, p := range problems {
			if !strings.Contains(all, p) {
				t.Fatalf("%s: problem %q is missing in %q", hist, p, res.Problems)
			}
		}
		for _, a := range as {
			if a.err != nil && !strings.Contains(all, a.err.Error()) {
				t.Fatalf("%s: failure %q is missing in %q", hist, a.err, res.Problems)
			}
		}
		// traces
		sort.Slice(traces, func(i, j int) bool {
			if !traces[i].TraceStarted.Equal(traces[j].TraceStarted) {
				return traces[i].TraceStarted.After(traces[j].TraceStarted)
			}
			return traces[i].TraceID > traces[j].TraceID
		})
		lim := limit
		if lim <= 0 {
			lim = 10
		}
		if len(traces) > lim {
			traces = traces[:lim]
		}
		eq(t, hist+": number of traces", len(res.Traces), len(traces))
		seen := map[*trc.StaticTrace]bool{}
		for i := range traces {
			if seen[res.Traces[i]] {
				t.Fatalf("%s: trace %s twice", hist, res.Traces[i].TraceID)
			}
			seen[res.Traces[i]] = true
			if !res.Traces[i].TraceStarted.Equal(traces[i].TraceStarted) {
				t.Fatalf("%s: trace %d started %v, want %v", hist, i, res.Traces[i].TraceStarted, traces[i].TraceStarted)
			}
			if res.Traces[i].TraceID != traces[i].TraceID {
				t.Fatalf("%s: trace %d is %s, want %s", hist, i, res.Traces[i].TraceID, traces[i].TraceID)
			}
		}
		note(t, "%s", hist)
	}
}

func TestC16_unshared(t *testing.T) {
	// the answers are not changed, and searching twice does not add up
	col := trc.NewDefaultCollector()
	for i := 0; i < 5; i++ {
		_, tr := col.NewTrace(context.Background(), "c")
		tr.Tracef("x")
		tr.Finish()
	}
	fixed, _ := col.Search(context.Background(), &trc.SearchRequest{})
	was := describe(fixed.Stats)
	ms := trc.MultiSearcher{&answer{res: fixed}, &answer{res: fixed}, col}
	for i := 0; i < 3; i++ {
		res, err := ms.Search(context.Background(), &trc.SearchRequest{})
		if err != nil {
			t.Fatal(err)
		}
		eq(t, "total", res.TotalCount, 15)
		eq(t, "statistics", res.Stats.Categories["c"].TotalCount(), 15)
		eq(t, "events", res.Stats.Categories["c"].EventCount, 15)
		eq(t, "answer's statistics", describe(fixed.Stats), was)
		eq(t, "answer's traces", len(fixed.Traces), 5)
	}
	note(t, "three searches")
}

func TestRaceC16_collectors(t *testing.T) {
	a, b := trc.NewDefaultCollector(), trc.NewDefaultCollector()
	a.SetSourceName("a")
	b.SetSourceName("b")
	ms := trc.MultiSearcher{a, b, &answer{err: errors.New("no")}}
	stop := make(chan struct{})
	var wg, sg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				_, tr := a.NewTrace(context.Background(), "c")
				tr.Tracef("x")
				tr.Finish()
			}
		}()
	}
	for i := 0; i < 3; i++ {
		sg.Add(1)
		go func() {
			defer sg.Done()
			for j := 0; j < iters(5); j++ {
				ctx, tr := b.NewTrace(context.Background(), "search")
				res, err := ms.Search(ctx, &trc.SearchRequest{Limit: 5, Filter: trc.Filter{Query: "x"}, Bucketing: []time.Duration{3, 2, 1, -1}})
				if err != nil || res == nil || len(res.Problems) != 1 {
					t.Errorf("search: %v", err)
				}
				tr.Finish()
			}
		}()
	}
	within(t, 100*time.Second, "searches", sg.Wait)
	close(stop)
	wg.Wait()
	note(t, "two collectors under load")
}
