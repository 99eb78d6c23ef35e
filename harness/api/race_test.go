package verifharness

import (
	"context"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

// Every owner uses its trace only until it has finished it. Meanwhile traces are
// evicted and recycled, searched and streamed.
func TestRaceC22_everything(t *testing.T) {
	for k := 0; k < iters(4); k++ {
		col := trc.NewDefaultCollector()
		if k%2 == 1 {
			col.SetDecorators(trc.LogDecorator(io.Discard))
		}
		col.SetCategorySize(2)
		stop := make(chan struct{})
		var wg, bg sync.WaitGroup
		background := func(f func()) {
			bg.Add(1)
			go func() {
				defer bg.Done()
				for {
					select {
					case <-stop:
						return
					default:
						f()
					}
				}
			}()
		}
		background(func() {
			res, err := col.Search(context.Background(), &trc.SearchRequest{Limit: 5, Filter: trc.Filter{Query: "x"}})
			if err != nil {
				t.Error(err)
				return
			}
			for _, st := range res.Traces {
				dumpStatic(st)
			}
		})
		background(func() {
			ch := make(chan trc.Trace, 2)
			ctx, cancel := context.WithTimeout(context.Background(), 2*time.Millisecond)
			defer cancel()
			col.Stream(ctx, trc.Filter{}, ch)
			for len(ch) > 0 {
				dumpStatic((<-ch).(*trc.StaticTrace))
			}
		})
		var n atomic.Int32
		background(func() {
			col.SetCategorySize(1 + int(n.Add(1))%3)
			time.Sleep(time.Millisecond)
		})
		background(func() {
			trc.SetTraceMaxEvents(10 + int(n.Load())%3)
			trc.SetTraceStacks(n.Load()%2 == 0)
		})
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for j := 0; j < 100; j++ {
					ctx, tr := col.NewTrace(context.Background(), fmt.Sprint(i%2))
					var ww sync.WaitGroup
					for g := 0; g < 2; g++ {
						ww.Add(1)
						go func(g int) {
							defer ww.Done()
							_, p := trc.Prefix(ctx, "%d", g)
							for e := 0; e < 8; e++ {
								emit(p, (e+g)%4, "x %d", e)
							}
							p.Events()
							p.Duration()
							p.Errored()
							p.Finished()
						}(g)
					}
					ww.Wait()
					tr.Finish()
				}
			}(i)
		}
		within(t, 120*time.Second, "workers", wg.Wait)
		close(stop)
		within(t, 120*time.Second, "background", bg.Wait)
		note(t, "run %d", k)
	}
	trc.SetTraceMaxEvents(1000)
	trc.SetTraceStacks(true)
}

// A stream of finished traces only ever carries whole traces.
func TestRaceC22_finishWhileEvicted(t *testing.T) {
	for k := 0; k < iters(2); k++ {
		col := trc.NewDefaultCollector()
		if k%2 == 1 {
			col.SetDecorators(trc.LogDecorator(io.Discard))
		}
		col.SetCategorySize(1)
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan trc.Trace, 100)
		done := make(chan struct{})
		go func() {
			defer close(done)
			col.Stream(ctx, trc.Filter{IsFinished: true}, ch)
			close(ch)
		}()
		seen := map[string]int{}
		recv := make(chan struct{})
		go func() {
			defer close(recv)
			for tr := range ch {
				seen[tr.ID()]++
				evs := tr.Events()
				if len(evs) != 2 || evs[0].What != tr.Category() || evs[1].What != tr.Category()+"." {
					t.Errorf("streamed a finished trace of category %q with events %q", tr.Category(), texts(evs))
				}
			}
		}()
		var wg sync.WaitGroup
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for j := 0; j < 300; j++ {
					cat := fmt.Sprint(j % 2)
					_, tr := col.NewTrace(context.Background(), cat)
					tr.Tracef("%s", cat)
					tr.LazyTracef("%s.", cat)
					tr.Finish()
				}
			}(i)
		}
		within(t, 120*time.Second, "workers", wg.Wait)
		cancel()
		<-done
		<-recv
		for id, n := range seen {
			if n > 1 {
				t.Errorf("trace %s was streamed as finished %d times", id, n)
			}
		}
		note(t, "run %d", k)
	}
}
