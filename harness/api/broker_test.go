package verifharness

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

type sub struct {
	name   string
	ch     chan trc.Trace
	filter trc.Filter
	cancel context.CancelFunc
	done   chan struct{}
	stats  trc.StreamStats
	err    error
	want   trc.StreamStats
	expect []string // IDs in the channel
}

// wait until the subscription is in place (or not any more)
func waitSub(t *testing.T, b *trc.Broker, ch chan trc.Trace, want bool) {
	t.Helper()
	for i := 0; i < 5000; i++ {
		if _, err := b.StreamStats(context.Background(), ch); (err == nil) == want {
			return
		}
		time.Sleep(time.Millisecond)
	}
	t.Fatalf("subscription did not become %v", want)
}

func subscribe(t *testing.T, b *trc.Broker, name string, f trc.Filter, ch chan trc.Trace) *sub {
	ctx, cancel := context.WithCancel(context.Background())
	s := &sub{name: name, ch: ch, filter: f, cancel: cancel, done: make(chan struct{})}
	go func() {
		defer close(s.done)
		s.stats, s.err = b.Stream(ctx, f, ch)
	}()
	waitSub(t, b, ch, true)
	return s
}

func (s *sub) drain(t *testing.T, hist string, n int) {
	t.Helper()
	for ; n > 0 && len(s.expect) > 0; n-- {
		select {
		case tr := <-s.ch:
			if tr.ID() != s.expect[0] {
				t.Fatalf("%s: subscriber %s received %s, want %s", hist, s.name, tr.ID(), s.expect[0])
			}
		default:
			t.Fatalf("%s: subscriber %s received nothing, want %s", hist, s.name, s.expect[0])
		}
		s.expect = s.expect[1:]
	}
	if len(s.expect) == 0 {
		select {
		case tr := <-s.ch:
			t.Fatalf("%s: subscriber %s received an extra %s", hist, s.name, tr.ID())
		default:
		}
	}
}

func (s *sub) end(t *testing.T, hist string) {
	t.Helper()
	s.cancel()
	within(t, 20*time.Second, hist+": Stream", func() { <-s.done })
	if !errors.Is(s.err, context.Canceled) {
		t.Fatalf("%s: Stream returned error %v", hist, s.err)
	}
	if s.stats != s.want {
		t.Fatalf("%s: Stream of %s returned %v, want %v", hist, s.name, s.stats, s.want)
	}
}

func TestC15_histories(t *testing.T) {
	r := newRand(15)
	for k := 0; k < iters(60); k++ {
		b := trc.NewBroker()
		var subs []*sub
		hist := ""
		seq := 0
		for i := 0; i < 60; i++ {
			switch x := r.Intn(12); {
			case x < 2 && len(subs) < 5:
				f := randFilter(r)
				if r.Intn(2) == 0 {
					f = trc.Filter{Category: fmt.Sprintf("c%d", r.Intn(3))}
				}
				ch := make(chan trc.Trace, r.Intn(4))
				s := subscribe(t, b, fmt.Sprint("s", seq), f, ch)
				seq++
				subs = append(subs, s)
				hist += fmt.Sprintf(" %s=sub(%s,%d)", s.name, f, cap(ch))
			case x == 2 && len(subs) > 0:
				s := subs[r.Intn(len(subs))]
				hist += " resub(" + s.name + ")"
				ctx, cancel := context.WithCancel(context.Background())
				cancel()
				within(t, 20*time.Second, hist, func() {
					if _, err := b.Stream(ctx, trc.Filter{}, s.ch); err == nil || errors.Is(err, context.Canceled) {
						t.Errorf("%s: second subscription of the same channel gave error %v", hist, err)
					}
				})
			case x == 3 && len(subs) > 0:
				j := r.Intn(len(subs))
				s := subs[j]
				hist += " end(" + s.name + ")"
				s.end(t, hist)
				if _, err := b.StreamStats(context.Background(), s.ch); err == nil {
					t.Fatalf("%s: still has stats", hist)
				}
				s.drain(t, hist, 1000)
				if r.Intn(2) == 0 { // the channel can be subscribed again
					f := trc.Filter{}
					n := subscribe(t, b, fmt.Sprint("s", seq), f, s.ch)
					seq++
					subs[j] = n
					hist += fmt.Sprintf(" %s=again", n.name)
				} else {
					subs = append(subs[:j], subs[j+1:]...)
				}
			case x < 6 && len(subs) > 0:
				s := subs[r.Intn(len(subs))]
				s.drain(t, hist, 1+r.Intn(3))
				hist += " recv(" + s.name + ")"
			default:
				tr := randFake(r, i)
				tr.id = fmt.Sprintf("id%d", i) // unique within this history, id0..id5 also in filters
				hist += fmt.Sprintf(" pub(%s,%s,%s,%v,%v)", tr.id, tr.category, tr.source, tr.finished, tr.errored)
				for _, s := range subs {
					switch {
					case !allow(s.filter, trc.NewStreamTrace(tr)):
						s.want.Skips++
					case len(s.expect) < cap(s.ch):
						s.want.Sends++
						s.expect = append(s.expect, tr.id)
					default:
						s.want.Drops++
					}
				}
				within(t, 20*time.Second, hist, func() { b.Publish(context.Background(), tr) })
			}
			for _, s := range subs {
				st, err := b.StreamStats(context.Background(), s.ch)
				if err != nil {
					t.Fatalf("%s: stats of %s: %v", hist, s.name, err)
				}
				if st != s.want {
					t.Fatalf("%s: stats of %s are %v, want %v", hist, s.name, st, s.want)
				}
				if len(s.ch) != len(s.expect) {
					t.Fatalf("%s: channel of %s holds %d, want %d", hist, s.name, len(s.ch), len(s.expect))
				}
			}
		}
		for _, s := range subs {
			s.end(t, hist+" end("+s.name+")")
			s.drain(t, hist, 1000)
		}
		note(t, "%s", hist)
	}
}

func TestC15_waitingReceiver(t *testing.T) {
	// an unbuffered channel takes a trace exactly when a receiver is waiting
	b := trc.NewBroker()
	ch := make(chan trc.Trace)
	s := subscribe(t, b, "s", trc.Filter{}, ch)
	for i := 0; i < 10; i++ {
		within(t, 20*time.Second, "publish without receiver", func() { b.Publish(context.Background(), &fake{id: "x"}) })
		s.want.Drops++
		got := make(chan trc.Trace, 1)
		go func() { got <- <-ch }()
		sent := false
		for n := 0; n < 2000 && !sent; n++ {
			b.Publish(context.Background(), &fake{id: fmt.Sprint(i)})
			select {
			case tr := <-got:
				sent = true
				s.want.Sends++
				eq(t, "received", tr.ID(), fmt.Sprint(i))
			case <-time.After(time.Millisecond):
				s.want.Drops++
			}
		}
		if !sent {
			t.Fatal("a waiting receiver gets nothing")
		}
	}
	st, _ := b.StreamStats(context.Background(), ch)
	eq(t, "sum of stats", st.Sends+st.Drops+st.Skips, s.want.Sends+s.want.Drops)
	eq(t, "sends", st.Sends, 10)
	s.want = st
	s.end(t, "end")
	note(t, "10 rounds")
}

func TestC15_collector(t *testing.T) {
	// the publish decorator of the collector: creation, every event, finish
	for n := 0; n < 5; n++ {
		for _, f := range []trc.Filter{{}, {IsFinished: true}, {IsActive: true}, {IsErrored: true}, {Query: "needle"}} {
			col := trc.NewDefaultCollector()
			ch := make(chan trc.Trace, 100)
			ctx, cancel := context.WithCancel(context.Background())
			done := make(chan trc.StreamStats)
			go func() {
				st, _ := col.Stream(ctx, f, ch)
				done <- st
			}()
			for i := 0; i < 5000; i++ {
				if _, err := col.StreamStats(ctx, ch); err == nil {
					break
				}
				time.Sleep(time.Millisecond)
			}
			_, tr := col.NewTrace(context.Background(), "c")
			var want []string
			var last []string
			pub := func(finished, errored bool) {
				x := &fake{finished: finished, errored: errored, source: tr.Source(), id: tr.ID(), category: "c"}
				evs := last
				if !finished && len(evs) > 1 {
					evs = evs[len(evs)-1:]
				}
				for _, e := range evs {
					x.events = append(x.events, trc.Event{What: e})
				}
				if allow(f, x) {
					want = append(want, fmt.Sprint(finished, errored, evs))
				}
			}
			pub(false, false)
			errored := false
			for i := 0; i < n; i++ {
				what := []string{"hay", "needle", "stack"}[i%3]
				switch i % 4 {
				case 0:
					tr.Tracef("%s", what)
				case 1:
					tr.LazyTracef("%s", what)
				case 2:
					tr.LazyErrorf("%s", what)
					errored = true
				case 3:
					tr.Errorf("%s", what)
					errored = true
				}
				last = append(last, what)
				pub(false, errored)
			}
			tr.Finish()
			pub(true, errored)
			cancel()
			st := <-done
			close(ch)
			var have []string
			for x := range ch {
				have = append(have, fmt.Sprint(x.Finished(), x.Errored(), texts(x.Events())))
			}
			desc := fmt.Sprintf("filter %s, %d events", f, n)
			eq(t, desc, fmt.Sprint(have), fmt.Sprint(want))
			eq(t, desc+": stats", st, trc.StreamStats{Sends: len(want), Skips: n + 2 - len(want)})
			note(t, "%s", desc)
		}
	}
}

func TestRaceC15_concurrent(t *testing.T) {
	for k := 0; k < iters(5); k++ {
		b := trc.NewBroker()
		const pubs, each = 4, 200
		type res struct {
			st  trc.StreamStats
			got int
			ids []string
		}
		var wg, pw sync.WaitGroup
		ctx, cancel := context.WithCancel(context.Background())
		results := make([]res, 4)
		for i := range results {
			ch := make(chan trc.Trace, i*3)
			wg.Add(1)
			ready := make(chan struct{})
			stop := make(chan struct{})
			recv := make(chan struct{})
			go func(i int) {
				defer close(recv)
				close(ready)
				for {
					select {
					case tr := <-ch:
						results[i].got++
						results[i].ids = append(results[i].ids, tr.ID())
					case <-stop:
						for {
							select {
							case tr := <-ch:
								results[i].got++
								results[i].ids = append(results[i].ids, tr.ID())
							default:
								return
							}
						}
					}
				}
			}(i)
			<-ready
			go func(i int) {
				defer wg.Done()
				st, _ := b.Stream(ctx, trc.Filter{}, ch)
				results[i].st = st
				close(stop)
				<-recv
			}(i)
			waitSub(t, b, ch, true)
		}
		for i := 0; i < pubs; i++ {
			pw.Add(1)
			go func(i int) {
				defer pw.Done()
				for j := 0; j < each; j++ {
					b.Publish(context.Background(), &fake{id: fmt.Sprintf("%d:%d", i, j)})
				}
			}(i)
		}
		within(t, 60*time.Second, "publishing", pw.Wait)
		cancel()
		within(t, 60*time.Second, "streaming", wg.Wait)
		for i, r := range results {
			eq(t, "sum of stats", r.st.Sends+r.st.Drops+r.st.Skips, pubs*each)
			eq(t, fmt.Sprintf("received by %d", i), r.got, r.st.Sends)
			next := map[int]int{}
			for _, id := range r.ids {
				var p, j int
				fmt.Sscanf(id, "%d:%d", &p, &j)
				if j < next[p] {
					t.Fatalf("subscriber %d received %s after %d", i, id, next[p]-1)
				}
				next[p] = j + 1
			}
		}
		note(t, "run %d", k)
	}
}

func TestRaceC15_churn(t *testing.T) {
	b := trc.NewBroker()
	stop := make(chan struct{})
	var pw, wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		pw.Add(1)
		go func() {
			defer pw.Done()
			for {
				select {
				case <-stop:
					return
				default:
					b.Publish(context.Background(), &fake{id: "x", events: []trc.Event{{What: "foo"}}})
				}
			}
		}()
	}
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < iters(20); j++ {
				ch := make(chan trc.Trace, 3)
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(1+j%3)*time.Millisecond)
				st, err := b.Stream(ctx, trc.Filter{Query: "foo"}, ch)
				if !errors.Is(err, context.DeadlineExceeded) {
					t.Errorf("Stream returned %v", err)
				}
				cancel()
				n := len(ch)
				if n != st.Sends {
					t.Errorf("%d received, %d sends", n, st.Sends)
				}
				time.Sleep(time.Millisecond)
				if len(ch) != n {
					t.Errorf("received after the end of the subscription")
				}
			}
		}(i)
	}
	within(t, 60*time.Second, "streams", wg.Wait)
	close(stop)
	within(t, 60*time.Second, "publishers", pw.Wait)
	note(t, "4 subscribers, 2 publishers")
}
