package verifharness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
)

// valid is some text that JSON can carry.
func valid(r *rand.Rand) string {
	base := []string{"", "a", "b c", "a&b=c", "100%", "ü→", "\n", "a\r\nb", "\x00", "'\"<>", "\u2028", "{}", "  ", "data: x\n\nevent: trace", "\\", strings.Repeat("long ", 3000)}
	return base[r.Intn(len(base))]
}

func someTime(r *rand.Rand) time.Time {
	return []time.Time{{}, time.Unix(0, 1).UTC(), time.Unix(1700000000, 123456789).UTC(), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC)}[r.Intn(4)].Add(-time.Duration(0))
}

func someDur(r *rand.Rand) time.Duration {
	return []time.Duration{0, 1, -1, time.Second, math.MaxInt64, math.MinInt64, 123456789}[r.Intn(7)]
}

func someStatic(r *rand.Rand) *trc.StaticTrace {
	b := func() bool { return r.Intn(2) == 0 }
	s := &trc.StaticTrace{TraceSource: valid(r), TraceID: valid(r), TraceCategory: valid(r), TraceStarted: someTime(r), TraceDuration: someDur(r), TraceFinished: b(), TraceErrored: b()}
	for n := r.Intn(4); n > 0; n-- {
		ev := trc.Event{When: someTime(r), What: valid(r), IsError: b()}
		for m := r.Intn(4); m > 0; m-- {
			ev.Stack = append(ev.Stack, trc.Frame{Function: valid(r), FileLine: valid(r)})
		}
		s.TraceEvents = append(s.TraceEvents, ev)
	}
	return s
}

func staticString(s *trc.StaticTrace) string {
	if s == nil {
		return "nil"
	}
	out := fmt.Sprintf("source %q id %q category %q started %s duration %d finished %v errored %v", s.Source(), s.ID(), s.Category(), s.Started().UTC().Format(time.RFC3339Nano), s.Duration(), s.Finished(), s.Errored())
	for _, ev := range s.Events() {
		out += fmt.Sprintf(" [%s %q %v", ev.When.UTC().Format(time.RFC3339Nano), ev.What, ev.IsError)
		for _, f := range ev.Stack {
			out += fmt.Sprintf(" (%q %q)", f.Function, f.FileLine)
		}
		out += "]"
	}
	return out
}

func responseString(res *trc.SearchResponse) string {
	out := fmt.Sprintf("sources %q total %d matched %d problems %q duration %d\n", res.Sources, res.TotalCount, res.MatchCount, res.Problems, res.Duration)
	for _, tr := range res.Traces {
		out += "trace " + staticString(tr) + "\n"
	}
	if st := res.Stats; st != nil {
		out += fmt.Sprintf("bucketing %v\n", st.Bucketing)
		for _, c := range st.AllCategories() {
			out += fmt.Sprintf("category %q events %d active %d buckets %v errored %d oldest %s newest %s\n", c.Category, c.EventCount, c.ActiveCount, c.BucketCounts, c.ErroredCount, c.Oldest.UTC().Format(time.RFC3339Nano), c.Newest.UTC().Format(time.RFC3339Nano))
		}
	}
	return out
}

// differ shows where two texts part.
func differ(t *testing.T, what, have, want string) {
	t.Helper()
	if have == want {
		return
	}
	i := 0
	for i < len(have) && i < len(want) && have[i] == want[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+200
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	t.Fatalf("%s:\n  sent     ...%s\n  received ...%s", what, cut(want), cut(have))
}

// What the searcher behind a server answers is what a search client gets, and
// what the client asks is what the searcher is asked.
func TestC25_search(t *testing.T) {
	r := newRand(25)
	var asked trc.SearchRequest
	var answer *trc.SearchResponse
	calls := 0
	srv := httptest.NewServer(&trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Searcher: searchFunc(func(_ context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
		asked = *req
		calls++
		return answer, nil
	})})
	defer func() { go srv.Close() }()
	c := trcweb.NewSearchClient(srv.Client(), srv.URL)
	for k := 0; k < iters(250); k++ {
		req := trc.SearchRequest{Filter: oddFilter(r), Limit: 1 + r.Intn(250), StackDepth: r.Intn(5) - 1, Bucketing: trc.DefaultBucketing}
		req.Filter.Category = valid(r)
		for i := range req.Filter.Sources {
			req.Filter.Sources[i] = valid(r)
		}
		for i := range req.Filter.IDs {
			req.Filter.IDs[i] = valid(r)
		}
		if r.Intn(2) == 0 {
			req.Bucketing = []time.Duration{0, time.Second, time.Hour}
		}
		want := req
		want.Normalize()
		res := &trc.SearchResponse{TotalCount: r.Intn(1000), MatchCount: r.Intn(1000), Duration: someDur(r), Stats: trc.NewSearchStats(want.Bucketing)}
		for n := r.Intn(4); n > 0; n-- {
			res.Sources = append(res.Sources, valid(r))
			res.Problems = append(res.Problems, valid(r))
		}
		for n := r.Intn(5); n > 0; n-- {
			s := someStatic(r)
			res.Traces = append(res.Traces, s)
			res.Stats.Observe(s)
		}
		answer = res
		before := calls
		got, err := c.Search(context.Background(), &req)
		if err != nil || got == nil {
			t.Fatalf("search %s: %v, %v", req, got, err)
		}
		eq(t, "searches made by the server", calls-before, 1)
		differ(t, "filter asked for", filterString(asked.Filter), filterString(want.Filter))
		eq(t, "limit asked for", asked.Limit, want.Limit)
		eq(t, "stack depth asked for", asked.StackDepth, want.StackDepth)
		eq(t, "bucketing asked for", asked.Bucketing, want.Bucketing)
		differ(t, "response", responseString(got), responseString(res))
		note(t, "%s", responseString(res))
	}
}

// A remote collector answers like the collector itself.
func TestC25_collector(t *testing.T) {
	r := newRand(251)
	for k := 0; k < iters(10); k++ {
		c := trc.NewCollector(trc.CollectorConfig{Source: "here"})
		for i := 0; i < 40; i++ {
			_, tr := c.NewTrace(context.Background(), fmt.Sprint("cat", r.Intn(3)))
			for n := r.Intn(5); n > 0; n-- {
				if r.Intn(4) == 0 {
					tr.Errorf("error %d %s", n, valid(r))
				} else {
					tr.Tracef("event %d %s", n, valid(r))
				}
			}
			tr.Finish()
		}
		srv := httptest.NewServer(trcweb.NewTraceServer(c))
		for j := 0; j < 10; j++ {
			req := trc.SearchRequest{Limit: 1 + r.Intn(60), StackDepth: r.Intn(4) - 1}
			req.Filter.IsErrored = r.Intn(2) == 0
			if r.Intn(2) == 0 {
				req.Filter.Category = "cat1"
			}
			if r.Intn(2) == 0 {
				req.Filter.Query = "event [12]"
			}
			here, there := req, req
			want, err := c.Search(context.Background(), &here)
			if err != nil {
				t.Fatal(err)
			}
			got, err := trcweb.NewSearchClient(srv.Client(), strings.TrimPrefix(srv.URL, "http://")).Search(context.Background(), &there)
			if err != nil {
				t.Fatal(err)
			}
			want.Duration, got.Duration = 0, 0
			differ(t, "response of the collector", responseString(got), responseString(want))
			note(t, "%s", req)
		}
		go srv.Close()
	}
}

type doFunc func(*http.Request) (*http.Response, error)

func (f doFunc) Do(r *http.Request) (*http.Response, error) { return f(r) }

type closeReader struct {
	io.Reader
	closed int
	eof    bool
}

func (c *closeReader) Close() error { c.closed++; return nil }
func (c *closeReader) Read(p []byte) (int, error) {
	n, err := c.Reader.Read(p)
	if err == io.EOF {
		c.eof = true
	}
	return n, err
}

// Whatever goes wrong is an error without a response, and a response body is
// always closed.
func TestC25_failures(t *testing.T) {
	good, _ := json.Marshal(trcweb.SearchData{Response: trc.SearchResponse{TotalCount: 7, Stats: trc.NewSearchStats(nil)}})
	for code := 200; code < 600; code++ {
		for _, body := range []string{"", "{", "null", "{}", "[]", `{"response":3}`, string(good), string(good) + "x", string(good[:len(good)-1]), strings.Repeat(" ", 5000), `{"response":null}`, `{"error":"x"}`} {
			if code > 210 && code%50 > 5 && len(body) != len(good) {
				continue
			}
			rc := &closeReader{Reader: strings.NewReader(body)}
			n := 0
			c := trcweb.NewSearchClient(doFunc(func(r *http.Request) (*http.Response, error) {
				n++
				return &http.Response{StatusCode: code, Body: rc, Header: http.Header{}}, nil
			}), "http://x")
			var (
				res *trc.SearchResponse
				err error
			)
			mustPanicFree(t, fmt.Sprintf("HTTP %d %q", code, body), func() { res, err = c.Search(context.Background(), &trc.SearchRequest{}) })
			var data trcweb.SearchData
			ok := code == 200 && json.NewDecoder(strings.NewReader(body)).Decode(&data) == nil
			if ok != (err == nil) || ok != (res != nil) {
				t.Fatalf("HTTP %d with body %q: response %v, error %v", code, body, res, err)
			}
			if ok && responseString(res) != responseString(&data.Response) {
				t.Fatalf("HTTP %d with body %q: response %v", code, body, res)
			}
			if rc.closed == 0 {
				t.Fatalf("HTTP %d with body %q: the body is not closed", code, body)
			}
			eq(t, "requests", n, 1)
			note(t, "HTTP %d %q", code, body)
		}
	}
	res, err := trcweb.NewSearchClient(doFunc(func(*http.Request) (*http.Response, error) { return nil, errors.New("broken") }), "http://x").Search(context.Background(), &trc.SearchRequest{})
	if err == nil || res != nil {
		t.Fatalf("no connection: response %v, error %v", res, err)
	}
	res, err = trcweb.NewSearchClient(http.DefaultClient, "http://x y\x7f").Search(context.Background(), &trc.SearchRequest{})
	if err == nil || res != nil {
		t.Fatalf("bad URI: response %v, error %v", res, err)
	}
	// the request is made with the context
	type key struct{}
	ctx := context.WithValue(context.Background(), key{}, 42)
	trcweb.NewSearchClient(doFunc(func(r *http.Request) (*http.Response, error) {
		eq(t, "context of the request", r.Context().Value(key{}), any(42))
		b, _ := io.ReadAll(r.Body)
		var req trc.SearchRequest
		if err := json.NewDecoder(bytes.NewReader(b)).Decode(&req); err != nil || req.Limit != 33 {
			t.Fatalf("request body %q: %v", b, err)
		}
		return nil, errors.New("enough")
	}), "http://x").Search(ctx, &trc.SearchRequest{Limit: 33})
	note(t, "no connection, bad URI, context")
}

// feedStreamer sends given traces.
type feedStreamer struct {
	traces []trc.Trace
}

func (s *feedStreamer) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	for _, tr := range s.traces {
		select {
		case ch <- tr:
		case <-ctx.Done():
		}
	}
	<-ctx.Done()
	return trc.StreamStats{}, ctx.Err()
}

func (s *feedStreamer) StreamStats(ctx context.Context, ch chan<- trc.Trace) (trc.StreamStats, error) {
	return trc.StreamStats{}, nil
}

// What the streamer behind a server sends arrives at the stream client, in
// order, once.
func TestC25_stream(t *testing.T) {
	r := newRand(252)
	for k := 0; k < iters(12); k++ {
		fs := &feedStreamer{}
		for n := r.Intn(60); n >= 0; n-- {
			fs.traces = append(fs.traces, someStatic(r))
		}
		srv := httptest.NewServer(&trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Streamer: fs})
		c := trcweb.NewStreamClient(srv.URL)
		c.SendBuffer = r.Intn(3)
		c.RetryInterval = time.Second
		var (
			mtx   sync.Mutex
			types []string
		)
		c.OnRead = func(_ context.Context, typ string, _ []byte) {
			mtx.Lock()
			types = append(types, typ)
			mtx.Unlock()
		}
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan trc.Trace, r.Intn(3))
		done := make(chan error, 1)
		go func() { done <- c.Stream(ctx, trc.Filter{}, ch) }()
		var all []*trc.StaticTrace
		for i, want := range fs.traces {
			select {
			case got := <-ch:
				all = append(all, got.(*trc.StaticTrace))
				differ(t, fmt.Sprintf("streamed trace %d of %d", i+1, len(fs.traces)), staticString(got.(*trc.StaticTrace)), staticString(want.(*trc.StaticTrace)))
			case err := <-done:
				t.Fatalf("the stream ended after %d of %d traces: %v", i, len(fs.traces), err)
			case <-time.After(60 * time.Second):
				t.Fatalf("no trace %d of %d within a minute", i+1, len(fs.traces))
			}
		}
		select {
		case got := <-ch:
			t.Fatalf("a trace too many: %s", staticString(got.(*trc.StaticTrace)))
		case <-time.After(20 * time.Millisecond):
		}
		cancel()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			t.Fatalf("the stream does not end with its context")
		}
		for i, want := range fs.traces {
			differ(t, fmt.Sprintf("streamed trace %d of %d, later", i+1, len(fs.traces)), staticString(all[i]), staticString(want.(*trc.StaticTrace)))
		}
		mtx.Lock()
		n := 0
		for _, typ := range types {
			if typ == "trace" {
				n++
			}
		}
		mtx.Unlock()
		eq(t, "trace events seen by OnRead", n, len(fs.traces))
		note(t, "%d traces", len(fs.traces))
		go srv.Close()
	}
}
