package verifharness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/internal/trcutil"
	"github.com/peterbourgon/trc/trcweb"
)

// recStreamer records the subscription it gets.
type recStreamer struct {
	mtx    sync.Mutex
	filter trc.Filter
	cap    int
	n      int
	got    chan struct{}
}

func (s *recStreamer) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	s.mtx.Lock()
	s.filter, s.cap = f, cap(ch)
	s.n++
	s.mtx.Unlock()
	s.got <- struct{}{}
	<-ctx.Done()
	return trc.StreamStats{}, ctx.Err()
}

func (s *recStreamer) StreamStats(ctx context.Context, ch chan<- trc.Trace) (trc.StreamStats, error) {
	return trc.StreamStats{}, nil
}

func filterString(f trc.Filter) string {
	min := "nil"
	if f.MinDuration != nil {
		min = fmt.Sprint(int64(*f.MinDuration))
	}
	return fmt.Sprintf("sources %q ids %q category %q active %v finished %v min %s success %v errored %v query %q", f.Sources, f.IDs, f.Category, f.IsActive, f.IsFinished, min, f.IsSuccess, f.IsErrored, f.Query)
}

func odd(r *rand.Rand) string {
	base := []string{"", "a", "b c", "a&b=c", "x+y", "100%", "ü→", ";", "a/b?c#d", "\n", "\x00", "\xff\xfe", "'\"<>", "a,b", "  ", "true", "0", "=", "&", "source=1"}
	return base[r.Intn(len(base))]
}

func oddFilter(r *rand.Rand) trc.Filter {
	var f trc.Filter
	for n := r.Intn(4); n > 0; n-- {
		f.Sources = append(f.Sources, odd(r))
	}
	for n := r.Intn(4); n > 0; n-- {
		f.IDs = append(f.IDs, odd(r))
	}
	f.Category = odd(r)
	b := func() bool { return r.Intn(2) == 0 }
	f.IsActive, f.IsFinished, f.IsSuccess, f.IsErrored = b(), b(), b(), b()
	if b() {
		d := []time.Duration{0, 1, 999, -1, time.Microsecond, 1500 * time.Microsecond, time.Second, 61 * time.Minute, math.MaxInt64, math.MinInt64, -time.Hour, 123456789, math.MaxInt64 - 1}[r.Intn(13)]
		f.MinDuration = &d
	}
	if b() {
		f.Query = []string{"a", "foo bar", "^a.*b$", "a+b", "[&=]", `\d+`, "100%", "ü", "(?i)x", "a|b", "#", " ", "[[:alpha:]]", ";", "\\+", "a&b"}[r.Intn(16)]
	}
	return f
}

func TestC19_roundTrip(t *testing.T) {
	r := newRand(19)
	rs := &recStreamer{got: make(chan struct{}, 10)}
	srv := httptest.NewServer(&trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Streamer: rs})
	defer func() { go srv.Close() }()
	// The client is pointed at a server which keeps the request and ends the
	// stream (204); then the request is made again to the trace server.
	var query string
	capture := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		query = r.URL.RawQuery
		w.WriteHeader(http.StatusNoContent)
	}))
	defer func() { go capture.Close() }()
	roundTrip := func(f trc.Filter) {
		t.Helper()
		before := filterString(f)
		c := trcweb.NewStreamClient(capture.URL)
		within(t, 30*time.Second, "filter "+before+": client", func() { c.Stream(context.Background(), f, make(chan trc.Trace)) })
		if filterString(f) != before {
			t.Fatalf("encoding changed the filter %s", before)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		req, _ := http.NewRequestWithContext(ctx, "GET", srv.URL+"/?"+query, nil)
		req.Header.Set("accept", "text/event-stream")
		res, err := srv.Client().Do(req)
		if err != nil {
			t.Fatalf("filter %s: %v", before, err)
		}
		defer res.Body.Close()
		select {
		case <-rs.got:
		case <-time.After(30 * time.Second):
			t.Fatalf("filter %s: the server does not stream", before)
		}
		rs.mtx.Lock()
		have := filterString(rs.filter)
		rs.mtx.Unlock()
		if have != before {
			t.Fatalf("filter changed on the way:\n  sent     %s\n  received %s", before, have)
		}
		note(t, "filter %s", before)
	}
	roundTrip(trc.Filter{})
	dur := []time.Duration{0, 1, -1, time.Nanosecond * 12345, time.Second, math.MaxInt64, math.MinInt64, 36 * time.Hour}
	for i := range dur {
		roundTrip(trc.Filter{MinDuration: &dur[i]})
	}
	for bits := 0; bits < 16; bits++ {
		roundTrip(trc.Filter{IsActive: bits&1 > 0, IsFinished: bits&2 > 0, IsSuccess: bits&4 > 0, IsErrored: bits&8 > 0})
	}
	for n := 1; n < 5; n++ {
		f := trc.Filter{}
		for i := 0; i < n; i++ {
			f.Sources = append(f.Sources, fmt.Sprint("s", i%3))
			f.IDs = append(f.IDs, fmt.Sprint("i", n-i))
		}
		roundTrip(f)
	}
	for k := 0; k < iters(150); k++ {
		roundTrip(oddFilter(r))
	}
}

// stub searcher
type searchFunc func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error)

func (f searchFunc) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	return f(ctx, req)
}

func TestC20_params(t *testing.T) {
	r := newRand(20)
	var got trc.SearchRequest
	srv := &trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Searcher: searchFunc(func(_ context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
		got = *req
		return &trc.SearchResponse{Request: req, Stats: trc.NewSearchStats(req.Bucketing)}, nil
	})}
	type lim struct {
		s    string
		want int
	}
	lims := []lim{{"", 10}, {"1", 1}, {"2", 2}, {"0", 1}, {"-1", 1}, {"-9999999999", 1}, {"249", 249}, {"250", 250}, {"251", 250}, {"100000000", 250}, {"x", 10}, {"1.5", 10}, {"10x", 10}, {"99999999999999999999", 10}, {" 7", 10}, {"+7", 7}, {"0x10", 10}, {"17", 17}, {"10", 10}}
	type bucket struct {
		in   []string
		want []time.Duration
	}
	ms := time.Millisecond
	buckets := []bucket{
		{nil, trc.DefaultBucketing}, {[]string{"x"}, trc.DefaultBucketing}, {[]string{"5ms"}, []time.Duration{0, 5 * ms}}, {[]string{"5ms", "1ms", "junk", "3ms"}, []time.Duration{0, ms, 3 * ms, 5 * ms}},
		{[]string{"0s"}, []time.Duration{0}}, {[]string{"-1s", "1ms"}, []time.Duration{0, ms}}, {[]string{"-1s", "-2s"}, []time.Duration{0}}, {[]string{"", "7"}, trc.DefaultBucketing}, {[]string{"2ms", "0s", "1ms"}, []time.Duration{0, ms, 2 * ms}}, {[]string{"1ms", "1ms"}, []time.Duration{0, ms, ms}},
	}
	for _, l := range lims {
		for _, b := range buckets {
			q := url.Values{}
			if l.s != "" {
				q.Set("n", l.s)
			}
			q["b"] = b.in
			f := oddFilter(r)
			q["source"], q["id"] = f.Sources, f.IDs
			if f.Category != "" {
				q.Set("category", f.Category)
			}
			req := httptest.NewRequest("GET", "http://x/?"+q.Encode(), nil)
			req.Header.Set("accept", "application/json")
			rec := httptest.NewRecorder()
			desc := fmt.Sprintf("limit %q, buckets %q", l.s, b.in)
			mustPanicFree(t, desc, func() { srv.ServeHTTP(rec, req) })
			eq(t, desc+": status", rec.Code, 200)
			eq(t, desc+": limit", got.Limit, l.want)
			eq(t, desc+": bucketing", got.Bucketing, b.want)
			eq(t, desc+": sources", got.Filter.Sources, f.Sources)
			eq(t, desc+": ids", got.Filter.IDs, f.IDs)
			eq(t, desc+": category", got.Filter.Category, f.Category)
			note(t, "%s", desc)
		}
	}
	for _, x := range []struct {
		s    string
		want int
	}{{"", 0}, {"5", 5}, {"-1", -1}, {"junk", 0}, {"0", 0}, {"1e3", 0}} {
		req := httptest.NewRequest("GET", "http://x/?stack="+url.QueryEscape(x.s), nil)
		rec := httptest.NewRecorder()
		srv.ServeHTTP(rec, req)
		eq(t, "stack depth "+x.s, got.StackDepth, x.want)
	}
}

func TestC20_anything(t *testing.T) {
	r := newRand(201)
	full := trc.NewDefaultCollector()
	for i := 0; i < 30; i++ {
		_, tr := full.NewTrace(context.Background(), []string{"a", "b<script>", "%s", ""}[i%4])
		tr.LazyTracef("event %d %s", i, odd(r))
		if i%3 == 0 {
			tr.Errorf("error")
		}
		if i%2 == 0 {
			tr.Finish()
		}
	}
	answers := map[string]searchFunc{
		"collector": full.Search,
		"error": func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) {
			return nil, errors.New("no")
		},
		"nothing":   func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) { return nil, nil },
		"zero":      func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) { return &trc.SearchResponse{}, nil },
		"both":      func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) { return &trc.SearchResponse{}, errors.New("x") },
		"zerostats": func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) { return &trc.SearchResponse{Stats: &trc.SearchStats{}}, nil },
		"problems": func(_ context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
			return &trc.SearchResponse{Request: req, Problems: []string{"a", "%d", "<b>"}, Stats: trc.NewSearchStats(req.Bucketing)}, nil
		},
		"empty traces": func(_ context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
			return &trc.SearchResponse{Traces: []*trc.StaticTrace{{}, {TraceID: "x", TraceEvents: []trc.Event{{}}}}, Stats: trc.NewSearchStats(req.Bucketing)}, nil
		},
		"multi": trc.MultiSearcher{full, &answer{err: errors.New("no")}}.Search,
		"other buckets": func(_ context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
			ss := trc.NewSearchStats([]time.Duration{0, 1, 2})
			ss.Observe(&fake{finished: true, category: "q", duration: 5})
			return &trc.SearchResponse{Request: req, Stats: ss}, nil
		},
	}
	keys := []string{"n", "b", "q", "min", "category", "source", "id", "stack", "active", "finished", "success", "errored", "json", "local", "stats", "sendbuf", "junk"}
	vals := []string{"", "1", "-1", "0", "999999999999999999999999", "(", "[", "1ms", "-5s", "x", "true", "%", "\xff", "a b", "1h", "9223372036854775807ns", "*", "text/html", "250", "1e9"}
	bodies := []string{"", "{}", "null", "[]", "{", `{"limit":-5}`, `{"limit":"x"}`, `{"limit":1e99}`, `{"bucketing":[-1,5,-3]}`, `{"bucketing":[]}`, `{"filter":{"query":"("}}`, `{"filter":{"min_duration":5,"sources":["a"]}}`, `{"stack_depth":-7}`, strings.Repeat("x", 2<<20), `{"filter":{"query":"` + strings.Repeat("a", 2<<20) + `"}}`, `"x"`, "\x00\xff", `{"limit":3}{"limit":4}`}
	var names []string
	for k := range answers {
		names = append(names, k)
	}
	sort.Strings(names)
	for k := 0; k < iters(600); k++ {
		name := names[k%len(names)]
		srv := &trcweb.TraceServer{Collector: full, Searcher: answers[name]}
		q := url.Values{}
		for n := r.Intn(5); n > 0; n-- {
			q.Add(keys[r.Intn(len(keys))], vals[r.Intn(len(vals))])
		}
		raw := q.Encode()
		if r.Intn(10) == 0 {
			raw += "&%zz;=&&b=%"
		}
		body := ""
		method := []string{"GET", "POST", "PUT", "HEAD", "WEIRD"}[r.Intn(5)]
		isJSON := r.Intn(2) == 0
		if isJSON || r.Intn(4) == 0 {
			body = bodies[r.Intn(len(bodies))]
		}
		req := httptest.NewRequest(method, "http://x/", strings.NewReader(body))
		req.URL.RawQuery = raw
		if isJSON {
			req.Header.Set("content-type", "application/json; charset=utf-8")
		}
		req.Header.Set("accept", []string{"", "text/html", "application/json", "text/html,application/xhtml+xml;q=0.9,*/*;q=0.8", "junk", "*/*", ";;,,q=", "application/json;q=0.5, text/html", "/;=, text/html", ",text/html", "TEXT/HTML;level=1, a/b", "text/htmlx, application/json"}[r.Intn(12)])
		var col *trc.Collector
		if r.Intn(2) == 0 {
			col = trc.NewDefaultCollector()
			ctx, tr := col.NewTrace(req.Context(), "search")
			defer tr.Finish()
			req = req.WithContext(ctx)
		}
		if len(body) > 60 {
			body = body[:60] + "..."
		}
		desc := fmt.Sprintf("searcher %q, %s ?%s, content-type json %v, accept %q, body %q", name, method, raw, isJSON, req.Header.Get("accept"), body)
		rec := httptest.NewRecorder()
		mustPanicFree(t, desc, func() { srv.ServeHTTP(rec, req) })
		// HTML for those who ask for it, else JSON
		accept, want := req.Header.Get("accept"), "application/json"
		if strings.Contains(strings.ToLower(accept), "text/html") && !strings.Contains(accept, "text/htmlx") && !req.URL.Query().Has("json") {
			want = "text/html"
		}
		if ct := rec.Header().Get("content-type"); rec.Code == 200 && !strings.HasPrefix(ct, want) {
			t.Fatalf("%s: answered as %q, want %s", desc, ct, want)
		}
		if want == "application/json" && rec.Code == 200 && json.Unmarshal(rec.Body.Bytes(), new(trcweb.SearchData)) != nil {
			t.Fatalf("%s: not JSON: %s", desc, rec.Body.String())
		}
		if name != "other buckets" && rec.Code != 200 && !(isJSON && rec.Code >= 400 && rec.Code < 500) {
			t.Fatalf("%s: status %d, %s", desc, rec.Code, rec.Body.String())
		}
		note(t, "%s", desc)
	}
}

func TestC20_json(t *testing.T) {
	// requests in the body are normalized as well, and problems are reported
	var got trc.SearchRequest
	srv := &trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Searcher: searchFunc(func(_ context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
		got = *req
		return &trc.SearchResponse{Request: req, Stats: trc.NewSearchStats(req.Bucketing)}, nil
	})}
	for limit := -3; limit < 260; limit += 7 {
		b, _ := json.Marshal(trc.SearchRequest{Limit: limit, Bucketing: []time.Duration{5, -1, 3}, StackDepth: limit})
		req := httptest.NewRequest("GET", "http://x/", bytes.NewReader(b))
		req.Header.Set("content-type", "application/json")
		req.Header.Set("accept", "application/json")
		rec := httptest.NewRecorder()
		srv.ServeHTTP(rec, req)
		want := limit
		if want <= 0 {
			want = 10
		}
		if want > 250 {
			want = 250
		}
		eq(t, "limit", got.Limit, want)
		eq(t, "bucketing", got.Bucketing, []time.Duration{0, 3, 5})
		var data trcweb.SearchData
		if err := json.Unmarshal(rec.Body.Bytes(), &data); err != nil {
			t.Fatal(err)
		}
		eq(t, "returned limit", data.Request.Limit, want)
		note(t, "limit %d", limit)
	}
}

// A response that cannot be rendered is not passed off as an answer.
func TestC20_unrenderable(t *testing.T) {
	for _, accept := range []string{"", "application/json", "text/html", "text/html;q=0.9, junk/junk;;=, */*"} {
		srv := &trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Searcher: searchFunc(func(_ context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
			res := &trc.SearchResponse{Request: req, Stats: trc.NewSearchStats(req.Bucketing), Traces: []*trc.StaticTrace{{TraceStarted: time.Date(12345, 1, 1, 0, 0, 0, 0, time.UTC)}}}
			if strings.Contains(accept, "text/html") {
				res.Traces = []*trc.StaticTrace{nil}
			}
			return res, nil
		})}
		req := httptest.NewRequest("GET", "http://x/", nil)
		req.Header.Set("accept", accept)
		rec := httptest.NewRecorder()
		mustPanicFree(t, "accept "+accept, func() { srv.ServeHTTP(rec, req) })
		eq(t, "status of what cannot be rendered, accept "+accept, rec.Code, 500)
		note(t, "accept %s", accept)
	}
}

func TestC20_stream(t *testing.T) {
	rs := &recStreamer{got: make(chan struct{}, 10)}
	srv := httptest.NewServer(&trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Streamer: rs})
	defer func() { go srv.Close() }()
	for _, x := range []struct {
		q    string
		want int
	}{
		{"", 100}, {"sendbuf=0", 0}, {"sendbuf=1", 1}, {"sendbuf=-5", 0}, {"sendbuf=100000", 100000}, {"sendbuf=100001", 100000}, {"sendbuf=x", 100}, {"sendbuf=", 100}, {"sendbuf=99999999999999999999", 100}, {"sendbuf=77", 77},
		{"stats=0s", 100}, {"stats=-5s", 100}, {"stats=x", 100}, {"stats=1ns", 100}, {"stats=9999h", 100}, {"stats=", 100}, {"stats=3s", 100}, {"stats=-9223372036854775808ns", 100},
	} {
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		req, _ := http.NewRequestWithContext(ctx, "GET", srv.URL+"/?"+x.q, nil)
		req.Header.Set("accept", "text/event-stream")
		res, err := srv.Client().Do(req)
		if err != nil {
			t.Fatalf("%s: %v", x.q, err)
		}
		buf := make([]byte, 500)
		n, err := io.ReadAtLeast(res.Body, buf, 10)
		if err != nil || !strings.Contains(string(buf[:n]), "init") {
			t.Fatalf("%s: got %q, %v", x.q, buf[:n], err)
		}
		select {
		case <-rs.got:
		case <-time.After(20 * time.Second):
			t.Fatalf("%s: the server does not stream", x.q)
		}
		rs.mtx.Lock()
		have := rs.cap
		rs.mtx.Unlock()
		eq(t, x.q+": send buffer", have, x.want)
		cancel()
		res.Body.Close()
		note(t, "%s", x.q)
	}
}

// ---------------------------------------------------------------------------

// rawWriter is a ResponseWriter that records what really happens.
type rawWriter struct {
	h      http.Header
	log    []string
	code   int // as a real server would send it
	body   bytes.Buffer
	short  int // accept only so many bytes in total, -1 for all
	panics bool
}

func (w *rawWriter) Header() http.Header { return w.h }
func (w *rawWriter) WriteHeader(code int) {
	w.log = append(w.log, fmt.Sprint("WriteHeader ", code))
	if w.code == 0 && (code >= 200 || code == 101) {
		w.code = code
	}
}
func (w *rawWriter) Write(p []byte) (int, error) {
	w.log = append(w.log, fmt.Sprintf("Write %q", p))
	if w.code == 0 {
		w.code = 200
	}
	n := len(p)
	var err error
	if w.short >= 0 && w.body.Len()+n > w.short {
		n = w.short - w.body.Len()
		err = io.ErrShortWrite
	}
	w.body.Write(p[:n])
	return n, err
}

type flushWriter struct{ *rawWriter }

func (w flushWriter) Flush() {
	w.log = append(w.log, "Flush")
	if w.code == 0 {
		w.code = 200
	}
}

func TestC21_middleware(t *testing.T) {
	r := newRand(210)
	for k := 0; k < iters(600); k++ {
		col := trc.NewDefaultCollector()
		created := 0
		var the trc.Trace
		mw := trcweb.Middleware(func(ctx context.Context, cat string) (context.Context, trc.Trace) {
			created++
			c, tr := col.NewTrace(ctx, cat)
			the = tr
			return c, tr
		}, func(r *http.Request) string { return "cat " + r.URL.Path })
		raw := &rawWriter{h: http.Header{}, short: -1}
		if r.Intn(4) == 0 {
			raw.short = r.Intn(10)
		}
		var w http.ResponseWriter = raw
		flusher := r.Intn(2) == 0
		if flusher {
			w = flushWriter{raw}
		}
		var want []string
		panics := r.Intn(4) == 0
		desc := fmt.Sprintf("flusher %v, short %d:", flusher, raw.short)
		type ctxKey struct{}
		h := mw(http.HandlerFunc(func(hw http.ResponseWriter, hr *http.Request) {
			if trc.Get(hr.Context()) != the {
				t.Fatalf("%s: the handler's context carries another trace", desc)
			}
			if hr.Context().Value(ctxKey{}) != "v" || hr.URL.Path != "/p" || hr.Method != "POST" {
				t.Fatalf("%s: the handler got another request", desc)
			}
			if the.Finished() {
				t.Fatalf("%s: finished before the handler ran", desc)
			}
			hw.Header().Set("X", "y")
			if raw.h.Get("X") != "y" {
				t.Fatalf("%s: headers are not forwarded", desc)
			}
			for n := r.Intn(5); n > 0; n-- {
				switch r.Intn(5) {
				case 0, 1:
					code := []int{200, 201, 204, 301, 404, 500, 503, 100, 102, 103, 101, 999}[r.Intn(12)]
					hw.WriteHeader(code)
					want = append(want, fmt.Sprint("WriteHeader ", code))
					desc += fmt.Sprint(" header ", code)
				case 2, 3:
					p := []byte("hello")[:r.Intn(6)]
					left := raw.short - raw.body.Len()
					wn := len(p)
					if raw.short >= 0 && wn > left {
						wn = left
					}
					n, err := hw.Write(p)
					if n != wn || (err != nil) != (wn != len(p)) {
						t.Fatalf("%s: Write returned %d, %v", desc, n, err)
					}
					want = append(want, fmt.Sprintf("Write %q", p))
					desc += fmt.Sprintf(" write %q", p)
				case 4:
					if f, ok := hw.(http.Flusher); ok {
						f.Flush()
						if flusher {
							want = append(want, "Flush")
						}
						desc += " flush"
					}
				}
			}
			if panics {
				desc += " panic"
				panic("handler")
			}
		}))
		req := httptest.NewRequest("POST", "http://x/p?q=1", nil)
		req.Header.Set("User-Agent", "%d agent")
		req = req.WithContext(context.WithValue(req.Context(), ctxKey{}, "v"))
		func() {
			defer func() {
				x := recover()
				if (x != nil) != panics {
					t.Fatalf("%s: recovered %v", desc, x)
				}
			}()
			h.ServeHTTP(w, req)
		}()
		eq(t, desc+": created traces", created, 1)
		eq(t, desc+": category", the.Category(), "cat /p")
		if !the.Finished() {
			t.Fatalf("%s: trace is not finished", desc)
		}
		eq(t, desc+": forwarded calls", fmt.Sprint(raw.log), fmt.Sprint(want))
		code := raw.code
		if code == 0 {
			code = 200
		}
		evs := the.Events()
		last := evs[len(evs)-1].What
		w2 := fmt.Sprintf("HTTP %d, %s, ", code, trcutil.HumanizeBytes(raw.body.Len()))
		if !strings.HasPrefix(last, w2) {
			t.Fatalf("%s: last event is %q, want %q...", desc, last, w2)
		}
		if !strings.Contains(fmt.Sprint(texts(evs)), "%d agent") || !strings.Contains(evs[0].What, "POST http://x/p?q=1") {
			t.Fatalf("%s: events %q", desc, texts(evs))
		}
		res, _ := col.Search(context.Background(), &trc.SearchRequest{})
		eq(t, desc+": collected", res.TotalCount, 1)
		note(t, "%s", desc)
	}
}

// against a real server and client
func TestC21_real(t *testing.T) {
	handlers := map[string]struct {
		h    func(w http.ResponseWriter, r *http.Request)
		code int
		n    int
	}{
		"nothing":     {func(w http.ResponseWriter, r *http.Request) {}, 200, 0},
		"body":        {func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("abc")) }, 200, 3},
		"twice":       {func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(404); w.WriteHeader(500) }, 404, 0},
		"late":        {func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("abc")); w.WriteHeader(500) }, 200, 3},
		"hints":       {func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(103); w.WriteHeader(202); w.Write([]byte("x")) }, 202, 1},
		"hintsbody":   {func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(103); w.Write([]byte("xy")) }, 200, 2},
		"flush":       {func(w http.ResponseWriter, r *http.Request) { w.(http.Flusher).Flush(); w.WriteHeader(500) }, 200, 0},
		"http.Error":  {func(w http.ResponseWriter, r *http.Request) { http.Error(w, "no", 418) }, 418, 3},
		"large":       {func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, strings.Repeat("x", 123456)) }, 200, 123456},
		"emptywrite":  {func(w http.ResponseWriter, r *http.Request) { w.Write(nil); w.WriteHeader(500) }, 200, 0},
		"redirect":    {func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(304) }, 304, 0},
		"two writes":  {func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("ab")); w.Write([]byte("cd")) }, 200, 4},
		"status body": {func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(500); w.Write([]byte("oops")) }, 500, 4},
	}
	for name, x := range handlers {
		col := trc.NewDefaultCollector()
		fin := make(chan struct{})
		mw := trcweb.Middleware(col.NewTrace, func(*http.Request) string { return "c" })(http.HandlerFunc(x.h))
		srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			defer close(fin)
			mw.ServeHTTP(w, r)
		}))
		srv.Config.ErrorLog = quiet
		srv.Start()
		res, err := srv.Client().Get(srv.URL)
		if err != nil {
			t.Fatalf("%s: %v", name, err)
		}
		body, _ := io.ReadAll(res.Body)
		res.Body.Close()
		<-fin
		srv.Close()
		eq(t, name+": status", res.StatusCode, x.code)
		eq(t, name+": bytes", len(body), x.n)
		sr, _ := col.Search(context.Background(), &trc.SearchRequest{})
		eq(t, name+": traces", len(sr.Traces), 1)
		evs := sr.Traces[0].Events()
		want := fmt.Sprintf("HTTP %d, %s, ", x.code, trcutil.HumanizeBytes(x.n))
		if last := evs[len(evs)-1].What; !strings.HasPrefix(last, want) || !sr.Traces[0].Finished() {
			t.Fatalf("%s: last event is %q, want %q..., finished %v", name, last, want, sr.Traces[0].Finished())
		}
		note(t, "%s", name)
	}
}
