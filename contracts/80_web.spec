# trcweb/util.go

# ---------------------------------------------------------------- URLs
#
# rawlen(q, k), rawval(q, k, i): how often parameter k occurs in the encoded
# query q, and its i-th value. Assumed of net/url: Query and Encode are inverse
# up to order of different keys, and the methods of Values do what they say.

fun rawlen(raw string, k string) int
fun rawval(raw string, k string, i int) string
axiom forall raw string, k string {rawlen(raw, k)} :: rawlen(raw, k) >= 0

def qget(raw, k) = rawlen(raw, k) == 0 ? "" : rawval(raw, k, 0)

extern (*url.URL).Query(u) (v)
  requires u != nil
  modifies nothing
  ensures fresh(v) && forall k string :: len(v[k]) == rawlen(u.RawQuery, k) && (k in v <==> len(v[k]) > 0) && freshornil(v[k]) && (base(v[k]) != nil ==> allocated(v[k])) && (len(v[k]) == 0 ==> base(v[k]) == nil && cap(v[k]) == 0) && forall i int :: 0 <= i < len(v[k]) ==> v[k][i] == rawval(u.RawQuery, k, i)
extern (url.Values).Encode(v) (s)
  modifies nothing
  ensures forall k string {rawlen(s, k)} :: rawlen(s, k) == len(v[k])
  ensures forall k string, i int {rawval(s, k, i)} :: 0 <= i < len(v[k]) ==> rawval(s, k, i) == v[k][i]
extern (url.Values).Get(v, k) (s)
  modifies nothing
  ensures s == (k in v && len(v[k]) > 0 ? v[k][0] : "")
extern (url.Values).Has(v, k) (r)
  modifies nothing
  ensures r <==> k in v
extern (url.Values).Set(v, k, s)
  requires v != nil
  modifies v[k]
  ensures fresh(v[k]) && k in v && len(v[k]) == 1 && v[k][0] == s
# the values already there stay (whether the list is moved cannot be observed
# without a second reference to it)
extern (url.Values).Add(v, k, s)
  requires v != nil
  modifies v[k]
  ensures fresh(v[k]) && k in v && len(v[k]) == old(len(v[k])) + 1 && v[k][old(len(v[k]))] == s
  ensures forall i int :: 0 <= i < old(len(v[k])) ==> v[k][i] == old(v[k][i])

# what time.ParseDuration makes of a text; a duration prints as a text that
# parses as that duration
fun durval(s string) int
fun durerr(s string) any
fun durtext(d int) string
axiom forall d int {durtext(d)} :: durerr(durtext(d)) == nil && durval(durtext(d)) == d
axiom durerr("") != nil
extern (time.Duration).String(d) (s)
  modifies nothing
  ensures s == durtext(d)
extern time.ParseDuration(s) (d, err)
  modifies nothing
  ensures err == durerr(s) && (err == nil ==> d == durval(s))

# ---------------------------------------------------------------- filters

def durok(s) = durerr(s) == nil
def durof(s) = durval(s)
def urlsources(raw, f) = rawlen(raw, "source") == len(f.Sources) && forall i int :: 0 <= i < len(f.Sources) ==> rawval(raw, "source", i) == f.Sources[i]
def urlids(raw, f) = rawlen(raw, "id") == len(f.IDs) && forall i int :: 0 <= i < len(f.IDs) ==> rawval(raw, "id", i) == f.IDs[i]
def urltexts(raw, f) = qget(raw, "category") == f.Category && qget(raw, "q") == f.Query
def urlflags(raw, f) = (rawlen(raw, "active") > 0 <==> f.IsActive) && (rawlen(raw, "finished") > 0 <==> f.IsFinished) && (rawlen(raw, "success") > 0 <==> f.IsSuccess) && (rawlen(raw, "errored") > 0 <==> f.IsErrored)
def urlmin(raw, f) = (f.MinDuration == nil <==> !durok(qget(raw, "min"))) && (f.MinDuration != nil ==> *f.MinDuration == durof(qget(raw, "min")))
def isfilterkey(k) = k == "source" || k == "id" || k == "category" || k == "active" || k == "finished" || k == "min" || k == "success" || k == "errored" || k == "q"

func trcweb.encodeFilter(f, r)
  props C19
  requires r != nil && r.URL != nil
  requires [C19 nofilter] forall k string :: isfilterkey(k) ==> rawlen(r.URL.RawQuery, k) == 0
  modifies r.URL.RawQuery
  ensures [C19 sources] urlsources(r.URL.RawQuery, f)
  ensures [C19 ids] urlids(r.URL.RawQuery, f)
  ensures [C19 texts] urltexts(r.URL.RawQuery, f)
  ensures [C19 flags] urlflags(r.URL.RawQuery, f)
  ensures [C19 min] urlmin(r.URL.RawQuery, f)
  ensures [C19 others] forall k string :: !isfilterkey(k) ==> rawlen(r.URL.RawQuery, k) == old(rawlen(r.URL.RawQuery, k)) && forall i int :: 0 <= i < rawlen(r.URL.RawQuery, k) ==> rawval(r.URL.RawQuery, k, i) == old(rawval(r.URL.RawQuery, k, i))
  inv [$i int, $q url.Values] len($q["source"]) == $i && forall j int :: 0 <= j < $i ==> $q["source"][j] == f.Sources[j]
  inv [$q url.Values] len($q["source"]) == len(f.Sources) && forall j int :: 0 <= j < len(f.Sources) ==> $q["source"][j] == f.Sources[j]
  inv [$i int, $q url.Values] len($q["id"]) == $i && forall j int :: 0 <= j < $i ==> $q["id"][j] == f.IDs[j]
  inv [$q url.Values] forall k string :: k != "source" && k != "id" ==> (k in $q <==> len($q[k]) > 0) && len($q[k]) == rawlen(r.URL.RawQuery, k) && forall i int :: 0 <= i < len($q[k]) ==> $q[k][i] == rawval(r.URL.RawQuery, k, i)
  inv [$q url.Values] len($q["id"]) == 0

func trcweb.parseFilter(r) (f)
  props C19
  requires r != nil && r.URL != nil
  modifies nothing
  ensures [C19 uncompiled] f.regexp == nil
  ensures [C19 sources] urlsources(r.URL.RawQuery, f)
  ensures [C19 ids] urlids(r.URL.RawQuery, f)
  ensures [C19 texts] urltexts(r.URL.RawQuery, f)
  ensures [C19 flags] urlflags(r.URL.RawQuery, f)
  ensures [C19 min] urlmin(r.URL.RawQuery, f)

func trcweb.parseDurationPointer(s) (p, err)
  props C19, C20
  modifies nothing
  ensures [C19 C20 parsed] (err == nil <==> durok(s)) && (err == nil ==> fresh(p) && *p == durof(s))

# two filters that say the same URL agree in every setting
lemma trcweb.roundtrip(raw string, f trc.Filter, g trc.Filter)
  props C19
  requires urlsources(raw, f) && urlids(raw, f) && urltexts(raw, f) && urlflags(raw, f) && urlmin(raw, f)
  requires urlsources(raw, g) && urlids(raw, g) && urltexts(raw, g) && urlflags(raw, g) && urlmin(raw, g)
  ensures [C19 same_sources] len(f.Sources) == len(g.Sources) && forall i int :: 0 <= i < len(f.Sources) ==> f.Sources[i] == g.Sources[i]
  ensures [C19 same_ids] len(f.IDs) == len(g.IDs) && forall i int :: 0 <= i < len(f.IDs) ==> f.IDs[i] == g.IDs[i]
  ensures [C19 same_rest] f.Category == g.Category && f.Query == g.Query && f.IsActive == g.IsActive && f.IsFinished == g.IsFinished && f.IsSuccess == g.IsSuccess && f.IsErrored == g.IsErrored
  ensures [C19 same_min] (f.MinDuration == nil <==> g.MinDuration == nil) && (f.MinDuration != nil ==> *f.MinDuration == *g.MinDuration)

# ---------------------------------------------------------------- middleware.go
#
# What a response writer got: status codes, bodies, flushes.
ghost any.$nheader int
ghost any.$header map[int]int
ghost any.$nwrite int
ghost any.$write map[int]slice
ghost any.$wrote int
ghost any.$werr any
ghost any.$nflush int

iface http.ResponseWriter.WriteHeader(w, code)
  modifies w.$nheader, w.$header
  ensures w.$nheader == old(w.$nheader) + 1 && w.$header == store(old(w.$header), old(w.$nheader), code)
iface http.ResponseWriter.Write(w, p) (n, err)
  modifies w.$nwrite, w.$write, w.$wrote, w.$werr
  ensures 0 <= n <= len(p) && w.$nwrite == old(w.$nwrite) + 1 && w.$write == store(old(w.$write), old(w.$nwrite), p) && w.$wrote == n && w.$werr == err
iface http.Flusher.Flush(w)
  modifies w.$nflush
  ensures w.$nflush == old(w.$nflush) + 1

func (*trcweb.interceptor).WriteHeader(i, code)
  props C21
  requires i.ResponseWriter != nil
  modifies i.code, i.ResponseWriter.$nheader, i.ResponseWriter.$header
  ensures [C21 forwarded] i.ResponseWriter.$nheader == old(i.ResponseWriter.$nheader) + 1 && i.ResponseWriter.$header == store(old(i.ResponseWriter.$header), old(i.ResponseWriter.$nheader), code)
  ensures [C21 first_final] i.code == (old(i.code) != 0 ? old(i.code) : (code >= 200 || code == 101 ? code : 0))

func (*trcweb.interceptor).Write(i, p) (n, err)
  props C21
  requires i.ResponseWriter != nil
  modifies i.code, i.n, i.ResponseWriter.$nwrite, i.ResponseWriter.$write, i.ResponseWriter.$wrote, i.ResponseWriter.$werr
  ensures [C21 forwarded] i.ResponseWriter.$nwrite == old(i.ResponseWriter.$nwrite) + 1 && i.ResponseWriter.$write == store(old(i.ResponseWriter.$write), old(i.ResponseWriter.$nwrite), p) && n == i.ResponseWriter.$wrote && err == i.ResponseWriter.$werr
  ensures [C21 implicit] i.code == (old(i.code) != 0 ? old(i.code) : 200)
  ensures [C21 counted] i.n == old(i.n) + n

func (*trcweb.interceptor).Code(i) (c)
  props C21
  modifies nothing
  ensures [C21 code] c == (i.code == 0 ? 200 : i.code)

func (*trcweb.interceptor).Written(i) (n)
  props C21
  modifies nothing
  ensures [C21 written] n == i.n

# flushing: forwarded if the writer can flush, and sends the implicit status
func trcweb.newInterceptor(w) (iw)
  props C21
  opt closure=iw.flush
  requires w != nil
  modifies nothing
  ensures [C21 wraps] fresh(iw) && iw.ResponseWriter == w && iw.code == 0 && iw.n == 0
  between iw.code, iw.n
  later [C21 flushed] implements(w, http.Flusher) ==> w.$nflush == old(w.$nflush) + 1 && iw.code == (old(iw.code) == 0 ? 200 : old(iw.code))
  later [C21 no_flush] !implements(w, http.Flusher) ==> iw.code == old(iw.code)
  later [C21 kept] iw.n == old(iw.n) && iw.ResponseWriter == w

ghost func.$called int
functype trcweb.interceptor.flush()
  modifies self.$called
  ensures self.$called == old(self.$called) + 1
func (*trcweb.interceptor).Flush(i)
  props C21
  requires i.flush != nil
  modifies i.flush.$called
  ensures [C21 flush] i.flush.$called == old(i.flush.$called) + 1

# The constructor and the handler: what they were given and what came back.
ghost func.$made int
ghost func.$madecat string
ghost func.$madectx any
ghost func.$madetr any
ghost func.$madefor any
ghost any.$served int
ghost any.$servedw any
ghost any.$servedr *http.Request
fun reqctx(r *http.Request) any
fun categoryof(f func, r *http.Request) string
fun bytestext(n int) string
extern (*http.Request).Context(r) (ctx)
  requires r != nil
  modifies nothing
  ensures ctx == reqctx(r) && ctx != nil
extern (*http.Request).WithContext(r, ctx) (r2)
  requires r != nil && ctx != nil
  modifies nothing
  ensures fresh(r2) && reqctx(r2) == ctx && r2.Method == r.Method && r2.URL == r.URL && r2.Header == r.Header && r2.Body == r.Body && r2.RemoteAddr == r.RemoteAddr
# the query part of a URL
fun uriquery(s string) string
extern (*url.URL).String(u) (s)
  requires u != nil
  modifies nothing
  ensures uriquery(s) == u.RawQuery
extern url.Parse(s) (u, err)
  modifies nothing
  ensures err == nil ==> fresh(u) && u.RawQuery == uriquery(s)
extern http.NewRequest(method, uri, body) (r, err)
  modifies nothing
  ensures err == nil ==> fresh(r) && fresh(r.URL) && r.URL.RawQuery == uriquery(uri)
# headers: one value per (canonical) name
ghost ref.$hdr map[string]string
fun canonical(k string) string
axiom canonical("content-type") == "Content-Type" && canonical("Content-Type") == "Content-Type" && canonical("accept") == "Accept" && canonical("Accept") == "Accept"
def headerval(h, k) = h.$hdr[canonical(k)]
extern (http.Header).Get(h, k) (s)
  modifies nothing
  ensures s == headerval(h, k)
extern (http.Header).Set(h, k, v)
  requires h != nil
  modifies h.$hdr
  ensures h.$hdr == store(old(h.$hdr), canonical(k), v)
extern trcutil.HumanizeBytes(n) (s)
  modifies nothing
  ensures s == bytestext(n)

functype trcweb.Middleware.constructor(ctx, category) (ctx2, tr)
  requires ctx != nil
  modifies self.$made, self.$madecat, self.$madectx, self.$madetr, self.$madefor
  ensures self.$made == old(self.$made) + 1 && self.$madecat == category && self.$madectx == ctx2 && self.$madetr == tr && self.$madefor == ctx && ctx2 != nil && tr != nil
functype trcweb.Middleware.categorize(r) (c)
  modifies nothing
  ensures c == categoryof(self, r)

# a handler may use its writer, its trace and anything else in any way, and panic
iface http.Handler.ServeHTTP(h, w, r)
  opt maypanic
  modifies h.$served, h.$servedw, h.$servedr, all(trcweb.interceptor.code), all(trcweb.interceptor.n), all($calls), all($kind), all($fmt), all($nargs), all($argv), all($finished), all($errored), all($nheader), all($header), all($nwrite), all($write), all($wrote), all($werr), all($nflush)
  ensures h.$served == old(h.$served) + 1 && h.$servedw == w && h.$servedr == r
  ensures forall t any :: old(t.$finished) ==> t.$finished

def intercepted(h) = as(h.$servedw, *trcweb.interceptor)
def finalcode(h) = intercepted(h).code == 0 ? 200 : intercepted(h).code
def reported(h, tr) = tr.$fmt == "HTTP %d, %s, %s" && tr.$nargs == 3 && tr.$argv[0] == box(finalcode(h)) && tr.$argv[1] == box(bytestext(intercepted(h).n))

func trcweb.Middleware(constructor, categorize) (mw)
  props C21
  opt closure=mw then=ServeHTTP
  requires constructor != nil && categorize != nil
  modifies nothing
  assume a0 != nil && b0 != nil && b1 != nil && b1.URL != nil
  later [C21 one_trace] constructor.$made == old(constructor.$made) + 1 && constructor.$madecat == categoryof(categorize, b1) && constructor.$madefor == reqctx(b1)
  later [C21 served_once] a0.$served == old(a0.$served) + 1 && reqctx(a0.$servedr) == constructor.$madectx && a0.$servedr.URL == b1.URL && a0.$servedr.Method == b1.Method && a0.$servedr.Body == b1.Body
  later [C21 writer] istype(a0.$servedw, *trcweb.interceptor) && intercepted(a0).ResponseWriter == b0
  later [C21 reported] reported(a0, constructor.$madetr)
  later [C21 finished] constructor.$madetr.$finished && constructor.$madetr.$kind == 5
  unwinds [C21 reported] reported(a0, constructor.$madetr)
  unwinds [C21 finished] constructor.$madetr.$finished && constructor.$madetr.$kind == 5

# ---------------------------------------------------------------- parameters
fun parsedval(f func, s string) int
fun parsederr(f func, s string) any
functype trcweb.parseRange.parse(s) (v, err)
  modifies nothing
  ensures v == parsedval(self, s) && err == parsederr(self, s)
func trcweb.parseRange(s, parse, min, def, max) (r)
  props C20
  opt inlinefn
  requires parse != nil && min <= max
  modifies nothing
  ensures [C20 default] parsederr(parse, s) != nil ==> r == def
  ensures [C20 clamped] parsederr(parse, s) == nil ==> r == (parsedval(parse, s) < min ? min : (parsedval(parse, s) > max ? max : parsedval(parse, s)))

functype trcweb.parseDefault.parse(s) (v, err)
  modifies nothing
  ensures err == parsederr(self, s)
func trcweb.parseDefault(s, parse, def) (r)
  props C20
  opt inlinefn
  requires parse != nil
  modifies nothing
  ensures [C20 default] parsederr(parse, s) != nil ==> r == def

func trcweb.parseBucketing(bs) (ds)
  props C20
  modifies nothing
  ensures [C20 fresh] freshornil(ds)
  ensures [C20 zero] len(ds) > 0 ==> ds[0] == 0
  ensures [C20 sound] forall i int :: 0 <= i < len(ds) ==> ds[i] == 0 || exists j int :: 0 <= j < len(bs) && durok(bs[j]) && ds[i] == durof(bs[j])
  ensures [C20 complete] forall j int :: 0 <= j < len(bs) && durok(bs[j]) ==> exists i int :: 0 <= i < len(ds) && ds[i] == durof(bs[j])
  ensures [C20 ignored] (forall j int :: 0 <= j < len(bs) ==> !durok(bs[j])) ==> len(ds) == 0
  inv [$i int, $s []time.Duration] freshornil($s) && len($s) <= $i
  inv [$i int, $s []time.Duration] forall q int :: 0 <= q < len($s) ==> exists j int :: 0 <= j < $i && durok(bs[j]) && $s[q] == durof(bs[j])
  inv [$i int, $s []time.Duration] forall j int :: 0 <= j < $i && durok(bs[j]) ==> exists q int :: 0 <= q < len($s) && $s[q] == durof(bs[j])

def clampint(n, def, lo, hi) = n == 0 ? def : (n < lo ? lo : (n > hi ? hi : n))
func (*trcweb.StreamClient).initialize(c)
  props C20
  modifies c.HTTPClient, c.URI, c.SendBuffer, c.OnRead, c.RetryInterval, c.StatsInterval
  ensures [C20 client] c.HTTPClient != nil && c.OnRead != nil && (old(c.HTTPClient) != nil ==> c.HTTPClient == old(c.HTTPClient)) && (old(c.OnRead) != nil ==> c.OnRead == old(c.OnRead))
  ensures [C20 uri] c.URI == (old(c.URI) != "" && !hasprefix(old(c.URI), "http") ? "http://" + old(c.URI) : old(c.URI))
  ensures [C20 sendbuf] c.SendBuffer == (old(c.SendBuffer) < 0 ? 0 : (old(c.SendBuffer) > 100000 ? 100000 : old(c.SendBuffer)))
  ensures [C20 retry] c.RetryInterval == clampint(old(c.RetryInterval), 3000000000, 1000000000, 60000000000)
  ensures [C20 stats] c.StatsInterval == clampint(old(c.StatsInterval), 10000000000, 1000000000, 60000000000)

func (*trcweb.TraceServer).initialize(s)
  props C20
  modifies s.Searcher, s.Streamer
  ensures [C20 searcher] s.Searcher == (old(s.Searcher) != nil ? old(s.Searcher) : box(s.Collector))
  ensures [C20 streamer] s.Streamer == (old(s.Streamer) != nil ? old(s.Streamer) : box(s.Collector))

# ---------------------------------------------------------------- the search handler
fun atoival(s string) int
fun atoierr(s string) any
extern strconv.Atoi(s) (n, err)
  modifies nothing
  ensures err == atoierr(s) && (err == nil ==> n == atoival(s))
fun contains(s string, sub string) bool
extern strings.Contains(s, sub) (r)
  modifies nothing
  ensures r == contains(s, sub)
# $decreq: the request that the JSON text of a reader says
ghost any.$decreq trc.SearchRequest
extern http.MaxBytesReader(w, r, n) (rc)
  modifies nothing
  ensures rc != nil && rc.$decreq == r.$decreq
# $decresp: the response that the JSON text of a reader says
ghost any.$decresp trc.SearchResponse
ghost ref.$decsrc any
extern json.NewDecoder(r) (d)
  modifies nothing
  ensures fresh(d) && d.$decsrc == r
def samefilter(f, g) = f.Sources == g.Sources && f.IDs == g.IDs && f.Category == g.Category && f.IsActive == g.IsActive && f.IsFinished == g.IsFinished && f.MinDuration == g.MinDuration && f.IsSuccess == g.IsSuccess && f.IsErrored == g.IsErrored
# decoding a request: any request, with no compiled query (the field is not
# exported), in memory of its own
extern (*json.Decoder).Decode(d, v) (err)
  requires istype(v, *trc.SearchRequest) || istype(v, *trc.Filter) || istype(v, *trcweb.SearchData)
  modifies *as(v, *trcweb.SearchData) when istype(v, *trcweb.SearchData)
  ensures istype(v, *trcweb.SearchData) && err == nil ==> as(v, *trcweb.SearchData).Response == d.$decsrc.$decresp
  modifies as(v, *trc.SearchRequest).Bucketing, as(v, *trc.SearchRequest).Filter.Sources, as(v, *trc.SearchRequest).Filter.IDs, as(v, *trc.SearchRequest).Filter.Category, as(v, *trc.SearchRequest).Filter.IsActive, as(v, *trc.SearchRequest).Filter.IsFinished, as(v, *trc.SearchRequest).Filter.MinDuration, as(v, *trc.SearchRequest).Filter.IsSuccess, as(v, *trc.SearchRequest).Filter.IsErrored, as(v, *trc.SearchRequest).Filter.Query, as(v, *trc.SearchRequest).Limit, as(v, *trc.SearchRequest).StackDepth when istype(v, *trc.SearchRequest)
  modifies as(v, *trc.Filter).Sources, as(v, *trc.Filter).IDs, as(v, *trc.Filter).Category, as(v, *trc.Filter).IsActive, as(v, *trc.Filter).IsFinished, as(v, *trc.Filter).MinDuration, as(v, *trc.Filter).IsSuccess, as(v, *trc.Filter).IsErrored, as(v, *trc.Filter).Query when istype(v, *trc.Filter)
  ensures istype(v, *trc.SearchRequest) ==> freshornil(as(v, *trc.SearchRequest).Bucketing)
  ensures istype(v, *trc.SearchRequest) && err == nil ==> as(v, *trc.SearchRequest).Limit == d.$decsrc.$decreq.Limit && as(v, *trc.SearchRequest).StackDepth == d.$decsrc.$decreq.StackDepth && samefilter(as(v, *trc.SearchRequest).Filter, d.$decsrc.$decreq.Filter) && as(v, *trc.SearchRequest).Filter.Query == d.$decsrc.$decreq.Filter.Query

# the answers a client got: a status and what the body says (the value it is
# the rendering of)
fun hdrof(w any) ref
def answers(w) = w.$nheader
def answercode(w) = w.$header[w.$nheader - 1]
def answerdata(w) = jsontext(w.$write[w.$nwrite - 1])
iface http.ResponseWriter.Header(w) (h)
  modifies nothing
  ensures h == hdrof(w) && h != nil
extern http.Error(w, text, code)
  requires w != nil
  modifies hdrof(w).$hdr, w.$nheader, w.$header, w.$nwrite, w.$write, w.$wrote, w.$werr
  ensures w.$nheader == old(w.$nheader) + 1 && w.$header == store(old(w.$header), old(w.$nheader), code) && w.$nwrite == old(w.$nwrite) + 1

# ---------------------------------------------------------------- render.go
# $content: the value a buffer holds the JSON text of
ghost ref.$encout any
ghost any.$content any
extern json.NewEncoder(w) (e)
  modifies nothing
  ensures fresh(e) && e.$encout == w
extern (*json.Encoder).SetIndent(e, prefix, indent)
  requires e != nil
  modifies nothing
extern (*json.Encoder).Encode(e, v) (err)
  requires e != nil
  modifies e.$encout.$content
  ensures err == nil ==> e.$encout.$content == v
extern json.MarshalIndent(v, prefix, indent) (data, err)
  modifies nothing
  ensures err == nil ==> fresh(data) && jsontext(data) == v
extern (*bytes.Buffer).Reset(b)
  modifies box(b).$content
extern (*bytes.Buffer).WriteString(b, s) (n, err)
  modifies box(b).$content
extern (*bytes.Buffer).Len(b) (n)
  modifies nothing
  ensures n >= 0
extern (*bytes.Buffer).Bytes(b) (data)
  modifies nothing
  ensures jsontext(data) == box(b).$content
extern (*bytes.Buffer).WriteTo(b, w) (n, err)
  requires w != nil
  modifies w.$nwrite, w.$write, w.$wrote, w.$werr, box(b).$content
  ensures w.$nwrite == old(w.$nwrite) + 1 && jsontext(w.$write[old(w.$nwrite)]) == old(box(b).$content)

func trcweb.renderTemplate(ctx, fs, templateName, funcs, data) (body, err)
  opt trusted
  requires [C20 renderable] istype(data, trcweb.SearchData) && as(data, trcweb.SearchData).Response.Stats != nil
  modifies all($calls), all($kind), all($fmt), all($nargs), all($argv), all($errored)
  ensures err == nil ==> jsontext(body) == data

# which media types a request accepts
fun nparts(s string) int
fun part(s string, i int) string
fun mimetype(s string) string
fun mimeerr(s string) any
fun accepts(h string, t string) bool
axiom forall h string, t string {accepts(h, t)} :: accepts(h, t) <==> exists i int {part(h, i)} :: 0 <= i < nparts(h) && mimeerr(part(h, i)) == nil && mimetype(part(h, i)) == t
def acceptsv(r, t) = accepts(headerval(r.Header, "accept"), t)
extern strings.Split(s, sep) (a)
  modifies nothing
  ensures fresh(a) && (sep == "," ==> len(a) == nparts(s) && forall i int :: 0 <= i < len(a) ==> a[i] == part(s, i))
extern mime.ParseMediaType(s) (t, params, err)
  modifies nothing
  ensures err == mimeerr(s) && (err == nil ==> t == mimetype(s))
func trcweb.parseAcceptMediaTypes(r) (m)
  props C20
  requires r != nil
  modifies nothing
  ensures [C20 accepted] fresh(m) && forall t string :: t in m <==> acceptsv(r, t)
  inv [$i int, $m map[string]map[string]string] forall t string :: t in $m <==> exists j int {part(headerval(r.Header, "accept"), j)} :: 0 <= j < $i && mimeerr(part(headerval(r.Header, "accept"), j)) == nil && mimetype(part(headerval(r.Header, "accept"), j)) == t
func trcweb.requestExplicitlyAccepts(r, acceptable) (ok)
  props C20, C25
  requires r != nil
  modifies nothing
  ensures [C20 C25 accepts] ok <==> exists i int :: 0 <= i < len(acceptable) && acceptsv(r, acceptable[i])
  inv [$i int] forall j int :: 0 <= j < $i ==> !acceptsv(r, acceptable[j])
  inv [$i int, $f bool] $f <==> exists j int :: 0 <= j < $i && acceptsv(r, acceptable[j])
  inv [$i int] forall j int, k int {part(headerval(r.Header, "accept"), j), acceptable[k]} :: 0 <= j < $i && 0 <= k < len(acceptable) && mimeerr(part(headerval(r.Header, "accept"), j)) == nil ==> mimetype(part(headerval(r.Header, "accept"), j)) != acceptable[k]

def rendered(w, data) = (answercode(w) == 200 || answercode(w) == 500) && (answercode(w) == 200 ==> answerdata(w) == data)
func trcweb.renderHTML(ctx, w, fs, templateName, funcs, data)
  props C20
  requires w != nil && ctx != nil && carries(ctx)
  requires [C20 renderable] istype(data, trcweb.SearchData) && as(data, trcweb.SearchData).Response.Stats != nil
  modifies hdrof(w).$hdr, w.$nheader, w.$header, w.$nwrite, w.$write, w.$wrote, w.$werr, all($calls), all($kind), all($fmt), all($nargs), all($argv), all($errored)
  ensures [C20 one_answer] w.$nheader == old(w.$nheader) + 1 && w.$nwrite == old(w.$nwrite) + 1
  ensures [C20 rendered] rendered(w, data)
  ensures [C20 html] contains(headerval(hdrof(w), "content-type"), "text/html")
func trcweb.renderJSON(ctx, w, data)
  props C20, C25
  requires w != nil && ctx != nil && carries(ctx)
  modifies hdrof(w).$hdr, w.$nheader, w.$header, w.$nwrite, w.$write, w.$wrote, w.$werr, all($calls), all($kind), all($fmt), all($nargs), all($argv), all($errored), all($content)
  ensures [C20 one_answer] w.$nheader == old(w.$nheader) + 1 && w.$nwrite == old(w.$nwrite) + 1
  ensures [C20 C25 rendered] rendered(w, data)
  ensures [C20 C25 json] contains(headerval(hdrof(w), "content-type"), "application/json")
func trcweb.renderResponse(ctx, w, r, fs, templateName, funcs, data)
  props C20, C25
  requires w != nil && ctx != nil && carries(ctx) && r != nil && r.URL != nil && hdrof(w) != r.Header
  requires [C20 renderable] istype(data, trcweb.SearchData) && as(data, trcweb.SearchData).Response.Stats != nil
  modifies hdrof(w).$hdr, w.$nheader, w.$header, w.$nwrite, w.$write, w.$wrote, w.$werr, all($calls), all($kind), all($fmt), all($nargs), all($argv), all($errored), all($content)
  ensures [C20 one_answer] w.$nheader == old(w.$nheader) + 1 && w.$nwrite == old(w.$nwrite) + 1
  ensures [C20 C25 rendered] rendered(w, data)
  ensures [C20 C25 json] !acceptsv(r, "text/html") || rawlen(r.URL.RawQuery, "json") > 0 ==> contains(headerval(hdrof(w), "content-type"), "application/json")
  ensures [C20 html] acceptsv(r, "text/html") && rawlen(r.URL.RawQuery, "json") == 0 ==> contains(headerval(hdrof(w), "content-type"), "text/html")

ghost any.$asklimit int
ghost any.$askfilter trc.Filter
ghost any.$askdepth int
# a searcher may answer anything at all
iface trcweb.Searcher.Search(s, ctx, req) (res, err)
  requires [C20 request] ctx != nil && req != nil && 1 <= req.Limit <= 250 && bucketsok(req.Bucketing) && filterok(req.Filter)
  modifies s.$asked, s.$ansres, s.$anserr, s.$asklimit, s.$askfilter, s.$askdepth
  ensures s.$asked == old(s.$asked) + 1 && s.$ansres == res && s.$anserr == err && s.$asklimit == old(req.Limit) && s.$askfilter == old(req.Filter) && s.$askdepth == old(req.StackDepth)

def isjson(r) = contains(headerval(r.Header, "content-type"), "application/json")
def rawq(r) = r.URL.RawQuery
def answered(w) = as(answerdata(w), trcweb.SearchData)

func (*trcweb.TraceServer).handleSearch(s, w, r)
  props C20, C25
  requires hdrof(w) != r.Header && s.Searcher != nil && w != nil && r != nil && r.URL != nil && carries(reqctx(r))
  modifies hdrof(w).$hdr, w.$nheader, w.$header, w.$nwrite, w.$write, w.$wrote, w.$werr, s.Searcher.$asked, s.Searcher.$ansres, s.Searcher.$anserr, s.Searcher.$asklimit, s.Searcher.$askfilter, s.Searcher.$askdepth, all($calls), all($kind), all($fmt), all($nargs), all($argv), all($errored), all($content)
  ensures [C20 one_answer] answers(w) == old(w.$nheader) + 1
  ensures [C20 bad_request] answercode(w) == 400 ==> isjson(r) && s.Searcher.$asked == old(s.Searcher.$asked)
  ensures [C20 code] answercode(w) == 200 || answercode(w) == 400 || answercode(w) == 500
  ensures [C20 asked_once] answercode(w) != 400 ==> s.Searcher.$asked == old(s.Searcher.$asked) + 1
  ensures [C20 limit] !isjson(r) ==> s.Searcher.$asklimit == (atoierr(qget(rawq(r), "n")) != nil ? 10 : (atoival(qget(rawq(r), "n")) < 1 ? 1 : (atoival(qget(rawq(r), "n")) > 250 ? 250 : atoival(qget(rawq(r), "n")))))
  ensures [C20 depth] !isjson(r) ==> s.Searcher.$askdepth == (atoierr(qget(rawq(r), "stack")) != nil ? 0 : atoival(qget(rawq(r), "stack")))
  ensures [C20 filter] !isjson(r) ==> urlsources(rawq(r), s.Searcher.$askfilter) && urlids(rawq(r), s.Searcher.$askfilter) && urlflags(rawq(r), s.Searcher.$askfilter) && urlmin(rawq(r), s.Searcher.$askfilter) && s.Searcher.$askfilter.Category == qget(rawq(r), "category") && s.Searcher.$askfilter.Query == (hasquery(qget(rawq(r), "q")) ? qget(rawq(r), "q") : "")
  ensures [C25 asked] isjson(r) && answercode(w) != 400 ==> samefilter(s.Searcher.$askfilter, r.Body.$decreq.Filter) && s.Searcher.$askfilter.Query == (hasquery(r.Body.$decreq.Filter.Query) ? r.Body.$decreq.Filter.Query : "") && s.Searcher.$askdepth == r.Body.$decreq.StackDepth && s.Searcher.$asklimit == (r.Body.$decreq.Limit <= 0 ? 10 : (r.Body.$decreq.Limit > 250 ? 250 : r.Body.$decreq.Limit))
  ensures [C25 answer] answercode(w) == 200 && s.Searcher.$anserr == nil && s.Searcher.$ansres != nil ==> answered(w).Response.Sources == s.Searcher.$ansres.Sources && answered(w).Response.Duration == s.Searcher.$ansres.Duration
  ensures [C20 C25 result] answercode(w) == 200 && s.Searcher.$anserr == nil && s.Searcher.$ansres != nil ==> answered(w).Response.Traces == s.Searcher.$ansres.Traces && answered(w).Response.TotalCount == s.Searcher.$ansres.TotalCount && answered(w).Response.MatchCount == s.Searcher.$ansres.MatchCount && answered(w).Response.Problems == s.Searcher.$ansres.Problems && (s.Searcher.$ansres.Stats != nil ==> answered(w).Response.Stats == s.Searcher.$ansres.Stats)
  inv [$d *trcweb.SearchData] freshornil($d.Problems)

# ---------------------------------------------------------------- the stream handler
ghost any.$streamed int
ghost any.$streamfilter trc.Filter
ghost any.$streamchan ref
ghost ref.$ticker int
iface trcweb.Streamer.Stream(s, ctx, f, ch) (stats, err)
  requires [C20 stream] ctx != nil && ch != nil && filterok(f)
  modifies s.$streamed, s.$streamfilter, s.$streamchan
  ensures s.$streamed == old(s.$streamed) + 1 && s.$streamfilter == f && s.$streamchan == ch
iface trcweb.Streamer.StreamStats(s, ctx, ch) (stats, err)
  requires ctx != nil
  modifies nothing
extern time.NewTicker(d) (t)
  requires [C20 ticker] d > 0
  modifies nil.$ticker
  ensures fresh(t) && nil.$ticker == d && t.C != nil
extern (*time.Ticker).Stop(t)
  requires t != nil
  modifies nothing
extern context.WithCancel(ctx) (ctx2, cancel)
  requires ctx != nil
  modifies nothing
  ensures ctx2 != nil && cancel != nil
functype context.CancelFunc()
  modifies nothing
fun jsontext(data slice) any
extern json.Marshal(v) (data, err)
  modifies nothing
  ensures err == nil ==> fresh(data) && jsontext(data) == v
# a trace event carries the trace received last, once
ghost ref.$lastmsg any
extern (*eventsource.Encoder).Encode(e, ev) (err)
  requires e != nil
  requires [C25 payload] ev.Type == "trace" ==> nil.$lastmsg != nil && jsontext(ev.Data) == nil.$lastmsg
  modifies nil.$lastmsg
  ensures nil.$lastmsg == nil
extern strings.Join(a, sep) (s)
  modifies nothing
extern (trc.StreamStats).String(s) (r)
  modifies nothing

def clampatoi(s, lo, def, hi) = atoierr(s) != nil ? def : (atoival(s) < lo ? lo : (atoival(s) > hi ? hi : atoival(s)))
def clampdur(s, lo, def, hi) = durerr(s) != nil ? def : (durval(s) < lo ? lo : (durval(s) > hi ? hi : durval(s)))
func (*trcweb.TraceServer).handleStream(s, w, r)
  props C20, C25
  opt allowgo lastmsg
  requires hdrof(w) != r.Header && s.Streamer != nil && w != nil && r != nil && r.URL != nil && carries(reqctx(r))
  received msg != nil
  spawned [C20 sendbuf] s.Streamer.$streamed == old(s.Streamer.$streamed) + 1 && cap(s.Streamer.$streamchan) == clampatoi(qget(rawq(r), "sendbuf"), 0, 100, 100000)
  spawned [C20 filter] !isjson(r) ==> urlsources(rawq(r), s.Streamer.$streamfilter) && urlids(rawq(r), s.Streamer.$streamfilter) && urlflags(rawq(r), s.Streamer.$streamfilter) && urlmin(rawq(r), s.Streamer.$streamfilter) && s.Streamer.$streamfilter.Category == qget(rawq(r), "category") && s.Streamer.$streamfilter.Query == qget(rawq(r), "q")
  modifies hdrof(w).$hdr, w.$nheader, w.$header, w.$nwrite, w.$write, w.$wrote, w.$werr, nil.$ticker, nil.$lastmsg, nil.$nspawn, all($calls), all($kind), all($fmt), all($nargs), all($argv), all($errored)
  ensures [C20 stats] nil.$ticker == old(nil.$ticker) || nil.$ticker == clampdur(qget(rawq(r), "stats"), 1000000000, 10000000000, 60000000000)
  ensures [C20 bad_filter] !isjson(r) && qget(rawq(r), "q") != "" && !compiles(qget(rawq(r), "q")) ==> answers(w) == old(w.$nheader) + 1 && answercode(w) == 400 && nil.$nspawn == old(nil.$nspawn)
  ensures [C20 good_filter] !isjson(r) && (qget(rawq(r), "q") == "" || compiles(qget(rawq(r), "q"))) ==> nil.$nspawn == old(nil.$nspawn) + 1

# ---------------------------------------------------------------- the stream client
axiom forall n int {itoa(n)} :: atoierr(itoa(n)) == nil && atoival(itoa(n)) == n
ghost ref.$es int
ghost ref.$esquery string
ghost ref.$esretry int
fun isa(err any, target any) bool
extern eventsource.New(req, retry) (es)
  requires req != nil && req.URL != nil
  modifies nil.$es, nil.$esquery, nil.$esretry
  ensures fresh(es) && nil.$es == old(nil.$es) + 1 && nil.$esquery == req.URL.RawQuery && nil.$esretry == retry
extern (*eventsource.EventSource).Close(es)
  requires es != nil
  modifies nothing
ghost ref.$nread int
ghost ref.$readtype string
ghost ref.$readdata slice
ghost any.$from slice
extern (*eventsource.EventSource).Read(es) (ev, err)
  requires es != nil
  modifies nil.$nread, nil.$readtype, nil.$readdata
  ensures nil.$nread == old(nil.$nread) + 1 && nil.$readtype == ev.Type && nil.$readdata == ev.Data
extern errors.Is(err, target) (r)
  modifies nothing
extern json.Unmarshal(data, v) (err)
  requires istype(v, *trc.StaticTrace) || istype(v, *trc.StreamStats)
  modifies *as(v, *trc.StaticTrace) when istype(v, *trc.StaticTrace)
  modifies v.$from
  ensures err == nil ==> v.$from == data
  modifies *as(v, *trc.StreamStats) when istype(v, *trc.StreamStats)
functype trcweb.StreamClient.OnRead(ctx, typ, data)
  modifies nothing

def uriok(c) = (c.URI == "" || hasprefix(c.URI, "http")) && forall k string :: isfilterkey(k) || k == "sendbuf" || k == "stats" ==> rawlen(uriquery(c.URI), k) == 0
func (*trcweb.StreamClient).Stream(c, ctx, f, ch) (err)
  props C19, C20, C25
  opt allowgo
  requires ctx != nil && carries(ctx) && uriok(c)
  modifies c.HTTPClient, c.URI, c.SendBuffer, c.OnRead, c.RetryInterval, c.StatsInterval, nil.$es, nil.$esquery, nil.$esretry, nil.$nspawn, ch.$nsent, ch.$sent, nil.$nread, nil.$readtype, nil.$readdata, all($from), all($calls), all($kind), all($fmt), all($nargs), all($argv), all($errored)
  sends [C25 streamed] nil.$readtype == "trace" && istype(msg, *trc.StaticTrace) && msg.$from == nil.$readdata
  sends [C25 once] ch.$nsent - old(ch.$nsent) < nil.$nread - old(nil.$nread)
  sends [C25 own] forall i int :: old(ch.$nsent) <= i < ch.$nsent ==> ch.$sent[i] != msg
  inv forall i int :: old(ch.$nsent) <= i < ch.$nsent ==> istype(ch.$sent[i], *trc.StaticTrace) && allocated(as(ch.$sent[i], *trc.StaticTrace))
  inv old(ch.$nsent) <= ch.$nsent
  inv ch.$nsent - old(ch.$nsent) <= nil.$nread - old(nil.$nread)
  ensures [C19 asked] nil.$es == old(nil.$es) + 1 && urlsources(nil.$esquery, f) && urlids(nil.$esquery, f) && urltexts(nil.$esquery, f) && urlflags(nil.$esquery, f) && urlmin(nil.$esquery, f) || nil.$es == old(nil.$es) && err != nil
  ensures [C20 sendbuf] nil.$es > old(nil.$es) && c.SendBuffer > 0 ==> qget(nil.$esquery, "sendbuf") == itoa(c.SendBuffer)
  ensures [C20 stats] nil.$es > old(nil.$es) ==> qget(nil.$esquery, "stats") == durtext(c.StatsInterval) && nil.$esretry == c.RetryInterval

# ---------------------------------------------------------------- dispatch
func trcweb.Categorize(r) (c)
  props C20
  requires r != nil
  modifies nothing
  ensures [C20 category] c == (acceptsv(r, "text/event-stream") ? "stream" : "traces")
func trcweb.NewTraceServer(c) (s)
  props C20
  modifies nothing
  ensures [C20 server] fresh(s) && s.Collector == c && s.Searcher == box(c) && s.Streamer == box(c)
func (*trcweb.TraceServer).ServeHTTP(s, w, r)
  props C20
  requires hdrof(w) != r.Header && w != nil && r != nil && r.URL != nil && carries(reqctx(r))
  modifies s.Searcher, s.Streamer, hdrof(w).$hdr, w.$nheader, w.$header, w.$nwrite, w.$write, w.$wrote, w.$werr, nil.$ticker, nil.$lastmsg, nil.$nspawn, all($calls), all($kind), all($fmt), all($nargs), all($argv), all($errored), all($asked), all($ansres), all($anserr), all($asklimit), all($askfilter), all($askdepth), all($content)
  ensures [C20 search] !acceptsv(r, "text/event-stream") ==> answers(w) == old(w.$nheader) + 1 && nil.$nspawn == old(nil.$nspawn)
  ensures [C20 stream] acceptsv(r, "text/event-stream") ==> s.Searcher.$asked == old(s.Searcher.$asked) || s.Searcher != old(s.Searcher)
