# collector.go, trace_core.go (New)

# ---------------------------------------------------------------- user-supplied functions
#
# A log of the decorator calls (function, argument, result) and of the calls of
# a collector's new-trace function. Decorators and new-trace functions are
# assumed not to reach back into the collector's private state.
ghost any.$ndec int
ghost any.$decf map[int]func
ghost any.$decin map[int]any
ghost any.$decout map[int]any
ghost any.$nnew int
ghost any.$newsrc string
ghost any.$newcat string
ghost any.$newtr any
def W() = box(0)

functype trc.DecoratorFunc(tr) (r)
  requires [C18 trace_given] tr != nil
  modifies W().$ndec, W().$decf, W().$decin, W().$decout, all($calls), all($kind), all($fmt), all($nargs), all($argv), all($logs), all($pubs), all($finished), all($errored)
  ensures r != nil && W().$ndec == old(W().$ndec) + 1
  ensures W().$decf == store(old(W().$decf), old(W().$ndec), self) && W().$decin == store(old(W().$decin), old(W().$ndec), tr) && W().$decout == store(old(W().$decout), old(W().$ndec), r)

# from call number n on, the decorators ds were applied in order, to tr first,
# each to the result of the one before
def applied(ds, n, tr, res) = W().$ndec == n + len(ds) && (forall i int :: 0 <= i < len(ds) ==> W().$decf[n + i] == ds[i] && W().$decin[n + i] == (i == 0 ? tr : W().$decout[n + i - 1])) && res == (len(ds) == 0 ? tr : W().$decout[n + len(ds) - 1])

func trc.New(ctx, source, category, decorators) (rctx, tr)
  props C18, C23
  requires ctx != nil && forall i int :: 0 <= i < len(decorators) ==> decorators[i] != nil
  modifies W().$ndec, W().$decf, W().$decin, W().$decout, all($calls), all($kind), all($fmt), all($nargs), all($argv), all($logs), all($pubs), all($finished), all($errored)
  ensures [C18 put] rctx != nil && tr != nil && carried(rctx) == tr
  ensures [C18 core] len(decorators) == 0 ==> istype(tr, *trc.coreTrace) && fresh(as(tr, *trc.coreTrace)) && as(tr, *trc.coreTrace).source == source && as(tr, *trc.coreTrace).category == category
  ensures [C18 C23 core_decorated] len(decorators) > 0 ==> istype(W().$decin[old(W().$ndec)], *trc.coreTrace) && fresh(as(W().$decin[old(W().$ndec)], *trc.coreTrace)) && as(W().$decin[old(W().$ndec)], *trc.coreTrace).source == source && as(W().$decin[old(W().$ndec)], *trc.coreTrace).category == category
  ensures [C18 decorated] len(decorators) > 0 ==> applied(decorators, old(W().$ndec), W().$decin[old(W().$ndec)], tr)
  inv [$i int] W().$ndec == old(W().$ndec) + $i
  inv [$i int, $t trc.Trace] forall j int :: 0 <= j < $i ==> W().$decf[old(W().$ndec) + j] == decorators[j] && (j > 0 ==> W().$decin[old(W().$ndec) + j] == W().$decout[old(W().$ndec) + j - 1])
  inv [$i int, $t trc.Trace] $i > 0 ==> $t == W().$decout[old(W().$ndec) + $i - 1]
  inv [$i int, $t trc.Trace] $i == 0 ==> istype($t, *trc.coreTrace) && fresh(as($t, *trc.coreTrace)) && as($t, *trc.coreTrace).source == source && as($t, *trc.coreTrace).category == category
  inv [$i int] $i > 0 ==> istype(W().$decin[old(W().$ndec)], *trc.coreTrace) && fresh(as(W().$decin[old(W().$ndec)], *trc.coreTrace)) && as(W().$decin[old(W().$ndec)], *trc.coreTrace).source == source && as(W().$decin[old(W().$ndec)], *trc.coreTrace).category == category
  inv [$t trc.Trace] $t != nil

functype trc.NewTraceFunc(ctx, source, category, decorators) (rctx, tr)
  requires [C18 context_given] ctx != nil
  modifies W().$nnew, W().$newsrc, W().$newcat, W().$newtr, W().$newdecs, W().$ndec, W().$decf, W().$decin, W().$decout, all($calls), all($kind), all($fmt), all($nargs), all($argv), all($logs), all($pubs), all($finished), all($errored)
  ensures W().$nnew == old(W().$nnew) + 1 && W().$newsrc == source && W().$newcat == category && W().$newtr == tr && W().$newdecs == len(decorators)
  ensures rctx != nil && tr != nil && W().$ndec >= old(W().$ndec)
ghost any.$newdecs int

# the collector's traces: newest first within a category
def collected(c, cat, i) = rbat(c.categories.bufs[cat], i)
def collectorok(c) = c.categories != nil && monitorinv(c.categories) && unlocked(c.categories) && c.newTrace != nil && c.broker != nil && forall i int :: 0 <= i < len(c.decorators) ==> c.decorators[i] != nil

func (*trc.Collector).NewTrace(c, ctx, category) (rctx, tr)
  props C06, C18, C22, C24
  requires ctx != nil && collectorok(c)
  modifies carried(ctx).$calls, carried(ctx).$kind, carried(ctx).$fmt, carried(ctx).$nargs, carried(ctx).$argv when carries(ctx)
  modifies W().$nnew, W().$newsrc, W().$newcat, W().$newtr, W().$newdecs, W().$ndec, W().$decf, W().$decin, W().$decout, all($calls), all($kind), all($fmt), all($nargs), all($argv), all($logs), all($pubs), all($finished), all($errored), all($freed) when !carries(ctx)
  modifies c.categories.bufs[*], all(c.categories.bufs[""].cur), all(c.categories.bufs[""].len), all(elemtype(trc.Trace)) when !carries(ctx)
  ensures [C18 same_context] carries(ctx) ==> rctx == ctx && tr == carried(ctx)
  ensures [C18 one_event] carries(ctx) ==> carried(ctx).$calls == old(carried(ctx).$calls) + 1 && received1(carried(ctx), 2, "(+ %s)", category)
  ensures [C18 created_once] !carries(ctx) ==> W().$nnew == old(W().$nnew) + 1 && W().$newsrc == c.source && W().$newcat == category
  ensures [C18 in_context] !carries(ctx) ==> rctx != nil && tr != nil && carried(rctx) == tr
  ensures [C18 undecorated] !carries(ctx) && len(c.decorators) == 0 ==> tr == W().$newtr
  ensures [C18 decorated] !carries(ctx) && len(c.decorators) > 0 ==> tr == W().$decout[W().$ndec - 1] && forall i int :: 0 <= i < len(c.decorators) ==> W().$decf[W().$ndec - len(c.decorators) + i] == c.decorators[i] && W().$decin[W().$ndec - len(c.decorators) + i] == (i == 0 ? W().$newtr : W().$decout[W().$ndec - len(c.decorators) + i - 1])
  ensures [C18 collected] !carries(ctx) && c.categories.cap > 0 ==> category in c.categories.bufs && c.categories.bufs[category].len > 0 && collected(c, category, 0) == tr
  ensures [C24 only_evicted] forall t any :: t.$freed != old(t.$freed) ==> !carries(ctx) && old(category in c.categories.bufs) && t == old(collected(c, category, c.categories.bufs[category].len - 1)) && old(c.categories.bufs[category].len) == c.categories.cap
  ensures [C18 C06 inv] monitorinv(c.categories)
  inv [$i int] pre(W().$ndec) + $i == W().$ndec && forall j int :: 0 <= j < $i ==> W().$decf[pre(W().$ndec) + j] == c.decorators[j] && W().$decin[pre(W().$ndec) + j] == (j == 0 ? W().$newtr : W().$decout[pre(W().$ndec) + j - 1])
  inv [$i int, $t trc.Trace] $t != nil && $t == ($i == 0 ? W().$newtr : W().$decout[W().$ndec - 1])

func trc.NewCollector(cfg) (c)
  props C06, C18, C22
  requires forall i int :: 0 <= i < len(cfg.Decorators) ==> cfg.Decorators[i] != nil
  modifies nothing
  ensures [C18 config] fresh(c) && c.source == (cfg.Source == "" ? "default" : cfg.Source) && (cfg.NewTrace != nil ==> c.newTrace == cfg.NewTrace) && c.decorators == cfg.Decorators && (cfg.Broker != nil ==> c.broker == cfg.Broker)
  ensures [C18 usable] collectorok(c)
  ensures [C06 empty] emptymap(c.categories.bufs) && c.categories.cap == 1000
func (*trc.Collector).SetSourceName(c, name) (r)
  props C18
  modifies c.source
  ensures [C18 set] r == c && c.source == name
func (*trc.Collector).SetNewTrace(c, f) (r)
  props C18
  modifies c.newTrace
  ensures [C18 set] r == c && c.newTrace == f
func (*trc.Collector).SetDecorators(c, ds) (r)
  props C18
  modifies c.decorators
  ensures [C18 set] r == c && len(c.decorators) == len(ds) && forall i int :: 0 <= i < len(ds) ==> c.decorators[i] == ds[i]
func (*trc.Collector).SetCategorySize(c, n) (r)
  props C07, C22, C24
  requires collectorok(c)
  modifies c.categories.cap, all(c.categories.bufs[""].buf), all(c.categories.bufs[""].cur), all(c.categories.bufs[""].len), all($freed)
  ensures [C07 self] r == c
  ensures [C07 cap] n > 0 ==> c.categories.cap == n
  ensures [C07 ignored] n <= 0 ==> c.categories.cap == old(c.categories.cap) && forall k string :: k in c.categories.bufs ==> c.categories.bufs[k].len == old(c.categories.bufs[k].len)
  ensures [C07 each] n > 0 ==> forall k string :: k in c.categories.bufs ==> len(c.categories.bufs[k].buf) == n && c.categories.bufs[k].len == min(old(c.categories.bufs[k].len), n)
  ensures [C07 kept] n > 0 ==> forall k string, i int :: k in c.categories.bufs && 0 <= i < c.categories.bufs[k].len ==> collected(c, k, i) == old(collected(c, k, i))
  ensures [C24 kept_not_freed] n <= 0 ==> forall t any :: t.$freed == old(t.$freed)
  ensures [C24 only_evicted] forall t any :: t.$freed != old(t.$freed) ==> exists k string, i int :: old(k in c.categories.bufs) && n <= i < old(c.categories.bufs[k].len) && t == old(collected(c, k, i))
  inv [$i int, $d []trc.Trace] forall t any :: t.$freed != old(t.$freed) ==> exists j int :: 0 <= j < $i && $d[j] == t
  inv [$i int] $i == 0 ==> forall t any :: t.$freed == old(t.$freed)
  ensures [C07 inv] monitorinv(c.categories)

# ---------------------------------------------------------------- Search
def heldok(c) = forall k string, i int :: k in c.categories.bufs && 0 <= i < c.categories.bufs[k].len ==> collected(c, k, i) != nil && tstarted(collected(c, k, i)) != 0
def newestfirst(s) = forall i int, j int :: 0 <= i < j && j < len(s) ==> s[i].TraceStarted >= s[j].TraceStarted
iface error.Error(e) (s)
  modifies nothing
  ensures s == errtext(e)
fun errtext(e any) string
func trcutil.FlattenErrors(errs) (ss)
  props C10
  requires forall i int :: 0 <= i < len(errs) ==> errs[i] != nil
  modifies nothing
  ensures [C10 reported] len(ss) == len(errs) && freshornil(ss) && forall i int :: 0 <= i < len(errs) ==> ss[i] == errtext(errs[i])
  inv [$i int, $s []string] forall j int :: 0 <= j < $i ==> $s[j] == errtext(errs[j])

# passes(t): the filter, as it was at the beginning, allows the settled trace t
fun passes(t any) bool
rec totlen(ord map[int]string, V map[string]ref, LEN map[ref]int, n int) int = 0 then prev + LEN[V[ord[n]]]
# how many of the n newest items of a ring pass
rec nmatch(a map[int]any, o int, cur int, nb int, n int) int = 0 then prev + (passes(a[o + rbslot(cur, nb, n)]) ? 1 : 0)
fun ringmatch(r ref, E map[ref]map[int]any, BUF map[ref]slice, CUR map[ref]int, n int) int = nmatch(E[base(BUF[r])], off(BUF[r]), CUR[r], len(BUF[r]), n)
rec nsel(ord map[int]string, V map[string]ref, E map[ref]map[int]any, BUF map[ref]slice, CUR map[ref]int, LEN map[ref]int, limit int, n int) int = 0 then prev + min(limit, ringmatch(V[ord[n]], E, BUF, CUR, LEN[V[ord[n]]]))

# the snapshot is one of a held trace, which passes if it was settled
fun itemv(r ref, E map[ref]map[int]any, BUF map[ref]slice, CUR map[ref]int, i int) any = E[base(BUF[r])][off(BUF[r]) + rbslot(CUR[r], len(BUF[r]), i)]
fun mark(k string, i int) bool = true
fun fromheld(id string, src string, cat string, started int, D map[string]bool, V map[string]ref, E map[ref]map[int]any, BUF map[ref]slice, CUR map[ref]int, LEN map[ref]int, F map[any]bool) bool = exists k string, i int {mark(k, i)} :: mark(k, i) && D[k] && 0 <= i < LEN[V[k]] && tid(itemv(V[k], E, BUF, CUR, i)) == id && tsource(itemv(V[k], E, BUF, CUR, i)) == src && tcategory(itemv(V[k], E, BUF, CUR, i)) == cat && tstarted(itemv(V[k], E, BUF, CUR, i)) == started && (quiet(itemv(V[k], E, BUF, CUR, i)) || F[itemv(V[k], E, BUF, CUR, i)] ==> passes(itemv(V[k], E, BUF, CUR, i)))

func (*trc.Collector).Search(c, ctx, req) (res, err)
  props C08, C22
  let V = mapvals(c.categories.bufs)
  let LEN = fieldmap(c.categories.bufs[""].len)
  let CUR = fieldmap(c.categories.bufs[""].cur)
  let BUF = fieldmap(c.categories.bufs[""].buf)
  let E = elemmap(c.categories.bufs[""].buf)
  let D = mapdom(c.categories.bufs)
  let F = ghostmap($finished)
  let allsettled = forall k string, i int :: k in c.categories.bufs && 0 <= i < c.categories.bufs[k].len ==> settled(collected(c, k, i))
  defines forall t any {passes(t)} :: settled(t) ==> (passes(t) <==> allowed(req.Filter, req.Filter.Query, t, t.$finished))
  requires ctx != nil && carries(ctx) && req != nil && collectorok(c) && heldok(c) && filterok(req.Filter)
  requires base(req.Bucketing) == base(trc.DefaultBucketing) ==> off(req.Bucketing) + len(req.Bucketing) <= len(trc.DefaultBucketing)
  modifies req.Bucketing, req.Bucketing[*], req.Limit, req.Filter.regexp, req.Filter.Query, all($finished), all($errored), all(trc.CategoryStats.EventCount), all(trc.CategoryStats.ActiveCount), all(trc.CategoryStats.ErroredCount), all(trc.CategoryStats.Oldest), all(trc.CategoryStats.Newest), all(elemtype(int)), carried(ctx).$calls, carried(ctx).$kind, carried(ctx).$fmt, carried(ctx).$nargs, carried(ctx).$argv
  ensures [C08 answered] err == nil && fresh(res) && res.Request == req && len(res.Sources) == 1 && res.Sources[0] == c.source
  ensures [C08 limited] len(res.Traces) == min(req.Limit, res.MatchCount)
  ensures [C08 counts] 0 <= res.MatchCount <= res.TotalCount
  ensures [C08 total] some $it iter :: res.TotalCount == totlen(order($it), V, LEN, len(c.categories.bufs)) && forall k string :: k in c.categories.bufs ==> 0 <= pos($it, k) < len(c.categories.bufs) && key($it, pos($it, k)) == k
  ensures [C08 matched] some $it iter :: allsettled ==> res.MatchCount == nsel(order($it), V, E, BUF, CUR, LEN, req.Limit, len(c.categories.bufs))
  ensures [C08 sound] forall j int :: 0 <= j < len(res.Traces) ==> fromheld(res.Traces[j].TraceID, res.Traces[j].TraceSource, res.Traces[j].TraceCategory, res.Traces[j].TraceStarted, D, V, E, BUF, CUR, LEN, F)
  ensures [C08 newest_first] newestfirst(res.Traces)
  ensures [C08 stats] statsok(res.Stats) && res.Stats.Bucketing == req.Bucketing
  inv [$t []*trc.StaticTrace] freshornil($t) && forall j int :: 0 <= j < len($t) ==> $t[j] != nil && allocated($t[j])
  inv [] filterok(req.Filter) && bucketsok(req.Bucketing) && 1 <= req.Limit <= 250
  inv [$it iter] forall k string :: k in c.categories.bufs && pos($it, k) >= $it.i ==> !released(c.categories.bufs[k])
  inv [$it iter] forall k string :: k in c.categories.bufs ==> unlocked(c.categories.bufs[k])
  inv [] forall k string :: k in c.categories.bufs ==> c.categories.bufs[k].buf == old(c.categories.bufs[k].buf) && c.categories.bufs[k].cur == old(c.categories.bufs[k].cur) && c.categories.bufs[k].len == old(c.categories.bufs[k].len)
  inv [] forall k string, i int :: k in c.categories.bufs && 0 <= i < c.categories.bufs[k].len ==> collected(c, k, i) == old(collected(c, k, i))
  inv [$s *trc.SearchStats] $s != nil && $s.Categories != nil && statsok($s) && $s.Bucketing == req.Bucketing
  inv [$s *trc.SearchStats] fresh($s) && fresh($s.Categories)
  inv [$m int, $n int] 0 <= $m <= $n
  inv [$n int, $it iter] $n == totlen(order($it), V, LEN, $it.i)
  inv [$n int, $it iter, $i int] $n == totlen(order($it), V, LEN, $it.i - 1) + $i
  inv [] forall t any :: (old(t.$finished) ==> t.$finished) && (quiet(t) ==> t.$finished == old(t.$finished))
  inv [] req.Filter.Query == pre(req.Filter.Query) && (hasquery(old(req.Filter.Query)) ? req.Filter.Query == old(req.Filter.Query) : req.Filter.Query == "")
  inv [$it iter, $i int, $u []*trc.StaticTrace] allsettled ==> len($u) == min(req.Limit, ringmatch(V[key($it, $it.i - 1)], E, BUF, CUR, $i))
  inv [$m int, $it iter] allsettled ==> $m == nsel(order($it), V, E, BUF, CUR, LEN, req.Limit, $it.i)
  inv [$m int, $it iter, $u []*trc.StaticTrace] allsettled ==> $m == nsel(order($it), V, E, BUF, CUR, LEN, req.Limit, $it.i - 1) + len($u)
  inv [$t []*trc.StaticTrace] forall j int :: 0 <= j < len($t) ==> fromheld($t[j].TraceID, $t[j].TraceSource, $t[j].TraceCategory, $t[j].TraceStarted, D, V, E, BUF, CUR, LEN, F)
  inv [$it iter, $i int] mark(key($it, $it.i - 1), $i)
  # (names the slot of the current item)
  inv [$i int, $b *trcringbuf.RingBuffer[trc.Trace]] rbidx($b, $i) == $b.cur - 1 - $i || rbidx($b, $i) == $b.cur - 1 - $i + len($b.buf)
  inv [$m int, $t []*trc.StaticTrace] len($t) == $m
  inv [$m int, $t []*trc.StaticTrace, $u []*trc.StaticTrace] len($t) + len($u) == $m
