# search_types.go (MultiSearcher)

# The answers of a searcher, and what is sent on and received from the channel
# of the gathering loop, in order.
ghost any.$asked int
ghost any.$ansres *trc.SearchResponse
ghost any.$anserr any
ghost ref.$nrecv int
ghost ref.$recv_res map[int]ref
ghost ref.$recv_err map[int]any
ghost ref.$sent_res map[int]ref
ghost ref.$sent_err map[int]any
ghost ref.$nspawn int
ghost ref.$spawn_1 map[int]any
ghost ref.$spawn_0 map[int]string

iface trc.Searcher.Search(s, ctx, req) (res, err)
  requires [C16 request] ctx != nil && req != nil && 1 <= req.Limit <= 250 && bucketsok(req.Bucketing)
  modifies s.$asked, s.$ansres, s.$anserr
  ensures s.$asked == old(s.$asked) + 1 && s.$ansres == res && s.$anserr == err

# sums over the first n answers
rec sumof(R map[int]ref, T map[ref]int, n int) int = 0 then prev + (R[n] == nil ? 0 : T[R[n]])
rec sumlen(R map[int]ref, S map[ref]slice, n int) int = 0 then prev + (R[n] == nil ? 0 : len(S[R[n]]))
rec nproblems(R map[int]ref, X map[int]any, S map[ref]slice, n int) int = 0 then prev + (R[n] == nil ? 0 : len(S[R[n]])) + (R[n] == nil || X[n] != nil ? 1 : 0)

# the sum over the first n answers of what their statistics say about category c
fun catval(res ref, ST map[ref]ref, CM map[ref]ref, D map[ref]map[string]bool, V map[ref]map[string]ref, F map[ref]int, c string) int = res == nil || ST[res] == nil || CM[ST[res]] == nil || !D[CM[ST[res]]][c] ? 0 : F[V[CM[ST[res]]][c]]
rec sumcat(R map[int]ref, ST map[ref]ref, CM map[ref]ref, D map[ref]map[string]bool, V map[ref]map[string]ref, F map[ref]int, c string, n int) int = 0 then prev + catval(R[n], ST, CM, D, V, F, c)


# item q of the m-th answer
fun given(R map[int]ref, S map[ref]slice, E map[ref]map[int]ref, m int, q int) ref = E[base(S[R[m]])][off(S[R[m]]) + q]

func (trc.MultiSearcher).Search(ms, ctx, req) (res, err)
  props C16
  opt allowgo prophecy
  let ST = fieldmap(trc.SearchResponse.Stats)
  let CM = fieldmap(trc.SearchStats.Categories)
  let D = domsof(trc.SearchStats.Categories)
  let V = valsof(trc.SearchStats.Categories)
  let EV = fieldmap(trc.CategoryStats.EventCount)
  let AC = fieldmap(trc.CategoryStats.ActiveCount)
  let ER = fieldmap(trc.CategoryStats.ErroredCount)
  let TR = fieldmap(trc.SearchResponse.Traces)
  let SO = fieldmap(trc.SearchResponse.Sources)
  let PR = fieldmap(trc.SearchResponse.Problems)
  let ET = elemsof(*trc.StaticTrace)
  let ES = elemsof(string)
  defines mb() == allocs()
  requires ctx != nil && carries(ctx) && req != nil && filterok(req.Filter) && forall i int :: 0 <= i < len(ms) ==> ms[i] != nil
  requires base(req.Bucketing) == base(trc.DefaultBucketing) ==> off(req.Bucketing) + len(req.Bucketing) <= len(trc.DefaultBucketing)
  # answers have consistent statistics in the requested buckets
  received msg.res != nil && msg.res.Stats != nil ==> statsok(msg.res.Stats) && len(msg.res.Stats.Bucketing) == len(req.Bucketing)
  received msg.res != nil ==> forall i int :: 0 <= i < len(msg.res.Traces) ==> msg.res.Traces[i] != nil
  spawned [C16 asked_once] a1.$asked == old(a1.$asked) + 1
  spawned [C16 answer_sent] chan0().$nsent == old(chan0().$nsent) + 1 && chan0().$sent_res[old(chan0().$nsent)] == a1.$ansres && chan0().$sent_err[old(chan0().$nsent)] == a1.$anserr
  modifies req.Bucketing, req.Bucketing[*], req.Limit, req.Filter.regexp, req.Filter.Query, nil.$nspawn, nil.$spawn_0, nil.$spawn_1, all(trc.CategoryStats.tracerate), all(trc.CategoryStats.eventrate), all(trc.CategoryStats.Category), all(trc.CategoryStats.EventCount), all(trc.CategoryStats.ActiveCount), all(trc.CategoryStats.ErroredCount), all(trc.CategoryStats.Oldest), all(trc.CategoryStats.Newest), all(trc.CategoryStats.BucketCounts), all(elemtype(int)), carried(ctx).$calls, carried(ctx).$kind, carried(ctx).$fmt, carried(ctx).$nargs, carried(ctx).$argv
  ensures [C16 never_fails] err == nil && fresh(res) && res.Request == req
  ensures [C16 asks_every] nil.$nspawn == old(nil.$nspawn) + len(ms) && forall i int :: 0 <= i < len(ms) ==> nil.$spawn_1[old(nil.$nspawn) + i] == ms[i]
  ensures [C16 gathers_all] chan0().$nrecv == len(ms)
  ensures [C16 total] res.TotalCount == sumof(chan0().$recv_res, old(fieldmap(res.TotalCount)), len(ms))
  ensures [C16 matched] res.MatchCount == sumof(chan0().$recv_res, old(fieldmap(res.MatchCount)), len(ms))
  ensures [C16 limited] len(res.Traces) == min(req.Limit, sumlen(chan0().$recv_res, old(fieldmap(res.Traces)), len(ms)))
  ensures [C16 newest_first] newestfirst(res.Traces)
  ensures [C16 complete] forall m int, q int {given(chan0().$recv_res, TR, ET, m, q)} :: 0 <= m < len(ms) && chan0().$recv_res[m] != nil && 0 <= q < len(TR[chan0().$recv_res[m]]) ==> (exists j int :: 0 <= j < len(res.Traces) && res.Traces[j] == given(chan0().$recv_res, TR, ET, m, q)) || (len(res.Traces) == req.Limit && forall j int :: 0 <= j < len(res.Traces) ==> res.Traces[j].TraceStarted >= fieldmap(trc.StaticTrace.TraceStarted)[given(chan0().$recv_res, TR, ET, m, q)])
  ensures [C16 sources_once] forall i int, j int :: 0 <= i < j && j < len(res.Sources) ==> res.Sources[i] != res.Sources[j] && !(res.Sources[j] < res.Sources[i])
  ensures [C16 stats] forall c string :: sev(res.Stats, c) == sumcat(chan0().$recv_res, ST, CM, D, V, EV, c, len(ms)) && sact(res.Stats, c) == sumcat(chan0().$recv_res, ST, CM, D, V, AC, c, len(ms)) && serr(res.Stats, c) == sumcat(chan0().$recv_res, ST, CM, D, V, ER, c, len(ms))
  inv [$i int, $r *trc.SearchResponse] forall c string :: sev($r.Stats, c) == sumcat(chan0().$recv_res, ST, CM, D, V, EV, c, $i)
  inv [$i int, $r *trc.SearchResponse] forall c string :: sact($r.Stats, c) == sumcat(chan0().$recv_res, ST, CM, D, V, AC, c, $i)
  inv [$i int, $r *trc.SearchResponse] forall c string :: serr($r.Stats, c) == sumcat(chan0().$recv_res, ST, CM, D, V, ER, c, $i)
  ensures [C16 problems] len(res.Problems) == (old(req.Filter.Query) != "" && !compiles(old(req.Filter.Query)) ? 1 : 0) + nproblems(chan0().$recv_res, chan0().$recv_err, PR, len(ms))
  inv [$i int, $r *trc.SearchResponse] len($r.Problems) == pre(len($r.Problems)) + nproblems(chan0().$recv_res, chan0().$recv_err, PR, $i)
  inv [$i int, $r *trc.SearchResponse] forall m int :: 0 <= m <= $i ==> 0 <= sumlen(chan0().$recv_res, TR, m) <= len($r.Traces)
  inv [$i int, $r *trc.SearchResponse] forall m int :: 0 <= m <= $i ==> 0 <= sumlen(chan0().$recv_res, SO, m) <= len($r.Sources)
  inv [$i int, $r *trc.SearchResponse] forall m int, q int {given(chan0().$recv_res, TR, ET, m, q)} :: 0 <= m < $i && chan0().$recv_res[m] != nil && 0 <= q < len(TR[chan0().$recv_res[m]]) ==> sumlen(chan0().$recv_res, TR, m) + q < len($r.Traces) && $r.Traces[sumlen(chan0().$recv_res, TR, m) + q] == given(chan0().$recv_res, TR, ET, m, q)
  inv [$it iter, $l []string] len($l) == $it.i && forall j int :: 0 <= j < $it.i ==> $l[j] == key($it, j)
  inv [$i int] nil.$nspawn == old(nil.$nspawn) + $i && forall j int :: 0 <= j < $i ==> nil.$spawn_1[old(nil.$nspawn) + j] == ms[j]
  inv [] 1 <= req.Limit <= 250 && bucketsok(req.Bucketing)
  inv [$i int] chan0().$nrecv == $i
  inv [$i int, $r *trc.SearchResponse] $r.TotalCount == sumof(chan0().$recv_res, old(fieldmap($r.TotalCount)), $i)
  inv [$i int, $r *trc.SearchResponse] $r.MatchCount == sumof(chan0().$recv_res, old(fieldmap($r.MatchCount)), $i)
  inv [$i int, $r *trc.SearchResponse] len($r.Traces) == sumlen(chan0().$recv_res, old(fieldmap($r.Traces)), $i)
  inv [$i int, $r *trc.SearchResponse] len($r.Sources) == sumlen(chan0().$recv_res, SO, $i)
  inv [$r *trc.SearchResponse] off($r.Traces) == 0 && off($r.Sources) == 0
  inv [$r *trc.SearchResponse] freshornil($r.Traces)
  inv [$r *trc.SearchResponse] freshornil($r.Sources)
  inv [$r *trc.SearchResponse] freshornil($r.Problems)
  inv [$r *trc.SearchResponse] $r.Stats != nil && fresh($r.Stats) && fresh($r.Stats.Categories) && statsok($r.Stats) && younger($r.Stats) && len($r.Stats.Bucketing) == len(req.Bucketing)
  inv [$r *trc.SearchResponse] allocated($r.Sources) && allocated($r.Problems)
  inv [$r *trc.SearchResponse] base($r.Sources) == nil || base($r.Sources) != base($r.Problems)
  inv [] olderkept()
  inv [$i int] $i <= len(ms)
  inv [$l []string] freshornil($l)
  inv [$i int, $l []string, $m map] (forall i int, j int :: 0 <= i < j && j < len($l) ==> $l[i] != $l[j]) && forall j int :: 0 <= j < len($l) ==> $l[j] in $m
  inv [$i int, $l []string, $m map[string]bool] (forall i int, j int :: 0 <= i < j && j < len($l) ==> $l[i] != $l[j]) && forall j int :: 0 <= j < len($l) ==> $l[j] in $m && $m[$l[j]]
  inv [$r *trc.SearchResponse] forall j int :: 0 <= j < len($r.Traces) ==> $r.Traces[j] != nil
