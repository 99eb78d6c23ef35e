# search_types.go, search_stats.go

def ascending(s) = forall i int, j int :: 0 <= i < j && j < len(s) ==> s[i] <= s[j]
def bucketsok(s) = len(s) > 0 && s[0] == 0 && ascending(s)

global trc.DefaultBucketing
  assume [shape] bucketsok(trc.DefaultBucketing) && off(trc.DefaultBucketing) == 0 && len(trc.DefaultBucketing) == cap(trc.DefaultBucketing)

func (*trc.SearchRequest).Normalize(req) (errs)
  props C10
  requires filterok(req.Filter)
  # slices of the default bucketing lie within it
  requires base(req.Bucketing) == base(trc.DefaultBucketing) ==> off(req.Bucketing) + len(req.Bucketing) <= len(trc.DefaultBucketing)
  modifies req.Bucketing, req.Bucketing[*], req.Limit, req.Filter.regexp, req.Filter.Query
  ensures [C10 idempotent_buckets] old(bucketsok(req.Bucketing)) ==> req.Bucketing == old(req.Bucketing) && forall i int :: 0 <= i < len(req.Bucketing) ==> req.Bucketing[i] == old(req.Bucketing[i])
  ensures [C10 limit] req.Limit == (old(req.Limit) <= 0 ? 10 : (old(req.Limit) > 250 ? 250 : old(req.Limit)))
  ensures [C10 buckets_ascending] bucketsok(req.Bucketing)
  ensures [C10 buckets_default] old(len(req.Bucketing)) == 0 ==> req.Bucketing == trc.DefaultBucketing
  ensures [C10 buckets_kept] forall i int :: 0 <= i < old(len(req.Bucketing)) && old(req.Bucketing[i]) >= 0 ==> exists j int :: 0 <= j < len(req.Bucketing) && req.Bucketing[j] == old(req.Bucketing[i])
  ensures [C10 buckets_only] old(len(req.Bucketing)) > 0 ==> forall j int :: 0 < j < len(req.Bucketing) ==> exists i int :: 0 <= i < old(len(req.Bucketing)) && req.Bucketing[j] == old(req.Bucketing[i])
  ensures [C10 default_untouched] trc.DefaultBucketing == old(trc.DefaultBucketing) && forall i int :: 0 <= i < len(trc.DefaultBucketing) ==> trc.DefaultBucketing[i] == old(trc.DefaultBucketing[i])
  ensures [C10 errors] len(errs) == ((old(req.Filter.Query) != "" && !compiles(old(req.Filter.Query))) ? 1 : 0)
  ensures [C10 errors_real] forall i int :: 0 <= i < len(errs) ==> errs[i] != nil
  ensures [C10 query] filterok(req.Filter) && (hasquery(old(req.Filter.Query)) ==> req.Filter.Query == old(req.Filter.Query)) && (!hasquery(old(req.Filter.Query)) ==> req.Filter.Query == "")
  inv [] ascending(req.Bucketing)
  inv [] base(req.Bucketing) == pre(base(req.Bucketing)) && off(req.Bucketing) + len(req.Bucketing) == pre(off(req.Bucketing) + len(req.Bucketing)) && off(req.Bucketing) >= pre(off(req.Bucketing)) && off(req.Bucketing) + cap(req.Bucketing) == pre(off(req.Bucketing) + cap(req.Bucketing)) && cap(req.Bucketing) >= len(req.Bucketing)
  inv [] forall k int :: pre(off(req.Bucketing)) <= k < off(req.Bucketing) ==> elems(req.Bucketing)[k] < 0
  inv [$b []time.Duration] ascending($b)
  inv [$b []time.Duration] base($b) == enter(base($b)) && off($b) + len($b) == enter(off($b) + len($b)) && off($b) >= enter(off($b)) && off($b) + cap($b) == enter(off($b) + cap($b)) && cap($b) >= len($b)
  inv [$b []time.Duration] forall k int :: enter(off($b)) <= k < off($b) ==> elems($b)[k] < 0
  inv [$i int] $i <= len(req.Bucketing) && forall k int :: 0 <= k < $i ==> req.Bucketing[k] < 0
  inv [$i int, $b []time.Duration] $i <= len($b) && forall k int :: 0 <= k < $i ==> $b[k] < 0
  inv [$i int] len(req.Bucketing) >= 0 && 0 <= $i
  inv [$e []error, $i int] len($e) == $i && freshornil($e)
  inv [$e []error] forall k int :: 0 <= k < len($e) ==> $e[k] != nil

# ---------------------------------------------------------------- search_stats.go

# the older (newer) of two start times, where the zero time stands for none
fun older(a int, b int) int = a == 0 ? b : (b == 0 ? a : (a < b ? a : b))
fun newer(a int, b int) int = a == 0 ? b : (b == 0 ? a : (a > b ? a : b))

func trc.olderOf(a, b) (r)
  props C11, C12
  modifies nothing
  ensures [C11 C12 older] r == older(a, b)
func trc.newerOf(a, b) (r)
  props C11, C12
  modifies nothing
  ensures [C11 C12 newer] r == newer(a, b)

# counters are never negative, and events belong to counted traces
def nocount(cs) = cs.ActiveCount == 0 && cs.ErroredCount == 0 && cs.Oldest == 0 && cs.Newest == 0 && forall i int :: 0 <= i < len(cs.BucketCounts) ==> cs.BucketCounts[i] == 0
fun nonneg(a map[int]int, o int, n int) bool = forall i int :: o <= i < o + n ==> a[i] >= 0
def catok(cs) = cs.EventCount >= 0 && cs.ActiveCount >= 0 && cs.ErroredCount >= 0 && nonneg(elems(cs.BucketCounts), off(cs.BucketCounts), len(cs.BucketCounts)) && (cs.Oldest == 0 ==> cs.EventCount == 0)

func trc.NewCategoryStats(category, bucketing) (cs)
  props C11, C12
  modifies nothing
  ensures [C11 empty] fresh(cs) && cs.Category == category && cs.EventCount == 0 && nocount(cs) && fresh(cs.BucketCounts) && allocated(cs.BucketCounts) && len(cs.BucketCounts) == len(bucketing)

func (*trc.CategoryStats).IsZero(cs) (r)
  props C12
  opt nilrecv
  requires cs != nil ==> catok(cs)
  modifies nothing
  ensures [C12 zero] r <==> cs == nil || (cs.Category == "" && nocount(cs))
  inv [$i int] forall k int :: 0 <= k < $i ==> cs.BucketCounts[k] == 0
  inv [$i int, $s int] $s >= 0 && forall k int :: 0 <= k < $i ==> cs.BucketCounts[k] <= $s
  inv [$i int, $s int] (forall k int :: 0 <= k < $i ==> cs.BucketCounts[k] == 0) ==> $s == 0

func (*trc.CategoryStats).TotalCount(cs) (n)
  props C11
  modifies nothing
  ensures [C11 total] n == cs.ActiveCount + cs.ErroredCount + (len(cs.BucketCounts) > 0 ? cs.BucketCounts[0] : 0)

# bucket counts r are the sum of a (if ha) and b (if hb)
fun bsum(r map[int]int, ro int, ha bool, a map[int]int, ao int, hb bool, b map[int]int, bo int, n int) bool = forall i int :: ro <= i < ro + n ==> r[i] == (ha ? a[i - ro + ao] : 0) + (hb ? b[i - ro + bo] : 0)

func (*trc.CategoryStats).clone(cs) (cp)
  props C12
  modifies nothing
  ensures [C12 same] fresh(cp) && cp.Category == cs.Category && cp.EventCount == cs.EventCount && cp.ActiveCount == cs.ActiveCount && cp.ErroredCount == cs.ErroredCount && cp.Oldest == cs.Oldest && cp.Newest == cs.Newest && cp.tracerate == cs.tracerate && cp.eventrate == cs.eventrate
  ensures [C12 unshared] freshornil(cp.BucketCounts) && allocated(cp.BucketCounts) && len(cp.BucketCounts) == len(cs.BucketCounts) && forall i int :: 0 <= i < len(cs.BucketCounts) ==> cp.BucketCounts[i] == cs.BucketCounts[i]
  ensures [C12 counts] bsum(elems(cp.BucketCounts), off(cp.BucketCounts), false, elems(cp.BucketCounts), off(cp.BucketCounts), true, elems(cs.BucketCounts), off(cs.BucketCounts), len(cs.BucketCounts))
  inv [$i int, $p *trc.CategoryStats] len($p.BucketCounts) == $i
  inv [$p *trc.CategoryStats] freshornil($p.BucketCounts) && allocated($p.BucketCounts)
  inv [$p *trc.CategoryStats] forall k int :: 0 <= k < len($p.BucketCounts) ==> $p.BucketCounts[k] == cs.BucketCounts[k]
  inv [$i int, $p *trc.CategoryStats] forall k int :: 0 <= k < $i ==> $p.BucketCounts[k] == cs.BucketCounts[k]
  inv [$i int, $b []int] len($b) == $i && freshornil($b) && allocated($b)
  inv [$b []int] forall k int :: 0 <= k < len($b) ==> $b[k] == cs.BucketCounts[k]
  inv [$i int, $b []int] forall k int :: 0 <= k < $i ==> $b[k] == cs.BucketCounts[k]

func (*trc.CategoryStats).TraceRate(cs) (r)
  props C12
  modifies cs.tracerate
func (*trc.CategoryStats).EventRate(cs) (r)
  props C12
  modifies cs.eventrate

func (*trc.CategoryStats).Merge(cs, other)
  props C12
  requires cs != nil && catok(cs) && (other != nil ==> catok(other) && other != cs && (base(other.BucketCounts) == nil || base(other.BucketCounts) != base(cs.BucketCounts)))
  requires other != nil ==> len(other.BucketCounts) == len(cs.BucketCounts)
  modifies cs.Category, cs.EventCount, cs.ActiveCount, cs.BucketCounts, cs.BucketCounts[*], cs.ErroredCount, cs.Oldest, cs.Newest, cs.tracerate, cs.eventrate, other.tracerate, other.eventrate
  ensures [C12 nothing] other == nil ==> cs.Category == old(cs.Category) && cs.EventCount == old(cs.EventCount) && cs.ActiveCount == old(cs.ActiveCount) && cs.ErroredCount == old(cs.ErroredCount) && cs.Oldest == old(cs.Oldest) && cs.Newest == old(cs.Newest) && cs.BucketCounts == old(cs.BucketCounts)
  ensures [C12 events] other != nil ==> cs.EventCount == old(cs.EventCount) + other.EventCount
  ensures [C12 active] other != nil ==> cs.ActiveCount == old(cs.ActiveCount) + other.ActiveCount
  ensures [C12 errored] other != nil ==> cs.ErroredCount == old(cs.ErroredCount) + other.ErroredCount
  ensures [C12 buckets] len(cs.BucketCounts) == old(len(cs.BucketCounts)) && (other != nil ==> forall i int :: 0 <= i < len(cs.BucketCounts) ==> cs.BucketCounts[i] == old(cs.BucketCounts[i]) + other.BucketCounts[i])
  ensures [C12 counts] other != nil ==> bsum(elems(cs.BucketCounts), off(cs.BucketCounts), true, old(elems(cs.BucketCounts)), old(off(cs.BucketCounts)), true, elems(other.BucketCounts), off(other.BucketCounts), len(cs.BucketCounts))
  ensures [C12 oldest] other != nil ==> cs.Oldest == older(old(cs.Oldest), other.Oldest)
  ensures [C12 newest] other != nil ==> cs.Newest == newer(old(cs.Newest), other.Newest)
  ensures [C12 name] cs.Category == old(cs.Category) || (old(cs.Category) == "" && other != nil && cs.Category == other.Category)
  ensures [C12 unshared] cs.BucketCounts == old(cs.BucketCounts) || freshornil(cs.BucketCounts) && allocated(cs.BucketCounts)
  ensures [C12 other_unchanged] other != nil ==> other.BucketCounts == old(other.BucketCounts) && forall i int :: 0 <= i < len(other.BucketCounts) ==> other.BucketCounts[i] == old(other.BucketCounts[i])
  ensures [C12 ok] catok(cs)
  inv [$i int] forall k int :: 0 <= k < len(cs.BucketCounts) ==> cs.BucketCounts[k] == pre(cs.BucketCounts[k]) + (k < $i ? other.BucketCounts[k] : 0)

# what a set of statistics says about a category
def has(ss, c) = ss.Categories != nil && c in ss.Categories
def sev(ss, c) = has(ss, c) ? ss.Categories[c].EventCount : 0
def sact(ss, c) = has(ss, c) ? ss.Categories[c].ActiveCount : 0
def serr(ss, c) = has(ss, c) ? ss.Categories[c].ErroredCount : 0
def sbkt(ss, c, i) = has(ss, c) ? ss.Categories[c].BucketCounts[i] : 0
def sold(ss, c) = has(ss, c) ? ss.Categories[c].Oldest : 0
def snew(ss, c) = has(ss, c) ? ss.Categories[c].Newest : 0
def bc(ss, c) = ss.Categories[c].BucketCounts
def statcat(ss, c) = ss.Categories[c] != nil && allocated(ss.Categories[c]) && allocated(ss.Categories[c].BucketCounts) && catok(ss.Categories[c]) && ss.Categories[c].Category == c && len(ss.Categories[c].BucketCounts) == len(ss.Bucketing)
def statsep(ss) = forall c string, d string :: has(ss, c) && has(ss, d) && c != d ==> ss.Categories[c] != ss.Categories[d] && (base(ss.Categories[c].BucketCounts) == nil || base(ss.Categories[c].BucketCounts) != base(ss.Categories[d].BucketCounts))
def statsok(ss) = (forall c string :: has(ss, c) ==> statcat(ss, c)) && statsep(ss)
def unshared(a, b) = a.Categories != b.Categories && forall c string, d string :: has(a, c) && has(b, d) ==> a.Categories[c] != b.Categories[d] && (base(a.Categories[c].BucketCounts) == nil || base(a.Categories[c].BucketCounts) != base(b.Categories[d].BucketCounts))

func trc.NewSearchStats(bucketing) (ss)
  props C11, C12
  modifies nothing
  ensures [C11 empty] fresh(ss) && ss.Bucketing == bucketing && fresh(ss.Categories) && emptymap(ss.Categories)

func (*trc.SearchStats).IsZero(ss) (r)
  props C12
  opt nilrecv
  modifies nothing
  ensures [C12 zero] r <==> ss == nil || len(ss.Bucketing) == 0

# mb: an arbitrary bound on the age of objects. If all of ss is younger, then
# merging leaves everything older alone.
fun mb() int
def younger(ss) = forall c string :: has(ss, c) ==> age(ss.Categories[c]) >= mb() && (base(bc(ss, c)) == nil || age(base(bc(ss, c))) >= mb())
def olderkept() = (forall x *trc.CategoryStats :: age(x) < mb() ==> x.EventCount == old(x.EventCount) && x.ActiveCount == old(x.ActiveCount) && x.ErroredCount == old(x.ErroredCount) && x.Oldest == old(x.Oldest) && x.Newest == old(x.Newest) && x.BucketCounts == old(x.BucketCounts) && x.Category == old(x.Category)) && (forall r ref :: age(r) < mb() && r != nil ==> elemsof(int)[r] == old(elemsof(int)[r]))

func (*trc.SearchStats).Merge(ss, other)
  props C12
  requires other != nil ==> ss != other && statsok(other) && (ss.Categories != nil ==> unshared(ss, other)) && (len(other.Bucketing) > 0 || forall c string :: !has(other, c))
  requires statsok(ss) && (len(ss.Bucketing) > 0 || forall c string :: !has(ss, c))
  requires other != nil && len(other.Bucketing) > 0 && len(ss.Bucketing) > 0 ==> len(ss.Bucketing) == len(other.Bucketing)
  modifies ss.Bucketing, ss.Categories, ss.Categories[*], all(trc.CategoryStats.Category), all(trc.CategoryStats.EventCount), all(trc.CategoryStats.ActiveCount), all(trc.CategoryStats.ErroredCount), all(trc.CategoryStats.Oldest), all(trc.CategoryStats.Newest), all(trc.CategoryStats.BucketCounts), all(elemtype(int)), all(trc.CategoryStats.tracerate), all(trc.CategoryStats.eventrate)
  ensures [C12 events] other != nil ==> forall c string :: sev(ss, c) == old(sev(ss, c)) + sev(other, c)
  ensures [C12 active] other != nil ==> forall c string :: sact(ss, c) == old(sact(ss, c)) + sact(other, c)
  ensures [C12 errored] other != nil ==> forall c string :: serr(ss, c) == old(serr(ss, c)) + serr(other, c)
  ensures [C12 oldest] other != nil ==> forall c string :: sold(ss, c) == older(old(sold(ss, c)), sold(other, c))
  ensures [C12 newest] other != nil ==> forall c string :: snew(ss, c) == newer(old(snew(ss, c)), snew(other, c))
  ensures [C12 categories] other != nil ==> forall c string :: has(ss, c) <==> old(has(ss, c)) || has(other, c)
  ensures [C12 buckets_kept] other != nil ==> forall c string :: old(has(ss, c)) && !has(other, c) ==> elems(bc(ss, c)) == old(elems(bc(ss, c))) && off(bc(ss, c)) == old(off(bc(ss, c)))
  ensures [C12 buckets_summed] other != nil ==> forall c string :: has(other, c) && old(has(ss, c)) ==> bsum(elems(bc(ss, c)), off(bc(ss, c)), true, old(elems(bc(ss, c))), old(off(bc(ss, c))), true, elems(bc(other, c)), off(bc(other, c)), len(ss.Bucketing))
  ensures [C12 buckets_new] other != nil ==> forall c string :: has(other, c) && !old(has(ss, c)) ==> bsum(elems(bc(ss, c)), off(bc(ss, c)), false, elems(bc(ss, c)), off(bc(ss, c)), true, elems(bc(other, c)), off(bc(other, c)), len(ss.Bucketing))
  ensures [C12 nothing] other == nil ==> ss.Categories == old(ss.Categories) && forall c string :: sev(ss, c) == old(sev(ss, c)) && sact(ss, c) == old(sact(ss, c)) && serr(ss, c) == old(serr(ss, c)) && sold(ss, c) == old(sold(ss, c)) && snew(ss, c) == old(snew(ss, c)) && (has(ss, c) <==> old(has(ss, c)))
  ensures [C12 unshared] other != nil && ss.Categories != nil ==> unshared(ss, other)
  ensures [C12 other_unchanged] other != nil ==> forall c string :: has(other, c) <==> old(has(other, c))
  ensures [C12 other_counts] other != nil ==> forall c string :: sev(other, c) == old(sev(other, c)) && sact(other, c) == old(sact(other, c)) && serr(other, c) == old(serr(other, c)) && sold(other, c) == old(sold(other, c)) && snew(other, c) == old(snew(other, c))
  ensures [C12 ok] statsok(ss)
  ensures [C12 younger] mb() <= old(allocs()) && old(younger(ss)) ==> younger(ss)
  ensures [C12 elsewhere] mb() <= old(allocs()) && old(younger(ss)) ==> olderkept()
  ensures [C12 buckets] (ss.Bucketing == old(ss.Bucketing) || old(len(ss.Bucketing)) == 0) && (ss.Categories == old(ss.Categories) || fresh(ss.Categories))
  inv [] mb() <= old(allocs()) && old(younger(ss)) ==> younger(ss)
  inv [] mb() <= old(allocs()) && old(younger(ss)) ==> olderkept()
  inv [] len(ss.Bucketing) == len(other.Bucketing) && ss.Categories != nil && ss.Categories != other.Categories
  inv [] forall c string :: has(ss, c) ==> statcat(ss, c)
  inv [] forall c string :: has(other, c) ==> statcat(other, c)
  inv [] statsep(ss)
  inv [] statsep(other)
  inv [] unshared(ss, other)
  inv [] forall c string :: has(other, c) <==> old(has(other, c))
  inv [] forall c string :: sev(other, c) == old(sev(other, c)) && sact(other, c) == old(sact(other, c)) && serr(other, c) == old(serr(other, c)) && sold(other, c) == old(sold(other, c)) && snew(other, c) == old(snew(other, c))
  inv [] forall c string :: has(other, c) ==> elems(bc(other, c)) == old(elems(bc(other, c))) && off(bc(other, c)) == old(off(bc(other, c)))
  inv [$it iter] forall c string :: has(ss, c) <==> pre(has(ss, c)) || (iterdom($it, c) && pos($it, c) < $it.i)
  inv [$it iter] forall c string :: sev(ss, c) == pre(sev(ss, c)) + (iterdom($it, c) && pos($it, c) < $it.i ? sev(other, c) : 0)
  inv [$it iter] forall c string :: sact(ss, c) == pre(sact(ss, c)) + (iterdom($it, c) && pos($it, c) < $it.i ? sact(other, c) : 0)
  inv [$it iter] forall c string :: serr(ss, c) == pre(serr(ss, c)) + (iterdom($it, c) && pos($it, c) < $it.i ? serr(other, c) : 0)
  inv [$it iter] forall c string :: sold(ss, c) == older(pre(sold(ss, c)), (iterdom($it, c) && pos($it, c) < $it.i ? sold(other, c) : 0))
  inv [$it iter] forall c string :: snew(ss, c) == newer(pre(snew(ss, c)), (iterdom($it, c) && pos($it, c) < $it.i ? snew(other, c) : 0))
  inv [$it iter] forall c string :: pre(has(ss, c)) && !(iterdom($it, c) && pos($it, c) < $it.i) ==> elems(bc(ss, c)) == pre(elems(bc(ss, c))) && off(bc(ss, c)) == pre(off(bc(ss, c)))
  inv [$it iter] forall c string :: iterdom($it, c) && pos($it, c) < $it.i && pre(has(ss, c)) ==> bsum(elems(bc(ss, c)), off(bc(ss, c)), true, pre(elems(bc(ss, c))), pre(off(bc(ss, c))), true, elems(bc(other, c)), off(bc(other, c)), len(ss.Bucketing))
  inv [$it iter] forall c string :: iterdom($it, c) && pos($it, c) < $it.i && !pre(has(ss, c)) ==> bsum(elems(bc(ss, c)), off(bc(ss, c)), false, elems(bc(ss, c)), off(bc(ss, c)), true, elems(bc(other, c)), off(bc(other, c)), len(ss.Bucketing))

# all categories together, in the order in which they are visited
rec catsum(ord map[int]string, V map[string]ref, X map[ref]int, n int) int = 0 then prev + X[V[ord[n]]]
rec catbkt(ord map[int]string, V map[string]ref, B map[ref]slice, E map[ref]map[int]int, i int, n int) int = 0 then prev + E[base(B[V[ord[n]]])][off(B[V[ord[n]]]) + i]
rec catold(ord map[int]string, V map[string]ref, X map[ref]int, n int) int = 0 then older(prev, X[V[ord[n]]])
rec catnew(ord map[int]string, V map[string]ref, X map[ref]int, n int) int = 0 then newer(prev, X[V[ord[n]]])
fun bcat(r map[int]int, ro int, ord map[int]string, V map[string]ref, B map[ref]slice, E map[ref]map[int]int, nb int, n int) bool = forall i int {r[i]} :: ro <= i < ro + nb ==> r[i] == catbkt(ord, V, B, E, i - ro, n)
def allvisited(ss, it) = forall c string :: has(ss, c) ==> 0 <= pos(it, c) < len(ss.Categories) && key(it, pos(it, c)) == c

func (*trc.SearchStats).Overall(ss) (o)
  props C12
  let V = mapvals(ss.Categories)
  let EV = fieldmap(trc.CategoryStats.EventCount)
  let AC = fieldmap(trc.CategoryStats.ActiveCount)
  let ER = fieldmap(trc.CategoryStats.ErroredCount)
  let OL = fieldmap(trc.CategoryStats.Oldest)
  let NE = fieldmap(trc.CategoryStats.Newest)
  let BU = fieldmap(trc.CategoryStats.BucketCounts)
  let EL = elemsof(int)
  requires statsok(ss)
  modifies all(trc.CategoryStats.tracerate), all(trc.CategoryStats.eventrate)
  ensures [C12 overall_new] fresh(o) && o.Category == "overall" && len(o.BucketCounts) == len(ss.Bucketing) && freshornil(o.BucketCounts)
  ensures [C12 overall_events] some $it iter :: o.EventCount == catsum(order($it), V, EV, len(ss.Categories)) && allvisited(ss, $it)
  ensures [C12 overall_active] some $it iter :: o.ActiveCount == catsum(order($it), V, AC, len(ss.Categories)) && allvisited(ss, $it)
  ensures [C12 overall_errored] some $it iter :: o.ErroredCount == catsum(order($it), V, ER, len(ss.Categories)) && allvisited(ss, $it)
  ensures [C12 overall_oldest] some $it iter :: o.Oldest == catold(order($it), V, OL, len(ss.Categories))
  ensures [C12 overall_newest] some $it iter :: o.Newest == catnew(order($it), V, NE, len(ss.Categories))
  ensures [C12 overall_buckets] some $it iter :: bcat(elems(o.BucketCounts), off(o.BucketCounts), order($it), V, BU, EL, len(ss.Bucketing), len(ss.Categories))
  ensures [C12 overall_ok] catok(o)
  inv [$o *trc.CategoryStats] fresh($o) && allocated($o) && catok($o) && $o.Category == "overall"
  inv [$o *trc.CategoryStats] len($o.BucketCounts) == len(ss.Bucketing) && freshornil($o.BucketCounts) && allocated($o.BucketCounts)
  inv [$it iter, $o *trc.CategoryStats] $o.EventCount == catsum(order($it), V, EV, $it.i)
  inv [$it iter, $o *trc.CategoryStats] $o.ActiveCount == catsum(order($it), V, AC, $it.i)
  inv [$it iter, $o *trc.CategoryStats] $o.ErroredCount == catsum(order($it), V, ER, $it.i)
  inv [$it iter, $o *trc.CategoryStats] $o.Oldest == catold(order($it), V, OL, $it.i)
  inv [$it iter, $o *trc.CategoryStats] $o.Newest == catnew(order($it), V, NE, $it.i)
  inv [] forall x *trc.CategoryStats :: !fresh(x) ==> x.EventCount == old(x.EventCount) && x.ActiveCount == old(x.ActiveCount) && x.ErroredCount == old(x.ErroredCount) && x.Oldest == old(x.Oldest) && x.Newest == old(x.Newest) && x.BucketCounts == old(x.BucketCounts) && x.Category == old(x.Category)
  inv [] forall r ref :: age(r) < old(allocs()) && r != nil ==> elemsof(int)[r] == old(elemsof(int)[r])
  inv [$it iter, $o *trc.CategoryStats] bcat(elems($o.BucketCounts), off($o.BucketCounts), order($it), V, BU, EL, len(ss.Bucketing), $it.i)

func (*trc.SearchStats).AllCategories(ss) (all)
  props C12
  requires statsok(ss)
  modifies all(trc.CategoryStats.tracerate), all(trc.CategoryStats.eventrate)
  ensures [C12 all_count] len(all) == len(ss.Categories) + 1 && fresh(all)
  ensures [C12 all_only] forall i int :: 0 <= i < len(ss.Categories) ==> all[i] != nil && has(ss, all[i].Category) && all[i] == ss.Categories[all[i].Category]
  ensures [C12 all_sorted] forall i int, j int :: 0 <= i < j && j < len(ss.Categories) ==> all[i].Category <= all[j].Category
  ensures [C12 all_overall] fresh(all[len(ss.Categories)]) && all[len(ss.Categories)].Category == "overall"
  inv [$it iter, $s []*trc.CategoryStats] len($s) == $it.i && freshornil($s) && allocated($s)
  inv [$it iter, $s []*trc.CategoryStats] forall c string :: has(ss, c) && pos($it, c) < $it.i ==> $s[pos($it, c)] == ss.Categories[c]
  inv [$it iter, $s []*trc.CategoryStats] forall i int :: 0 <= i < $it.i ==> has(ss, key($it, i)) && $s[i] == ss.Categories[key($it, i)]
  inv [$it iter, $k []string] len($k) == $it.i && freshornil($k) && allocated($k)
  inv [$k []string] forall j int :: 0 <= j < len($k) ==> has(ss, $k[j])
  inv [$k []string] forall i int, j int :: 0 <= i < j && j < len($k) ==> $k[i] <= $k[j]
  inv [$k []string] len($k) == len(ss.Categories)
  inv [$i int, $s []*trc.CategoryStats] len($s) == $i && freshornil($s) && allocated($s)
  inv [$i int, $s []*trc.CategoryStats, $k []string] forall j int :: 0 <= j < $i ==> $s[j] == ss.Categories[$k[j]]

# Observe, as a function of the observed traces a[o], ..., a[o+n-1], where F
# says which of them are finished
rec onum(a map[int]any, o int, c string, n int) int = 0 then prev + (tcategory(a[o + n]) == c ? 1 : 0)
rec oev(a map[int]any, o int, c string, n int) int = 0 then prev + (tcategory(a[o + n]) == c ? tnev(a[o + n]) : 0)
rec oact(F map[any]bool, a map[int]any, o int, c string, n int) int = 0 then prev + (tcategory(a[o + n]) == c && !F[a[o + n]] ? 1 : 0)
rec oerr(F map[any]bool, a map[int]any, o int, c string, n int) int = 0 then prev + (tcategory(a[o + n]) == c && F[a[o + n]] && terrored(a[o + n]) ? 1 : 0)
rec obkt(F map[any]bool, a map[int]any, o int, c string, bound int, n int) int = 0 then prev + (tcategory(a[o + n]) == c && F[a[o + n]] && !terrored(a[o + n]) && bound <= tduration(a[o + n]) ? 1 : 0)
rec oold(a map[int]any, o int, c string, before int, n int) int = before then (tcategory(a[o + n]) == c ? older(prev, tstarted(a[o + n])) : prev)
rec onew(a map[int]any, o int, c string, before int, n int) int = before then (tcategory(a[o + n]) == c ? newer(prev, tstarted(a[o + n])) : prev)
fun bobs(r map[int]int, ro int, had bool, p map[int]int, po int, F map[any]bool, a map[int]any, o int, c string, k map[int]int, ko int, nb int, n int) bool = forall i int {r[i]} :: ro <= i < ro + nb ==> r[i] == (had ? p[i - ro + po] : 0) + obkt(F, a, o, c, k[i - ro + ko], n)
def allquiet(trs) = forall i int :: 0 <= i < len(trs) ==> quiet(trs[i])

func (*trc.SearchStats).Observe(ss, trs)
  props C11
  let F = ghostmap($finished)
  let a = elems(trs)
  requires ss.Categories != nil && statsok(ss) && ascending(ss.Bucketing)
  requires forall i int :: 0 <= i < len(trs) ==> trs[i] != nil && tstarted(trs[i]) != 0
  modifies ss.Categories[*], all($finished), all($errored), all(trc.CategoryStats.EventCount), all(trc.CategoryStats.ActiveCount), all(trc.CategoryStats.ErroredCount), all(trc.CategoryStats.Oldest), all(trc.CategoryStats.Newest), all(elemtype(int))
  ensures [C11 categories] forall c string :: has(ss, c) <==> old(has(ss, c)) || onum(a, off(trs), c, len(trs)) > 0
  ensures [C11 oldest] forall c string :: sold(ss, c) == oold(a, off(trs), c, old(sold(ss, c)), len(trs))
  ensures [C11 newest] forall c string :: snew(ss, c) == onew(a, off(trs), c, old(snew(ss, c)), len(trs))
  ensures [C11 events] old(allquiet(trs)) ==> forall c string :: sev(ss, c) == old(sev(ss, c)) + oev(a, off(trs), c, len(trs))
  ensures [C11 active] old(allquiet(trs)) ==> forall c string :: sact(ss, c) == old(sact(ss, c)) + oact(F, a, off(trs), c, len(trs))
  ensures [C11 errored] old(allquiet(trs)) ==> forall c string :: serr(ss, c) == old(serr(ss, c)) + oerr(F, a, off(trs), c, len(trs))
  ensures [C11 buckets] old(allquiet(trs)) ==> forall c string :: has(ss, c) ==> bobs(elems(bc(ss, c)), off(bc(ss, c)), old(has(ss, c)), old(elems(bc(ss, c))), old(off(bc(ss, c))), F, a, off(trs), c, elems(ss.Bucketing), off(ss.Bucketing), len(ss.Bucketing), len(trs))
  ensures [C11 once] old(allquiet(trs)) && (forall i int :: 0 <= i < len(trs) ==> tduration(trs[i]) >= 0) ==> forall c string :: oact(F, a, off(trs), c, len(trs)) + oerr(F, a, off(trs), c, len(trs)) + obkt(F, a, off(trs), c, 0, len(trs)) == onum(a, off(trs), c, len(trs))
  ensures [C11 monotone] forall t any :: (old(t.$finished) ==> t.$finished) && (quiet(t) ==> t.$finished == old(t.$finished))
  ensures [C11 ok] statsok(ss)
  inv [] forall t any :: (old(t.$finished) ==> t.$finished) && (quiet(t) ==> t.$finished == old(t.$finished))
  inv [$i int] forall c string :: (has(ss, c) <==> old(has(ss, c)) || onum(a, off(trs), c, $i) > 0) && onum(a, off(trs), c, $i) >= 0
  inv [] forall c string :: has(ss, c) ==> ss.Categories[c] != nil && allocated(ss.Categories[c]) && allocated(ss.Categories[c].BucketCounts)
  inv [] forall c string :: has(ss, c) ==> ss.Categories[c].EventCount >= 0 && ss.Categories[c].ActiveCount >= 0 && ss.Categories[c].ErroredCount >= 0
  inv [] forall c string :: has(ss, c) ==> ss.Categories[c].Category == c && len(ss.Categories[c].BucketCounts) == len(ss.Bucketing)
  inv [] forall c string :: has(ss, c) ==> (ss.Categories[c].Oldest == 0 ==> ss.Categories[c].EventCount == 0)
  inv [] forall c string :: has(ss, c) ==> nonneg(elems(bc(ss, c)), off(bc(ss, c)), len(bc(ss, c)))
  inv [] statsep(ss)
  inv [] forall c string :: old(has(ss, c)) ==> has(ss, c) && ss.Categories[c] == old(ss.Categories[c])
  inv [$cs *trc.CategoryStats] nonneg(elems($cs.BucketCounts), off($cs.BucketCounts), len($cs.BucketCounts))
  inv [$i int] forall c string :: sold(ss, c) == oold(a, off(trs), c, old(sold(ss, c)), $i)
  inv [$i int] forall c string :: snew(ss, c) == onew(a, off(trs), c, old(snew(ss, c)), $i)
  inv [$i int] old(allquiet(trs)) ==> forall c string :: sev(ss, c) == old(sev(ss, c)) + oev(a, off(trs), c, $i)
  inv [$i int] old(allquiet(trs)) ==> forall c string :: sact(ss, c) == old(sact(ss, c)) + oact(F, a, off(trs), c, $i)
  inv [$i int] old(allquiet(trs)) ==> forall c string :: serr(ss, c) == old(serr(ss, c)) + oerr(F, a, off(trs), c, $i)
  inv [] old(allquiet(trs)) ==> forall k int :: 0 <= k < len(trs) ==> trs[k].$finished == F[trs[k]]
  inv [$i int] old(allquiet(trs)) ==> forall c string :: has(ss, c) ==> bobs(elems(bc(ss, c)), off(bc(ss, c)), old(has(ss, c)), old(elems(bc(ss, c))), old(off(bc(ss, c))), F, a, off(trs), c, elems(ss.Bucketing), off(ss.Bucketing), len(ss.Bucketing), $i)
  inv [$i int] forall c string, b int :: 0 <= obkt(F, a, off(trs), c, b, $i) && obkt(F, a, off(trs), c, b, $i) <= onum(a, off(trs), c, $i)
  inv [$i int] forall c string :: ((forall i int :: 0 <= i < len(trs) ==> tduration(trs[i]) >= 0) ==> oact(F, a, off(trs), c, $i) + oerr(F, a, off(trs), c, $i) + obkt(F, a, off(trs), c, 0, $i) == onum(a, off(trs), c, $i))
  inv [$cs *trc.CategoryStats, $j int] forall k int :: 0 <= k < len(ss.Bucketing) ==> $cs.BucketCounts[k] == pre($cs.BucketCounts[k]) + (k < $j ? 1 : 0)
  inv [$j int, $c time.Duration] forall k int :: 0 <= k < $j ==> ss.Bucketing[k] <= $c
