# trace.go, trace_static.go, filter.go

# ---------------------------------------------------------------- any Trace
#
# What every implementation of the Trace interface provides, also while other
# goroutines use the trace: identity never changes, finished and errored never
# go back to false, and what is read from a finished trace is final. quiet(tr)
# says that nobody else uses the trace during the call.

ghost any.$finished bool
ghost any.$errored bool
fun quiet(tr any) bool
fun tid(tr any) string
fun tsource(tr any) string
fun tcategory(tr any) string
fun tstarted(tr any) int
# what a settled trace reports
fun tduration(tr any) int
fun terrored(tr any) bool
fun tnev(tr any) int
fun tev(tr any, i int) trc.Event
def settled(tr) = quiet(tr) || tr.$finished

iface trc.Trace.ID(tr) (r)
  modifies nothing
  ensures r == tid(tr)
iface trc.Trace.Source(tr) (r)
  modifies nothing
  ensures r == tsource(tr)
iface trc.Trace.Category(tr) (r)
  modifies nothing
  ensures r == tcategory(tr)
iface trc.Trace.Started(tr) (r)
  modifies nothing
  ensures r == tstarted(tr)
iface trc.Trace.Finished(tr) (r)
  modifies tr.$finished
  ensures old(tr.$finished) ==> tr.$finished
  ensures quiet(tr) ==> tr.$finished == old(tr.$finished)
  ensures r == tr.$finished
iface trc.Trace.Errored(tr) (r)
  modifies tr.$errored
  ensures old(tr.$errored) ==> tr.$errored
  ensures r == tr.$errored
  ensures settled(tr) ==> r == terrored(tr)
iface trc.Trace.Duration(tr) (r)
  modifies nothing
  ensures settled(tr) ==> r == tduration(tr)
iface trc.Trace.Events(tr) (evs)
  modifies tr.$errored
  ensures old(tr.$errored) ==> tr.$errored
  ensures settled(tr) ==> len(evs) == tnev(tr) && forall i int :: 0 <= i < len(evs) ==> evs[i] == tev(tr, i)
  ensures forall i int :: 0 <= i < len(evs) ==> (evs[i].IsError ==> tr.$errored)

# ---------------------------------------------------------------- filter.go

fun compiles(q string) bool
fun resrc(re *regexp.Regexp) string
fun rematch(q string, s string) bool
extern regexp.Compile(q) (re, err)
  modifies nothing
  ensures err == nil <==> compiles(q)
  ensures err == nil ==> re != nil && resrc(re) == q
  ensures err != nil ==> re == nil
extern (*regexp.Regexp).MatchString(re, s) (r)
  requires re != nil
  modifies nothing
  ensures r == rematch(resrc(re), s)
fun lastslash(s string) int
extern strings.LastIndex(s, sep) (r)
  modifies nothing
  ensures -1 <= r && r + len(sep) <= len(s)
  ensures sep == "/" ==> r == lastslash(s)
pure strings.Cut

# the query regexp, once compiled, belongs to the query
def filterok(f) = f.regexp != nil ==> resrc(f.regexp) == f.Query && compiles(f.Query) && f.Query != ""
# the query that constrains: none if empty or invalid
def hasquery(q) = q != "" && compiles(q)

# package path of the function, and the last two elements of the file
def pkgpath(fn) = lastslash(fn) == -1 ? "" : substr(fn, 0, lastslash(fn))
def shortfile(p) = lastslash(p) == -1 ? p : substr(p, lastslash(substr(p, 0, lastslash(p))) + 1, len(p))
def cutfile(s) = ext("strings.Cut!0", s, ":")
def cutline(s) = ext("strings.Cut!1", s, ":")
fun compact(fn string, fl string) string = (pkgpath(fn) == "" ? shortfile(cutfile(fl)) : pkgpath(fn) + "/" + shortfile(cutfile(fl))) + ":" + cutline(fl)
func (trc.Frame).CompactFileLine(fr) (r)
  props C09
  modifies nothing
  ensures [C09 compact] r == compact(fr.Function, fr.FileLine)

# FR: the frames of all stacks
def framematch(q, fr) = rematch(q, fr.Function) || rematch(q, compact(fr.Function, fr.FileLine))
fun evmatchv(q string, ev trc.Event, FR map[ref]map[int]trc.Frame) bool = rematch(q, ev.What) || exists j int :: off(ev.Stack) <= j < off(ev.Stack) + len(ev.Stack) && framematch(q, typed(FR[base(ev.Stack)][j], trc.Frame))
fun trmatchv(q string, tr any, FR map[ref]map[int]trc.Frame) bool = exists i int :: 0 <= i < tnev(tr) && evmatchv(q, tev(tr, i), FR)
fun listedv(a map[int]string, o int, n int, x string) bool = exists i int :: o <= i < o + n && a[i] == x
def evmatch(q, ev) = evmatchv(q, ev, elemsof(trc.Frame))

# the filter with query q ("" if it has none) allows the settled trace tr, which is finished or not (fin)
fun allowsv(S map[int]string, so int, sn int, I map[int]string, io int, in int, cat string, act bool, fnd bool, hasmin bool, min int, succ bool, errd bool, q string, tr any, fin bool, FR map[ref]map[int]trc.Frame) bool = (sn == 0 || listedv(S, so, sn, tsource(tr))) && (in == 0 || listedv(I, io, in, tid(tr))) && (cat == "" || cat == tcategory(tr)) && (act ==> !fin) && (fnd ==> fin) && (hasmin ==> fin && tduration(tr) >= min) && (succ ==> !terrored(tr)) && (errd ==> terrored(tr)) && (q != "" ==> trmatchv(q, tr, FR))
def allowed(f, q, tr, fin) = allowsv(elems(f.Sources), off(f.Sources), len(f.Sources), elems(f.IDs), off(f.IDs), len(f.IDs), f.Category, f.IsActive, f.IsFinished, f.MinDuration != nil, *f.MinDuration, f.IsSuccess, f.IsErrored, hasquery(q) ? q : "", tr, fin, elemsof(trc.Frame))

func (*trc.Filter).initializeQueryRegexp(f) (err)
  props C09, C10
  requires filterok(f)
  modifies f.regexp, f.Query
  ensures [C09 C10 ok] filterok(f)
  ensures [C10 err] err != nil <==> old(f.Query) != "" && !compiles(old(f.Query))
  ensures [C09 C10 kept] hasquery(old(f.Query)) ==> f.Query == old(f.Query) && f.regexp != nil
  ensures [C09 C10 ignored] !hasquery(old(f.Query)) ==> f.Query == "" && f.regexp == nil

func (*trc.Filter).Normalize(f) (errs)
  props C10
  requires filterok(f)
  modifies f.regexp, f.Query
  ensures [C10 ok] filterok(f)
  ensures [C10 err] len(errs) == ((old(f.Query) != "" && !compiles(old(f.Query))) ? 1 : 0)
  ensures [C10 nonnil] forall i int :: 0 <= i < len(errs) ==> errs[i] != nil
  ensures [C10 kept] hasquery(old(f.Query)) ==> f.Query == old(f.Query) && f.regexp != nil
  ensures [C10 ignored] !hasquery(old(f.Query)) ==> f.Query == "" && f.regexp == nil
  ensures [C10 fresh] freshornil(errs)

func (*trc.Filter).Allow(f, tr) (r)
  props C09
  requires filterok(f) && tr != nil
  modifies f.regexp, f.Query, tr.$finished, tr.$errored
  ensures [C09 usable] filterok(f)
  ensures [C09 query] (hasquery(old(f.Query)) ==> f.Query == old(f.Query)) && (f.Query != old(f.Query) ==> f.Query == "")
  ensures [C09 monotone] (old(tr.$finished) ==> tr.$finished) && (quiet(tr) ==> tr.$finished == old(tr.$finished))
  ensures [C09 exact] old(settled(tr)) ==> (r <==> allowed(f, old(f.Query), tr, old(tr.$finished)))
  inv [$i int] forall k int :: 0 <= k < $i ==> f.Sources[k] != tsource(tr)
  inv [$i int] forall k int :: 0 <= k < $i ==> f.IDs[k] != tid(tr)
  inv [$i int, $f bool] $f <==> exists k int :: 0 <= k < $i && f.Sources[k] == tsource(tr)
  inv [$i int, $f bool] $f <==> exists k int :: 0 <= k < $i && f.IDs[k] == tid(tr)
  inv [$i int, $e []trc.Event] forall k int :: 0 <= k < $i ==> !evmatch(f.Query, $e[k])
  inv [$j int, $s []trc.Frame] forall k int :: 0 <= k < $j ==> !framematch(f.Query, $s[k])

# ---------------------------------------------------------------- trace_static.go

# optional method of traces: at most n of the newest events (all if n <= 0)
def tlast(tr, n) = (n <= 0 || n > tnev(tr)) ? tnev(tr) : n
def sameev(a, b) = a.When == b.When && a.What == b.What && a.IsError == b.IsError
iface any.EventsDetail(tr, n, stacks) (evs)
  modifies tr.$errored
  ensures old(tr.$errored) ==> tr.$errored
  ensures n > 0 ==> len(evs) <= n
  ensures settled(tr) ==> len(evs) == tlast(tr, n) && forall i int :: 0 <= i < len(evs) ==> sameev(evs[i], tev(tr, tnev(tr) - tlast(tr, n) + i))
  ensures forall i int :: 0 <= i < len(evs) ==> (evs[i].IsError ==> tr.$errored) && (!stacks ==> len(evs[i].Stack) == 0)
  ensures freshornil(evs)
pure (time.Duration).String, (time.Duration).Seconds

func (*trc.StaticTrace).ID(st) (r)
  props C13, C23
  modifies nothing
  ensures [C13 C23 value] r == st.TraceID
func (*trc.StaticTrace).Source(st) (r)
  props C13, C23
  modifies nothing
  ensures [C13 C23 value] r == st.TraceSource
func (*trc.StaticTrace).Category(st) (r)
  props C13, C23
  modifies nothing
  ensures [C13 C23 value] r == st.TraceCategory
func (*trc.StaticTrace).Started(st) (r)
  props C13, C23
  modifies nothing
  ensures [C13 C23 value] r == st.TraceStarted
func (*trc.StaticTrace).Duration(st) (r)
  props C13
  modifies nothing
  ensures [C13 value] r == st.TraceDuration
func (*trc.StaticTrace).Finished(st) (r)
  props C13
  modifies nothing
  ensures [C13 value] r == st.TraceFinished
func (*trc.StaticTrace).Errored(st) (r)
  props C13
  modifies nothing
  ensures [C13 value] r == st.TraceErrored
func (*trc.StaticTrace).Events(st) (r)
  props C13
  modifies nothing
  ensures [C13 value] r == st.TraceEvents
func (*trc.StaticTrace).Tracef(st, format, args)
  props C13
  modifies nothing
func (*trc.StaticTrace).LazyTracef(st, format, args)
  props C13
  modifies nothing
func (*trc.StaticTrace).Errorf(st, format, args)
  props C13
  modifies nothing
func (*trc.StaticTrace).LazyErrorf(st, format, args)
  props C13
  modifies nothing
func (*trc.StaticTrace).Finish(st)
  props C13
  modifies nothing

def identity(st, tr) = st.TraceID == tid(tr) && st.TraceSource == tsource(tr) && st.TraceCategory == tcategory(tr) && st.TraceStarted == tstarted(tr)

func trc.NewSearchTrace(tr) (st)
  props C08, C13, C14, C23
  requires tr != nil
  modifies tr.$finished, tr.$errored
  ensures [C14 C23 identity] fresh(st) && identity(st, tr)
  ensures [C14 finished] old(tr.$finished) ==> st.TraceFinished
  ensures [C14 active] quiet(tr) ==> st.TraceFinished == old(tr.$finished)
  ensures [C14 monotone] (old(tr.$finished) ==> tr.$finished) && (quiet(tr) ==> tr.$finished == old(tr.$finished))
  ensures [C14 final] st.TraceFinished || quiet(tr) ==> st.TraceDuration == tduration(tr) && st.TraceErrored == terrored(tr) && len(st.TraceEvents) == tnev(tr)
  ensures [C14 final_events] st.TraceFinished || quiet(tr) ==> forall i int :: 0 <= i < len(st.TraceEvents) ==> st.TraceEvents[i] == tev(tr, i)
  ensures [C14 error_event] forall i int :: 0 <= i < len(st.TraceEvents) ==> (st.TraceEvents[i].IsError ==> st.TraceErrored)

func trc.withoutStacks(events) (res)
  props C13, C14
  modifies nothing
  ensures [C14 same] len(res) == len(events) && forall i int :: 0 <= i < len(events) ==> sameev(res[i], events[i]) && base(res[i].Stack) == nil && len(res[i].Stack) == 0
  ensures [C13 copy] fresh(res)
  inv [$i int, $s []trc.Event] fresh($s) && len($s) == len(events) && forall k int :: 0 <= k < $i ==> sameev($s[k], events[k]) && base($s[k].Stack) == nil && len($s[k].Stack) == 0

func trc.NewStreamTrace(tr) (st)
  props C13, C14, C15, C23
  requires tr != nil
  modifies tr.$finished, tr.$errored
  ensures [C14 C23 identity] fresh(st) && identity(st, tr)
  ensures [C14 finished] old(tr.$finished) ==> st.TraceFinished
  ensures [C14 active] quiet(tr) ==> st.TraceFinished == old(tr.$finished)
  ensures [C14 monotone] (old(tr.$finished) ==> tr.$finished) && (quiet(tr) ==> tr.$finished == old(tr.$finished))
  ensures [C14 final] st.TraceFinished || quiet(tr) ==> st.TraceDuration == tduration(tr) && st.TraceErrored == terrored(tr)
  ensures [C14 all_events] st.TraceFinished ==> len(st.TraceEvents) == tnev(tr) && forall i int :: 0 <= i < len(st.TraceEvents) ==> sameev(st.TraceEvents[i], tev(tr, i))
  ensures [C14 at_most_one] !st.TraceFinished ==> len(st.TraceEvents) <= 1
  ensures [C14 newest] !st.TraceFinished && quiet(tr) ==> len(st.TraceEvents) == min(1, tnev(tr)) && (tnev(tr) > 0 ==> sameev(st.TraceEvents[0], tev(tr, tnev(tr) - 1)))
  ensures [C14 no_stacks] forall i int :: 0 <= i < len(st.TraceEvents) ==> len(st.TraceEvents[i].Stack) == 0
  ensures [C14 error_event] forall i int :: 0 <= i < len(st.TraceEvents) ==> (st.TraceEvents[i].IsError ==> st.TraceErrored)
  ensures [C13 copy] freshornil(st.TraceEvents)

func (*trc.StaticTrace).TrimStacks(st, depth) (r)
  props C08, C13, C14
  modifies st.TraceEvents
  ensures [C13 self] r == st
  ensures [C13 none] depth == 0 ==> st.TraceEvents == old(st.TraceEvents)
  ensures [C13 copy] depth != 0 ==> freshornil(st.TraceEvents) || len(st.TraceEvents) == 0
  ensures [C13 same] len(st.TraceEvents) == old(len(st.TraceEvents)) && forall i int :: 0 <= i < len(st.TraceEvents) ==> sameev(st.TraceEvents[i], old(st.TraceEvents[i]))
  ensures [C13 trimmed] forall i int :: 0 <= i < len(st.TraceEvents) ==> base(st.TraceEvents[i].Stack) == old(base(st.TraceEvents[i].Stack)) && off(st.TraceEvents[i].Stack) == old(off(st.TraceEvents[i].Stack)) && len(st.TraceEvents[i].Stack) == (depth == 0 ? old(len(st.TraceEvents[i].Stack)) : min(max(depth, 0), old(len(st.TraceEvents[i].Stack))))
  inv [$i int] forall k int :: 0 <= k < old(len(st.TraceEvents)) ==> sameev(st.TraceEvents[k], old(st.TraceEvents[k])) && base(st.TraceEvents[k].Stack) == old(base(st.TraceEvents[k].Stack)) && off(st.TraceEvents[k].Stack) == old(off(st.TraceEvents[k].Stack))
  inv [$i int] forall k int :: 0 <= k < $i ==> len(st.TraceEvents[k].Stack) == min(max(depth, 0), old(len(st.TraceEvents[k].Stack)))
  inv [$i int] forall k int :: $i <= k < old(len(st.TraceEvents)) ==> len(st.TraceEvents[k].Stack) == old(len(st.TraceEvents[k].Stack))
  inv [] len(st.TraceEvents) == old(len(st.TraceEvents)) && freshornil(st.TraceEvents)
  inv [$s []trc.Event] freshornil($s)
  inv [$i int, $s []trc.Event] len($s) == old(len(st.TraceEvents)) || len($s) == $i
  inv [$i int, $s []trc.Event] $i <= len($s) && forall k int :: 0 <= k < $i ==> sameev($s[k], old(st.TraceEvents[k])) && base($s[k].Stack) == old(base(st.TraceEvents[k].Stack)) && off($s[k].Stack) == old(off(st.TraceEvents[k].Stack)) && len($s[k].Stack) == min(max(depth, 0), old(len(st.TraceEvents[k].Stack)))
