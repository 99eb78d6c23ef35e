# trace_core.go

# ---------------------------------------------------------------- environment

global trc.traceMaxEvents
  assume [set] trc.traceMaxEvents != nil && 10 <= *trc.traceMaxEvents && *trc.traceMaxEvents <= 10000
global trc.zeroNullString
  assume [zero] trc.zeroNullString.valid == false && trc.zeroNullString.value == ""

# objects handed out by a pool are referenced by nobody else; their content is
# arbitrary, whatever they were used for before
extern pool.Get.trc_coreTracePool(p) (x)
  modifies nothing
  ensures istype(x, *trc.coreTrace) && fresh(as(x, *trc.coreTrace)) && unlocked(as(x, *trc.coreTrace))
  ensures freshornil(as(x, *trc.coreTrace).events)
extern pool.Put.trc_coreTracePool(p, x)
  requires [C24 recycle_finished] istype(x, *trc.coreTrace) && as(x, *trc.coreTrace).finished
  modifies nothing
extern pool.Get.trc_coreEventPool(p) (x)
  modifies nothing
  ensures istype(x, *trc.coreEvent) && fresh(as(x, *trc.coreEvent))
extern pool.Put.trc_coreEventPool(p, x)
  requires istype(x, *trc.coreEvent)
  modifies nothing
extern pool.Get.trc_stringerPool(p) (x)
  modifies nothing
  ensures istype(x, *trc.stringer) && fresh(as(x, *trc.stringer)) && (as(x, *trc.stringer).str == nil || istype(as(x, *trc.stringer).str, trc.nullString))
extern pool.Put.trc_stringerPool(p, x)
  requires istype(x, *trc.stringer) && istype(as(x, *trc.stringer).str, trc.nullString)
  modifies nothing

fun isulid(id ulid.ULID, src any) bool
extern ulid.MustNew(ms, entropy) (id)
  modifies nothing
  ensures isulid(id, entropy)
pure (ulid.ULID).String, ulid.Timestamp
def ulidstring(id ulid.ULID) = ext("(ulid.ULID).String", id)
def marker(n int) = ext("sprintf!1", "(truncated event count %d)", box(n))
extern runtime.Callers(skip, pc) (n)
  modifies pc[*]
  ensures 0 <= n <= len(pc)
havoc runtime.CallersFrames, (*runtime.Frames).Next
pure strings.HasSuffix
fun itoa(n int) string
extern strconv.Itoa(n) (s)
  modifies nothing
  ensures s == itoa(n)
fun hasprefix(s string, p string) bool
extern strings.HasPrefix(s, p) (r)
  modifies nothing
  ensures r == hasprefix(s, p)

# ---------------------------------------------------------------- the trace

def text(ev) = as(ev.what.str, trc.nullString)
def evok(ev) = ev != nil && allocated(ev) && ev.what != nil && allocated(ev.what) && istype(ev.what.str, trc.nullString) && (text(ev).valid || ev.what.str == box(trc.zeroNullString)) && (base(ev.stack) == nil || len(ev.stack) > 0) && 0 <= ev.pcn <= 8

monitor trc.coreTrace mtx
  level 4
  props C22
  guards errored, finished, duration, events[*], eventsmax, truncated
  invariant [events] forall i int :: 0 <= i < len(self.events) ==> evok(self.events[i])
  invariant [distinct] forall i int, j int :: 0 <= i < j && j < len(self.events) ==> self.events[i] != self.events[j] && self.events[i].what != self.events[j].what
  invariant [max] 10 <= self.eventsmax <= 10000 && self.truncated >= 0
  invariant [flags] self.nostackflag == bv(0) || self.nostackflag == bv(4)

# what an event call must leave alone
def keptprefix(tr, n) = forall i int :: 0 <= i < n ==> tr.events[i] == old(tr.events[i]) && tr.events[i].when == old(tr.events[i].when) && tr.events[i].what == old(tr.events[i].what) && tr.events[i].what.str == old(tr.events[i].what.str) && tr.events[i].iserr == old(tr.events[i].iserr)
def frozen(tr) = tr.finished && tr.errored == old(tr.errored) && tr.duration == old(tr.duration) && tr.events == old(tr.events) && tr.truncated == old(tr.truncated)

def last(tr) = tr.events[len(tr.events)-1]

func (*trc.coreTrace).Tracef(tr, format, args)
  props C01, C02, C03, C04, C05, C13, C22, C23
  opt locks=tr
  requires monitorinv(tr)
  modifies tr.events, tr.events[*], tr.truncated
  ensures [C02 finished_ignored] old(tr.finished) ==> frozen(tr)
  ensures [C02 not_finished] tr.finished == old(tr.finished)
  ensures [C03 not_errored] tr.errored == old(tr.errored)
  ensures [C04 full] !old(tr.finished) && old(len(tr.events)) >= tr.eventsmax ==> tr.truncated == old(tr.truncated) + 1 && tr.events == old(tr.events)
  ensures [C01 C04 room] !old(tr.finished) && old(len(tr.events)) < tr.eventsmax ==> tr.truncated == old(tr.truncated) && len(tr.events) == old(len(tr.events)) + 1
  ensures [C01 prefix] keptprefix(tr, old(len(tr.events)))
  ensures [C01 appended] len(tr.events) > old(len(tr.events)) ==> fresh(last(tr)) && last(tr).iserr == false && old(now()) <= last(tr).when <= now()
  ensures [C01 C05 formatted_now] len(tr.events) > old(len(tr.events)) ==> text(last(tr)).valid && formatted(text(last(tr)).value, format, args) && fmtcount() == old(fmtcount()) + 1
  ensures [C04 inv] monitorinv(tr)

func (*trc.coreTrace).LazyTracef(tr, format, args)
  props C01, C02, C03, C04, C05, C13, C22, C23
  opt locks=tr
  requires monitorinv(tr)
  modifies tr.events, tr.events[*], tr.truncated
  ensures [C02 finished_ignored] old(tr.finished) ==> frozen(tr)
  ensures [C02 not_finished] tr.finished == old(tr.finished)
  ensures [C03 not_errored] tr.errored == old(tr.errored)
  ensures [C04 full] !old(tr.finished) && old(len(tr.events)) >= tr.eventsmax ==> tr.truncated == old(tr.truncated) + 1 && tr.events == old(tr.events)
  ensures [C01 C04 room] !old(tr.finished) && old(len(tr.events)) < tr.eventsmax ==> tr.truncated == old(tr.truncated) && len(tr.events) == old(len(tr.events)) + 1
  ensures [C01 prefix] keptprefix(tr, old(len(tr.events)))
  ensures [C01 appended] len(tr.events) > old(len(tr.events)) ==> fresh(last(tr)) && last(tr).iserr == false && old(now()) <= last(tr).when <= now()
  ensures [C01 C05 not_formatted] fmtcount() == old(fmtcount()) && (len(tr.events) > old(len(tr.events)) ==> !text(last(tr)).valid && last(tr).what.fmt == format && last(tr).what.args == args)
  ensures [C04 inv] monitorinv(tr)

func (*trc.coreTrace).Errorf(tr, format, args)
  props C01, C02, C03, C04, C05, C13, C22, C23
  opt locks=tr
  requires monitorinv(tr)
  modifies tr.events, tr.events[*], tr.truncated, tr.errored
  ensures [C02 finished_ignored] old(tr.finished) ==> frozen(tr)
  ensures [C02 not_finished] tr.finished == old(tr.finished)
  ensures [C03 errored] !old(tr.finished) ==> tr.errored
  ensures [C04 full] !old(tr.finished) && old(len(tr.events)) >= tr.eventsmax ==> tr.truncated == old(tr.truncated) + 1 && tr.events == old(tr.events)
  ensures [C01 C04 room] !old(tr.finished) && old(len(tr.events)) < tr.eventsmax ==> tr.truncated == old(tr.truncated) && len(tr.events) == old(len(tr.events)) + 1
  ensures [C01 prefix] keptprefix(tr, old(len(tr.events)))
  ensures [C01 appended] len(tr.events) > old(len(tr.events)) ==> fresh(last(tr)) && last(tr).iserr == true && old(now()) <= last(tr).when <= now()
  ensures [C01 C05 formatted_now] len(tr.events) > old(len(tr.events)) ==> text(last(tr)).valid && formatted(text(last(tr)).value, format, args) && fmtcount() == old(fmtcount()) + 1
  ensures [C04 inv] monitorinv(tr)

func (*trc.coreTrace).LazyErrorf(tr, format, args)
  props C01, C02, C03, C04, C05, C13, C22, C23
  opt locks=tr
  requires monitorinv(tr)
  modifies tr.events, tr.events[*], tr.truncated, tr.errored
  ensures [C02 finished_ignored] old(tr.finished) ==> frozen(tr)
  ensures [C02 not_finished] tr.finished == old(tr.finished)
  ensures [C03 errored] !old(tr.finished) ==> tr.errored
  ensures [C04 full] !old(tr.finished) && old(len(tr.events)) >= tr.eventsmax ==> tr.truncated == old(tr.truncated) + 1 && tr.events == old(tr.events)
  ensures [C01 C04 room] !old(tr.finished) && old(len(tr.events)) < tr.eventsmax ==> tr.truncated == old(tr.truncated) && len(tr.events) == old(len(tr.events)) + 1
  ensures [C01 prefix] keptprefix(tr, old(len(tr.events)))
  ensures [C01 appended] len(tr.events) > old(len(tr.events)) ==> fresh(last(tr)) && last(tr).iserr == true && old(now()) <= last(tr).when <= now()
  ensures [C01 C05 not_formatted] fmtcount() == old(fmtcount()) && (len(tr.events) > old(len(tr.events)) ==> !text(last(tr)).valid && last(tr).what.fmt == format && last(tr).what.args == args)
  ensures [C04 inv] monitorinv(tr)

func (*trc.coreTrace).Finish(tr)
  props C02, C22, C23
  opt locks=tr
  requires monitorinv(tr)
  modifies tr.finished, tr.duration
  ensures [C02 finished] tr.finished
  ensures [C02 duration] !old(tr.finished) ==> old(now()) <= tr.start + tr.duration <= now()
  ensures [C02 once] old(tr.finished) ==> frozen(tr)
  ensures [C02 inv] monitorinv(tr)

func (*trc.coreTrace).Finished(tr) (r)
  props C02, C22
  opt keep_fmtn
  opt locks=tr
  requires monitorinv(tr)
  modifies nothing
  ensures [C02 value] r == tr.finished

func (*trc.coreTrace).Errored(tr) (r)
  props C03, C22
  opt keep_fmtn
  opt locks=tr
  requires monitorinv(tr)
  modifies nothing
  ensures [C03 value] r == tr.errored

func (*trc.coreTrace).Duration(tr) (d)
  props C02, C22
  opt locks=tr
  requires monitorinv(tr)
  modifies nothing
  ensures [C02 final] tr.finished ==> d == tr.duration
  ensures [C02 running] !tr.finished ==> old(now()) <= tr.start + d <= now()

func (*trc.coreTrace).ID(tr) (r)
  props C23
  modifies nothing
  ensures [C23 value] r == ulidstring(tr.id)
func (*trc.coreTrace).Source(tr) (r)
  props C23
  modifies nothing
  ensures [C23 value] r == tr.source
func (*trc.coreTrace).Category(tr) (r)
  props C23
  modifies nothing
  ensures [C23 value] r == tr.category
func (*trc.coreTrace).Started(tr) (r)
  props C23
  modifies nothing
  ensures [C23 value] r == tr.start

func (*trc.coreTrace).SetMaxEvents(tr, max)
  props C04, C22
  opt locks=tr
  requires monitorinv(tr)
  modifies tr.eventsmax
  ensures [C04 clamped] tr.eventsmax == (max < 10 ? 10 : (max > 10000 ? 10000 : max))
  ensures [C04 inv] monitorinv(tr)

func trc.SetTraceMaxEvents(n)
  props C04
  modifies *trc.traceMaxEvents
  ensures [C04 clamped] *trc.traceMaxEvents == (n < 10 ? 10 : (n > 10000 ? 10000 : n))

func trc.newCoreTrace(source, category) (tr)
  props C01, C02, C03, C04, C22, C23, C24
  modifies nothing
  ensures [C23 identity] fresh(tr) && tr.source == source && tr.category == category && isulid(tr.id, trc.traceIDEntropy)
  ensures [C23 start] old(now()) <= tr.start <= now()
  ensures [C02 C24 unfinished] !tr.finished && tr.duration == 0
  ensures [C03 C24 not_errored] !tr.errored
  ensures [C01 C24 no_events] len(tr.events) == 0
  ensures [C04 C24 max] tr.eventsmax == *trc.traceMaxEvents && tr.truncated == 0
  ensures [C24 inv] monitorinv(tr) && unlocked(tr)

func (*trc.coreTrace).Free(tr)
  props C02, C13, C22, C24
  opt locks=tr
  requires monitorinv(tr)
  modifies tr.events, all(trc.coreEvent.what), all(trc.coreEvent.pcn), all(trc.coreEvent.stack)
  ensures [C24 active_untouched] !old(tr.finished) ==> tr.events == old(tr.events) && tr.truncated == old(tr.truncated)
  ensures [C24 active_events] !old(tr.finished) ==> forall i int :: 0 <= i < len(tr.events) ==> tr.events[i].what == old(tr.events[i].what) && tr.events[i].stack == old(tr.events[i].stack) && tr.events[i].pcn == old(tr.events[i].pcn)
  ensures [C24 inv] monitorinv(tr)
  inv [$i int] forall j int :: $i <= j < old(len(tr.events)) ==> tr.events[j].what == old(tr.events[j].what)
  inv [$i int] forall j int :: 0 <= j <= $i && j < old(len(tr.events)) ==> tr.events[j].what == old(tr.events[j].what)

func (*trc.coreEvent).getStack(ev) (st)
  props C13
  requires (base(ev.stack) == nil || len(ev.stack) > 0) && 0 <= ev.pcn <= 8
  modifies ev.stack
  ensures [C13 memo] old(len(ev.stack)) > 0 ==> ev.stack == old(ev.stack)
  ensures [C13 fresh] old(len(ev.stack)) == 0 ==> freshornil(ev.stack)
  ensures [C13 shape] base(ev.stack) == nil || len(ev.stack) > 0
  ensures [C13 result] st == ev.stack || (ev.pcn <= 0 && base(st) == nil && len(st) == 0)
  inv [] freshornil(ev.stack) && (base(ev.stack) == nil || len(ev.stack) > 0)

func (*trc.stringer).String(z) (r)
  props C01, C05, C13
  requires istype(z.str, trc.nullString) && (as(z.str, trc.nullString).valid || z.str == box(trc.zeroNullString))
  modifies z.str
  ensures [C05 once] as(old(z.str), trc.nullString).valid ==> fmtcount() == old(fmtcount())
  ensures [C01 C05 C13 memo] as(old(z.str), trc.nullString).valid ==> z.str == old(z.str)
  ensures [C01 C05 text] r == as(z.str, trc.nullString).value && as(z.str, trc.nullString).valid && istype(z.str, trc.nullString)
  ensures [C01 C05 formatted_at_read] !as(old(z.str), trc.nullString).valid ==> formatted(r, z.fmt, z.args) && fmtcount() == old(fmtcount()) + 1

def evn(tr, n) = (n <= 0 || n > len(tr.events)) ? len(tr.events) : n
def evstart(tr, n) = len(tr.events) - evn(tr, n)
# position k of the result is event number evfirst + k
def evfirst(tr, n) = len(tr.events) - evn(tr, n) + (tr.truncated > 0 ? 1 : 0)

func (*trc.coreTrace).EventsDetail(tr, n, stacks) (evs)
  props C01, C02, C04, C05, C13, C22
  opt locks=tr
  requires monitorinv(tr)
  modifies all(trc.coreEvent.stack), all(trc.stringer.str)
  ensures [C01 count] len(evs) == evn(tr, n)
  ensures [C13 fresh] freshornil(evs)
  ensures [C01 content] forall k int :: 0 <= k < evn(tr, n) - (tr.truncated > 0 ? 1 : 0) ==> evs[k].When == tr.events[evfirst(tr, n) + k].when && evs[k].IsError == tr.events[evfirst(tr, n) + k].iserr && evs[k].What == text(tr.events[evfirst(tr, n) + k]).value
  ensures [C05 memo] forall k int :: 0 <= k < evn(tr, n) - (tr.truncated > 0 ? 1 : 0) ==> text(tr.events[evfirst(tr, n) + k]).valid
  ensures [C13 C14 stacks] forall k int :: 0 <= k < evn(tr, n) - (tr.truncated > 0 ? 1 : 0) && !stacks ==> base(evs[k].Stack) == nil
  ensures [C01 C05 C13 same_text] forall z *trc.stringer :: as(old(z.str), trc.nullString).valid ==> z.str == old(z.str)
  ensures [C13 same_stack] forall e *trc.coreEvent :: old(len(e.stack)) > 0 ==> e.stack == old(e.stack)
  ensures [C04 marker] tr.truncated > 0 && len(evs) > 0 ==> evs[len(evs)-1].What == marker(tr.truncated) && !evs[len(evs)-1].IsError && base(evs[len(evs)-1].Stack) == nil && old(now()) <= evs[len(evs)-1].When <= now()
  ensures [C04 inv] monitorinv(tr)
  inv [] forall j int :: 0 <= j < len(tr.events) ==> evok(tr.events[j])
  inv [] forall z *trc.stringer :: as(old(z.str), trc.nullString).valid ==> z.str == old(z.str)
  inv [] forall e *trc.coreEvent :: old(len(e.stack)) > 0 ==> e.stack == old(e.stack)
  inv [$i int, $s []trc.Event] forall k int :: 0 <= k < $i ==> $s[k].When == tr.events[evstart(tr, n) + k].when && $s[k].IsError == tr.events[evstart(tr, n) + k].iserr && $s[k].What == text(tr.events[evstart(tr, n) + k]).value && text(tr.events[evstart(tr, n) + k]).valid
  inv [$i int, $s []trc.Event] forall k int :: 0 <= k < $i && !stacks ==> base($s[k].Stack) == nil

func (*trc.coreTrace).Events(tr) (evs)
  props C01, C02, C04, C05, C13, C22
  opt locks=tr
  requires monitorinv(tr)
  modifies all(trc.coreEvent.stack), all(trc.stringer.str)
  ensures [C01 count] len(evs) == len(tr.events)
  ensures [C13 fresh] freshornil(evs)
  ensures [C01 content] forall k int :: 0 <= k < len(tr.events) - (tr.truncated > 0 ? 1 : 0) ==> evs[k].When == tr.events[evfirst(tr, -1) + k].when && evs[k].IsError == tr.events[evfirst(tr, -1) + k].iserr && evs[k].What == text(tr.events[evfirst(tr, -1) + k]).value && text(tr.events[evfirst(tr, -1) + k]).valid
  ensures [C01 C05 C13 same_text] forall z *trc.stringer :: as(old(z.str), trc.nullString).valid ==> z.str == old(z.str)
  ensures [C13 same_stack] forall e *trc.coreEvent :: old(len(e.stack)) > 0 ==> e.stack == old(e.stack)
  ensures [C04 marker] tr.truncated > 0 && len(evs) > 0 ==> evs[len(evs)-1].What == marker(tr.truncated) && !evs[len(evs)-1].IsError && base(evs[len(evs)-1].Stack) == nil && old(now()) <= evs[len(evs)-1].When <= now()
  ensures [C04 inv] monitorinv(tr)
