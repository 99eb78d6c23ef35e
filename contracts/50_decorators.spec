# helpers.go, decorators.go

# ---------------------------------------------------------------- calls on a wrapped trace
#
# The calls a trace received: how many, and the kind, format and arguments (as
# they were when the call was made) of the last one.
ghost any.$calls int
ghost any.$kind int
ghost any.$fmt string
ghost any.$nargs int
ghost any.$argv map[int]any
def received(tr, kind, format, args) = tr.$kind == kind && tr.$fmt == format && tr.$nargs == len(args) && forall i int :: 0 <= i < len(args) ==> tr.$argv[i] == args[i]

iface trc.Trace.Tracef(tr, format, args)
  modifies tr.$calls, tr.$kind, tr.$fmt, tr.$nargs, tr.$argv
  ensures tr.$calls == old(tr.$calls) + 1 && received(tr, 1, format, args)
iface trc.Trace.LazyTracef(tr, format, args)
  modifies tr.$calls, tr.$kind, tr.$fmt, tr.$nargs, tr.$argv
  ensures tr.$calls == old(tr.$calls) + 1 && received(tr, 2, format, args)
iface trc.Trace.Errorf(tr, format, args)
  modifies tr.$calls, tr.$kind, tr.$fmt, tr.$nargs, tr.$argv, tr.$errored
  ensures tr.$calls == old(tr.$calls) + 1 && received(tr, 3, format, args)
iface trc.Trace.LazyErrorf(tr, format, args)
  modifies tr.$calls, tr.$kind, tr.$fmt, tr.$nargs, tr.$argv, tr.$errored
  ensures tr.$calls == old(tr.$calls) + 1 && received(tr, 4, format, args)
iface trc.Trace.Finish(tr)
  modifies tr.$calls, tr.$kind, tr.$finished
  ensures tr.$calls == old(tr.$calls) + 1 && tr.$kind == 5 && tr.$finished

# ---------------------------------------------------------------- prefix
# the prefix arguments leave no spare capacity, so that no two calls share memory
def prefixok(p) = p.Trace != nil && cap(p.args) == len(p.args)
def prefixed(p, kind, format, args) = p.Trace.$kind == kind && p.Trace.$fmt == p.format + format && p.Trace.$nargs == len(p.args) + len(args) && (forall i int :: 0 <= i < len(p.args) ==> p.Trace.$argv[i] == old(p.args[i])) && (forall i int :: 0 <= i < len(args) ==> p.Trace.$argv[len(p.args) + i] == old(args[i]))

func (*trc.prefixTrace).Tracef(ptr, format, args)
  props C17
  requires prefixok(ptr)
  modifies ptr.Trace.$calls, ptr.Trace.$kind, ptr.Trace.$fmt, ptr.Trace.$nargs, ptr.Trace.$argv
  ensures [C17 once] ptr.Trace.$calls == old(ptr.Trace.$calls) + 1
  ensures [C17 prefixed] prefixed(ptr, 1, format, args)
func (*trc.prefixTrace).LazyTracef(ptr, format, args)
  props C17
  requires prefixok(ptr)
  modifies ptr.Trace.$calls, ptr.Trace.$kind, ptr.Trace.$fmt, ptr.Trace.$nargs, ptr.Trace.$argv
  ensures [C17 once] ptr.Trace.$calls == old(ptr.Trace.$calls) + 1
  ensures [C17 prefixed] prefixed(ptr, 2, format, args)
func (*trc.prefixTrace).Errorf(ptr, format, args)
  props C17
  requires prefixok(ptr)
  modifies ptr.Trace.$calls, ptr.Trace.$kind, ptr.Trace.$fmt, ptr.Trace.$nargs, ptr.Trace.$argv, ptr.Trace.$errored
  ensures [C17 once] ptr.Trace.$calls == old(ptr.Trace.$calls) + 1
  ensures [C17 prefixed] prefixed(ptr, 3, format, args)
func (*trc.prefixTrace).LazyErrorf(ptr, format, args)
  props C17
  requires prefixok(ptr)
  modifies ptr.Trace.$calls, ptr.Trace.$kind, ptr.Trace.$fmt, ptr.Trace.$nargs, ptr.Trace.$argv, ptr.Trace.$errored
  ensures [C17 once] ptr.Trace.$calls == old(ptr.Trace.$calls) + 1
  ensures [C17 prefixed] prefixed(ptr, 4, format, args)

# ---------------------------------------------------------------- log decorator
# what was written to a log
ghost any.$logs int
ghost any.$logfmt string
ghost any.$lognargs int
ghost any.$logargv map[int]any
extern fmt.Fprintf(w, format, args) (n, err)
  modifies w.$logs, w.$logfmt, w.$lognargs, w.$logargv
  ensures w.$logs == old(w.$logs) + 1 && w.$logfmt == format && w.$lognargs == len(args) && forall i int :: 0 <= i < len(args) ==> w.$logargv[i] == args[i]
pure strings.TrimSuffix, strings.TrimSpace
def logline(l, format) = l.id + " " + ext("strings.TrimSuffix", format, "\n") + "\n"
def logged(l, format, args) = l.dst.$logs == old(l.dst.$logs) + 1 && l.dst.$logfmt == logline(l, format) && l.dst.$lognargs == len(args) && forall i int :: 0 <= i < len(args) ==> l.dst.$logargv[i] == args[i]

func (*trc.logTrace).Tracef(ltr, format, args)
  props C17
  requires ltr.Trace != nil
  modifies ltr.Trace.$calls, ltr.Trace.$kind, ltr.Trace.$fmt, ltr.Trace.$nargs, ltr.Trace.$argv, ltr.dst.$logs, ltr.dst.$logfmt, ltr.dst.$lognargs, ltr.dst.$logargv
  ensures [C17 once] ltr.Trace.$calls == old(ltr.Trace.$calls) + 1 && received(ltr.Trace, 1, format, args)
  ensures [C17 logged] logged(ltr, format, args)
func (*trc.logTrace).LazyTracef(ltr, format, args)
  props C17
  requires ltr.Trace != nil
  modifies ltr.Trace.$calls, ltr.Trace.$kind, ltr.Trace.$fmt, ltr.Trace.$nargs, ltr.Trace.$argv, ltr.dst.$logs, ltr.dst.$logfmt, ltr.dst.$lognargs, ltr.dst.$logargv
  ensures [C17 once] ltr.Trace.$calls == old(ltr.Trace.$calls) + 1 && received(ltr.Trace, 2, format, args)
  ensures [C17 logged] logged(ltr, format, args)
func (*trc.logTrace).Errorf(ltr, format, args)
  props C17
  requires ltr.Trace != nil
  modifies ltr.Trace.$calls, ltr.Trace.$kind, ltr.Trace.$fmt, ltr.Trace.$nargs, ltr.Trace.$argv, ltr.Trace.$errored, ltr.dst.$logs, ltr.dst.$logfmt, ltr.dst.$lognargs, ltr.dst.$logargv
  ensures [C17 once] ltr.Trace.$calls == old(ltr.Trace.$calls) + 1 && received(ltr.Trace, 3, format, args)
  ensures [C17 logged] logged(ltr, "ERROR: " + format, args)
func (*trc.logTrace).LazyErrorf(ltr, format, args)
  props C17
  requires ltr.Trace != nil
  modifies ltr.Trace.$calls, ltr.Trace.$kind, ltr.Trace.$fmt, ltr.Trace.$nargs, ltr.Trace.$argv, ltr.Trace.$errored, ltr.dst.$logs, ltr.dst.$logfmt, ltr.dst.$lognargs, ltr.dst.$logargv
  ensures [C17 once] ltr.Trace.$calls == old(ltr.Trace.$calls) + 1 && received(ltr.Trace, 4, format, args)
  ensures [C17 logged] logged(ltr, "ERROR: " + format, args)

havoc trcutil.HumanizeDuration
func (*trc.logTrace).Finish(ltr)
  props C17, C24
  requires ltr.Trace != nil
  modifies ltr.Trace.$calls, ltr.Trace.$kind, ltr.Trace.$finished, ltr.Trace.$errored, ltr.done, ltr.dst.$logs, ltr.dst.$logfmt, ltr.dst.$lognargs, ltr.dst.$logargv
  ensures [C17 once] ltr.Trace.$calls == old(ltr.Trace.$calls) + 1 && ltr.Trace.$kind == 5
  ensures [C17 logged] ltr.dst.$logs == old(ltr.dst.$logs) + 1

# ---------------------------------------------------------------- publish decorator
ghost any.$pubs int
ghost any.$pubtrace any
ghost any.$pubcalls int
iface trc.publisher.Publish(p, ctx, tr)
  requires tr != nil
  modifies p.$pubs, p.$pubtrace, p.$pubcalls, tr.$finished, tr.$errored
  ensures p.$pubs == old(p.$pubs) + 1 && p.$pubtrace == tr && p.$pubcalls == tr.$calls
  ensures (old(tr.$finished) ==> tr.$finished) && (old(tr.$errored) ==> tr.$errored)
havoc context.Background
def published(ptr) = ptr.p.$pubs == old(ptr.p.$pubs) + 1 && ptr.p.$pubtrace == ptr.Trace && ptr.p.$pubcalls == ptr.Trace.$calls

func (*trc.publishTrace).Tracef(ptr, format, args)
  props C17
  requires ptr.Trace != nil && ptr.p != nil
  modifies ptr.Trace.$calls, ptr.Trace.$kind, ptr.Trace.$fmt, ptr.Trace.$nargs, ptr.Trace.$argv, ptr.Trace.$finished, ptr.Trace.$errored, ptr.p.$pubs, ptr.p.$pubtrace, ptr.p.$pubcalls
  ensures [C17 once] ptr.Trace.$calls == old(ptr.Trace.$calls) + 1 && received(ptr.Trace, 1, format, args)
  ensures [C17 C15 published] published(ptr)
func (*trc.publishTrace).LazyTracef(ptr, format, args)
  props C17
  requires ptr.Trace != nil && ptr.p != nil
  modifies ptr.Trace.$calls, ptr.Trace.$kind, ptr.Trace.$fmt, ptr.Trace.$nargs, ptr.Trace.$argv, ptr.Trace.$finished, ptr.Trace.$errored, ptr.p.$pubs, ptr.p.$pubtrace, ptr.p.$pubcalls
  ensures [C17 once] ptr.Trace.$calls == old(ptr.Trace.$calls) + 1 && received(ptr.Trace, 2, format, args)
  ensures [C17 C15 published] published(ptr)
func (*trc.publishTrace).Errorf(ptr, format, args)
  props C17
  requires ptr.Trace != nil && ptr.p != nil
  modifies ptr.Trace.$calls, ptr.Trace.$kind, ptr.Trace.$fmt, ptr.Trace.$nargs, ptr.Trace.$argv, ptr.Trace.$finished, ptr.Trace.$errored, ptr.p.$pubs, ptr.p.$pubtrace, ptr.p.$pubcalls
  ensures [C17 once] ptr.Trace.$calls == old(ptr.Trace.$calls) + 1 && received(ptr.Trace, 3, format, args)
  ensures [C17 C15 published] published(ptr)
func (*trc.publishTrace).LazyErrorf(ptr, format, args)
  props C17
  requires ptr.Trace != nil && ptr.p != nil
  modifies ptr.Trace.$calls, ptr.Trace.$kind, ptr.Trace.$fmt, ptr.Trace.$nargs, ptr.Trace.$argv, ptr.Trace.$finished, ptr.Trace.$errored, ptr.p.$pubs, ptr.p.$pubtrace, ptr.p.$pubcalls
  ensures [C17 once] ptr.Trace.$calls == old(ptr.Trace.$calls) + 1 && received(ptr.Trace, 4, format, args)
  ensures [C17 C15 published] published(ptr)
func (*trc.publishTrace).Finish(ptr)
  props C17, C15, C24
  requires ptr.Trace != nil && ptr.p != nil
  modifies ptr.Trace.$calls, ptr.Trace.$kind, ptr.Trace.$finished, ptr.Trace.$errored, ptr.done, ptr.p.$pubs, ptr.p.$pubtrace, ptr.p.$pubcalls
  ensures [C17 once] ptr.Trace.$calls == old(ptr.Trace.$calls) + 1 && ptr.Trace.$kind == 5
  ensures [C17 C15 published] published(ptr)

# ---------------------------------------------------------------- recycling of decorated traces
ghost any.$freed int
iface any.Free(f)
  modifies f.$freed
  ensures f.$freed == old(f.$freed) + 1
func (*trc.logTrace).Free(ltr)
  props C24
  requires ltr.Trace != nil
  modifies ltr.Trace.$freed
  ensures [C24 in_use] !ltr.done ==> ltr.Trace.$freed == old(ltr.Trace.$freed)
  ensures [C24 at_most_once] ltr.Trace.$freed <= old(ltr.Trace.$freed) + 1
func (*trc.publishTrace).Free(ptr)
  props C24
  requires ptr.Trace != nil
  modifies ptr.Trace.$freed
  ensures [C24 in_use] !ptr.done ==> ptr.Trace.$freed == old(ptr.Trace.$freed)
  ensures [C24 at_most_once] ptr.Trace.$freed <= old(ptr.Trace.$freed) + 1
func trc.maybeFree(tr)
  props C24
  modifies tr.$freed
  ensures [C24 at_most_once] tr.$freed <= old(tr.$freed) + 1

# ---------------------------------------------------------------- contexts
fun ctxval(ctx any, key any) any
iface context.Context.Value(ctx, key) (v)
  modifies nothing
  ensures v == ctxval(ctx, key)
extern context.WithValue(parent, key, val) (ctx)
  requires parent != nil && key != nil
  modifies nothing
  ensures ctx != nil && ctxval(ctx, key) == val && forall k any :: k != key ==> ctxval(ctx, k) == ctxval(parent, k)
def carries(ctx) = implements(ctxval(ctx, box(trc.traceContextVal)), trc.Trace)
def carried(ctx) = ctxval(ctx, box(trc.traceContextVal))

func trc.Put(ctx, tr) (rctx, rtr)
  props C18
  requires ctx != nil
  modifies nothing
  ensures [C18 put] rctx != nil && carried(rctx) == tr && rtr == tr
  ensures [C18 rest] forall k any :: k != box(trc.traceContextVal) ==> ctxval(rctx, k) == ctxval(ctx, k)
func trc.MaybeGet(ctx) (tr, ok)
  props C18
  requires ctx != nil
  modifies nothing
  ensures [C18 found] ok <==> carries(ctx)
  ensures [C18 value] ok ==> tr == carried(ctx) && tr != nil
  ensures [C18 none] !ok ==> tr == nil
func trc.Get(ctx) (tr)
  props C18
  requires ctx != nil
  modifies nothing
  ensures [C18 value] carries(ctx) ==> tr == carried(ctx)
  ensures [C18 orphan] tr != nil && (!carries(ctx) ==> istype(tr, *trc.coreTrace) && fresh(as(tr, *trc.coreTrace)) && as(tr, *trc.coreTrace).category == "(orphan)")
func trc.Prefix(ctx, format, args) (rctx, tr)
  props C17, C18
  requires ctx != nil
  modifies nothing
  let trimmed = ext("strings.TrimSpace", format)
  ensures [C17 result] rctx != nil && (carries(ctx) ==> tr != nil)
  ensures [C17 blank] trimmed == "" ==> rctx == ctx && (carries(ctx) ==> tr == carried(ctx))
  ensures [C17 wrapped] trimmed != "" ==> istype(tr, *trc.prefixTrace) && carried(rctx) == tr && (carries(ctx) ==> as(tr, *trc.prefixTrace).Trace == carried(ctx))
  ensures [C17 prefix] trimmed != "" ==> as(tr, *trc.prefixTrace).format == trimmed + " " && len(as(tr, *trc.prefixTrace).args) == len(args) && forall i int :: 0 <= i < len(args) ==> as(tr, *trc.prefixTrace).args[i] == args[i]
  ensures [C17 usable] trimmed != "" ==> prefixok(as(tr, *trc.prefixTrace))
havoc trace.StartRegion
extern (*trace.Region).End(r)
  modifies nothing
def received1(tr, kind, format, a) = tr.$kind == kind && tr.$fmt == format && tr.$nargs == 1 && tr.$argv[0] == box(a)
func trc.Region(ctx, name) (rctx, tr, finish)
  props C17
  opt closure=finish
  requires ctx != nil && carries(ctx)
  modifies carried(ctx).$calls, carried(ctx).$kind, carried(ctx).$fmt, carried(ctx).$nargs, carried(ctx).$argv
  ensures [C17 start_event] carried(ctx).$calls == old(carried(ctx).$calls) + 1 && received1(carried(ctx), 2, "→ %s", name)
  ensures [C17 region_prefix] carried(rctx) == tr && tr != nil
  later [C17 end_event] carried(ctx).$calls == old(carried(ctx).$calls) + 1 && carried(ctx).$kind == 2 && carried(ctx).$fmt == "← %s [%s]" && carried(ctx).$nargs == 2 && carried(ctx).$argv[0] == box(name)

func trc.LogDecorator(dst) (d)
  props C17, C24
  opt closure=d
  modifies nothing
  assume a0 != nil
  later [C17 wraps] istype(r0, *trc.logTrace) && fresh(as(r0, *trc.logTrace)) && as(r0, *trc.logTrace).Trace == a0 && as(r0, *trc.logTrace).id == tid(a0) && as(r0, *trc.logTrace).dst == dst
  later [C24 not_done] !as(r0, *trc.logTrace).done
  later [C17 no_event] a0.$calls == old(a0.$calls)
  later [C17 created] dst.$logs == old(dst.$logs) + 1
func trc.publishDecorator(p) (d)
  props C15, C17, C24
  opt closure=d
  requires p != nil
  modifies nothing
  assume a0 != nil
  later [C17 wraps] istype(r0, *trc.publishTrace) && fresh(as(r0, *trc.publishTrace)) && as(r0, *trc.publishTrace).Trace == a0 && as(r0, *trc.publishTrace).p == p
  later [C24 not_done] !as(r0, *trc.publishTrace).done
  later [C17 no_event] a0.$calls == old(a0.$calls)
  later [C15 C17 created] p.$pubs == old(p.$pubs) + 1 && p.$pubtrace == a0
