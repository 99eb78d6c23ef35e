# eztrc: the functions of trc on one collector

global eztrc.collector
  assume [set] eztrc.collector != nil
global eztrc.handler
  assume [set] eztrc.handler != nil

func eztrc.Collector() (c)
  props C18
  modifies nothing
  ensures [C18 collector] c == eztrc.collector
func eztrc.New(ctx, category) (rctx, tr)
  props C18
  requires ctx != nil && collectorok(eztrc.collector)
  modifies carried(ctx).$calls, carried(ctx).$kind, carried(ctx).$fmt, carried(ctx).$nargs, carried(ctx).$argv when carries(ctx)
  modifies W().$nnew, W().$newsrc, W().$newcat, W().$newtr, W().$newdecs, W().$ndec, W().$decf, W().$decin, W().$decout, all($calls), all($kind), all($fmt), all($nargs), all($argv), all($logs), all($pubs), all($finished), all($errored), all($freed) when !carries(ctx)
  modifies eztrc.collector.categories.bufs[*], all(eztrc.collector.categories.bufs[""].cur), all(eztrc.collector.categories.bufs[""].len), all(elemtype(trc.Trace)) when !carries(ctx)
  ensures [C18 same_context] carries(ctx) ==> rctx == ctx && tr == carried(ctx) && carried(ctx).$calls == old(carried(ctx).$calls) + 1 && received1(carried(ctx), 2, "(+ %s)", category)
  ensures [C18 created_once] !carries(ctx) ==> W().$nnew == old(W().$nnew) + 1 && W().$newcat == category && W().$newsrc == eztrc.collector.source
  ensures [C18 in_context] !carries(ctx) ==> rctx != nil && tr != nil && carried(rctx) == tr
func eztrc.Get(ctx) (tr)
  props C18
  requires ctx != nil
  modifies nothing
  ensures [C18 value] tr != nil && (carries(ctx) ==> tr == carried(ctx))
func eztrc.MaybeGet(ctx) (tr, ok)
  props C18
  requires ctx != nil
  modifies nothing
  ensures [C18 found] (ok <==> carries(ctx)) && (ok ==> tr == carried(ctx)) && (!ok ==> tr == nil)
func eztrc.Prefix(ctx, format, args) (rctx, tr)
  props C17
  requires ctx != nil
  modifies nothing
  let trimmed = ext("strings.TrimSpace", format)
  ensures [C17 result] rctx != nil && (carries(ctx) ==> tr != nil)
  ensures [C17 blank] trimmed == "" ==> rctx == ctx && (carries(ctx) ==> tr == carried(ctx))
  ensures [C17 prefix] trimmed != "" ==> istype(tr, *trc.prefixTrace) && carried(rctx) == tr && (carries(ctx) ==> as(tr, *trc.prefixTrace).Trace == carried(ctx)) && as(tr, *trc.prefixTrace).format == trimmed + " " && len(as(tr, *trc.prefixTrace).args) == len(args) && forall i int :: 0 <= i < len(args) ==> as(tr, *trc.prefixTrace).args[i] == args[i]
func eztrc.Region(ctx, name) (rctx, tr, finish)
  props C17
  requires ctx != nil && carries(ctx)
  modifies carried(ctx).$calls, carried(ctx).$kind, carried(ctx).$fmt, carried(ctx).$nargs, carried(ctx).$argv
  ensures [C17 region] carried(ctx).$calls == old(carried(ctx).$calls) + 1 && received1(carried(ctx), 2, "→ %s", name) && carried(rctx) == tr && tr != nil
func eztrc.Tracef(ctx, format, args)
  props C17
  requires ctx != nil && carries(ctx)
  modifies carried(ctx).$calls, carried(ctx).$kind, carried(ctx).$fmt, carried(ctx).$nargs, carried(ctx).$argv
  ensures [C17 once] carried(ctx).$calls == old(carried(ctx).$calls) + 1 && received(carried(ctx), 1, format, args)
func eztrc.LazyTracef(ctx, format, args)
  props C17
  requires ctx != nil && carries(ctx)
  modifies carried(ctx).$calls, carried(ctx).$kind, carried(ctx).$fmt, carried(ctx).$nargs, carried(ctx).$argv
  ensures [C17 once] carried(ctx).$calls == old(carried(ctx).$calls) + 1 && received(carried(ctx), 2, format, args)
func eztrc.Errorf(ctx, format, args)
  props C17
  requires ctx != nil && carries(ctx)
  modifies carried(ctx).$calls, carried(ctx).$kind, carried(ctx).$fmt, carried(ctx).$nargs, carried(ctx).$argv, carried(ctx).$errored
  ensures [C17 once] carried(ctx).$calls == old(carried(ctx).$calls) + 1 && received(carried(ctx), 3, format, args)
func eztrc.LazyErrorf(ctx, format, args)
  props C17
  requires ctx != nil && carries(ctx)
  modifies carried(ctx).$calls, carried(ctx).$kind, carried(ctx).$fmt, carried(ctx).$nargs, carried(ctx).$argv, carried(ctx).$errored
  ensures [C17 once] carried(ctx).$calls == old(carried(ctx).$calls) + 1 && received(carried(ctx), 4, format, args)
func trc.NewDefaultCollector() (c)
  props C06, C18
  modifies nothing
  ensures [C18 config] fresh(c) && c.source == "default" && len(c.decorators) == 0 && collectorok(c)
  ensures [C06 empty] emptymap(c.categories.bufs) && c.categories.cap == 1000
