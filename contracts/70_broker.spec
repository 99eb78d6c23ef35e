# broker.go

ghost ref.$nsent int
ghost ref.$sent map[int]any
# how often a ready default case was taken because the channel could not take a value at once
ghost ref.$refused int

monitor trc.Broker mtx
  level 1
  props C22
  guards subs[*]
  owns trc.subscriber
  invariant [subs] self.subs != nil
  invariant [entries] forall k ref :: k in self.subs ==> self.subs[k] != nil && allocated(self.subs[k]) && self.subs[k].traces == k && filterok(self.subs[k].filter)

func trc.NewBroker() (b)
  props C15, C22
  modifies nothing
  ensures [C15 empty] fresh(b) && emptymap(b.subs) && fresh(b.subs)
  ensures [C15 inv] monitorinv(b)

# A static trace has no methods that change it.
axiom forall t any {quiet(t)} :: istype(t, *trc.StaticTrace) ==> quiet(t)

# the same subscriber, with the same filter up to the compiled query
def samesub(b, k) = (k in b.subs <==> old(k in b.subs)) && b.subs[k] == old(b.subs[k])
def samequery(s) = (hasquery(old(s.filter.Query)) ==> s.filter.Query == old(s.filter.Query)) && (s.filter.Query != old(s.filter.Query) ==> s.filter.Query == "")
def samestats(s) = s.stats.Skips == old(s.stats.Skips) && s.stats.Sends == old(s.stats.Sends) && s.stats.Drops == old(s.stats.Drops)
# counted once, where it belongs
def verdict(s, str) = allowed(s.filter, s.filter.Query, box(str), box(str).$finished)
def skipped(s) = s.stats.Skips == old(s.stats.Skips) + 1 && s.stats.Sends == old(s.stats.Sends) && s.stats.Drops == old(s.stats.Drops)
def sent(s) = s.stats.Sends == old(s.stats.Sends) + 1 && s.stats.Skips == old(s.stats.Skips) && s.stats.Drops == old(s.stats.Drops)
def dropped(s) = s.stats.Drops == old(s.stats.Drops) + 1 && s.stats.Skips == old(s.stats.Skips) && s.stats.Sends == old(s.stats.Sends)
def samechan(k) = k.$nsent == old(k.$nsent) && k.$sent == old(k.$sent)
def gotit(k, str) = k.$nsent == old(k.$nsent) + 1 && k.$sent == store(old(k.$sent), old(k.$nsent), box(str))
def outcome(s, k, str) = (skipped(s) && !verdict(s, str) && samechan(k) && k.$refused == old(k.$refused)) || (sent(s) && verdict(s, str) && gotit(k, str) && k.$refused == old(k.$refused)) || (dropped(s) && verdict(s, str) && samechan(k) && k.$refused == old(k.$refused) + 1)

func (*trc.Broker).Publish(b, ctx, tr)
  props C15, C22
  opt locks=b nonblocking
  requires tr != nil && monitorinv(b)
  modifies all(b.subs[nil].stats.Skips), all(b.subs[nil].stats.Sends), all(b.subs[nil].stats.Drops), all(trc.Filter.regexp), all(trc.Filter.Query), all($finished), all($errored), all($nsent), all($sent), all($refused)
  ensures [C15 members] forall k ref :: samesub(b, k) && (k in b.subs ==> samequery(b.subs[k]))
  ensures [C15 outcome] some $s *trc.StaticTrace :: emptymap(b.subs) || fresh($s) && identity($s, tr) && forall k ref :: k in b.subs ==> outcome(b.subs[k], k, $s)
  ensures [C15 nobody_else] forall k ref :: !(k in b.subs) ==> samechan(k)
  ensures [C15 inv] monitorinv(b)
  ensures [C15 others] forall t any :: t != tr && !istype(t, *trc.StaticTrace) ==> t.$finished == old(t.$finished) && t.$errored == old(t.$errored)
  ensures [C15 monotone] old(tr.$finished) ==> tr.$finished
  inv [] forall k ref :: k in b.subs ==> filterok(b.subs[k].filter) && samequery(b.subs[k])
  inv [$it iter, $s *trc.StaticTrace] forall k ref :: k in b.subs && pos($it, k) < $it.i ==> outcome(b.subs[k], k, $s)
  inv [$it iter] forall k ref :: k in b.subs && pos($it, k) >= $it.i ==> samestats(b.subs[k]) && samechan(k) && k.$refused == old(k.$refused)
  inv [] forall k ref :: !(k in b.subs) ==> samechan(k)
  inv [] forall t any :: t != tr && !istype(t, *trc.StaticTrace) ==> t.$finished == old(t.$finished) && t.$errored == old(t.$errored)
  inv [] old(tr.$finished) ==> tr.$finished

func (*trc.Broker).StreamStats(b, ctx, ch) (stats, err)
  props C15, C22
  opt locks=b nonblocking
  requires monitorinv(b)
  modifies nothing
  ensures [C15 current] ch in b.subs ==> err == nil && stats == b.subs[ch].stats
  ensures [C15 unknown] !(ch in b.subs) ==> err != nil

fun ctxdone(ctx any) bool
iface context.Context.Done(ctx) (c)
  modifies nothing
fun ctxerr(ctx any) any
iface context.Context.Err(ctx) (err)
  modifies nothing
  ensures err == ctxerr(ctx)

# While the subscription waits for its context, other goroutines publish,
# subscribe and unsubscribe other channels; all functions of the broker keep
# every subscription they did not make themselves.
func (*trc.Broker).Stream(b, ctx, f, ch) (stats, err)
  props C15, C22
  requires ctx != nil && monitorinv(b) && unlocked(b) && (f.regexp != nil ==> resrc(f.regexp) == f.Query && compiles(f.Query) && f.Query != "")
  rely b.subs == old(b.subs) && forall k ref :: old(k in b.subs) ==> k in b.subs && b.subs[k] == old(b.subs[k])
  modifies b.subs[*], all(trc.subscriber.traces), all(b.subs[nil].stats.Skips), all(b.subs[nil].stats.Sends), all(b.subs[nil].stats.Drops), all(trc.Filter.Sources), all(trc.Filter.IDs), all(trc.Filter.Category), all(trc.Filter.IsActive), all(trc.Filter.IsFinished), all(trc.Filter.MinDuration), all(trc.Filter.IsSuccess), all(trc.Filter.IsErrored), all(trc.Filter.Query), all(trc.Filter.regexp)
  ensures [C15 duplicate] old(ch in b.subs) ==> err != nil && (forall k ref :: samesub(b, k)) && samestats(b.subs[ch])
  waiting [C15 subscribed] ch in b.subs && fresh(b.subs[ch]) && b.subs[ch].filter == f && b.subs[ch].stats.Skips == 0 && b.subs[ch].stats.Sends == 0 && b.subs[ch].stats.Drops == 0
  waiting [C15 others_kept] forall k ref :: k != ch ==> samesub(b, k)
  ensures [C15 final] !old(ch in b.subs) ==> stats == relocked(b.subs[ch].stats) && err == ctxerr(ctx)
  ensures [C15 unsubscribed] !old(ch in b.subs) ==> !(ch in b.subs) && forall k ref :: k != ch ==> (k in b.subs <==> relocked(k in b.subs)) && b.subs[k] == relocked(b.subs[k])
  ensures [C15 inv] monitorinv(b)
