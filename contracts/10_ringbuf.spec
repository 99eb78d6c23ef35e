# internal/trcringbuf

monitor trcringbuf.RingBuffer mtx
  level 3
  props C22
  guards buf[*], cur, len
  invariant [shape] 0 <= self.len <= len(self.buf) && cap(self.buf) == len(self.buf)
  invariant [cursor] (len(self.buf) > 0 ==> 0 <= self.cur < len(self.buf)) && (len(self.buf) == 0 ==> self.cur == 0)
  invariant [packed] self.len < len(self.buf) ==> self.cur == self.len

# rbidx(rb, i): slot of the i-th newest item
fun rbslot(cur int, n int, i int) int = cur - 1 - i < 0 ? cur - 1 - i + n : cur - 1 - i
def rbidx(rb, i) = rbslot(rb.cur, len(rb.buf), i)
def rbat(rb, i) = rb.buf[rbidx(rb, i)]

func trcringbuf.NewRingBuffer(n) (rb)
  props C06, C22
  requires n >= 0
  ensures [C06 empty] fresh(rb) && rb.len == 0 && len(rb.buf) == n
  ensures [C06 inv] monitorinv(rb)
  modifies nothing

func (*trcringbuf.RingBuffer).Add(rb, val) (dropped, ok)
  props C06, C22
  opt locks=rb
  modifies rb.cur, rb.len, rb.buf[*]
  requires monitorinv(rb)
  ensures [C06 newest] len(rb.buf) > 0 ==> rb.len >= 1 && rbat(rb, 0) == val
  ensures [C06 size] rb.len == min(old(rb.len) + 1, len(rb.buf)) && len(rb.buf) == old(len(rb.buf)) && rb.buf == old(rb.buf)
  ensures [C06 shift] forall i int :: 0 < i < rb.len ==> rbat(rb, i) == old(rbat(rb, i - 1))
  ensures [C06 evicted] ok <==> (old(rb.len) == len(rb.buf) && len(rb.buf) > 0)
  ensures [C06 evicted_value] ok ==> dropped == old(rbat(rb, rb.len - 1))
  ensures [C06 inv] monitorinv(rb)

func (*trcringbuf.RingBuffer).Resize(rb, n) (dropped)
  props C07, C22
  opt locks=rb
  modifies rb.buf, rb.cur, rb.len
  requires monitorinv(rb)
  ensures [C07 ignored] n <= 0 ==> len(dropped) == 0 && rb.buf == old(rb.buf) && rb.cur == old(rb.cur) && rb.len == old(rb.len)
  ensures [C07 size] n > 0 ==> len(rb.buf) == n && rb.len == min(old(rb.len), n)
  ensures [C07 kept] n > 0 ==> forall i int :: 0 <= i < rb.len ==> rbat(rb, i) == old(rbat(rb, i))
  ensures [C07 dropped_count] n > 0 ==> len(dropped) == old(rb.len) - rb.len
  ensures [C07 dropped_items] n > 0 ==> forall i int :: 0 <= i < len(dropped) ==> dropped[i] == old(rbat(rb, n + i))
  ensures [C07 dropped_items_at] n > 0 ==> forall i int :: n <= i < old(rb.len) ==> dropped[i - n] == old(rbat(rb, i))
  ensures [C07 dropped_fresh] freshornil(dropped) && (len(dropped) > 0 ==> base(dropped) != base(rb.buf))
  ensures [C07 inv] monitorinv(rb)
  ensures [C07 fresh] n > 0 ==> fresh(rb.buf)
  # copying loop: $r walks the old buffer, $w the new one
  inv [$w int, $s slice] len($s) == n && fresh($s) && (forall i int :: $w < i < min(old(rb.len), n) ==> $s[i] == old(rbat(rb, min(rb.len, n) - 1 - i)))
  inv [$w int, $r int] $w + 1 + (rb.len - min(rb.len, n)) == 0 || $r == old(rbidx(rb, min(rb.len, n) - 1 - $w))
  inv [$r int, $i int] $r == old(rbidx(rb, $i)) || $i >= rb.len
  inv [$r int] 0 <= $r < len(rb.buf) || rb.len == 0
  inv [$i int] n <= $i <= max(n, old(rb.len))
  # the same by the length of what was collected, for other ways to write the loops
  inv [$d slice] forall j int :: 0 <= j < len($d) ==> $d[j] == old(rbat(rb, n + j))
  inv [$d slice] len($d) == 0 || n + len($d) <= old(rb.len)
  inv [$d slice, $r int] n + len($d) >= rb.len || $r == old(rbidx(rb, n + len($d)))
  inv [$s slice] forall j int :: 0 <= j < len($s) ==> $s[j] == old(rbat(rb, j))
  inv [$s slice] len($s) <= old(rb.len)
  inv [$i int, $s slice] forall j int :: 0 <= j < $i ==> $s[min(old(rb.len), n) - 1 - j] == old(rbat(rb, j))
  inv [$i int, $d slice] len($d) == $i - n && (forall j int :: 0 <= j < len($d) ==> $d[j] == old(rbat(rb, n + j)))

func (*trcringbuf.RingBuffer).Stats(rb) (newest, oldest, count)
  props C06, C22
  opt locks=rb
  requires monitorinv(rb)
  modifies nothing
  ensures [C06 count] count == rb.len
  ensures [C06 newest] count > 0 ==> newest == rbat(rb, 0) && oldest == rbat(rb, rb.len - 1)

func (*trcringbuf.RingBuffer).Walk(rb, fn) (err)
  props C06, C22
  opt locks=rb inlinefn
  requires monitorinv(rb) && fn != nil
  modifies fn.$n, fn.$log
  ensures [C06 walk_all] err == nil ==> fn.$n == old(fn.$n) + rb.len
  ensures [C06 walk_order] forall i int :: 0 <= i < fn.$n - old(fn.$n) ==> fn.$log[old(fn.$n) + i] == rbat(rb, i)
  ensures [C06 walk_some] err != nil ==> fn.$n <= old(fn.$n) + rb.len
  inv [] 0 <= fn.$n - old(fn.$n) && forall j int :: 0 <= j < fn.$n - old(fn.$n) ==> fn.$log[old(fn.$n) + j] == rbat(rb, j)
  inv [] fn.$n - old(fn.$n) <= rb.len
  inv [$i int] fn.$n == old(fn.$n) + $i
  inv [$i int] fn.$n == old(fn.$n) + $i - 1
  inv [$i int] fn.$n == old(fn.$n) + rb.len - $i
  inv [$c int] fn.$n - old(fn.$n) >= rb.len || $c == rbidx(rb, fn.$n - old(fn.$n))
  inv [$c int] $c == (fn.$n == old(fn.$n) ? rb.cur : rbidx(rb, fn.$n - old(fn.$n) - 1))
  inv [$i int] fn.$n == old(fn.$n) + $i && 0 <= $i <= rb.len && (forall j int :: 0 <= j < $i ==> fn.$log[old(fn.$n) + j] == rbat(rb, j))

ghost func.$n int
ghost func.$log map[int]T

functype (*trcringbuf.RingBuffer).Walk.fn(x) (err)
  modifies self.$n, self.$log
  ensures self.$n == old(self.$n) + 1
  ensures self.$log == store(old(self.$log), old(self.$n), x)

# ---------------------------------------------------------------- RingBuffers

monitor trcringbuf.RingBuffers mtx
  level 2
  props C22
  guards cap, bufs[*]
  invariant [bufs] self.bufs != nil && self.cap >= 0
  invariant [children] forall k string :: k in self.bufs ==> self.bufs[k] != nil && allocated(self.bufs[k]) && monitorinv(self.bufs[k]) && unlocked(self.bufs[k]) && len(self.bufs[k].buf) == self.cap
  invariant [distinct] forall k string, l string :: k in self.bufs && l in self.bufs && self.bufs[k] == self.bufs[l] ==> k == l

func trcringbuf.NewRingBuffers(n) (rbs)
  props C06, C22
  requires n >= 0
  modifies nothing
  ensures [C06 empty] fresh(rbs) && rbs.cap == n && emptymap(rbs.bufs) && fresh(rbs.bufs)
  ensures [C06 inv] monitorinv(rbs)

func (*trcringbuf.RingBuffers).GetOrCreate(rbs, category) (rb)
  props C06, C22
  opt locks=rbs
  requires monitorinv(rbs)
  modifies rbs.bufs[*]
  ensures [C06 existing] old(category in rbs.bufs) ==> rb == old(rbs.bufs[category])
  ensures [C06 created] !old(category in rbs.bufs) ==> fresh(rb) && rb.len == 0 && len(rb.buf) == rbs.cap
  ensures [C06 stored] category in rbs.bufs && rbs.bufs[category] == rb
  ensures [C06 others] forall k string :: k != category ==> (k in rbs.bufs <==> old(k in rbs.bufs)) && rbs.bufs[k] == old(rbs.bufs[k])
  ensures [C06 usable] rb != nil && monitorinv(rb)
  ensures [C06 inv] monitorinv(rbs)

func (*trcringbuf.RingBuffers).GetAll(rbs) (all)
  props C08, C22
  opt locks=rbs
  requires monitorinv(rbs)
  modifies nothing
  ensures [C08 copy] fresh(all) && (forall k string :: (k in all <==> k in rbs.bufs) && (k in all ==> all[k] == rbs.bufs[k]))
  ensures [C08 count] len(all) == len(rbs.bufs)
  ensures [C22 own_copy] fresh(all)
  inv [$m map, $it iter] len($m) == $it.i
  inv [$m map, $it iter] forall k string :: (k in $m <==> iterdom($it, k) && pos($it, k) < $it.i) && (k in $m ==> $m[k] == rbs.bufs[k])

func (*trcringbuf.RingBuffers).Resize(rbs, n) (dropped)
  props C07, C22
  opt locks=rbs
  opt calm
  requires monitorinv(rbs)
  modifies rbs.cap, all(rbs.bufs[""].buf), all(rbs.bufs[""].cur), all(rbs.bufs[""].len)
  ensures [C07 ignored] n <= 0 ==> len(dropped) == 0 && rbs.cap == old(rbs.cap) && forall k string :: k in rbs.bufs ==> rbs.bufs[k].buf == old(rbs.bufs[k].buf) && rbs.bufs[k].len == old(rbs.bufs[k].len) && rbs.bufs[k].cur == old(rbs.bufs[k].cur)
  ensures [C07 cap] n > 0 ==> rbs.cap == n
  ensures [C07 each] n > 0 ==> forall k string :: k in rbs.bufs ==> len(rbs.bufs[k].buf) == n && rbs.bufs[k].len == min(old(rbs.bufs[k].len), n)
  ensures [C07 kept] n > 0 ==> forall k string, i int :: k in rbs.bufs && 0 <= i < rbs.bufs[k].len ==> rbat(rbs.bufs[k], i) == old(rbat(rbs.bufs[k], i))
  ensures [C07 inv] monitorinv(rbs)
  ensures [C07 dropped_all] n > 0 ==> forall k string, i int :: k in rbs.bufs && n <= i < old(rbs.bufs[k].len) ==> exists j int :: 0 <= j < len(dropped) && dropped[j] == old(rbat(rbs.bufs[k], i))
  ensures [C07 dropped_only] n > 0 ==> forall j int :: 0 <= j < len(dropped) ==> exists k string, i int :: k in rbs.bufs && n <= i < old(rbs.bufs[k].len) && dropped[j] == old(rbat(rbs.bufs[k], i))
  inv [$it iter] forall k string :: k in rbs.bufs && pos($it, k) < $it.i ==> len(rbs.bufs[k].buf) == n && rbs.bufs[k].len == min(old(rbs.bufs[k].len), n) && monitorinv(rbs.bufs[k])
  inv [$it iter] forall k string, i int :: k in rbs.bufs && pos($it, k) < $it.i && 0 <= i < rbs.bufs[k].len ==> rbat(rbs.bufs[k], i) == old(rbat(rbs.bufs[k], i))
  inv [$it iter] forall k string :: k in rbs.bufs && pos($it, k) >= $it.i ==> rbs.bufs[k].buf == old(rbs.bufs[k].buf) && rbs.bufs[k].len == old(rbs.bufs[k].len) && rbs.bufs[k].cur == old(rbs.bufs[k].cur)
  inv [$it iter, $d []T] forall k string, i int :: k in rbs.bufs && pos($it, k) < $it.i && n <= i < old(rbs.bufs[k].len) ==> exists j int :: 0 <= j < len($d) && $d[j] == old(rbat(rbs.bufs[k], i))
  inv [$it iter, $d []T] forall j int :: 0 <= j < len($d) ==> exists k string, i int :: k in rbs.bufs && n <= i < old(rbs.bufs[k].len) && $d[j] == old(rbat(rbs.bufs[k], i))
  inv [$d []T] forall k string :: k in rbs.bufs ==> base($d) == nil || base($d) != base(rbs.bufs[k].buf)
  inv [$d []T, $i int, $e []T] $i <= len($d) && forall j int :: 0 <= j < $i ==> $d[len($d) - $i + j] == $e[j]
