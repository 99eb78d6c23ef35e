package main

// Symbolic execution of go/ssa function bodies into verification conditions.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Addr struct {
	key  string
	ref  *Term
	idx  *Term
	path []int
	pt   []types.Type // container struct type of each path step
	t    types.Type   // type of the location
	root types.Type   // type at the root (before path)
}

type Tuple []Val

type Closure struct {
	fn    *ssa.Function
	binds []Val
	recv  Val // bound method receiver
}

type State struct{ h map[string]*Term }

func (s *State) clone() *State {
	n := &State{h: make(map[string]*Term, len(s.h))}
	for k, v := range s.h {
		n.h[k] = v
	}
	return n
}

func (s *State) get(ex *Exec, key string) *Term {
	if t, ok := s.h[key]; ok {
		return t
	}
	t := ex.initial(key)
	s.h[key] = t
	return t
}

func (s *State) set(key string, t *Term) { s.h[key] = t }

type Obl struct {
	name    string
	kind    string
	props   []string
	label   string
	pos     string
	text    string
	goal    *Term
	nfacts  int
	nbefore int
	fact    int // index in the facts that this obligation becomes once asserted, -1 if it does not
	without map[int]bool
	cand    string
	fn      string
	status  string // discharged-by / failed
	ms      float64
	out     string
	model   string
	trivial bool
}

type ownerInfo struct {
	ref *Term
	mon *Monitor
	t   types.Type
	fld string
}

type ownedInfo struct {
	ownerInfo
	m  *Term
	mt types.Type
}

type loopMod struct {
	w     []*Term // terms of a previous run
	fresh bool
	other bool
	// locations recorded in the current run, and those once pruned (which are
	// kept if they come back)
	seen   map[string]bool
	pruned map[string]bool
}

func (m *loopMod) saw(w *Term) {
	if m.seen == nil {
		m.seen = map[string]bool{}
	}
	m.seen[w.String()] = true
}

// prune removes locations recorded in an earlier run that the last complete run
// did not write; reports whether there were any.
func prune(loops map[string]*loopInfo) bool {
	any := false
	for _, l := range loops {
		for _, m := range l.mods {
			var keep []*Term
			for _, w := range m.w {
				s := w.String()
				if m.seen[s] || m.pruned[s] {
					keep = append(keep, w)
					continue
				}
				if m.pruned == nil {
					m.pruned = map[string]bool{}
				}
				m.pruned[s] = true
				any = true
			}
			m.w = keep
		}
	}
	return any
}

type loopInfo struct {
	mods map[string]*loopMod
}

type activeLoop struct {
	id     string
	stamp  int
	info   *loopInfo
	blocks map[*ssa.BasicBlock]bool
	fr     *Frame
	w      map[string]map[*Term]bool // imported invariant refs per key (store form)
	entry  *State
}

type Exec struct {
	P          *Prog
	b          *TB
	ty         *Types
	facts      []*Term
	obls       []*Obl
	root       *ssa.Function
	con        *Contract
	laterEnv   *Env
	rootEnv    *Env
	entry      *State
	keySort    map[string]string
	closure    map[string]*Closure
	named      map[*Term]*Term
	embs       map[string]embInfo
	owners     map[*Term]ownerInfo
	owned      map[*Term]ownedInfo
	loops      map[string]*loopInfo // persistent across runs
	active     []*activeLoop
	dropped    map[string]bool // persistent: candidate invariants found not inductive
	restart    bool
	funs       map[string]bool
	funDefs    []*Term
	depth      int
	stack      []*ssa.Function
	globals    map[string]bool
	nalloc     int
	iters      map[*Term]*IterInfo
	calls      map[string]bool // contracts used
	inlined    map[string]bool
	cfacts     map[string]bool
	trusted    map[string]bool
	noPanic    bool
	notes      []string
	targ       types.Type
	hwf        map[*Term]bool
	vac        []vacPoint
	wfseen     map[[3]*Term]bool
	unroll     int
	nodisc     bool
	lastPos    token.Pos
	ncands     int
	spawned    []string
	chans      []*Term
	axioms     []axiomT
	entryFacts int
	rootRets   []retInfo
	unlocked   map[*Term]*State // state when a lock was last released
	relocked   *State           // state when a lock was last taken
	results    []SV             // results of calls of functions under contract
	pure       bool             // evaluating a comparison function: bodies, not contracts
}

type embInfo struct {
	t types.Type
	i int
}

type IterInfo struct {
	ref, m, order, pos, count, dom *Term
	mt                             types.Type
	kt                             types.Type
	id                             string
}

type Frame struct {
	fn       *ssa.Function
	vals     map[ssa.Value]Val
	defers   []*deferred
	path     string
	parent   *Frame
	rets     []retInfo
	iters    map[ssa.Value]*IterInfo
	site     int
	allocs   []*ssa.Alloc
	hasPanic bool
}

type deferred struct {
	guard  *Term
	call   *ssa.CallCommon
	args   []Val
	fnv    Val
	pos    token.Pos
	inLoop bool
}

type retInfo struct {
	reach *Term
	st    *State
	vals  []Val
	pos   token.Pos
}

type edge struct {
	cond *Term
	st   *State
	from *ssa.BasicBlock
}

func (ex *Exec) initial(key string) *Term {
	if k, ok := strings.CutPrefix(key, "lin:"); ok {
		return ex.entry.get(ex, k)
	}
	switch key {
	case "ctr":
		return ex.b.Const("ctr0", SInt)
	case "now":
		return ex.b.Const("now0", SInt)
	case "held":
		ex.keySort[key] = arrSort(SRef, SInt)
		return ex.b.ConstArr(arrSort(SRef, SInt), ex.b.Int(0))
	case "released":
		ex.keySort[key] = arrSort(SRef, SBool)
		return ex.b.ConstArr(arrSort(SRef, SBool), ex.b.False)
	case "iter":
		ex.keySort[key] = arrSort(SRef, SInt)
	case "epoch":
		return ex.b.Const("epoch0", SInt)
	case "fmtn":
		return ex.b.Const("fmtn0", SInt)
	}
	s, ok := ex.keySort[key]
	if !ok {
		panic("no sort for heap key " + key)
	}
	h := ex.b.Const("H0@"+key, s)
	if ex.b != nil && !ex.hwf[h] {
		ex.hwf[h] = true
		ex.heapWF(ex.b.True, h, key, ex.b.Const("ctr0", SInt))
	}
	return h
}

// heapWF: everything stored in the heap array h refers to allocated objects.
func (ex *Exec) heapWF(reach, h *Term, key string, ctr *Term) {
	b, ty := ex.b, ex.ty
	switch {
	case strings.HasPrefix(key, "f:"), strings.HasPrefix(key, "c:"), strings.HasPrefix(key, "e:"), strings.HasPrefix(key, "mv:"):
	default:
		return
	}
	idx, vs := splitArr(h.sort)
	if idx != SRef {
		return
	}
	r := b.BoundVar("r", SRef)
	vars := []*Term{r}
	v := b.Select(h, r)
	if strings.HasPrefix(vs, "(Array ") {
		i2, v2 := splitArr(vs)
		i := b.BoundVar("i", i2)
		vars = append(vars, i)
		v = b.Select(v, i)
		vs = v2
	}
	var body *Term
	switch vs {
	case SRef:
		body = b.Implies(b.Lt(ex.age(r), ctr), b.Lt(ex.age(v), ctr))
	case SSlice:
		base := ty.SBase(v)
		body = b.And(b.Ge(ty.SOff(v), b.Int(0)), b.Ge(ty.SLen(v), b.Int(0)), b.Le(ty.SLen(v), ty.SCap(v)),
			b.Implies(b.Lt(ex.age(r), ctr), b.Lt(ex.age(base), ctr)), b.Implies(b.Eq(base, ty.Nil()), b.And(b.Eq(ty.SCap(v), b.Int(0)), b.Eq(ty.SOff(v), b.Int(0)))))
	default:
		return
	}
	ex.assume(reach, b.Forall(vars, [][]*Term{{v}}, body))
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.P.fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, ex.P.repo+"/"); i == 0 {
		f = f[len(ex.P.repo)+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (ex *Exec) assume(reach, t *Term) {
	f := ex.b.Implies(reach, t)
	if f.isTrue() {
		return
	}
	ex.facts = append(ex.facts, f)
}

func (ex *Exec) assert(reach *Term, kind, label string, props []string, p token.Pos, text string, t *Term) *Obl {
	goal := ex.b.Implies(reach, t)
	o := &Obl{kind: kind, label: label, props: props, pos: ex.pos(p), text: text, goal: goal, nfacts: len(ex.facts), fact: -1, fn: ex.con.name}
	if goal.isTrue() {
		o.trivial = true
		o.status = "simplifier"
	}
	ex.obls = append(ex.obls, o)
	if !goal.isTrue() && !strings.HasPrefix(kind, "loop_") {
		o.fact = len(ex.facts)
		ex.facts = append(ex.facts, goal)
	}
	return o
}

// ---------- memory ----------

func (ex *Exec) elemKey(t types.Type) string {
	k := "e:" + tstr(t)
	if _, ok := ex.keySort[k]; !ok {
		ex.keySort[k] = arrSort(SRef, arrSort(SInt, ex.ty.Sort(t)))
	}
	return k
}

func (ex *Exec) fieldKey(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	k := "f:" + tstr(t) + "." + st.Field(i).Name()
	if _, ok := ex.keySort[k]; !ok {
		ex.keySort[k] = arrSort(SRef, ex.ty.Sort(st.Field(i).Type()))
	}
	return k
}

func (ex *Exec) cellKey(t types.Type) string {
	k := "c:" + tstr(t)
	if _, ok := ex.keySort[k]; !ok {
		ex.keySort[k] = arrSort(SRef, ex.ty.Sort(t))
	}
	return k
}

func (ex *Exec) ghostKey(name, idx, val string) string {
	k := "g:" + name
	if idx != SIface {
		k += ":" + idx
	}
	if _, ok := ex.keySort[k]; !ok {
		ex.keySort[k] = arrSort(idx, val)
	}
	return k
}

func (ex *Exec) age(r *Term) *Term {
	if r.op == "app" && strings.HasPrefix(r.name, "emb@") {
		return ex.age(r.args[0])
	}
	if r.op == "const" && r.name == "nil" {
		return ex.b.Int(-1)
	}
	return ex.b.App("age", SInt, r)
}

func (ex *Exec) embRef(r *Term, t types.Type, i int) *Term {
	st := t.Underlying().(*types.Struct)
	nm := sanitize("emb@" + tstr(t) + "." + st.Field(i).Name())
	if _, ok := ex.embs[nm]; !ok {
		ex.embs[nm] = embInfo{t, i}
		b := ex.b
		v := b.BoundVar("r", SRef)
		e := b.App(nm, SRef, v)
		inv := b.App("inv"+nm, SRef, e)
		ex.facts = append(ex.facts,
			b.Forall([]*Term{v}, [][]*Term{{e}}, b.And(
				b.mk("=", "", SBool, []*Term{inv, v}),
				b.Eq(b.App("embkind", SInt, e), b.Int(int64(len(ex.embs)))),
				b.Ne(e, ex.ty.Nil()),
				b.mk("=", "", SBool, []*Term{b.App("age", SInt, e), b.App("age", SInt, v)}))))
	}
	return ex.b.App(nm, SRef, r)
}

// fieldAddr returns a Term (embedded object) or *Addr.
func (ex *Exec) fieldAddr(base Val, t types.Type, i int) Val {
	st := t.Underlying().(*types.Struct)
	ft := st.Field(i).Type()
	switch x := base.(type) {
	case *Term:
		if isObj(ft) {
			return ex.embRef(x, t, i)
		}
		return &Addr{key: ex.fieldKey(t, i), ref: x, t: ft, root: ft}
	case *Addr:
		n := *x
		n.path = append(append([]int{}, x.path...), i)
		n.pt = append(append([]types.Type{}, x.pt...), t)
		n.t = ft
		return &n
	}
	panic(unsupported("field address of %T", base))
}

// cellAddr: the location a pointer value points to (non-object type).
func (ex *Exec) cellAddr(p Val, t types.Type) *Addr {
	switch x := p.(type) {
	case *Addr:
		return x
	case *Term:
		return &Addr{key: ex.cellKey(t), ref: x, t: t, root: t}
	}
	panic(unsupported("pointer value %T", p))
}

func (ex *Exec) addrTerm(a *Addr) *Term {
	panic(unsupported("interior pointer to %s used as a value", a.t))
}

// loadRaw reads a location without discipline checks.
func (ex *Exec) loadRaw(st *State, a *Addr) *Term {
	v := ex.b.Select(st.get(ex, a.key), a.ref)
	if a.idx != nil {
		v = ex.b.Select(v, a.idx)
	}
	for k, i := range a.path {
		v = ex.ty.FieldOf(a.pt[k], i, v)
	}
	return v
}

func (ex *Exec) storeRaw(st *State, a *Addr, v *Term) {
	h := st.get(ex, a.key)
	root := ex.b.Select(h, a.ref)
	if a.idx != nil {
		el := v
		if len(a.path) > 0 {
			el = ex.setPath(a, ex.b.Select(root, a.idx), v)
		}
		st.set(a.key, ex.b.Store(h, a.ref, ex.b.Store(root, a.idx, el)))
	} else {
		el := v
		if len(a.path) > 0 {
			el = ex.setPath(a, root, v)
		}
		st.set(a.key, ex.b.Store(h, a.ref, el))
	}
	ex.recordWrite(a.key, a.ref)
}

func (ex *Exec) setPath(a *Addr, x, v *Term) *Term {
	var rec func(k int, x *Term) *Term
	rec = func(k int, x *Term) *Term {
		if k == len(a.path) {
			return v
		}
		return ex.ty.SetField(a.pt[k], a.path[k], x, rec(k+1, ex.ty.FieldOf(a.pt[k], a.path[k], x)))
	}
	return rec(0, x)
}

// loadObj reads a whole struct/array object by reference.
func (ex *Exec) loadObj(st *State, r *Term, t types.Type) *Term {
	switch {
	case isOpaque(t):
		return ex.b.Select(st.get(ex, ex.cellKey(t)), r)
	case isArrayT(t):
		return ex.b.Select(st.get(ex, ex.elemKey(t.Underlying().(*types.Array).Elem())), r)
	case isStructT(t):
		s := t.Underlying().(*types.Struct)
		vs := make([]*Term, s.NumFields())
		for i := range vs {
			switch a := ex.fieldAddr(r, t, i).(type) {
			case *Term:
				vs[i] = ex.loadObj(st, a, s.Field(i).Type())
			case *Addr:
				vs[i] = ex.loadRaw(st, a)
			}
		}
		return ex.ty.StructVal(t, vs)
	}
	return ex.loadRaw(st, ex.cellAddr(r, t))
}

func (ex *Exec) storeObj(st *State, r *Term, t types.Type, v *Term) {
	switch {
	case isOpaque(t):
		k := ex.cellKey(t)
		st.set(k, ex.b.Store(st.get(ex, k), r, v))
		ex.recordWrite(k, r)
	case isArrayT(t):
		k := ex.elemKey(t.Underlying().(*types.Array).Elem())
		st.set(k, ex.b.Store(st.get(ex, k), r, v))
		ex.recordWrite(k, r)
	case isStructT(t):
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			fv := ex.ty.FieldOf(t, i, v)
			switch a := ex.fieldAddr(r, t, i).(type) {
			case *Term:
				ex.storeObj(st, a, s.Field(i).Type(), fv)
			case *Addr:
				ex.storeRaw(st, a, fv)
			}
		}
	default:
		ex.storeRaw(st, ex.cellAddr(r, t), v)
	}
}

func (ex *Exec) recordWrite(key string, ref *Term) {
	for _, l := range ex.active {
		m := l.info.mods[key]
		if m == nil {
			m = &loopMod{}
			l.info.mods[key] = m
			ex.restart = true
		}
		if ref == nil {
			if !m.other {
				m.other = true
				ex.restart = true
			}
			continue
		}
		if ref.stamp <= l.stamp {
			known := false
			for _, w := range m.w {
				if w == ref || w.String() == ref.String() {
					known = true
				}
			}
			m.saw(ref)
			if !known {
				m.w = append(m.w, ref)
				ex.restart = true
			}
			continue
		}
		if ref.op == "const" && strings.HasPrefix(ref.name, "new@") || isFreshRef(ref) {
			if !m.fresh {
				m.fresh = true
				ex.restart = true
			}
			continue
		}
		if !m.other {
			m.other = true
			ex.restart = true
		}
	}
}

func isFreshRef(r *Term) bool {
	for r.op == "app" && strings.HasPrefix(r.name, "emb@") {
		r = r.args[0]
	}
	return r.op == "const" && strings.HasPrefix(r.name, "new@")
}

// alloc creates a fresh object reference.
func (ex *Exec) alloc(st *State, reach *Term, hint string) *Term {
	ex.nalloc++
	r := ex.b.Fresh("new@"+hint, SRef)
	ctr := st.get(ex, "ctr")
	ex.facts = append(ex.facts, ex.b.Implies(reach, ex.b.And(ex.b.Eq(ex.age(r), ctr), ex.b.Ne(r, ex.ty.Nil()), ex.b.Eq(ex.b.App("embkind", SInt, r), ex.b.Int(0)))))
	st.set("ctr", ex.b.Add(ctr, ex.b.Int(1)))
	ex.recordScalar("ctr")
	return r
}

func (ex *Exec) recordScalar(key string) {
	for _, l := range ex.active {
		if l.info.mods[key] == nil {
			l.info.mods[key] = &loopMod{}
			ex.restart = true
		}
	}
}

func (ex *Exec) globalRef(name string, t types.Type) *Term {
	g := ex.b.Const("glob@"+name, SRef)
	if !ex.globals[name] {
		ex.globals[name] = true
		ex.facts = append(ex.facts, ex.b.And(ex.b.Lt(ex.age(g), ex.b.Const("ctr0", SInt)), ex.b.Ne(g, ex.ty.Nil()), ex.b.Eq(ex.b.App("globid", SInt, g), ex.b.Int(int64(len(ex.globals)))), ex.b.Eq(ex.b.App("embkind", SInt, g), ex.b.Int(0))))
		for _, c := range ex.P.db.globals[name] {
			env := &Env{ex: ex, names: map[string]SV{}, st: ex.entry, old: ex.entry, ctr0: ex.b.Const("ctr0", SInt)}
			ex.facts = append(ex.facts, ex.Bool(env, c.e))
			ex.trusted["global "+name+": "+c.text] = true
		}
	}
	return g
}

// wf: facts every value of a Go type satisfies in a state.
func (ex *Exec) wf(reach *Term, st *State, v *Term, t types.Type, depth int) {
	if depth > 3 || v == nil {
		return
	}
	b := ex.b
	ctr := st.get(ex, "ctr")
	if v.stamp == 0 { // made of the arguments and the entry heap only
		ctr = b.Const("ctr0", SInt)
	}
	if v.op == "int" || v.op == "bvlit" {
		return
	}
	if depth == 0 {
		if reach == nil || v.stamp == 0 {
			reach = b.True
		}
		// one statement per (value, counter, path)
		k := [3]*Term{v, ctr, reach}
		if ex.wfseen[k] {
			return
		}
		ex.wfseen[k] = true
	}
	switch v.sort {
	case SRef:
		if isFreshRef(v) || v.op == "const" && (v.name == "nil" || strings.HasPrefix(v.name, "glob@")) {
			return
		}
		ex.assume(reach, b.Lt(ex.age(v), ctr))
	case SSlice:
		ty := ex.ty
		if v.op == "ctor" {
			return
		}
		base := ty.SBase(v)
		ex.assume(reach, b.And(b.Ge(ty.SOff(v), b.Int(0)), b.Ge(ty.SLen(v), b.Int(0)), b.Le(ty.SLen(v), ty.SCap(v)),
			b.Lt(ex.age(base), ctr),
			b.Implies(b.Eq(base, ty.Nil()), b.And(b.Eq(ty.SCap(v), b.Int(0)), b.Eq(ty.SOff(v), b.Int(0))))))
	case SInt:
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
			ex.assume(reach, b.Ge(v, b.Int(0)))
		}
	default:
		if t != nil && isStructT(t) {
			if v.op == "ctor" {
				return
			}
			si := ex.ty.Struct(t)
			for i, f := range si.fields {
				switch f.sort {
				case SRef, SSlice:
					ex.wf(reach, st, ex.ty.FieldOf(t, i, v), f.t, depth+1)
				default:
					if isStructT(f.t) {
						ex.wf(reach, st, ex.ty.FieldOf(t, i, v), f.t, depth+1)
					}
				}
			}
		}
	}
}

func (t *Term) ifNil(o *Term) *Term {
	if o == nil {
		return t
	}
	return o
}

// ---------- monitors ----------

func (ex *Exec) mutexRef(r *Term, t types.Type, m *Monitor) *Term {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == m.mutex {
			return ex.embRef(r, t, i)
		}
	}
	panic(unsupported("monitor %s: no mutex field %s", m.typ, m.mutex))
}

func (ex *Exec) monInv(e *Env, m *Monitor, c *Clause, r *Term, t types.Type) *Term {
	env := &Env{ex: ex, names: map[string]SV{"self": {v: r, t: types.NewPointer(t)}}, st: e.st, old: e.old, ctr0: e.ctr0}
	return ex.Bool(env, c.e)
}

// discipline: obligations for access to monitored fields.
func (ex *Exec) discipline(reach *Term, st *State, ref *Term, t types.Type, field string, write bool, p token.Pos) {
	m := ex.P.monitorOf(t)
	if m == nil || !m.guards[field] {
		return
	}
	if isFreshRef(ref) {
		return
	}
	need := int64(1)
	if write {
		need = 2
	}
	mu := ex.mutexRef(ref, t, m)
	ok := ex.b.Or(ex.b.Ge(ex.b.Select(st.get(ex, "held"), mu), ex.b.Int(need)), ex.b.Ge(ex.age(ref), ex.b.Const("ctr0", SInt)))
	if ex.con != nil && ex.con.opts["exclusive"] {
		return
	}
	what := "read"
	if write {
		what = "write"
	}
	ex.assert(reach, "lock", "guarded_"+field, m.props, p, fmt.Sprintf("%s of %s.%s only with %s held", what, m.typ, field, m.mutex), ok)
}

func (ex *Exec) lockOp(op string, mu *Term, st *State, reach *Term, p token.Pos) {
	b := ex.b
	held := st.get(ex, "held")
	cur := b.Select(held, mu)
	var mon *Monitor
	var self *Term
	var mt types.Type
	if mu.op == "app" && strings.HasPrefix(mu.name, "emb@") {
		ei := ex.embs[mu.name]
		if m := ex.P.monitorOf(ei.t); m != nil && ei.t.Underlying().(*types.Struct).Field(ei.i).Name() == m.mutex {
			mon, self, mt = m, mu.args[0], ei.t
		}
	}
	var mprops []string
	if mon != nil {
		mprops = mon.props
	}
	env := &Env{ex: ex, names: map[string]SV{}, st: st, old: ex.entry, ctr0: b.Const("ctr0", SInt)}
	switch op {
	case "Lock", "RLock":
		ex.assert(reach, "lock", "no_self_deadlock", mprops, p, "mutex is not already held by this goroutine", b.Eq(cur, b.Int(0)))
		if mon != nil && mon.level != 0 {
			ex.levelCheck(mon.level, "lock of "+mon.typ, st, reach, p)
			ex.assume(b.True, b.Eq(b.App("locklevel", SInt, mu), b.Int(int64(mon.level))))
		} else {
			ex.assume(b.True, b.Eq(b.App("locklevel", SInt, mu), b.Int(0)))
		}
		lv := int64(2)
		if op == "RLock" {
			lv = 1
		}
		st.set("held", b.Store(held, mu, b.Int(lv)))
		ex.recordWrite("held", mu)
		if mon != nil {
			rel := b.Select(st.get(ex, "released"), mu)
			if !rel.isFalse() {
				was := ex.unlocked[mu]
				pre := st.clone()
				ex.havocMonitor(st, self, mt, mon, rel)
				ex.relinearize(mu, rel, pre, st, reach, p)
				if was != nil && ex.con != nil {
					for _, c := range ex.con.clauses {
						if c.kind == "rely" {
							ex.trusted["rely of "+ex.con.name+": "+c.text] = true
							ex.assume(reach, ex.Bool(&Env{ex: ex, names: map[string]SV{}, st: st, old: was, ctr0: b.Const("ctr0", SInt), up: ex.rootEnv}, c.e))
						}
					}
				}
			}
			defer func() { ex.relocked = st.clone() }()
			nf0 := len(ex.facts)
			for _, c := range mon.invs {
				ex.assume(reach, ex.monInv(env, mon, c, self, mt))
			}
			ex.vac = append(ex.vac, vacPoint{reach, nf0, len(ex.facts), "lock of " + mon.typ})
		}
	case "Unlock", "RUnlock":
		lv := int64(2)
		if op == "RUnlock" {
			lv = 1
		}
		ex.assert(reach, "lock", "unlock_held", mprops, p, "mutex is held when unlocked", b.Eq(cur, b.Int(lv)))
		if mon != nil {
			for _, c := range mon.invs {
				pr := c.props
				if pr == nil {
					pr = mon.props
				}
				ex.assert(reach, "monitor", "inv_"+c.label, pr, p, "monitor invariant of "+mon.typ+": "+c.text, ex.monInv(env, mon, c, self, mt))
			}
		}
		st.set("held", b.Store(held, mu, b.Int(0)))
		ex.recordWrite("held", mu)
		st.set("released", b.Store(st.get(ex, "released"), mu, b.True))
		ex.recordWrite("released", mu)
		ex.unlocked[mu] = st.clone()
	}
}

// relinearize: a function that takes its lock more than once takes effect when
// it is taken last, if it changed nothing before. So what old() means in its
// postconditions, and what its frame is relative to, is then the state at that
// time. Recorded in the state itself, because it depends on the path.
func (ex *Exec) relinearize(mu, rel *Term, pre, st *State, reach *Term, p token.Pos) {
	if ex.con == nil || ex.rootEnv == nil || len(ex.active) > 0 || ex.con.opts["calm"] {
		return
	}
	for _, c := range ex.con.clauses {
		if c.kind == "rely" {
			return
		}
	}
	mine := false
	for _, l := range ex.con.optv["locks"] {
		if sv, ok := ex.rootEnv.names[l]; ok {
			pt := sv.t.Underlying().(*types.Pointer).Elem()
			if m := ex.P.monitorOf(pt); m != nil && ex.mutexRef(ex.rootEnv.term(sv), pt, m) == mu {
				mine = true
			}
		}
	}
	if !mine {
		return
	}
	var keys []string
	for k := range st.h {
		if !strings.HasPrefix(k, "lin:") && st.h[k] != pre.get(ex, k) {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		was := st.get(ex, "lin:"+k)
		if now := pre.get(ex, k); now != was {
			ex.assert(ex.b.And(reach, rel), "frame", "earlier_"+sanitize(strings.TrimLeft(k, "fcemvdlg:")), nil, p, "nothing is modified before the lock is taken again ("+k+")", ex.frameTerm(now, was, nil, ex.b.Const("ctr0", SInt)))
		}
		st.set("lin:"+k, ex.b.Ite(rel, st.h[k], was))
	}
}

// linOld is the state that old() refers to at the end of a path.
func (ex *Exec) linOld(st *State) *State {
	var old *State
	for k, v := range st.h {
		if k, ok := strings.CutPrefix(k, "lin:"); ok {
			if old == nil {
				old = ex.entry.clone()
			}
			old.h[k] = v
		}
	}
	if old == nil {
		return ex.entry
	}
	return old
}

func (ex *Exec) havocMonitor(st *State, self *Term, t types.Type, m *Monitor, cond *Term) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !m.guards[f.Name()] {
			continue
		}
		switch a := ex.fieldAddr(self, t, i).(type) {
		case *Addr:
			if mt, ok := f.Type().Underlying().(*types.Map); ok && m.guards[f.Name()+"[*]"] {
				dk, vk, _, _ := ex.mapKeys(f.Type())
				r := ex.loadRaw(st, a)
				for _, k := range []string{dk, vk, "ml"} {
					ex.havocLoc(st, Loc{key: k, ref: r}, cond)
				}
				_ = mt
			}
			old := ex.loadRaw(st, a)
			fv := ex.b.Fresh("re_"+f.Name(), old.sort)
			ex.storeRaw(st, a, ex.b.Ite(cond, fv, old))
			ex.wf(ex.b.True, st, fv, f.Type(), 0)
			if m.guards[f.Name()+"[*]"] {
				if sl, ok := f.Type().Underlying().(*types.Slice); ok {
					k := ex.elemKey(sl.Elem())
					h := st.get(ex, k)
					base := ex.ty.SBase(fv)
					arr := ex.b.Fresh("re_arr", arrSort(SInt, ex.ty.Sort(sl.Elem())))
					st.set(k, ex.b.Ite(cond, ex.b.Store(h, base, arr), h))
					ex.recordWrite(k, base)
				}
			}
		}
	}
	for _, o := range m.owns {
		ex.havocOwned(st, ex.P.lookupType(o), cond)
	}
}

func (ex *Exec) havocOwned(st *State, t types.Type, cond *Term) {
	for _, l := range ex.objLocs(ex.b.Const("owned", SRef), t) {
		ex.havocLoc(st, Loc{key: l.key}, cond)
	}
}

// ---------- function bodies ----------

func (ex *Exec) execBody(fn *ssa.Function, args []Val, binds []Val, st *State, reach *Term, parent *Frame, site string) ([]Val, *State, *Term) {
	if fn.Blocks == nil {
		panic(unsupported("no body for %s", fn))
	}
	for _, f := range ex.stack {
		if f == fn {
			panic(unsupported("recursive call of %s", fn))
		}
	}
	if len(ex.stack) > 14 {
		panic(unsupported("inlining too deep at %s", fn))
	}
	ex.stack = append(ex.stack, fn)
	defer func() { ex.stack = ex.stack[:len(ex.stack)-1] }()
	fr := &Frame{fn: fn, vals: map[ssa.Value]Val{}, parent: parent, iters: map[ssa.Value]*IterInfo{}}
	if parent != nil {
		fr.path = parent.path + "/" + site
	}
	for i, p := range fn.Params {
		fr.vals[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.vals[f] = binds[i]
	}

	loops := findLoops(fn)
	order := rpo(fn)
	in := map[*ssa.BasicBlock][]edge{}
	in[fn.Blocks[0]] = []edge{{cond: reach, st: st, from: nil}}
	saveActive := ex.active
	hdr := map[*ssa.BasicBlock]*loopRun{}

	setActive := func(blk *ssa.BasicBlock) {
		ex.active = append([]*activeLoop{}, saveActive...)
		for _, l := range loops {
			if l.blocks[blk] && l.header != blk {
				if lr := hdr[l.header]; lr != nil && !lr.unrolled {
					ex.active = append(ex.active, lr.act)
				}
			}
		}
	}
	body := func(blk *ssa.BasicBlock, bst *State, cur *Term) {
		for _, ins := range blk.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			if p := ins.Pos(); p.IsValid() {
				ex.lastPos = p
			}
			switch x := ins.(type) {
			case *ssa.If:
				c := ex.val(fr, x.Cond).(*Term)
				ex.push(fr, blk, blk.Succs[0], ex.b.And(cur, c), bst, in, hdr, loops, 0)
				ex.push(fr, blk, blk.Succs[1], ex.b.And(cur, ex.b.Not(c)), bst, in, hdr, loops, 1)
			case *ssa.Jump:
				ex.push(fr, blk, blk.Succs[0], cur, bst, in, hdr, loops, 0)
			case *ssa.Return:
				var vs []Val
				for _, r := range x.Results {
					vs = append(vs, ex.val(fr, r))
				}
				fr.rets = append(fr.rets, retInfo{cur, bst, vs, x.Pos()})
			case *ssa.Panic:
				fr.hasPanic = true
				ex.assert(cur, "panic", "no_panic", nil, x.Pos(), "panic statement is unreachable", ex.b.False)
				cur = ex.b.False
			case *ssa.RunDefers:
				cur = ex.runDefers(fr, bst, cur)
			default:
				cur = ex.instr(fr, ins, bst, cur)
			}
			if cur.isFalse() {
				break
			}
		}
	}
	livein := func(blk *ssa.BasicBlock) []edge {
		var live []edge
		for _, e := range in[blk] {
			if !e.cond.isFalse() {
				live = append(live, e)
			}
		}
		return live
	}
	done := map[*ssa.BasicBlock]bool{}
	// block executes a block and, for a loop with a small constant number of
	// iterations, all of its iterations.
	var block func(blk *ssa.BasicBlock)
	block = func(blk *ssa.BasicBlock) {
		live := livein(blk)
		if len(live) == 0 {
			return
		}
		setActive(blk)
		bst, breach := ex.merge(live)
		l := loopAt(loops, blk)
		if l != nil && ex.constLoop(fr, l, loops, live) {
			path := fr.path
			for i := 0; len(live) > 0; i++ {
				if i > 0 {
					setActive(blk)
					bst, breach = ex.merge(live)
				}
				fr.path = fmt.Sprintf("%s~%d.%d", path, blk.Index, i)
				for b := range l.blocks {
					in[b] = nil
				}
				ex.phis(fr, blk, live, bst)
				hdr[blk] = &loopRun{unrolled: true}
				body(blk, bst, breach)
				for _, b := range order {
					if l.blocks[b] && b != blk {
						block(b)
					}
				}
				live = nil
				for _, e := range hdr[blk].back {
					if !e.cond.isFalse() {
						live = append(live, e)
					}
				}
			}
			fr.path = path
			hdr[blk] = nil
			for b := range l.blocks {
				done[b] = true
			}
			return
		}
		if l != nil {
			lr := ex.enterLoop(fr, l, blk, live, bst, breach)
			hdr[blk] = lr
			bst = lr.st.clone()
			ex.active = append(ex.active, lr.act)
		} else {
			ex.phis(fr, blk, live, bst)
		}
		body(blk, bst, breach)
	}
	for _, blk := range order {
		if !done[blk] {
			block(blk)
		}
	}
	ex.active = saveActive
	if parent == nil {
		ex.rootRets = fr.rets
	}
	if len(fr.rets) == 0 {
		return make([]Val, fn.Signature.Results().Len()), st, ex.b.False
	}
	// merge returns
	var es []edge
	for _, r := range fr.rets {
		es = append(es, edge{cond: r.reach, st: r.st})
	}
	ost, oreach := ex.merge(es)
	if len(loops) == 0 && !fr.hasPanic && ex.straight(fn) {
		oreach = reach
	}
	n := fn.Signature.Results().Len()
	out := make([]Val, n)
	for i := 0; i < n; i++ {
		v := fr.rets[len(fr.rets)-1].vals[i]
		for j := len(fr.rets) - 2; j >= 0; j-- {
			v = ex.iteVal(fr.rets[j].reach, fr.rets[j].vals[i], v)
		}
		out[i] = v
	}
	return out, ost, oreach
}

// straight: reach after the body equals reach before it (no loops or calls that refine it).
func (ex *Exec) straight(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				return false
			case *ssa.RunDefers, *ssa.Panic, *ssa.Defer:
				return false
			}
		}
	}
	return true
}

func (ex *Exec) iteVal(c *Term, x, y Val) Val {
	if x == y {
		return x
	}
	xt, ok1 := x.(*Term)
	yt, ok2 := y.(*Term)
	if ok1 && ok2 {
		return ex.b.Ite(c, xt, yt)
	}
	xs, ok1 := x.(Tuple)
	ys, ok2 := y.(Tuple)
	if ok1 && ok2 {
		o := make(Tuple, len(xs))
		for i := range xs {
			o[i] = ex.iteVal(c, xs[i], ys[i])
		}
		return o
	}
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	panic(unsupported("merge of %T and %T", x, y))
}

func (ex *Exec) merge(es []edge) (*State, *Term) {
	if len(es) == 1 {
		return es[0].st.clone(), es[0].cond
	}
	var conds []*Term
	keys := map[string]bool{}
	for _, e := range es {
		conds = append(conds, e.cond)
		for k := range e.st.h {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	st := &State{h: map[string]*Term{}}
	for _, k := range ks {
		v := es[len(es)-1].st.get(ex, k)
		for j := len(es) - 2; j >= 0; j-- {
			v = ex.b.Ite(ex.diffCond(es, j), es[j].st.get(ex, k), v)
		}
		st.h[k] = v
	}
	return st, ex.b.Or(conds...)
}

// diffCond: a condition that distinguishes edge j from the later ones
// (conjuncts common to all edges are dropped).
func (ex *Exec) diffCond(es []edge, j int) *Term {
	common := map[*Term]int{}
	for _, e := range es[j:] {
		for _, c := range conjuncts(e.cond) {
			common[c]++
		}
	}
	n := len(es) - j
	var out []*Term
	for _, c := range conjuncts(es[j].cond) {
		if common[c] < n {
			out = append(out, c)
		}
	}
	return ex.b.And(out...)
}

func (ex *Exec) phis(fr *Frame, blk *ssa.BasicBlock, live []edge, st *State) {
	type upd struct {
		p *ssa.Phi
		v Val
	}
	var us []upd
	for _, ins := range blk.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		us = append(us, upd{p, ex.phiVal(fr, p, blk, live)})
	}
	for _, u := range us {
		fr.vals[u.p] = u.v
	}
}

func (ex *Exec) phiVal(fr *Frame, p *ssa.Phi, blk *ssa.BasicBlock, live []edge) Val {
	get := func(e edge) Val {
		for k, pr := range blk.Preds {
			if pr == e.from {
				return ex.val(fr, p.Edges[k])
			}
		}
		panic("phi: no predecessor")
	}
	v := get(live[len(live)-1])
	for j := len(live) - 2; j >= 0; j-- {
		v = ex.iteVal(ex.diffCond(live, j), get(live[j]), v)
	}
	return v
}

func (ex *Exec) push(fr *Frame, from, to *ssa.BasicBlock, cond *Term, st *State, in map[*ssa.BasicBlock][]edge, hdr map[*ssa.BasicBlock]*loopRun, loops []*loop, succ int) {
	if cond.isFalse() {
		return
	}
	if l := loopAt(loops, to); l != nil && l.blocks[from] && hdr[to].unrolled {
		hdr[to].back = append(hdr[to].back, edge{cond: cond, st: st.clone(), from: from})
		return
	}
	if l := loopAt(loops, to); l != nil && l.blocks[from] {
		ex.backEdge(fr, hdr[to], edge{cond: cond, st: st, from: from})
		return
	}
	// two edges from the same block to the same successor
	for i, e := range in[to] {
		if e.from == from {
			in[to][i].cond = ex.b.Or(e.cond, cond)
			return
		}
	}
	in[to] = append(in[to], edge{cond: cond, st: st.clone(), from: from})
}

func (ex *Exec) runDefers(fr *Frame, st *State, reach *Term) *Term {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		g := ex.b.And(reach, d.guard)
		if g.isFalse() {
			continue
		}
		if d.inLoop {
			panic(unsupported("defer inside a loop in %s", fr.fn))
		}
		ns := st.clone()
		_, ns, nr := ex.callWith(fr, d.call, d.fnv, d.args, ns, g, d.pos, fmt.Sprintf("defer%d", i))
		if g == reach {
			*st = *ns
			reach = nr
			continue
		}
		// conditional defer: merge
		sk := ex.b.And(reach, ex.b.Not(d.guard))
		if sk.isFalse() {
			*st = *ns
			reach = nr
			continue
		}
		m, r := ex.merge([]edge{{cond: nr, st: ns}, {cond: sk, st: st.clone()}})
		*st = *m
		reach = r
	}
	return reach
}

// ---------- values ----------

func (ex *Exec) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return ex.ty.Zero(x.Type())
		}
		return ex.constTerm(x.Value, x.Type())
	case *ssa.Global:
		nm := x.Pkg.Pkg.Name() + "." + x.Name()
		return ex.globalRef(nm, x.Type())
	case *ssa.Function:
		return ex.funcVal(x)
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.vals[v]
	if !ok {
		panic(unsupported("value %s (%T) of %s not computed", v.Name(), v, fr.fn))
	}
	return r
}

func (ex *Exec) funcVal(fn *ssa.Function) *Term {
	nm := sanitize("func@" + fn.String())
	t := ex.b.Const(nm, SFunc)
	if ex.closure[nm] == nil {
		ex.closure[nm] = &Closure{fn: fn}
		ex.facts = append(ex.facts, ex.b.Ne(t, ex.ty.ZeroSort(SFunc)))
	}
	return t
}

func (ex *Exec) tval(fr *Frame, v ssa.Value) *Term {
	switch x := ex.val(fr, v).(type) {
	case *Term:
		return x
	case *Addr:
		return ex.addrTerm(x)
	}
	panic(unsupported("value %s is not a term", v))
}

func (ex *Exec) cat(x, y *Term) *Term {
	e := ex.b.Str("")
	if x == e {
		return y
	}
	if y == e {
		return x
	}
	// literals concatenate; re-associate to the right
	if ls, ok := ex.lit(x); ok {
		if rs, ok := ex.lit(y); ok {
			return ex.b.Str(ls + rs)
		}
		if y.op == "app" && y.name == "cat" {
			if rs, ok := ex.lit(y.args[0]); ok {
				return ex.cat(ex.b.Str(ls+rs), y.args[1])
			}
		}
	}
	if x.op == "app" && x.name == "cat" {
		return ex.cat(x.args[0], ex.cat(x.args[1], y))
	}
	return ex.b.App("cat", SStr, x, y)
}

func (ex *Exec) strlen(t *Term) *Term {
	if s, ok := ex.lit(t); ok {
		return ex.b.Int(int64(len(s)))
	}
	return ex.b.App("strlen", SInt, t)
}

func (ex *Exec) lit(t *Term) (string, bool) {
	if t.op != "const" || !strings.HasPrefix(t.name, "str@") {
		return "", false
	}
	for s, u := range ex.b.strlits {
		if u == t {
			return s, true
		}
	}
	return "", false
}

func (ex *Exec) compare(op string, x, y *Term) *Term {
	b := ex.b
	if x.sort == SStr {
		x, y = b.App("strrank", "Real", x), b.App("strrank", "Real", y)
		if _, ok := ex.cfacts["strrank"]; !ok {
			ex.cfacts["strrank"] = true
			p, q := b.BoundVar("p", SStr), b.BoundVar("q", SStr)
			rp, rq := b.App("strrank", "Real", p), b.App("strrank", "Real", q)
			ex.facts = append(ex.facts, b.Forall([]*Term{p, q}, [][]*Term{{rp, rq}}, b.Implies(b.Eq(rp, rq), b.Eq(p, q))))
		}
		switch op {
		case "<":
			return b.Not(b.Op("<=", SBool, y, x))
		case "<=":
			return b.Op("<=", SBool, x, y)
		case ">":
			return b.Not(b.Op("<=", SBool, x, y))
		case ">=":
			return b.Op("<=", SBool, y, x)
		}
	}
	if x.sort == SFlt {
		switch op {
		case "<":
			return b.App("flt.lt", SBool, x, y)
		case ">":
			return b.App("flt.lt", SBool, y, x)
		case "<=":
			return b.App("flt.le", SBool, x, y)
		case ">=":
			return b.App("flt.le", SBool, y, x)
		}
	}
	if x.sort == SBV8 {
		m := map[string]string{"<": "bvult", "<=": "bvule", ">": "bvugt", ">=": "bvuge"}
		return b.Op(m[op], SBool, x, y)
	}
	switch op {
	case "<":
		return b.Lt(x, y)
	case "<=":
		return b.Le(x, y)
	case ">":
		return b.Gt(x, y)
	}
	return b.Ge(x, y)
}

// ---------- maps ----------

func (ex *Exec) mapKeys(t types.Type) (dk, vk string, ks, vs string) {
	m := t.Underlying().(*types.Map)
	ks, vs = ex.ty.Sort(m.Key()), ex.ty.Sort(m.Elem())
	id := tstr(m.Key()) + "|" + tstr(m.Elem())
	dk, vk = "md:"+id, "mv:"+id
	if _, ok := ex.keySort[dk]; !ok {
		ex.keySort[dk] = arrSort(SRef, arrSort(ks, SBool))
		ex.keySort[vk] = arrSort(SRef, arrSort(ks, vs))
	}
	if _, ok := ex.keySort["ml"]; !ok {
		ex.keySort["ml"] = arrSort(SRef, SInt)
	}
	return
}

func (ex *Exec) mapDom(st *State, m *Term, t types.Type) *Term {
	dk, _, ks, _ := ex.mapKeys(t)
	if m == ex.ty.Nil() {
		return ex.b.ConstArr(arrSort(ks, SBool), ex.b.False)
	}
	return ex.b.Select(st.get(ex, dk), m)
}
func (ex *Exec) mapVals(st *State, m *Term, t types.Type) *Term {
	_, vk, _, _ := ex.mapKeys(t)
	return ex.b.Select(st.get(ex, vk), m)
}
func (ex *Exec) mapHas(st *State, m *Term, t types.Type, k *Term) *Term {
	return ex.b.And(ex.b.Ne(m, ex.ty.Nil()), ex.b.Select(ex.mapDom(st, m, t), k))
}
func (ex *Exec) mapGet(st *State, m *Term, t types.Type, k *Term) *Term {
	return ex.b.Select(ex.mapVals(st, m, t), k)
}
func (ex *Exec) mapLen(st *State, m *Term) *Term {
	if _, ok := ex.keySort["ml"]; !ok {
		ex.keySort["ml"] = arrSort(SRef, SInt)
	}
	if m == ex.ty.Nil() {
		return ex.b.Int(0)
	}
	return ex.b.Ite(ex.b.Eq(m, ex.ty.Nil()), ex.b.Int(0), ex.b.Select(st.get(ex, "ml"), m))
}

// mapLenFacts relates the length of a map to its domain.
func (ex *Exec) mapLenFacts(reach *Term, st *State, m *Term, t types.Type) {
	b := ex.b
	_, _, ks, _ := ex.mapKeys(t)
	n := b.Select(st.get(ex, "ml"), m)
	dom := ex.mapDom(st, m, t)
	if complexArr(dom) {
		dom = ex.nameTerm(dom)
	}
	k := b.BoundVar("k", ks)
	sel := b.Select(dom, k)
	w := b.App("mapwit@"+ks, ks, dom)
	ex.assume(reach, b.And(b.Ge(n, b.Int(0)),
		b.Forall([]*Term{k}, [][]*Term{{sel}}, b.Implies(sel, b.Gt(n, b.Int(0)))),
		b.Implies(b.Gt(n, b.Int(0)), b.Select(dom, w))))
}

func (ex *Exec) mapStore(st *State, m *Term, t types.Type, k, v *Term) {
	b := ex.b
	dk, vk, _, _ := ex.mapKeys(t)
	dom := ex.mapDom(st, m, t)
	n := b.Select(st.get(ex, "ml"), m)
	st.set("ml", b.Store(st.get(ex, "ml"), m, b.Ite(b.Select(dom, k), n, b.Add(n, b.Int(1)))))
	st.set(dk, b.Store(st.get(ex, dk), m, b.Store(dom, k, b.True)))
	st.set(vk, b.Store(st.get(ex, vk), m, b.Store(ex.mapVals(st, m, t), k, v)))
	ex.recordWrite("ml", m)
	ex.recordWrite(dk, m)
	ex.recordWrite(vk, m)
}

func (ex *Exec) mapDelete(st *State, m *Term, t types.Type, k *Term) {
	b := ex.b
	dk, _, _, _ := ex.mapKeys(t)
	dom := ex.mapDom(st, m, t)
	has := b.And(b.Ne(m, ex.ty.Nil()), b.Select(dom, k))
	n := b.Select(st.get(ex, "ml"), m)
	st.set("ml", b.Store(st.get(ex, "ml"), m, b.Ite(has, b.Sub(n, b.Int(1)), n)))
	st.set(dk, b.Store(st.get(ex, dk), m, b.Store(dom, k, b.False)))
	ex.recordWrite("ml", m)
	ex.recordWrite(dk, m)
}

func (ex *Exec) newMap(st *State, reach *Term, t types.Type) *Term {
	b := ex.b
	r := ex.alloc(st, reach, "map")
	dk, vk, ks, vs := ex.mapKeys(t)
	st.set(dk, b.Store(st.get(ex, dk), r, b.ConstArr(arrSort(ks, SBool), b.False)))
	st.set(vk, b.Store(st.get(ex, vk), r, b.ConstArr(arrSort(ks, vs), ex.ty.Zero(t.Underlying().(*types.Map).Elem()))))
	st.set("ml", b.Store(st.get(ex, "ml"), r, b.Int(0)))
	ex.recordWrite(dk, r)
	ex.recordWrite(vk, r)
	ex.recordWrite("ml", r)
	return r
}

// ---------- loops structure ----------

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func findLoops(fn *ssa.Function) []*loop {
	by := map[*ssa.BasicBlock]*loop{}
	var out []*loop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := by[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					by[s] = l
					out = append(out, l)
				}
				var walk func(x *ssa.BasicBlock)
				walk = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	// outer loops first
	sort.SliceStable(out, func(i, j int) bool { return len(out[i].blocks) > len(out[j].blocks) })
	return out
}

// constLoop: the loop runs a small number of times known here (a range over a
// literal, say), is left only from its header, and contains no other loop.
// Such a loop is executed iteration by iteration instead of by invariants.
func (ex *Exec) constLoop(fr *Frame, l *loop, loops []*loop, live []edge) bool {
	for _, o := range loops {
		if o != l && l.blocks[o.header] {
			return false
		}
	}
	for b := range l.blocks {
		if b == l.header {
			continue
		}
		if len(b.Succs) == 0 {
			return false
		}
		for _, s := range b.Succs {
			if !l.blocks[s] {
				return false
			}
		}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Defer); ok {
				return false
			}
		}
	}
	var cond *ssa.If
	for _, ins := range l.header.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.DebugRef:
		case *ssa.If:
			cond = x
		default:
			return false
		}
	}
	if cond == nil || l.blocks[l.header.Succs[1]] {
		return false
	}
	c, ok := cond.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return false
	}
	isInc := func(v ssa.Value, p *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(p) {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		return ok && k.Value != nil && k.Value.ExactString() == "1"
	}
	var p *ssa.Phi
	off := 0
	switch x := c.X.(type) {
	case *ssa.Phi:
		p = x
	case *ssa.BinOp:
		if q, ok := x.X.(*ssa.Phi); ok && isInc(x, q) {
			p, off = q, 1
		}
	}
	if p == nil || p.Block() != l.header {
		return false
	}
	for k, pr := range l.header.Preds {
		if l.blocks[pr] && !isInc(p.Edges[k], p) {
			return false
		}
	}
	lit := func(v Val) (int64, bool) {
		t, ok := v.(*Term)
		if !ok || t.op != "int" || !t.ival.IsInt64() {
			return 0, false
		}
		return t.ival.Int64(), true
	}
	if v, ok := c.Y.(ssa.Instruction); ok && l.blocks[v.Block()] {
		return false
	}
	from, ok1 := lit(ex.phiVal(fr, p, l.header, live))
	to, ok2 := lit(ex.val(fr, c.Y))
	return ok1 && ok2 && to-from-int64(off) <= 8
}

func loopAt(ls []*loop, b *ssa.BasicBlock) *loop {
	for _, l := range ls {
		if l.header == b {
			return l
		}
	}
	return nil
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				visit(s)
			}
		}
		post = append(post, b)
	}
	visit(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}
