package main

// Loops: havoc of what the body may change, candidate invariants (templates
// from the contract plus automatic ones) checked on entry and on every back edge.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lvar is a program variable a loop invariant may speak about.
type lvar struct {
	name string
	t    types.Type
	phi  *ssa.Phi
	plus bool
	cell *Term // address of a local variable
	val  *Term // loop-invariant value
	ptr  *Term // address of a local object
	it   *IterInfo
	auto bool // take part in automatic candidates
}

type cand struct {
	key  string
	text string
	eval func(w *where) *Term
}

// where: a program point at which candidates are evaluated.
type where struct {
	st   *State
	phis map[*ssa.Phi]Val
}

type loopRun struct {
	unrolled bool   // executed iteration by iteration
	back     []edge // its back edges
	st       *State
	act      *activeLoop
	l        *loop
	blk      *ssa.BasicBlock
	entry    *State
	ew       *where // values at loop entry
	phis     []*ssa.Phi
	cands    []*cand
	id       string
	fr       *Frame
}

var scalarKey = map[string]bool{"ctr": true, "now": true, "epoch": true, "fmtn": true}

// importTerm rebuilds a term of an earlier run; nil if it mentions a constant
// not (yet) known in this run.
func (ex *Exec) importTerm(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	switch {
	case len(t.qvars) > 0 || t.op == "bvar":
		r = nil
	case t.op == "const":
		if _, ok := ex.b.declSet[t.name]; ok {
			r = ex.b.mk("const", t.name, t.sort, nil)
		}
	case t.op == "int":
		r = ex.b.BigInt(t.ival)
	default:
		as := make([]*Term, len(t.args))
		ok := true
		for i, a := range t.args {
			as[i] = ex.importTerm(a, memo)
			if as[i] == nil {
				ok = false
				break
			}
		}
		if ok {
			if t.op == "app" {
				if _, k := ex.b.declSet[t.name]; !k {
					if strings.HasPrefix(t.name, "box@") {
						ex.b.App(t.name, t.sort, as...)
					} else {
						ok = false
					}
				}
			}
		}
		if ok {
			r = ex.b.mk(t.op, t.name, t.sort, as)
		}
	}
	memo[t] = r
	return r
}

func (ex *Exec) enterLoop(fr *Frame, l *loop, blk *ssa.BasicBlock, live []edge, bst *State, breach *Term) *loopRun {
	b := ex.b
	id := fmt.Sprintf("%s#%d", fr.path, blk.Index)
	info := ex.loops[id]
	if info == nil {
		info = &loopInfo{mods: map[string]*loopMod{}}
		ex.loops[id] = info
	}
	lr := &loopRun{l: l, blk: blk, id: id, fr: fr}
	// entry values
	ew := &where{st: bst, phis: map[*ssa.Phi]Val{}}
	for _, ins := range blk.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		lr.phis = append(lr.phis, p)
		ew.phis[p] = ex.phiVal(fr, p, blk, live)
	}
	lr.entry = bst.clone()
	ew.st = lr.entry
	lr.ew = ew
	ctrE := bst.get(ex, "ctr")
	stamp := b.clock
	act := &activeLoop{id: id, stamp: stamp, info: info, blocks: l.blocks, fr: fr, entry: lr.entry}
	lr.act = act

	vars := ex.loopVars(fr, lr, stamp)

	// havoc
	st := bst.clone()
	var keys []string
	for k := range info.mods {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	type frame struct {
		key string
		w   []*Term
	}
	var frames []frame
	var fullh []string
	// the enclosing loops are affected as well
	for _, k := range keys {
		m := info.mods[k]
		if scalarKey[k] || strings.HasPrefix(k, "lvl") {
			old := bst.get(ex, k)
			f := b.Fresh("lp@"+k, old.sort)
			if k == "ctr" || k == "now" || k == "fmtn" {
				ex.assume(breach, b.Ge(f, old))
			}
			st.set(k, f)
			ex.recordScalar(k)
			continue
		}
		old := bst.get(ex, k)
		var ws []*Term
		other := m.other
		memo := map[*Term]*Term{}
		for _, w := range m.w {
			iw := ex.importTerm(w, memo)
			if iw == nil {
				other = true
				continue
			}
			ws = append(ws, iw)
			ex.recordWrite(k, iw)
		}
		if m.other {
			ex.recordWrite(k, nil)
		}
		if !m.fresh && !other {
			h := old
			_, vs := splitArr(old.sort)
			for i, w := range ws {
				h = b.Store(h, w, b.Fresh(fmt.Sprintf("lp@%s@%d", k, i), vs))
			}
			st.set(k, h)
			continue
		}
		h := b.Fresh("lp@"+k, old.sort)
		st.set(k, h)
		fullh = append(fullh, k)
		if m.fresh && len(ex.active) > 0 {
			// objects allocated in this loop are fresh for the enclosing ones too
			for _, a := range ex.active {
				am := a.info.mods[k]
				if am == nil {
					am = &loopMod{}
					a.info.mods[k] = am
					ex.restart = true
				}
				if !am.fresh {
					am.fresh = true
					ex.restart = true
				}
			}
		}
		idx, _ := splitArr(old.sort)
		if idx != SRef {
			continue
		}
		if other {
			frames = append(frames, frame{k, ws})
		} else {
			ex.assume(breach, ex.frameTerm(h, old, ws, ctrE))
		}
	}
	for _, k := range fullh {
		ex.heapWF(breach, st.get(ex, k), k, st.get(ex, "ctr"))
	}
	// phis
	hw := &where{st: st, phis: map[*ssa.Phi]Val{}}
	for _, p := range lr.phis {
		var v Val
		if _, ok := ew.phis[p].(*Term); ok {
			c := b.Fresh("phi@"+phiName(p), ex.ty.Sort(p.Type()))
			v = c
		} else {
			panic(unsupported("loop variable %s of %s is not a plain value", p.Name(), fr.fn))
		}
		hw.phis[p] = v
	}
	for _, p := range lr.phis {
		fr.vals[p] = hw.phis[p]
		ex.wf(breach, st, hw.phis[p].(*Term), p.Type(), 0)
	}
	for _, k := range keys {
		if strings.HasPrefix(k, "c:") || strings.HasPrefix(k, "f:") {
			// well-formedness of havocked scalar locations with plain references
			continue
		}
	}
	lr.st = st

	// candidates
	var cs []*cand
	for _, f := range frames {
		f := f
		old := lr.entry.get(ex, f.key)
		cs = append(cs, &cand{key: id + "|frame|" + f.key, text: "loop leaves other " + f.key + " unchanged", eval: func(w *where) *Term {
			return ex.frameTerm(w.st.get(ex, f.key), old, f.w, ctrE)
		}})
		if c0 := b.Const("ctr0", SInt); c0 != ctrE {
			cs = append(cs, &cand{key: id + "|frame0|" + f.key, text: "loop leaves " + f.key + " of older objects unchanged", eval: func(w *where) *Term {
				return ex.frameTerm(w.st.get(ex, f.key), old, f.w, c0)
			}})
		}
	}
	if info.mods["held"] != nil {
		h0 := lr.entry.get(ex, "held")
		cs = append(cs, &cand{key: id + "|locks", text: "every lock taken in the loop is released", eval: func(w *where) *Term {
			return b.Eq(w.st.get(ex, "held"), h0)
		}})
	}
	cs = append(cs, ex.autoCands(fr, lr, vars, ew)...)
	cs = append(cs, ex.templateCands(fr, lr, vars)...)
	seen := map[string]bool{}
	for _, c := range cs {
		if ex.dropped[c.key] || seen[c.key] {
			continue
		}
		seen[c.key] = true
		ht, ok := ex.tryEval(c, hw)
		if !ok {
			continue
		}
		et, ok := ex.tryEval(c, ew)
		if !ok {
			continue
		}
		if ht.isTrue() {
			continue
		}
		o := ex.assert(breach, "loop_entry", "inv", nil, blk.Instrs[0].Pos(), c.text, et)
		o.cand = c.key
		lr.cands = append(lr.cands, c)
	}
	for _, c := range lr.cands {
		t, _ := ex.tryEval(c, hw)
		ex.assume(breach, t)
	}
	return lr
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (ex *Exec) frameTerm(h, old *Term, ws []*Term, ctr *Term) *Term {
	b := ex.b
	if h == old {
		return b.True
	}
	r := b.BoundVar("r", SRef)
	hh, oo := h, old
	if complexArr(hh) {
		hh = ex.nameTerm(hh)
	}
	if complexArr(oo) {
		oo = ex.nameTerm(oo)
	}
	conds := []*Term{b.Lt(ex.age(r), ctr)}
	for _, w := range ws {
		conds = append(conds, b.Ne(r, w))
	}
	return b.Forall([]*Term{r}, [][]*Term{{b.Select(hh, r)}}, b.Implies(b.And(conds...), b.Eq(b.Select(hh, r), b.Select(oo, r))))
}

func (ex *Exec) tryEval(c *cand, w *where) (t *Term, ok bool) {
	nf := len(ex.facts)
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case specErr, unsupportedErr:
				ex.facts = ex.facts[:nf]
				t, ok = nil, false
			default:
				panic(r)
			}
		}
	}()
	t = c.eval(w)
	return t, t != nil
}

func (ex *Exec) backEdge(fr *Frame, lr *loopRun, e edge) {
	w := &where{st: e.st, phis: map[*ssa.Phi]Val{}}
	for _, p := range lr.phis {
		for k, pr := range lr.blk.Preds {
			if pr == e.from {
				w.phis[p] = ex.val(fr, p.Edges[k])
			}
		}
	}
	for _, c := range lr.cands {
		t, ok := ex.tryEval(c, w)
		if !ok {
			t = ex.b.False
		}
		o := ex.assert(e.cond, "loop_preserve", "inv", nil, lr.blk.Instrs[0].Pos(), c.text, t)
		o.cand = c.key
	}
}

// loopVars lists the variables invariants may mention.
func (ex *Exec) loopVars(fr *Frame, lr *loopRun, stamp int) []*lvar {
	var out []*lvar
	for _, p := range lr.phis {
		v := &lvar{name: phiName(p) + "." + p.Name(), t: p.Type(), phi: p, auto: true}
		if p.Comment == "rangeindex" {
			v.plus = true
		}
		out = append(out, v)
	}
	seen := map[*Term]bool{}
	for f := fr; f != nil; f = f.parent {
		for _, a := range f.allocs {
			r, ok := f.vals[a].(*Term)
			if !ok || seen[r] || r.stamp > stamp {
				continue
			}
			seen[r] = true
			t := a.Type().Underlying().(*types.Pointer).Elem()
			if isObj(t) {
				out = append(out, &lvar{name: a.Comment + "." + a.Name(), t: a.Type(), ptr: r})
				continue
			}
			out = append(out, &lvar{name: a.Comment + "." + r.name, t: t, cell: r, auto: true})
		}
		var its []*IterInfo
		for v, it := range f.iters {
			if f.vals[v] != nil && it.ref.stamp <= stamp {
				its = append(its, it)
			}
		}
		sort.Slice(its, func(i, j int) bool { return its[i].ref.name < its[j].ref.name })
		for _, it := range its {
			out = append(out, &lvar{name: "iter." + it.ref.name, it: it})
		}
	}
	// loop-invariant values
	type nv struct {
		n string
		v ssa.Value
		t *Term
		k int
	}
	var nvs []nv
	depth := 0
	for f := fr; f != nil; f = f.parent {
		for v, x := range f.vals {
			t, ok := x.(*Term)
			if !ok || t.stamp > stamp || t.op == "int" || t.op == "bvlit" {
				continue
			}
			if in, ok := v.(ssa.Instruction); ok && f == fr && in.Block() != nil && !in.Block().Dominates(lr.blk) {
				continue // not in scope here
			}
			if p, ok := v.(*ssa.Phi); ok && f == fr {
				isHdr := false
				for _, q := range lr.phis {
					if q == p {
						isHdr = true
					}
				}
				if isHdr {
					continue
				}
			}
			switch v.Type().Underlying().(type) {
			case *types.Slice, *types.Map, *types.Interface, *types.Chan:
			case *types.Pointer:
				if _, ok := v.(*ssa.Alloc); ok {
					continue
				}
				if _, ok := v.(*ssa.FieldAddr); ok {
					continue
				}
			case *types.Basic:
				if t.sort != SInt || t.op != "const" && t.op != "sel" && t.op != "ite" {
					continue
				}
			default:
				continue
			}
			nvs = append(nvs, nv{v.Name(), v, t, depth})
		}
		depth++
	}
	sort.Slice(nvs, func(i, j int) bool {
		if nvs[i].k != nvs[j].k {
			return nvs[i].k < nvs[j].k
		}
		return nvs[i].n < nvs[j].n
	})
	seenV := map[*Term]bool{}
	for _, n := range nvs {
		if seenV[n.t] {
			continue
		}
		seenV[n.t] = true
		out = append(out, &lvar{name: fmt.Sprintf("v%d.%s", n.k, n.n), t: n.v.Type(), val: n.t})
	}
	return out
}

func (ex *Exec) varAt(v *lvar, w *where) SV {
	switch {
	case v.phi != nil:
		x := w.phis[v.phi]
		t, ok := x.(*Term)
		if !ok {
			panic(unsupported("phi value"))
		}
		if v.plus {
			t = ex.b.Add(t, ex.b.Int(1))
		}
		return SV{v: t, t: v.t}
	case v.cell != nil:
		return SV{v: ex.loadRaw(w.st, ex.cellAddr(v.cell, v.t)), t: v.t}
	case v.val != nil:
		return SV{v: v.val, t: v.t}
	case v.ptr != nil:
		return SV{v: v.ptr, t: v.t}
	case v.it != nil:
		return SV{it: v.it}
	}
	panic("lvar")
}

func (v *lvar) matches(typ string) bool {
	if v.it != nil {
		return typ == "iter"
	}
	s := tstr(v.t)
	if s == typ {
		return true
	}
	switch typ {
	case "slice":
		_, ok := v.t.Underlying().(*types.Slice)
		return ok
	case "anyint":
		bt, ok := v.t.Underlying().(*types.Basic)
		return ok && bt.Info()&types.IsInteger != 0
	case "map":
		_, ok := v.t.Underlying().(*types.Map)
		return ok
	}
	if sl, ok := v.t.Underlying().(*types.Slice); ok && typ == "[]"+tstr(sl.Elem()) {
		return true
	}
	return false
}

func (ex *Exec) templateCands(fr *Frame, lr *loopRun, vars []*lvar) []*cand {
	if ex.con == nil {
		return nil
	}
	var out []*cand
	for ci, c := range ex.con.clauses {
		if c.kind != "inv" {
			continue
		}
		var rec func(i int, sel []*lvar)
		n := 0
		rec = func(i int, sel []*lvar) {
			if n > 600 {
				return
			}
			if i == len(c.metas) {
				n++
				ss := append([]*lvar{}, sel...)
				var nm []string
				for j, m := range c.metas {
					x := ss[j].name
					if ss[j].plus {
						x += "+1"
					}
					nm = append(nm, m.name+"="+x)
				}
				key := fmt.Sprintf("%s|t%d|%s", lr.id, ci, strings.Join(nm, ","))
				cl := c
				out = append(out, &cand{key: key, text: cl.text + " [" + strings.Join(nm, ", ") + "]", eval: func(w *where) *Term {
					env := &Env{ex: ex, names: map[string]SV{}, st: w.st, old: ex.entry, pre: lr.entry, ctr0: ex.b.Const("ctr0", SInt), up: ex.rootEnv}
					for j, m := range cl.metas {
						env.names[m.name] = ex.varAt(ss[j], w)
					}
					env.enter = func() map[string]SV {
						names := map[string]SV{}
						for j, m := range cl.metas {
							names[m.name] = ex.varAt(ss[j], lr.ew)
						}
						return names
					}
					return ex.Bool(env, cl.e)
				}})
				return
			}
			for _, v := range vars {
				// $x must vary or be a value; loop-invariant integers only for names starting with $c
				if v.val != nil && v.val.sort == SInt && !strings.HasPrefix(c.metas[i].name, "$c") {
					continue
				}
				if v.matches(c.metas[i].typ) {
					dup := false
					for _, s := range sel {
						if s == v {
							dup = true
						}
					}
					if !dup {
						rec(i+1, append(sel, v))
					}
				}
			}
		}
		rec(0, nil)
	}
	return out
}

// reeval evaluates an SSA value of the loop body at another point, if it is a
// simple function of loop-invariant values, the header phis and the state.
func (ex *Exec) reeval(fr *Frame, lr *loopRun, v ssa.Value, w *where, depth int) (*Term, bool) {
	if depth > 6 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		t, ok := ex.val(fr, x).(*Term)
		return t, ok
	case *ssa.Phi:
		if y, ok := w.phis[x]; ok {
			t, ok := y.(*Term)
			return t, ok
		}
	}
	ins, isIns := v.(ssa.Instruction)
	if !isIns || !lr.l.blocks[ins.Block()] {
		if y, ok := fr.vals[v]; ok {
			t, ok := y.(*Term)
			return t, ok
		}
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		p, ok1 := ex.reeval(fr, lr, x.X, w, depth+1)
		q, ok2 := ex.reeval(fr, lr, x.Y, w, depth+1)
		if !ok1 || !ok2 || p.sort != SInt {
			return nil, false
		}
		switch x.Op {
		case token.ADD:
			return ex.b.Add(p, q), true
		case token.SUB:
			return ex.b.Sub(p, q), true
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			s, ok := ex.reeval(fr, lr, x.Call.Args[0], w, depth+1)
			if ok && s.sort == SSlice {
				return ex.ty.SLen(s), true
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				base, ok := ex.reeval(fr, lr, fa.X, w, depth+1)
				if !ok {
					return nil, false
				}
				a, ok := ex.fieldAddr(base, fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field).(*Addr)
				if !ok {
					return nil, false
				}
				return ex.loadRaw(w.st, a), true
			}
			if base, ok := ex.reeval(fr, lr, x.X, w, depth+1); ok {
				t := x.X.Type().Underlying().(*types.Pointer).Elem()
				if !isObj(t) {
					return ex.loadRaw(w.st, ex.cellAddr(base, t)), true
				}
			}
		}
	}
	return nil, false
}

func (ex *Exec) autoCands(fr *Frame, lr *loopRun, vars []*lvar, ew *where) []*cand {
	b := ex.b
	var out []*cand
	add := func(k, text string, f func(w *where) *Term) {
		out = append(out, &cand{key: lr.id + "|auto|" + k, text: text, eval: f})
	}
	isIntVar := func(v *lvar) bool {
		if v.it != nil || !v.auto {
			return false
		}
		bt, ok := v.t.Underlying().(*types.Basic)
		return ok && bt.Info()&types.IsInteger != 0 && bt.Kind() != types.Uint8
	}
	term := func(v *lvar, w *where) *Term { return ex.varAt(v, w).v.(*Term) }
	var ints []*lvar
	for _, v := range vars {
		v := v
		if v.it != nil {
			it := v.it
			add("iter"+it.ref.name, "iterator position in range", func(w *where) *Term {
				i := b.Select(w.st.get(ex, "iter"), it.ref)
				return b.And(b.Le(b.Int(0), i), b.Le(i, it.count))
			})
			continue
		}
		if isIntVar(v) {
			ints = append(ints, v)
			e := term(v, ew)
			add(v.name+">=entry", v.name+" >= its value before the loop", func(w *where) *Term { return b.Ge(term(v, w), e) })
			add(v.name+"<=entry", v.name+" <= its value before the loop", func(w *where) *Term { return b.Le(term(v, w), e) })
			add(v.name+">=-1", v.name+" >= -1", func(w *where) *Term { return b.Ge(term(v, w), b.Int(-1)) })
			add(v.name+">=0", v.name+" >= 0", func(w *where) *Term { return b.Ge(term(v, w), b.Int(0)) })
		}
		if _, ok := tslice(v); ok && (v.phi != nil || v.cell != nil) {
			e := term(v, ew)
			add(v.name+"fresh", v.name+" keeps its initial or a fresh array", func(w *where) *Term {
				t := term(v, w)
				return b.Or(b.Eq(ex.ty.SBase(t), ex.ty.SBase(e)), b.Ge(ex.age(ex.ty.SBase(t)), lr.entry.get(ex, "ctr")))
			})
			add(v.name+"fresh0", v.name+" is nil or allocated in this function", func(w *where) *Term {
				t := term(v, w)
				return b.Or(b.Eq(ex.ty.SBase(t), ex.ty.Nil()), b.Ge(ex.age(ex.ty.SBase(t)), b.Const("ctr0", SInt)))
			})
			add(v.name+"allsame", v.name+" unchanged", func(w *where) *Term { return b.Eq(term(v, w), e) })
			add(v.name+"samebase", v.name+" keeps its array and offset", func(w *where) *Term {
				t := term(v, w)
				return b.And(b.Eq(ex.ty.SBase(t), ex.ty.SBase(e)), b.Eq(ex.ty.SOff(t), ex.ty.SOff(e)))
			})
		}
	}
	// comparisons in the loop
	seenB := map[ssa.Value]bool{}
	for blk := range lr.l.blocks {
		for _, ins := range blk.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for _, bv := range []ssa.Value{bo.X, bo.Y} {
				bv := bv
				bt, ok := bv.Type().Underlying().(*types.Basic)
				if !ok || bt.Info()&types.IsInteger == 0 || bt.Kind() == types.Uint8 || seenB[bv] {
					continue
				}
				if _, ok := bv.(*ssa.Const); ok {
					continue
				}
				if _, ok := ex.reeval(fr, lr, bv, ew, 0); !ok {
					continue
				}
				seenB[bv] = true
				for _, v := range ints {
					v := v
					if v.phi == nil {
						continue
					}
					add(v.name+"<="+bv.Name(), v.name+" <= "+bv.Name(), func(w *where) *Term {
						t, ok := ex.reeval(fr, lr, bv, w, 0)
						if !ok || t.sort != SInt {
							return nil
						}
						return b.Le(term(v, w), t)
					})
					add(v.name+"<"+bv.Name(), v.name+" < "+bv.Name(), func(w *where) *Term {
						t, ok := ex.reeval(fr, lr, bv, w, 0)
						if !ok || t.sort != SInt {
							return nil
						}
						return b.Lt(term(v, w), t)
					})
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].key < out[j].key })
	// lengths of slices that grow (or shrink) with the loop
	for _, s := range vars {
		s := s
		if _, ok := tslice(s); !ok || s.phi == nil && s.cell == nil {
			continue
		}
		slen := func(w *where) *Term { return ex.ty.SLen(term(s, w)) }
		se := slen(ew)
		add("len"+s.name+">=", "len("+s.name+") >= its value before the loop", func(w *where) *Term { return b.Ge(slen(w), se) })
		for _, v := range vars {
			v := v
			switch {
			case v.it != nil:
				it := v.it
				ie := b.Select(ew.st.get(ex, "iter"), it.ref)
				add("len"+s.name+"-"+it.ref.name, "len("+s.name+") grows with the iteration", func(w *where) *Term {
					return b.Eq(b.Sub(slen(w), b.Select(w.st.get(ex, "iter"), it.ref)), b.Sub(se, ie))
				})
			case isIntVar(v) && v.phi != nil:
				ve := term(v, ew)
				add("len"+s.name+"-"+v.name, "len("+s.name+") - "+v.name+" constant", func(w *where) *Term { return b.Eq(b.Sub(slen(w), term(v, w)), b.Sub(se, ve)) })
				add("len"+s.name+"+"+v.name, "len("+s.name+") + "+v.name+" constant", func(w *where) *Term { return b.Eq(b.Add(slen(w), term(v, w)), b.Add(se, ve)) })
				add("len"+s.name+"<="+v.name, "len("+s.name+") - "+v.name+" not growing", func(w *where) *Term { return b.Le(b.Sub(slen(w), term(v, w)), b.Sub(se, ve)) })
			}
		}
	}
	for i, v := range ints {
		for _, u := range ints[i+1:] {
			v, u := v, u
			if v.phi == nil || u.phi == nil {
				continue
			}
			ve, ue := term(v, ew), term(u, ew)
			add(v.name+"-"+u.name, v.name+" - "+u.name+" constant", func(w *where) *Term { return b.Eq(b.Sub(term(v, w), term(u, w)), b.Sub(ve, ue)) })
			add(v.name+"+"+u.name, v.name+" + "+u.name+" constant", func(w *where) *Term { return b.Eq(b.Add(term(v, w), term(u, w)), b.Add(ve, ue)) })
		}
	}
	return out
}

func tslice(v *lvar) (*types.Slice, bool) {
	if v.t == nil {
		return nil, false
	}
	s, ok := v.t.Underlying().(*types.Slice)
	return s, ok
}
