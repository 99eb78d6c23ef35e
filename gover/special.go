package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// special: built-in models of a few standard library functions.
func (ex *Exec) special(fr *Frame, key string, fn *ssa.Function, args []Val, st *State, reach *Term, pos token.Pos) ([]Val, *State, *Term, bool) {
	b, ty := ex.b, ex.ty
	ret := func(v ...Val) ([]Val, *State, *Term, bool) { return v, st, reach, true }
	t := func(i int) *Term {
		x, ok := args[i].(*Term)
		if !ok {
			panic(unsupported("%s of interior pointer", key))
		}
		return x
	}
	if strings.HasPrefix(key, "(*atomic.") {
		if v, ok := ex.atomicOp(fn, t(0), args, st, reach, pos); ok {
			return ret(v...)
		}
	}
	switch key {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		ex.lockOp(fn.Name(), t(0), st, reach, pos)
		return ret()
	case "(http.HandlerFunc).ServeHTTP": // calls the function
		cl := ex.closure[t(0).name]
		if t(0).op != "const" || cl == nil {
			panic(unsupported("handler function of unknown origin"))
		}
		r, s, rr := ex.callFn(fr, cl.fn, append(cl.recvArgs(), args[1:]...), cl.binds, st, reach, pos, "handler")
		return r, s, rr, true
	case "(eventsource.Handler).ServeHTTP": // calls the function at most once
		cl := ex.closure[t(0).name]
		if t(0).op != "const" || cl == nil {
			panic(unsupported("handler function of unknown origin"))
		}
		ex.trusted["eventsource.Handler.ServeHTTP: calls the handler function at most once, with an encoder"] = true
		as := cl.recvArgs()
		for i := 0; i < cl.fn.Signature.Params().Len(); i++ {
			pt := cl.fn.Signature.Params().At(i).Type()
			a := b.Fresh("es", ty.Sort(pt))
			ex.wf(reach, st, a, pt, 0)
			if _, ok := pt.Underlying().(*types.Pointer); ok {
				ex.assume(reach, b.Ne(a, ty.Nil()))
			}
			as = append(as, a)
		}
		called := b.Fresh("acceptable", SBool)
		_, s1, r1 := ex.callFn(fr, cl.fn, as, cl.binds, st.clone(), b.And(reach, called), pos, "events")
		m, rr := ex.merge([]edge{{cond: r1, st: s1}, {cond: b.And(reach, b.Not(called)), st: st.clone()}})
		return nil, m, rr, true
	case "time.Now":
		n := b.Fresh("now", SInt)
		ex.assume(reach, b.And(b.Ge(n, st.get(ex, "now")), b.Gt(n, b.Int(0))))
		st.set("now", n)
		ex.recordScalar("now")
		ex.trusted["time.Now: any instant not before the previous one, never the zero time"] = true
		return ret(n)
	case "time.Since":
		n := b.Fresh("now", SInt)
		ex.assume(reach, b.And(b.Ge(n, st.get(ex, "now")), b.Gt(n, b.Int(0))))
		st.set("now", n)
		ex.recordScalar("now")
		return ret(b.Sub(n, t(0)))
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).Round":
		return ret(t(0))
	case "(time.Time).Sub":
		return ret(b.Sub(t(0), t(1)))
	case "(time.Time).Add":
		return ret(b.Add(t(0), t(1)))
	case "(time.Time).Before":
		return ret(b.Lt(t(0), t(1)))
	case "(time.Time).After":
		return ret(b.Gt(t(0), t(1)))
	case "(time.Time).Equal":
		return ret(b.Eq(t(0), t(1)))
	case "(time.Time).Compare":
		return ret(b.Ite(b.Lt(t(0), t(1)), b.Int(-1), b.Ite(b.Gt(t(0), t(1)), b.Int(1), b.Int(0))))
	case "(time.Time).IsZero":
		return ret(b.Eq(t(0), b.Int(0)))
	case "(time.Duration).Truncate":
		m := t(1)
		return ret(b.Ite(b.Le(m, b.Int(0)), t(0), b.Sub(t(0), ex.quorem(token.REM, t(0), m))))
	case "fmt.Sprintf":
		return ret(ex.sprintf(st, reach, t(0), t(1)))
	case "fmt.Errorf", "errors.New":
		e := b.Fresh("err", SIface)
		ex.assume(reach, b.Ne(e, ty.ZeroSort(SIface)))
		return ret(e)
	case "slices.Clone":
		s := t(0)
		et := fn.Params[0].Type().Underlying().(*types.Slice).Elem()
		r := ex.alloc(st, reach, "clone")
		k := ex.elemKey(et)
		H := st.get(ex, k)
		na := b.Fresh("clone", arrSort(SInt, ty.Sort(et)))
		oa := b.Select(H, ty.SBase(s))
		if complexArr(oa) {
			oa = ex.nameTerm(oa)
		}
		i := b.BoundVar("i", SInt)
		sel := b.Select(na, i)
		ex.assume(reach, b.Forall([]*Term{i}, [][]*Term{{sel}}, b.Implies(b.And(b.Le(b.Int(0), i), b.Lt(i, ty.SLen(s))), b.Eq(sel, b.Select(oa, b.Add(ty.SOff(s), i))))))
		st.set(k, b.Store(H, r, na))
		ex.recordWrite(k, r)
		cp := b.Fresh("clonecap", SInt)
		ex.assume(reach, b.Ge(cp, ty.SLen(s)))
		isnil := b.Eq(ty.SBase(s), ty.Nil())
		return ret(b.Ite(isnil, ty.ZeroSort(SSlice), ty.MkSlice(r, b.Int(0), ty.SLen(s), cp)))
	case "slices.Contains":
		s := t(0)
		et := fn.Params[0].Type().Underlying().(*types.Slice).Elem()
		oa := b.Select(st.get(ex, ex.elemKey(et)), ty.SBase(s))
		i := b.BoundVar("i", SInt)
		in := b.And(b.Le(ty.SOff(s), i), b.Lt(i, b.Add(ty.SOff(s), ty.SLen(s))))
		r := b.Fresh("contains", SBool)
		ex.assume(reach, b.Eq(r, b.Exists([]*Term{i}, b.And(in, b.Eq(b.Select(oa, i), t(1))))))
		return ret(r)
	case "sort.Slice", "sort.SliceStable":
		i := t(0)
		if !boxed(i) || i.op != "app" {
			panic(unsupported("sort.Slice of unknown slice"))
		}
		var sty types.Type
		for _, tt := range ty.tagType {
			if boxName(tt) == i.name {
				sty = tt
			}
		}
		cl := ex.closure[t(1).name]
		if cl == nil {
			panic(unsupported("sort.Slice with unknown less"))
		}
		ex.sortModel(fr, st, reach, i.args[0], sty, func(ns *State, x, y *Term) *Term {
			return ex.pureEval(fr, cl.fn, []Val{x, y}, cl.binds, ns)
		})
		return ret()
	case "sort.Sort", "sort.Stable":
		i := t(0)
		if !boxed(i) || i.op != "app" {
			panic(unsupported("sort.Sort of unknown value"))
		}
		var sty types.Type
		for _, tt := range ty.tagType {
			if boxName(tt) == i.name {
				sty = tt
			}
		}
		if _, ok := sty.Underlying().(*types.Slice); !ok {
			panic(unsupported("sort.Sort of non-slice"))
		}
		less := ex.P.prog.LookupMethod(sty, fn.Pkg.Pkg, "Less")
		ex.sortModel(fr, st, reach, i.args[0], sty, func(ns *State, x, y *Term) *Term {
			return ex.pureEval(fr, less, []Val{i.args[0], x, y}, nil, ns)
		})
		return ret()
	case "slices.SortFunc", "slices.SortStableFunc":
		s := t(0)
		sty := fn.Params[0].Type()
		et := sty.Underlying().(*types.Slice).Elem()
		if _, isStruct := et.Underlying().(*types.Struct); isStruct && ty.Sort(et) != SInt {
			panic(unsupported("slices.SortFunc of structs"))
		}
		cl := ex.closure[t(1).name]
		if cl == nil {
			panic(unsupported("slices.SortFunc with unknown comparison"))
		}
		ex.sortModel(fr, st, reach, s, sty, func(ns *State, x, y *Term) *Term {
			arr := b.Select(ns.get(ex, ex.elemKey(et)), ty.SBase(s))
			p, q := b.Select(arr, b.Add(ty.SOff(s), x)), b.Select(arr, b.Add(ty.SOff(s), y))
			return b.Lt(ex.pureEval(fr, cl.fn, []Val{p, q}, cl.binds, ns), b.Int(0))
		})
		return ret()
	case "cmp.Compare", "strings.Compare":
		p, q := t(0), t(1)
		if p.sort != SInt && p.sort != SStr {
			panic(unsupported("cmp.Compare of %s", p.sort))
		}
		return ret(b.Ite(ex.compare("<", p, q), b.Int(-1), b.Ite(b.Eq(p, q), b.Int(0), b.Int(1))))
	case "cmp.Less":
		return ret(ex.compare("<", t(0), t(1)))
	case "sort.Strings", "sort.Ints", "slices.Sort":
		s := t(0)
		sty := fn.Signature.Params().At(0).Type()
		if len(fn.Params) > 0 {
			sty = fn.Params[0].Type()
		}
		et := sty.Underlying().(*types.Slice).Elem()
		ex.sortModel(fr, st, reach, s, sty, func(ns *State, x, y *Term) *Term {
			arr := b.Select(ns.get(ex, ex.elemKey(et)), ty.SBase(s))
			return ex.compare("<", b.Select(arr, b.Add(ty.SOff(s), x)), b.Select(arr, b.Add(ty.SOff(s), y)))
		})
		return ret()
	case "(*sync.Pool).Get", "(*sync.Pool).Put":
		p := t(0)
		if p.op == "const" && strings.HasPrefix(p.name, "glob@") {
			nm := "pool." + fn.Name() + "." + strings.ReplaceAll(strings.TrimPrefix(p.name, "glob@"), ".", "_")
			if con := ex.P.db.contracts[nm]; con != nil {
				ps, rs := ex.fnTypes(fn)
				r, s, rr := ex.apply(con, args, ps, rs, st, reach, pos, nil)
				return r, s, rr, true
			}
		}
		panic(unsupported("sync.Pool without contract"))
	}
	return nil, nil, nil, false
}

// atomicOp: operations of sync/atomic types on a single cell. Sequentially
// consistent; interference of other goroutines on the cell is not modelled
// (cells of guarded objects are only reached under the guarding mutex).
func (ex *Exec) atomicOp(fn *ssa.Function, r *Term, args []Val, st *State, reach *Term, pos token.Pos) ([]Val, bool) {
	b := ex.b
	pt, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	t := pt.Elem()
	srt := atomicSort(t)
	if srt == "" {
		return nil, false
	}
	ex.nilCheck(reach, r, pos, "atomic operation through nil pointer")
	k := ex.cellKey(t)
	arg := func(i int) *Term {
		x, ok := args[i].(*Term)
		if !ok {
			panic(unsupported("atomic operation with interior pointer"))
		}
		return x
	}
	if r.op == "const" && strings.HasPrefix(r.name, "glob@trcdebug.") {
		// debug counters are not part of any property
		if fn.Signature.Results().Len() == 0 {
			return nil, true
		}
		return []Val{b.Fresh("dbg", ex.ty.Sort(fn.Signature.Results().At(0).Type()))}, true
	}
	cur := b.Select(st.get(ex, k), r)
	put := func(v *Term) {
		st.set(k, b.Store(st.get(ex, k), r, v))
		ex.recordWrite(k, r)
	}
	switch fn.Name() {
	case "Load":
		return []Val{cur}, true
	case "Store":
		if srt == SIface {
			ex.assert(reach, "panic", "atomic_store", nil, pos, "atomic.Value holds values of one type, never nil", b.And(b.Ne(arg(1), ex.ty.ZeroSort(SIface)),
				b.Or(b.Eq(cur, ex.ty.ZeroSort(SIface)), b.Eq(ex.ty.TagOf(cur), ex.ty.TagOf(arg(1))))))
		}
		put(arg(1))
		return nil, true
	case "Swap":
		put(arg(1))
		return []Val{cur}, true
	case "Add":
		n := b.Add(cur, arg(1))
		put(n)
		return []Val{n}, true
	case "CompareAndSwap":
		eq := b.Eq(cur, arg(1))
		put(b.Ite(eq, arg(2), cur))
		return []Val{eq}, true
	}
	return nil, false
}

func (ex *Exec) isfmt(st *State, s, f, args *Term) *Term {
	b, ty := ex.b, ex.ty
	arr := b.Select(st.get(ex, ex.elemKey(types.NewInterfaceType(nil, nil))), ty.SBase(args))
	return b.App("isfmt", SBool, s, f, arr, ty.SOff(args), ty.SLen(args))
}

func (ex *Exec) sprintf(st *State, reach, f, args *Term) *Term {
	b, ty := ex.b, ex.ty
	et := types.NewInterfaceType(nil, nil)
	arr := b.Select(st.get(ex, ex.elemKey(et)), ty.SBase(args))
	// arguments given literally at the call: name them, so that equal argument
	// lists give equal texts wherever they are stored
	if n := ty.SLen(args); n.isInt() && n.ival.IsInt64() && n.ival.Int64() <= 8 {
		as := []*Term{f}
		for i := int64(0); i < n.ival.Int64(); i++ {
			as = append(as, b.Select(arr, b.Add(ty.SOff(args), b.Int(i))))
		}
		return b.App("sprintf!"+n.ival.String(), SStr, as...)
	}
	// one more formatting: some text that formats these arguments as they are now
	s := b.Fresh("text", SStr)
	ex.assume(reach, ex.isfmt(st, s, f, args))
	st.set("fmtn", b.Add(st.get(ex, "fmtn"), b.Int(1)))
	ex.recordScalar("fmtn")
	return s
}

// pureEval evaluates a side-effect free function on possibly bound arguments:
// no obligations or facts are kept.
func (ex *Exec) pureEval(fr *Frame, fn *ssa.Function, args []Val, binds []Val, st *State) *Term {
	nf, no := len(ex.facts), len(ex.obls)
	sa := ex.active
	ex.active = nil
	sp := ex.pure
	ex.pure = true
	defer func() { ex.pure = sp }()
	ns := st.clone()
	r, _, _ := ex.execBody(fn, args, binds, ns, ex.b.True, fr, "pure")
	ex.active = sa
	// keep definitional facts that do not mention bound variables
	keep := ex.facts[:nf:nf]
	for _, f := range ex.facts[nf:] {
		if len(f.fv) == 0 {
			keep = append(keep, f)
		}
	}
	ex.facts = keep
	ex.obls = ex.obls[:no]
	return r[0].(*Term)
}

// sortModel: the slice is permuted in place so that it is sorted by less.
func (ex *Exec) sortModel(fr *Frame, st *State, reach *Term, s *Term, sty types.Type, less func(*State, *Term, *Term) *Term) {
	b, ty := ex.b, ex.ty
	et := sty.Underlying().(*types.Slice).Elem()
	k := ex.elemKey(et)
	H := st.get(ex, k)
	base, off, ln := ty.SBase(s), ty.SOff(s), ty.SLen(s)
	old := b.Select(H, base)
	if complexArr(old) {
		old = ex.nameTerm(old)
	}
	na := b.Fresh("sorted", old.sort)
	pi := b.Fresh("perm", arrSort(SInt, SInt))
	ip := b.Fresh("iperm", arrSort(SInt, SInt))
	hi := b.Add(off, ln)
	in := func(i *Term) *Term { return b.And(b.Le(off, i), b.Lt(i, hi)) }
	i := b.BoundVar("i", SInt)
	sel := b.Select(na, i)
	p := b.Select(pi, i)
	// a permutation of all indices that is the identity outside the slice
	ex.assume(reach, b.Forall([]*Term{i}, [][]*Term{{sel}, {p}}, b.And(
		b.Eq(b.Select(ip, p), i), b.Eq(sel, b.Select(old, p)),
		b.Implies(in(i), in(p)), b.Implies(b.Not(in(i)), b.Eq(p, i)))))
	q := b.Select(ip, i)
	ex.assume(reach, b.Forall([]*Term{i}, [][]*Term{{b.Select(old, i)}, {q}}, b.And(
		b.Eq(b.Select(pi, q), i), b.Eq(b.Select(na, q), b.Select(old, i)),
		b.Implies(in(i), in(q)), b.Implies(b.Not(in(i)), b.Eq(q, i)))))
	ns := st.clone()
	ns.set(k, b.Store(H, base, na))
	x, y := b.BoundVar("x", SInt), b.BoundVar("y", SInt)
	// sorted: no later element is less than an earlier one
	lt := less(ns, b.Sub(y, off), b.Sub(x, off))
	ex.assume(reach, b.Forall([]*Term{x, y}, [][]*Term{{b.Select(na, x), b.Select(na, y)}},
		b.Implies(b.And(b.Le(off, x), b.Lt(x, y), b.Lt(y, hi)), b.Not(lt))))
	if ty.Sort(et) == SInt {
		// integers already in order stay as they are (equal integers are indistinguishable)
		lo := less(st, b.Sub(y, off), b.Sub(x, off))
		was := b.Forall([]*Term{x, y}, nil, b.Implies(b.And(b.Le(off, x), b.Lt(x, y), b.Lt(y, hi)), b.Not(lo)))
		same := b.Fresh("presorted", SBool)
		ex.assume(reach, b.Implies(was, same))
		ex.assume(reach, b.Implies(same, b.And(
			b.Forall([]*Term{i}, [][]*Term{{p}}, b.Eq(p, i)),
			b.Forall([]*Term{i}, [][]*Term{{q}}, b.Eq(q, i)))))
	}
	st.set(k, b.Store(H, base, na))
	ex.recordWrite(k, base)
	ex.trusted["sort: permutes the slice into the order given by less (less assumed a strict weak order)"] = true
}
