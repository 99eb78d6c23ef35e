package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) instr(fr *Frame, ins ssa.Instruction, st *State, reach *Term) *Term {
	b := ex.b
	ty := ex.ty
	set := func(v ssa.Value, x Val) { fr.vals[v] = x }
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		r := ex.alloc(st, reach, "a"+sanitize(x.Comment))
		ex.storeObj(st, r, t, ty.Zero(t))
		set(x, r)
		fr.allocs = append(fr.allocs, x)
	case *ssa.FieldAddr:
		base := ex.val(fr, x.X)
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		if bt, ok := base.(*Term); ok {
			ex.nilCheck(reach, bt, x.Pos(), "field access through nil pointer")
			ex.checkOwned(reach, st, bt, x.Pos())
		}
		set(x, ex.fieldAddr(base, pt, x.Field))
	case *ssa.Field:
		set(x, ty.FieldOf(x.X.Type(), x.Field, ex.tval(fr, x.X)))
	case *ssa.IndexAddr:
		i := ex.intIdx(ex.tval(fr, x.Index))
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := ex.tval(fr, x.X)
			ex.bounds(reach, i, ty.SLen(s), x.Pos())
			ex.checkOwner(reach, st, s, x.Pos())
			set(x, &Addr{key: ex.elemKey(u.Elem()), ref: ty.SBase(s), idx: b.Add(ty.SOff(s), i), t: u.Elem(), root: u.Elem()})
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			ex.bounds(reach, i, b.Int(at.Len()), x.Pos())
			r := ex.tval(fr, x.X)
			set(x, &Addr{key: ex.elemKey(at.Elem()), ref: r, idx: i, t: at.Elem(), root: at.Elem()})
		default:
			panic(unsupported("IndexAddr on %s", x.X.Type()))
		}
	case *ssa.Index:
		i := ex.intIdx(ex.tval(fr, x.Index))
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			ex.bounds(reach, i, b.Int(u.Len()), x.Pos())
			set(x, b.Select(ex.tval(fr, x.X), i))
		default: // string
			s := ex.tval(fr, x.X)
			ex.bounds(reach, i, ex.strlen(s), x.Pos())
			set(x, b.App("strat", SBV8, s, i))
		}
	case *ssa.Lookup:
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			m := ex.tval(fr, x.X)
			k := ex.tval(fr, x.Index)
			ex.checkOwner(reach, st, m, x.Pos())
			has := ex.mapHas(st, m, x.X.Type(), k)
			v := b.Ite(has, ex.mapGet(st, m, x.X.Type(), k), ty.Zero(mt.Elem()))
			ex.wf(b.And(reach, has), st, ex.mapGet(st, m, x.X.Type(), k), mt.Elem(), 0)
			ex.tagOwned(v, m, x.X.Type())
			if x.CommaOk {
				set(x, Tuple{v, has})
			} else {
				set(x, v)
			}
			break
		}
		s := ex.tval(fr, x.X)
		set(x, b.App("strat", SBV8, s, ex.tval(fr, x.Index)))
	case *ssa.UnOp:
		return ex.unop(fr, x, st, reach)
	case *ssa.BinOp:
		set(x, ex.binop(x.Op, ex.tval(fr, x.X), ex.tval(fr, x.Y), x.X.Type(), reach, x.Pos(), x))
	case *ssa.Convert:
		set(x, ex.convert(ex.tval(fr, x.X), x.X.Type(), x.Type(), st, reach, x.Pos()))
	case *ssa.MultiConvert:
		set(x, ex.convert(ex.tval(fr, x.X), x.X.Type(), x.Type(), st, reach, x.Pos()))
	case *ssa.ChangeType:
		v := ex.val(fr, x.X)
		if t, ok := v.(*Term); ok && isStructT(x.Type()) && isStructT(x.X.Type()) && tstr(x.Type()) != tstr(x.X.Type()) {
			si := ty.Struct(x.X.Type())
			var vs []*Term
			for i := range si.fields {
				vs = append(vs, ty.FieldOf(x.X.Type(), i, t))
			}
			v = ty.StructVal(x.Type(), vs)
		}
		set(x, v)
	case *ssa.ChangeInterface:
		set(x, ex.val(fr, x.X))
	case *ssa.MakeInterface:
		v := ex.val(fr, x.X)
		t, ok := v.(*Term)
		if !ok {
			panic(unsupported("interior pointer boxed into interface"))
		}
		set(x, ty.Box(x.X.Type(), t))
	case *ssa.TypeAssert:
		i := ex.tval(fr, x.X)
		var ok *Term
		var v *Term
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = ty.Implements(x.AssertedType, i)
			v = b.Ite(ok, i, ty.Zero(x.AssertedType))
		} else {
			ok = b.Eq(ty.TagOf(i), ty.Tag(x.AssertedType))
			u := ty.Unbox(x.AssertedType, i)
			ex.wf(b.And(reach, ok), st, u, x.AssertedType, 0)
			v = b.Ite(ok, u, ty.Zero(x.AssertedType))
		}
		if x.CommaOk {
			set(x, Tuple{v, ok})
		} else {
			ex.assert(reach, "panic", "type_assert", nil, x.Pos(), "type assertion to "+tstr(x.AssertedType)+" succeeds", ok)
			if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				v = i
			} else {
				v = ty.Unbox(x.AssertedType, i)
			}
			set(x, v)
		}
	case *ssa.MakeSlice:
		n, c := ex.tval(fr, x.Len), ex.tval(fr, x.Cap)
		ex.assert(reach, "panic", "make_len", nil, x.Pos(), "make: length is within range", b.And(b.Ge(n, b.Int(0)), b.Le(n, c)))
		et := x.Type().Underlying().(*types.Slice).Elem()
		set(x, ex.mkSlice(st, reach, et, n, c))
	case *ssa.MakeMap:
		set(x, ex.newMap(st, reach, x.Type()))
	case *ssa.MakeChan:
		ex.assert(reach, "panic", "make_chan", nil, x.Pos(), "make: channel size is not negative", b.Ge(ex.tval(fr, x.Size), b.Int(0)))
		r := ex.alloc(st, reach, "chan")
		ex.assume(reach, b.Eq(b.App("chancap", SInt, r), ex.tval(fr, x.Size)))
		ex.chans = append(ex.chans, r)
		for _, g := range []string{"$nsent", "$nrecv"} {
			k := ex.ghostKey(g, SRef, SInt)
			st.set(k, b.Store(st.get(ex, k), r, b.Int(0)))
			ex.recordWrite(k, r)
		}
		set(x, r)
	case *ssa.MakeClosure:
		var bs []Val
		for _, v := range x.Bindings {
			bs = append(bs, ex.val(fr, v))
		}
		fn := x.Fn.(*ssa.Function)
		t := b.Fresh("clo@"+fn.Name(), SFunc)
		ex.closure[t.name] = &Closure{fn: fn, binds: bs}
		ex.facts = append(ex.facts, b.Ne(t, ty.ZeroSort(SFunc)))
		set(x, t)
	case *ssa.Slice:
		set(x, ex.slice(fr, x, st, reach))
	case *ssa.Extract:
		v := ex.val(fr, x.Tuple)
		tp, ok := v.(Tuple)
		if !ok {
			panic(unsupported("extract from %T", v))
		}
		set(x, tp[x.Index])
	case *ssa.Call:
		res, ns, nr := ex.call(fr, x, st, reach)
		*st = *ns
		if x.Call.Signature().Results().Len() == 1 {
			set(x, res[0])
		} else {
			set(x, Tuple(res))
		}
		return nr
	case *ssa.Defer:
		d := &deferred{guard: reach, call: &x.Call, pos: x.Pos()}
		if !x.Call.IsInvoke() {
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				d.fnv = ex.val(fr, x.Call.Value)
			}
		} else {
			d.fnv = ex.val(fr, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, ex.val(fr, a))
		}
		for _, l := range findLoops(fr.fn) {
			if l.blocks[x.Block()] {
				d.inLoop = true
			}
		}
		fr.defers = append(fr.defers, d)
	case *ssa.Store:
		ex.store(fr, x, st, reach)
	case *ssa.MapUpdate:
		m := ex.tval(fr, x.Map)
		ex.assert(reach, "panic", "nil_map_write", nil, x.Pos(), "write to a non-nil map", b.Ne(m, ty.Nil()))
		ex.checkOwnerMode(reach, st, m, x.Pos(), 2)
		ex.mapStore(st, m, x.Map.Type(), ex.tval(fr, x.Key), ex.tval(fr, x.Value))
	case *ssa.Range:
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			panic(unsupported("range over %s", x.X.Type()))
		}
		ex.rangeMap(fr, x, mt, st, reach)
	case *ssa.Next:
		ex.nextMap(fr, x, st, reach)
	case *ssa.Send:
		ch := ex.tval(fr, x.Chan)
		ex.blocking("send on a channel", st, reach, x.Pos())
		ex.mayBeSent(reach, st, ex.tval(fr, x.X), x.X.Type(), x.Pos())
		ex.sendOn(st, ch, ex.tval(fr, x.X), b.True)
		ex.message("sent", reach, st, ch, ex.tval(fr, x.X), x.X.Type(), b.True)
	case *ssa.Select:
		ex.selectStmt(fr, x, st, reach)
	case *ssa.Go:
		if ex.con != nil && ex.con.opts["allowgo"] {
			ex.spawn(fr, x, st, reach)
			break
		}
		panic(unsupported("go statement"))
	default:
		panic(unsupported("instruction %T", ins))
	}
	return reach
}

func (ex *Exec) intIdx(i *Term) *Term {
	if i.sort == SBV8 {
		return ex.b.Op("bv2nat", SInt, i)
	}
	return i
}

func (ex *Exec) nilCheck(reach, r *Term, p token.Pos, what string) {
	if isFreshRef(r) || r.op == "const" && strings.HasPrefix(r.name, "glob@") || r.op == "app" && strings.HasPrefix(r.name, "emb@") {
		return
	}
	ne := ex.b.Ne(r, ex.ty.Nil())
	if ex.con != nil && ex.con.opts["nonil"] {
		ex.assume(reach, ne)
		return
	}
	k := fmt.Sprintf("nn%d|%d", reach.id, r.id)
	if ex.cfacts[k] {
		return
	}
	ex.cfacts[k] = true
	ex.assert(reach, "nil", "non_nil", nil, p, what, ne)
}

func (ex *Exec) bounds(reach, i, n *Term, p token.Pos) {
	ex.assert(reach, "bounds", "index_in_range", nil, p, "index within bounds", ex.b.And(ex.b.Ge(i, ex.b.Int(0)), ex.b.Lt(i, n)))
}

func (ex *Exec) checkOwner(reach *Term, st *State, s *Term, p token.Pos) {
	ex.checkOwnerMode(reach, st, s, p, 1)
}

func (ex *Exec) checkOwnerMode(reach *Term, st *State, s *Term, p token.Pos, mode int64) {
	o, ok := ex.owners[s]
	if !ok {
		return
	}
	mu := ex.mutexRef(o.ref, o.t, o.mon)
	okc := ex.b.Or(ex.b.Ge(ex.b.Select(st.get(ex, "held"), mu), ex.b.Int(mode)), ex.b.Ge(ex.age(o.ref), ex.b.Const("ctr0", SInt)))
	ex.assert(reach, "lock", "guarded_elems_"+o.fld, o.mon.props, p, "elements of "+o.mon.typ+"."+o.fld+" accessed only with "+o.mon.mutex+" held", okc)
}

// tagOwned remembers that v was read from a guarded map m whose values belong
// to the monitored object.
func (ex *Exec) tagOwned(v, m *Term, mt types.Type) {
	o, ok := ex.owners[m]
	if !ok || v.sort != SRef {
		return
	}
	pt, ok := mt.Underlying().(*types.Map).Elem().Underlying().(*types.Pointer)
	if !ok {
		return
	}
	for _, n := range o.mon.owns {
		if n == tstr(pt.Elem()) {
			ex.owned[v] = ownedInfo{o, m, mt}
		}
	}
}

// checkOwned: such a value is used only with the lock held, or when it is no
// longer in the map (and so nobody else can reach it).
func (ex *Exec) checkOwned(reach *Term, st *State, v *Term, p token.Pos) {
	o, ok := ex.owned[v]
	if !ok {
		return
	}
	b := ex.b
	mu := ex.mutexRef(o.ref, o.t, o.mon)
	kt := o.mt.Underlying().(*types.Map).Key()
	k := b.Fresh("k", ex.ty.Sort(kt))
	gone := b.Not(b.And(ex.mapHas(st, o.m, o.mt, k), b.Eq(ex.mapGet(st, o.m, o.mt, k), v)))
	ex.assert(reach, "lock", "owned_"+o.fld, o.mon.props, p, "objects in "+o.mon.typ+"."+o.fld+" used only with "+o.mon.mutex+" held", b.Or(b.Ge(b.Select(st.get(ex, "held"), mu), b.Int(1)), gone))
}

func (ex *Exec) mkSlice(st *State, reach *Term, et types.Type, n, c *Term) *Term {
	b := ex.b
	r := ex.alloc(st, reach, "sl")
	k := ex.elemKey(et)
	st.set(k, b.Store(st.get(ex, k), r, b.ConstArr(arrSort(SInt, ex.ty.Sort(et)), ex.ty.Zero(et))))
	ex.recordWrite(k, r)
	return ex.ty.MkSlice(r, b.Int(0), n, c)
}

func (ex *Exec) unop(fr *Frame, x *ssa.UnOp, st *State, reach *Term) *Term {
	b := ex.b
	switch x.Op {
	case token.MUL:
		p := ex.val(fr, x.X)
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		fr.vals[x] = ex.load(fr, p, t, st, reach, x.Pos(), x.X)
	case token.NOT:
		fr.vals[x] = b.Not(ex.tval(fr, x.X))
	case token.SUB:
		v := ex.tval(fr, x.X)
		if v.sort == SFlt {
			fr.vals[x] = b.App("flt.neg", SFlt, v)
		} else {
			fr.vals[x] = b.Neg(v)
		}
	case token.XOR:
		v := ex.tval(fr, x.X)
		if v.sort == SBV8 {
			fr.vals[x] = b.Op("bvnot", SBV8, v)
		} else {
			fr.vals[x] = b.App("int.not", SInt, v)
		}
	case token.ARROW:
		ex.blocking("receive from a channel", st, reach, x.Pos())
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		v := b.Fresh("recv", ex.ty.Sort(et))
		ws := st
		if ex.conOpt("prophecy") {
			// what other goroutines made meanwhile is treated as having existed from the start
			ws = ex.entry
			ex.trusted["messages of other goroutines refer to none of the objects this function made"] = true
		}
		ex.wf(reach, ws, v, et, 0)
		ex.message("recv", reach, st, ex.tval(fr, x.X), v, et, b.True)
		ex.lastMessage(st, v, b.True)
		if ex.con != nil {
			for _, c := range ex.con.clauses {
				if c.kind == "received" {
					ex.trusted["assumed of messages received by "+ex.con.name+": "+c.text] = true
					ex.assume(reach, ex.Bool(&Env{ex: ex, names: map[string]SV{"msg": {v: v, t: et}}, st: st, old: ex.entry, ctr0: b.Const("ctr0", SInt), up: ex.rootEnv}, c.e))
				}
			}
		}
		if x.CommaOk {
			fr.vals[x] = Tuple{v, b.Fresh("recvok", SBool)}
		} else {
			fr.vals[x] = v
		}
	default:
		panic(unsupported("unary %s", x.Op))
	}
	return reach
}

func (ex *Exec) load(fr *Frame, p Val, t types.Type, st *State, reach *Term, pos token.Pos, src ssa.Value) Val {
	if a, ok := p.(*Addr); ok {
		ex.guardAddr(reach, st, a, src, fr, false, pos)
		v := ex.loadRaw(st, a)
		ex.wf(reach, st, v, t, 0)
		ex.tagOwner(v, src, fr)
		return v
	}
	r := p.(*Term)
	ex.nilCheck(reach, r, pos, "load through nil pointer")
	if isObj(t) {
		if isStructT(t) {
			ex.guardObj(reach, st, r, t, false, pos)
		}
		v := ex.loadObj(st, r, t)
		ex.wf(reach, st, v, t, 0)
		return v
	}
	v := ex.loadRaw(st, ex.cellAddr(r, t))
	ex.wf(reach, st, v, t, 0)
	return v
}

func (ex *Exec) guardObj(reach *Term, st *State, r *Term, t types.Type, write bool, pos token.Pos) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		ex.discipline(reach, st, r, t, s.Field(i).Name(), write, pos)
	}
}

func (ex *Exec) guardAddr(reach *Term, st *State, a *Addr, src ssa.Value, fr *Frame, write bool, pos token.Pos) {
	fa, ok := src.(*ssa.FieldAddr)
	if !ok {
		return
	}
	base, ok := ex.val(fr, fa.X).(*Term)
	if !ok {
		return
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	ex.discipline(reach, st, base, t, t.Underlying().(*types.Struct).Field(fa.Field).Name(), write, pos)
}

// tagOwner remembers that a slice or map was read from a guarded field.
func (ex *Exec) tagOwner(v *Term, src ssa.Value, fr *Frame) {
	fa, ok := src.(*ssa.FieldAddr)
	if !ok || v.sort != SSlice && v.sort != SRef {
		return
	}
	base, ok := ex.val(fr, fa.X).(*Term)
	if !ok {
		return
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	m := ex.P.monitorOf(t)
	f := t.Underlying().(*types.Struct).Field(fa.Field).Name()
	if m != nil && m.guards[f+"[*]"] && v.op != "ctor" {
		ex.owners[v] = ownerInfo{base, m, t, f}
	}
}

func (ex *Exec) store(fr *Frame, x *ssa.Store, st *State, reach *Term) {
	p := ex.val(fr, x.Addr)
	t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
	v := ex.val(fr, x.Val)
	if a, ok := p.(*Addr); ok {
		ex.guardAddr(reach, st, a, x.Addr, fr, true, x.Pos())
		ex.storeRaw(st, a, ex.tval(fr, x.Val))
		return
	}
	r := p.(*Term)
	ex.nilCheck(reach, r, x.Pos(), "store through nil pointer")
	if isObj(t) {
		if isStructT(t) {
			ex.guardObj(reach, st, r, t, true, x.Pos())
		}
		ex.storeObj(st, r, t, ex.tval(fr, x.Val))
		return
	}
	tv, ok := v.(*Term)
	if !ok {
		panic(unsupported("store of %T", v))
	}
	ex.storeRaw(st, ex.cellAddr(r, t), tv)
}

func (ex *Exec) binop(op token.Token, x, y *Term, t types.Type, reach *Term, p token.Pos, bo *ssa.BinOp) *Term {
	b := ex.b
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if x.sort == SSlice {
			if x.op == "ctor" {
				x, y = y, x
			}
			r = b.Eq(ex.ty.SBase(x), ex.ty.Nil())
		} else {
			if x.sort != y.sort {
				if x.sort == SIface {
					y = ex.ty.Box(bo.Y.Type(), y)
				} else if y.sort == SIface {
					x = ex.ty.Box(bo.X.Type(), x)
				}
			}
			r = b.Eq(x, y)
		}
		if op == token.NEQ {
			r = b.Not(r)
		}
		return r
	case token.LSS:
		return ex.compare("<", x, y)
	case token.LEQ:
		return ex.compare("<=", x, y)
	case token.GTR:
		return ex.compare(">", x, y)
	case token.GEQ:
		return ex.compare(">=", x, y)
	}
	switch x.sort {
	case SStr:
		if op == token.ADD {
			return ex.cat(x, y)
		}
	case SFlt:
		nm := map[token.Token]string{token.ADD: "flt.add", token.SUB: "flt.sub", token.MUL: "flt.mul", token.QUO: "flt.div"}[op]
		if nm != "" {
			return b.App(nm, SFlt, x, y)
		}
	case SBV8:
		nm := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor"}[op]
		if nm != "" {
			return b.Op(nm, SBV8, x, y)
		}
		if op == token.AND_NOT {
			return b.Op("bvand", SBV8, x, b.Op("bvnot", SBV8, y))
		}
	case SInt:
		switch op {
		case token.ADD:
			return b.Add(x, y)
		case token.SUB:
			return b.Sub(x, y)
		case token.MUL:
			return b.Mul(x, y)
		case token.QUO, token.REM:
			if !y.isInt() {
				ex.assert(reach, "panic", "div_by_zero", nil, p, "divisor is not zero", b.Ne(y, b.Int(0)))
			}
			return ex.quorem(op, x, y)
		case token.SHL:
			if y.isInt() && y.ival.IsInt64() && y.ival.Int64() < 62 {
				return b.Mul(x, b.Int(1<<y.ival.Int64()))
			}
		}
		return b.App("int."+op.String(), SInt, x, y)
	case SBool:
		switch op {
		case token.AND, token.LAND:
			return b.And(x, y)
		case token.OR, token.LOR:
			return b.Or(x, y)
		}
	}
	panic(unsupported("binary %s on %s", op, x.sort))
}

func (ex *Exec) quorem(op token.Token, x, y *Term) *Term {
	b := ex.b
	q := func(p, q *Term) *Term { return b.Op("div", SInt, p, q) }
	var quo *Term
	if y.isInt() && y.ival.Sign() > 0 {
		quo = b.Ite(b.Ge(x, b.Int(0)), q(x, y), b.Neg(q(b.Neg(x), y)))
	} else {
		ay := b.Ite(b.Ge(y, b.Int(0)), y, b.Neg(y))
		ax := b.Ite(b.Ge(x, b.Int(0)), x, b.Neg(x))
		pos := b.Eq(b.Ge(x, b.Int(0)), b.Ge(y, b.Int(0)))
		quo = b.Ite(pos, q(ax, ay), b.Neg(q(ax, ay)))
	}
	if op == token.QUO {
		return quo
	}
	rem := b.Sub(x, b.Mul(quo, y))
	if y.isInt() {
		return rem
	}
	// the common cases, which need no multiplication
	small := b.And(b.Lt(x, y), b.Lt(b.Neg(y), x))
	once := b.And(b.Le(y, x), b.Lt(x, b.Add(y, y)))
	return b.Ite(small, x, b.Ite(once, b.Sub(x, y), rem))
}

func (ex *Exec) convert(v *Term, from, to types.Type, st *State, reach *Term, p token.Pos) *Term {
	b := ex.b
	fs, ts := v.sort, ex.ty.Sort(to)
	if fs == ts {
		if fs == SInt {
			if lo, hi, ok := narrow(from, to); ok && !v.isInt() {
				ex.assert(reach, "overflow", "conversion_in_range", nil, p, "integer conversion "+tstr(from)+" to "+tstr(to)+" does not change the value", b.And(b.Ge(v, b.Int(lo)), b.Le(v, b.Int(hi))))
			}
		}
		if fs == SSlice { // e.g. named slices
			return v
		}
		return v
	}
	switch {
	case fs == SInt && ts == SFlt:
		if v.isInt() {
			return b.Const("flt@"+v.ival.String(), SFlt)
		}
		return b.App("flt.ofint", SFlt, v)
	case fs == SFlt && ts == SInt:
		return b.App("flt.toint", SInt, v)
	case fs == SBV8 && ts == SInt:
		return b.Op("bv2nat", SInt, v)
	case fs == SInt && ts == SBV8:
		if v.isInt() {
			return b.BV8(v.ival.Int64())
		}
		return b.App("int.tobv8", SBV8, v)
	case fs == SSlice && ts == SStr: // []byte -> string
		et := from.Underlying().(*types.Slice).Elem()
		arr := b.Select(st.get(ex, ex.elemKey(et)), ex.ty.SBase(v))
		return b.App("str.ofbytes", SStr, arr, ex.ty.SOff(v), ex.ty.SLen(v))
	case fs == SStr && ts == SSlice:
		et := to.Underlying().(*types.Slice).Elem()
		n := ex.strlen(v)
		r := ex.alloc(st, reach, "bytes")
		k := ex.elemKey(et)
		st.set(k, b.Store(st.get(ex, k), r, b.App("str.bytes@"+tstr(et), arrSort(SInt, ex.ty.Sort(et)), v)))
		ex.recordWrite(k, r)
		ex.assume(reach, b.Ge(n, b.Int(0)))
		return ex.ty.MkSlice(r, b.Int(0), n, n)
	case fs == SInt && ts == SStr:
		return b.App("str.ofrune", SStr, v)
	}
	panic(unsupported("conversion %s to %s", from, to))
}

func narrow(from, to types.Type) (lo, hi int64, ok bool) {
	f, ok1 := from.Underlying().(*types.Basic)
	t, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return 0, 0, false
	}
	size := func(k types.BasicKind) int {
		switch k {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		}
		return 64
	}
	fu, tu := f.Info()&types.IsUnsigned != 0, t.Info()&types.IsUnsigned != 0
	fsz, tsz := size(f.Kind()), size(t.Kind())
	if tsz == 64 {
		return 0, 0, false
	}
	if fsz < tsz || fsz == tsz && fu == tu {
		return 0, 0, false
	}
	if tu {
		return 0, 1<<tsz - 1, true
	}
	return -(1 << (tsz - 1)), 1<<(tsz-1) - 1, true
}

func (ex *Exec) slice(fr *Frame, x *ssa.Slice, st *State, reach *Term) Val {
	b, ty := ex.b, ex.ty
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return ex.tval(fr, v)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := ex.tval(fr, x.X)
		lo := opt(x.Low, b.Int(0))
		hi := opt(x.High, ty.SLen(s))
		mx := opt(x.Max, ty.SCap(s))
		ex.assert(reach, "bounds", "slice_in_range", nil, x.Pos(), "slice bounds within capacity",
			b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, mx), b.Le(mx, ty.SCap(s))))
		r := ty.MkSlice(ty.SBase(s), b.Add(ty.SOff(s), lo), b.Sub(hi, lo), b.Sub(mx, lo))
		if o, ok := ex.owners[s]; ok {
			ex.owners[r] = o
		}
		return r
	case *types.Pointer: // array
		at := u.Elem().Underlying().(*types.Array)
		r := ex.tval(fr, x.X)
		n := b.Int(at.Len())
		lo := opt(x.Low, b.Int(0))
		hi := opt(x.High, n)
		mx := opt(x.Max, n)
		ex.assert(reach, "bounds", "slice_in_range", nil, x.Pos(), "slice bounds within array",
			b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, mx), b.Le(mx, n)))
		return ty.MkSlice(r, lo, b.Sub(hi, lo), b.Sub(mx, lo))
	case *types.Basic: // string
		s := ex.tval(fr, x.X)
		n := ex.strlen(s)
		lo := opt(x.Low, b.Int(0))
		hi := opt(x.High, n)
		ex.assume(reach, b.Ge(n, b.Int(0)))
		ex.assert(reach, "bounds", "slice_in_range", nil, x.Pos(), "string slice bounds", b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, n)))
		r := b.App("substr", SStr, s, lo, hi)
		ex.assume(reach, b.Eq(ex.strlen(r), b.Sub(hi, lo)))
		return r
	}
	panic(unsupported("slice of %s", x.X.Type()))
}

// appendSlice models append(s, t...) where tarr[toff..toff+tlen) are the new elements.
func (ex *Exec) appendSlice(st *State, reach *Term, et types.Type, s, tarr, toff, tlen *Term, knownN int, vals []*Term) *Term {
	b, ty := ex.b, ex.ty
	k := ex.elemKey(et)
	H := st.get(ex, k)
	base, off, ln, cp := ty.SBase(s), ty.SOff(s), ty.SLen(s), ty.SCap(s)
	nl := b.Add(ln, tlen)
	fits := b.Le(nl, cp)
	aSort := arrSort(SInt, ty.Sort(et))
	old := b.Select(H, base)
	// in-place variant
	var inpl *Term
	if knownN >= 0 {
		inpl = old
		for i, v := range vals {
			inpl = b.Store(inpl, b.Add(b.Add(off, ln), b.Int(int64(i))), v)
		}
	} else {
		inpl = b.Fresh("apin", aSort)
		i := b.BoundVar("i", SInt)
		st0 := b.Add(off, ln)
		sel := b.Select(inpl, i)
		so := old
		if complexArr(so) {
			so = ex.nameTerm(so)
		}
		ta := tarr
		if complexArr(ta) {
			ta = ex.nameTerm(ta)
		}
		ex.assume(reach, b.Forall([]*Term{i}, [][]*Term{{sel}}, b.Eq(sel, b.Ite(b.And(b.Le(st0, i), b.Lt(i, b.Add(st0, tlen))), b.Select(ta, b.Add(toff, b.Sub(i, st0))), b.Select(so, i)))))
		// the same, usable from the old arrays
		ex.assume(reach, b.Forall([]*Term{i}, [][]*Term{{b.Select(so, i)}}, b.Implies(b.Or(b.Lt(i, st0), b.Ge(i, b.Add(st0, tlen))), b.Eq(sel, b.Select(so, i)))))
		ex.assume(reach, b.Forall([]*Term{i}, [][]*Term{{b.Select(ta, i)}}, b.Implies(b.And(b.Le(toff, i), b.Lt(i, b.Add(toff, tlen))), b.Eq(b.Select(inpl, b.Add(st0, b.Sub(i, toff))), b.Select(ta, i)))))
	}
	// fresh variant
	nb := ex.alloc(st, reach, "ap")
	ncap := b.Fresh("apcap", SInt)
	ex.assume(reach, b.Ge(ncap, nl))
	var fr *Term
	if ln.isInt() && ln.ival.IsInt64() && ln.ival.Int64() <= 4 && knownN >= 0 {
		fr = b.ConstArr(aSort, ty.Zero(et))
		for i := int64(0); i < ln.ival.Int64(); i++ {
			fr = b.Store(fr, b.Int(i), b.Select(old, b.Add(off, b.Int(i))))
		}
		for i, v := range vals {
			fr = b.Store(fr, b.Add(ln, b.Int(int64(i))), v)
		}
	} else {
		cpy := b.Fresh("apfr", aSort)
		i := b.BoundVar("i", SInt)
		sel := b.Select(cpy, i)
		so := old
		if complexArr(so) {
			so = ex.nameTerm(so)
		}
		body := b.Implies(b.And(b.Le(b.Int(0), i), b.Lt(i, ln)), b.Eq(sel, b.Select(so, b.Add(off, i))))
		var conj []*Term
		conj = append(conj, body)
		if knownN < 0 {
			ta := tarr
			if complexArr(ta) {
				ta = ex.nameTerm(ta)
			}
			conj = append(conj, b.Implies(b.And(b.Le(ln, i), b.Lt(i, nl)), b.Eq(sel, b.Select(ta, b.Add(toff, b.Sub(i, ln))))))
			ex.assume(reach, b.Forall([]*Term{i}, [][]*Term{{b.Select(ta, i)}}, b.Implies(b.And(b.Le(toff, i), b.Lt(i, b.Add(toff, tlen))), b.Eq(b.Select(cpy, b.Add(ln, b.Sub(i, toff))), b.Select(ta, i)))))
		}
		ex.assume(reach, b.Forall([]*Term{i}, [][]*Term{{b.Select(so, i)}}, b.Implies(b.And(b.Le(off, i), b.Lt(i, b.Add(off, ln))), b.Eq(b.Select(cpy, b.Sub(i, off)), b.Select(so, i)))))
		ex.assume(reach, b.Forall([]*Term{i}, [][]*Term{{sel}}, b.And(conj...)))
		fr = cpy
		if knownN >= 0 {
			for j, v := range vals {
				fr = b.Store(fr, b.Add(ln, b.Int(int64(j))), v)
			}
		}
	}
	if fits.isFalse() {
		st.set(k, b.Store(H, nb, fr))
		ex.recordWrite(k, nb)
		return ty.MkSlice(nb, b.Int(0), nl, ncap)
	}
	if fits.isTrue() {
		st.set(k, b.Store(H, base, inpl))
		ex.recordWrite(k, base)
		return ty.MkSlice(base, off, nl, cp)
	}
	// nothing to append: slice returned unchanged (nil stays nil)
	H1 := b.Store(H, base, inpl)
	H2 := b.Store(H, nb, fr)
	st.set(k, b.Ite(fits, H1, H2))
	ex.recordWrite(k, base)
	ex.recordWrite(k, nb)
	return ty.MkSlice(b.Ite(fits, base, nb), b.Ite(fits, off, b.Int(0)), nl, b.Ite(fits, cp, ncap))
}

func (ex *Exec) rangeMap(fr *Frame, x *ssa.Range, mt *types.Map, st *State, reach *Term) {
	b := ex.b
	m := ex.tval(fr, x.X)
	ks := ex.ty.Sort(mt.Key())
	r := ex.alloc(st, reach, "iter")
	it := &IterInfo{ref: r, m: m, mt: x.X.Type(), kt: mt.Key()}
	it.order = b.Fresh("order", arrSort(SInt, ks))
	it.pos = b.Fresh("pos", arrSort(ks, SInt))
	it.count = ex.mapLen(st, m)
	dom := ex.mapDom(st, m, x.X.Type())
	if complexArr(dom) {
		dom = ex.nameTerm(dom)
	}
	it.dom = dom
	ex.mapLenFacts(reach, st, m, x.X.Type())
	i := b.BoundVar("i", SInt)
	oi := b.Select(it.order, i)
	ex.assume(reach, b.Forall([]*Term{i}, [][]*Term{{oi}}, b.Implies(b.And(b.Le(b.Int(0), i), b.Lt(i, it.count)),
		b.And(b.Select(dom, oi), b.Eq(b.Select(it.pos, oi), i)))))
	k := b.BoundVar("k", ks)
	pk := b.Select(it.pos, k)
	ex.assume(reach, b.Forall([]*Term{k}, [][]*Term{{b.Select(dom, k)}, {pk}}, b.Implies(b.And(b.Ne(m, ex.ty.Nil()), b.Select(dom, k)),
		b.And(b.Le(b.Int(0), pk), b.Lt(pk, it.count), b.Eq(b.Select(it.order, pk), k)))))
	st.set("iter", b.Store(st.get(ex, "iter"), r, b.Int(0)))
	ex.recordWrite("iter", r)
	fr.vals[x] = r
	fr.iters[x] = it
	ex.iters[r] = it
}

func (ex *Exec) nextMap(fr *Frame, x *ssa.Next, st *State, reach *Term) {
	b := ex.b
	r := ex.val(fr, x.Iter).(*Term)
	it := ex.iters[r]
	if it == nil {
		panic(unsupported("range over string"))
	}
	mt := it.mt.Underlying().(*types.Map)
	ex.checkOwner(reach, st, it.m, x.Pos())
	i := b.Select(st.get(ex, "iter"), r)
	ok := b.And(b.Lt(i, it.count), b.Ge(i, b.Int(0)))
	key := b.Select(it.order, i)
	// the key set must not change during the iteration (otherwise the order is unspecified)
	cur := ex.mapDom(st, it.m, it.mt)
	if cur != it.dom && ex.named[cur] != it.dom {
		ex.assert(reach, "maprange", "stable_keys", nil, x.Pos(), "map keys unchanged while ranging over it", b.Eq(cur, it.dom))
	}
	val := ex.mapGet(st, it.m, it.mt, key)
	ex.wf(b.And(reach, ok), st, val, mt.Elem(), 0)
	ex.tagOwned(val, it.m, it.mt)
	ex.wf(b.And(reach, ok), st, key, mt.Key(), 0)
	st.set("iter", b.Store(st.get(ex, "iter"), r, b.Ite(ok, b.Add(i, b.Int(1)), i)))
	ex.recordWrite("iter", r)
	fr.vals[x] = Tuple{ok, key, val}
}

// channel sends are recorded in the ghost sequence $sent of the channel.
func (ex *Exec) sendOn(st *State, ch, v, cond *Term) {
	b := ex.b
	var vi *Term = v
	if v.sort != SIface {
		return
	}
	kn := ex.ghostKey("$nsent", SRef, SInt)
	kv := ex.ghostKey("$sent", SRef, arrSort(SInt, SIface))
	n := b.Select(st.get(ex, kn), ch)
	a := b.Select(st.get(ex, kv), ch)
	st.set(kv, b.Ite(cond, b.Store(st.get(ex, kv), ch, b.Store(a, n, vi)), st.get(ex, kv)))
	st.set(kn, b.Ite(cond, b.Store(st.get(ex, kn), ch, b.Add(n, b.Int(1))), st.get(ex, kn)))
	ex.recordWrite(kn, ch)
	ex.recordWrite(kv, ch)
}

// mayBeSent: the sends clauses of the contract, for an interface value about to
// be sent.
func (ex *Exec) mayBeSent(reach *Term, st *State, v *Term, t types.Type, pos token.Pos) {
	if v.sort != SIface || ex.con == nil {
		return
	}
	for _, c := range ex.con.clauses {
		if c.kind == "sends" {
			env := &Env{ex: ex, names: map[string]SV{"msg": {v: v, t: t}}, st: st, old: ex.entry, ctr0: ex.b.Const("ctr0", SInt), up: ex.rootEnv}
			ex.assert(reach, "sends", c.label, c.props, pos, "of a value sent on a channel: "+c.text, ex.Bool(env, c.e))
		}
	}
}

// lastMessage records the interface value received last, in the ghost variable
// nil.$lastmsg, for contracts that ask for it.
func (ex *Exec) lastMessage(st *State, v, cond *Term) {
	if v.sort != SIface || !ex.conOpt("lastmsg") {
		return
	}
	k := ex.ghostKey("$lastmsg", SRef, SIface)
	h := st.get(ex, k)
	st.set(k, ex.b.Ite(cond, ex.b.Store(h, ex.ty.Nil(), v), h))
	ex.recordWrite(k, ex.ty.Nil())
}

// message records a struct sent on or received from a channel field by field,
// in the ghost sequences $sent_f and $recv_f of the channel.
func (ex *Exec) message(dir string, reach *Term, st *State, ch, v *Term, t types.Type, cond *Term) {
	b := ex.b
	s, ok := t.Underlying().(*types.Struct)
	if !ok || isTime(t) || s.NumFields() == 0 {
		return
	}
	kn := ex.ghostKey("$n"+dir, SRef, SInt)
	n := b.Select(st.get(ex, kn), ch)
	for i := 0; i < s.NumFields(); i++ {
		kf := ex.ghostKey("$"+dir+"_"+s.Field(i).Name(), SRef, arrSort(SInt, ex.ty.Sort(s.Field(i).Type())))
		h := st.get(ex, kf)
		if dir == "recv" && ex.conOpt("prophecy") {
			// the sequence names from the start what will be received
			ex.assume(b.And(reach, cond), b.Eq(b.Select(b.Select(h, ch), n), ex.ty.FieldOf(t, i, v)))
			continue
		}
		st.set(kf, b.Ite(cond, b.Store(h, ch, b.Store(b.Select(h, ch), n, ex.ty.FieldOf(t, i, v))), h))
		ex.recordWrite(kf, ch)
	}
	st.set(kn, b.Ite(cond, b.Store(st.get(ex, kn), ch, b.Add(n, b.Int(1))), st.get(ex, kn)))
	ex.recordWrite(kn, ch)
}

// spawn: a goroutine is started. The ghost sequences $spawn_i of its arguments
// (at the null reference) are extended; its body is verified on its own from
// here, with the spawned clauses as its postcondition.
func (ex *Exec) spawn(fr *Frame, x *ssa.Go, st *State, reach *Term) {
	b := ex.b
	ex.spawned = append(ex.spawned, ex.pos(x.Pos()))
	ft, ok := ex.val(fr, x.Call.Value).(*Term)
	cl := (*Closure)(nil)
	if ok {
		cl = ex.closure[ft.name]
	}
	if cl == nil {
		panic(unsupported("go statement with unknown function"))
	}
	var args []Val
	for _, a := range x.Call.Args {
		args = append(args, ex.val(fr, a))
	}
	nil0 := ex.ty.Nil()
	kn := ex.ghostKey("$nspawn", SRef, SInt)
	n := b.Select(st.get(ex, kn), nil0)
	names := map[string]SV{}
	for i, a := range args {
		t, ok := a.(*Term)
		if !ok {
			continue
		}
		k := ex.ghostKey(fmt.Sprintf("$spawn_%d", i), SRef, arrSort(SInt, t.sort))
		h := st.get(ex, k)
		st.set(k, b.Store(h, nil0, b.Store(b.Select(h, nil0), n, t)))
		ex.recordWrite(k, nil0)
		names[fmt.Sprintf("a%d", i)] = SV{v: t, t: x.Call.Args[i].Type()}
	}
	st.set(kn, b.Store(st.get(ex, kn), nil0, b.Add(n, b.Int(1))))
	ex.recordWrite(kn, nil0)
	before := st.clone()
	sv := ex.active
	ex.active = nil
	_, ns, rr := ex.callFn(fr, cl.fn, append(cl.recvArgs(), args...), cl.binds, st.clone(), reach, x.Pos(), "go"+fmt.Sprint(x.Block().Index))
	ex.active = sv
	env := &Env{ex: ex, names: names, st: ns, old: before, ctr0: before.get(ex, "ctr"), up: ex.rootEnv}
	for _, c := range ex.con.clauses {
		if c.kind == "spawned" {
			ex.assert(rr, "spawned", c.label, c.props, x.Pos(), "when the goroutine ends: "+c.text, ex.Bool(env, c.e))
		}
	}
}

func (ex *Exec) selectStmt(fr *Frame, x *ssa.Select, st *State, reach *Term) {
	b := ex.b
	if x.Blocking {
		ex.blocking("select without default", st, reach, x.Pos())
	}
	idx := b.Fresh("sel", SInt)
	lo := int64(-1)
	if x.Blocking {
		lo = 0
	}
	ex.assume(reach, b.And(b.Ge(idx, b.Int(lo)), b.Lt(idx, b.Int(int64(len(x.States))))))
	res := Tuple{idx, b.Fresh("selok", SBool)}
	for i, s := range x.States {
		ch := ex.tval(fr, s.Chan)
		chosen := b.Eq(idx, b.Int(int64(i)))
		if s.Dir == types.SendOnly {
			ex.mayBeSent(b.And(reach, chosen), st, ex.tval(fr, s.Send), s.Send.Type(), s.Pos)
			ex.sendOn(st, ch, ex.tval(fr, s.Send), chosen)
			if !x.Blocking { // the default case is chosen only if the channel is not ready
				k := ex.ghostKey("$refused", SRef, SInt)
				h := st.get(ex, k)
				st.set(k, b.Ite(b.Eq(idx, b.Int(-1)), b.Store(h, ch, b.Add(b.Select(h, ch), b.Int(1))), h))
				ex.recordWrite(k, ch)
			}
		} else {
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			v := b.Fresh("selrecv", ex.ty.Sort(et))
			ex.wf(reach, st, v, et, 0)
			res = append(res, v)
			ex.lastMessage(st, v, chosen)
			if _, isI := et.Underlying().(*types.Interface); isI && ex.con != nil {
				for _, c := range ex.con.clauses {
					if c.kind == "received" {
						ex.trusted["assumed of messages received by "+ex.con.name+": "+c.text] = true
						ex.assume(b.And(reach, chosen), ex.Bool(&Env{ex: ex, names: map[string]SV{"msg": {v: v, t: et}}, st: st, old: ex.entry, ctr0: b.Const("ctr0", SInt), up: ex.rootEnv}, c.e))
					}
				}
			}
		}
		// a nil channel is never chosen
		ex.assume(reach, b.Implies(chosen, b.Ne(ch, ex.ty.Nil())))
	}
	fr.vals[x] = res
}

var _ = constant.Int
