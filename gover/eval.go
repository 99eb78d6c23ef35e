package main

// Evaluation of contract expressions over symbolic states.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
)

// SV is a specification value.
type SV struct {
	v  Val
	t  types.Type // Go type, or nil for purely mathematical values
	lv bool       // v is the Ref of a struct/array object (an lvalue), t its type
	it *IterInfo  // map iterator metavariables
}

type Env struct {
	ex    *Exec
	names map[string]SV
	st    *State
	old   *State
	pre   *State               // state at loop entry
	enter func() map[string]SV // values of the loop variables at loop entry
	up    *Env
	ctr0  *Term // freshness boundary
	bound int
	pkg   *types.Package
	targ  types.Type // instance of the type parameter T
}

func (e *Env) child() *Env {
	c := *e
	c.names = map[string]SV{}
	c.up = e
	return &c
}

func (e *Env) lookup(n string) (SV, bool) {
	for x := e; x != nil; x = x.up {
		if v, ok := x.names[n]; ok {
			return v, true
		}
	}
	return SV{}, false
}

func (ex *Exec) Bool(env *Env, e *Ex) *Term {
	sv := env.eval(e)
	t := env.term(sv)
	if t.sort != SBool {
		panic(fmt.Sprintf("%s: not a boolean: %s", e.pos, e))
	}
	return t
}

// term converts to a term, loading structs where needed.
func (e *Env) term(v SV) *Term {
	if v.lv {
		return e.ex.loadObj(e.st, v.v.(*Term), v.t)
	}
	switch x := v.v.(type) {
	case *Term:
		return x
	case *Addr:
		return e.ex.addrTerm(x)
	}
	panic(unsupported("spec value is not a term: %T", v.v))
}

func (e *Env) fail(x *Ex, f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s: in %s: %s", x.pos, x, fmt.Sprintf(f, a...))})
}

type specErr struct{ msg string }

func (s specErr) Error() string { return s.msg }

func (e *Env) binderSort(typ string) (string, types.Type) {
	switch typ {
	case "int":
		return SInt, types.Typ[types.Int]
	case "bool":
		return SBool, types.Typ[types.Bool]
	case "string":
		return SStr, types.Typ[types.String]
	case "any":
		return SIface, types.NewInterfaceType(nil, nil)
	case "ref":
		return SRef, nil
	case "slice":
		return SSlice, nil
	case "func":
		return SFunc, nil
	case "flt", "float64":
		return SFlt, types.Typ[types.Float64]
	}
	if strings.HasPrefix(typ, "map[") {
		depth := 0
		for i := 3; i < len(typ); i++ {
			if typ[i] == '[' {
				depth++
			}
			if typ[i] == ']' {
				depth--
				if depth == 0 {
					k, _ := e.binderSort(typ[4:i])
					v, _ := e.binderSort(typ[i+1:])
					return arrSort(k, v), nil
				}
			}
		}
	}
	if typ == "T" { // type parameter of the function under verification
		for x := e; x != nil; x = x.up {
			if x.targ != nil {
				return e.ex.ty.Sort(x.targ), x.targ
			}
		}
		e.ex.ty.useSort("TP@T")
		return "TP@T", nil
	}
	t := e.ex.P.lookupType(typ)
	if t == nil {
		panic(specErr{"unknown type in spec: " + typ})
	}
	return e.ex.ty.Sort(t), t
}

func mathSV(t *Term) SV {
	switch t.sort {
	case SInt:
		return SV{v: t, t: types.Typ[types.Int]}
	case SBool:
		return SV{v: t, t: types.Typ[types.Bool]}
	case SStr:
		return SV{v: t, t: types.Typ[types.String]}
	}
	return SV{v: t}
}

func (e *Env) eval(x *Ex) SV {
	ex := e.ex
	b := ex.b
	switch x.op {
	case "int":
		n, _ := new(big.Int).SetString(x.name, 10)
		return SV{v: b.BigInt(n), t: types.Typ[types.Int]}
	case "str":
		return SV{v: b.Str(x.name), t: types.Typ[types.String]}
	case "ident":
		switch x.name {
		case "true":
			return mathSV(b.True)
		case "false":
			return mathSV(b.False)
		case "nil":
			return SV{v: ex.ty.Nil(), t: types.Typ[types.UntypedNil]}
		}
		if v, ok := e.lookup(x.name); ok {
			return v
		}
		if d, ok := ex.P.db.defs[x.name]; ok && len(d.params) == 0 {
			return e.callDef(x, d, nil)
		}
		e.fail(x, "unknown name %s", x.name)
	case "star":
		v := e.eval(x.args[0])
		if v.t == nil {
			e.fail(x, "deref of untyped")
		}
		pt := v.t.Underlying().(*types.Pointer)
		if isObj(pt.Elem()) {
			return SV{v: e.term(v), t: pt.Elem(), lv: true}
		}
		return SV{v: ex.loadRaw(e.st, ex.cellAddr(v.v, pt.Elem())), t: pt.Elem()}
	case "unary":
		v := e.term(e.eval(x.args[0]))
		if x.name == "!" {
			return mathSV(b.Not(v))
		}
		return mathSV(b.Neg(v))
	case "ite":
		c := e.term(e.eval(x.args[0]))
		p, q := e.eval(x.args[1]), e.eval(x.args[2])
		pt, qt := e.term(p), e.term(q)
		pt, qt = e.coerce(p, pt, q, qt)
		r := SV{v: b.Ite(c, pt, qt), t: p.t}
		return r
	case "binary":
		return e.binary(x)
	case "forall", "exists":
		c := e.child()
		var vs []*Term
		for _, bd := range x.vars {
			s, t := e.binderSort(bd.typ)
			v := b.BoundVar(bd.name, s)
			vs = append(vs, v)
			c.names[bd.name] = SV{v: v, t: t}
		}
		c.bound++
		body := c.term(c.eval(x.args[0]))
		var pats [][]*Term
		for _, ts := range x.trig {
			var p []*Term
			for _, t := range ts {
				p = append(p, c.term(c.eval(t)))
			}
			pats = append(pats, p)
		}
		if x.op == "exists" {
			return mathSV(b.Not(ex.mkForall(vs, pats, b.Not(body))))
		}
		return mathSV(ex.mkForall(vs, pats, body))
	case "field":
		return e.field(x)
	case "index":
		s := e.eval(x.args[0])
		i := e.term(e.eval(x.args[1]))
		return e.index(x, s, i, x.args[1])
	case "call":
		return e.callEx(x)
	}
	e.fail(x, "cannot evaluate op %s", x.op)
	return SV{}
}

func (e *Env) coerce(p SV, pt *Term, q SV, qt *Term) (*Term, *Term) {
	if pt.sort == qt.sort {
		return pt, qt
	}
	ex := e.ex
	nilT := ex.ty.Nil()
	if pt == nilT {
		return ex.ty.ZeroSort(qt.sort), qt
	}
	if qt == nilT {
		return pt, ex.ty.ZeroSort(pt.sort)
	}
	// box concrete to interface
	if pt.sort == SIface && q.t != nil {
		return pt, ex.ty.Box(q.t, qt)
	}
	if qt.sort == SIface && p.t != nil {
		return ex.ty.Box(p.t, pt), qt
	}
	if pt.sort == SBV8 && qt.isInt() {
		return pt, ex.b.BV8(qt.ival.Int64())
	}
	if qt.sort == SBV8 && pt.isInt() {
		return ex.b.BV8(pt.ival.Int64()), qt
	}
	if pt.sort == SFlt && qt.isInt() {
		return pt, ex.b.Const("flt@"+qt.ival.String(), SFlt)
	}
	return pt, qt
}

func (e *Env) binary(x *Ex) SV {
	b := e.ex.b
	switch x.name {
	case "&&":
		return mathSV(b.And(e.term(e.eval(x.args[0])), e.term(e.eval(x.args[1]))))
	case "||":
		return mathSV(b.Or(e.term(e.eval(x.args[0])), e.term(e.eval(x.args[1]))))
	case "==>":
		return mathSV(b.Implies(e.term(e.eval(x.args[0])), e.term(e.eval(x.args[1]))))
	}
	p, q := e.eval(x.args[0]), e.eval(x.args[1])
	if x.name == "in" {
		k := e.term(p)
		return mathSV(e.ex.mapHas(e.st, e.term(q), q.t, k))
	}
	pt, qt := e.term(p), e.term(q)
	pt, qt = e.coerce(p, pt, q, qt)
	switch x.name {
	case "<==>":
		return mathSV(b.Eq(pt, qt))
	case "==":
		if pt.sort == SSlice && (x.args[1].op == "ident" && x.args[1].name == "nil") {
			return mathSV(b.Eq(e.ex.ty.SBase(pt), e.ex.ty.Nil()))
		}
		return mathSV(b.Eq(pt, qt))
	case "!=":
		if pt.sort == SSlice && (x.args[1].op == "ident" && x.args[1].name == "nil") {
			return mathSV(b.Ne(e.ex.ty.SBase(pt), e.ex.ty.Nil()))
		}
		return mathSV(b.Ne(pt, qt))
	case "<", "<=", ">", ">=":
		return mathSV(e.ex.compare(x.name, pt, qt))
	case "+":
		if pt.sort == SStr {
			return mathSV(e.ex.cat(pt, qt))
		}
		if pt.sort == SFlt {
			return SV{v: b.App("flt.add", SFlt, pt, qt), t: p.t}
		}
		r := mathSV(b.Add(pt, qt))
		return r
	case "-":
		return mathSV(b.Sub(pt, qt))
	case "*":
		return mathSV(b.Mul(pt, qt))
	case "/":
		return mathSV(b.Op("div", SInt, pt, qt))
	case "%":
		return mathSV(b.Op("mod", SInt, pt, qt))
	case "&":
		return SV{v: b.Op("bvand", SBV8, pt, qt), t: types.Typ[types.Uint8]}
	case "|":
		return SV{v: b.Op("bvor", SBV8, pt, qt), t: types.Typ[types.Uint8]}
	}
	e.fail(x, "operator %s", x.name)
	return SV{}
}

func (e *Env) field(x *Ex) SV {
	ex := e.ex
	// package-qualified names
	if x.args[0].op == "ident" {
		if _, ok := e.lookup(x.args[0].name); !ok {
			if pkg := ex.P.pkgByName[x.args[0].name]; pkg != nil {
				obj := pkg.Scope().Lookup(x.name)
				switch o := obj.(type) {
				case *types.Const:
					return SV{v: ex.constTerm(o.Val(), o.Type()), t: o.Type()}
				case *types.Var:
					g := ex.globalRef(pkg.Name()+"."+o.Name(), o.Type())
					if isObj(o.Type()) {
						return SV{v: g, t: o.Type(), lv: true}
					}
					return SV{v: ex.loadRaw(e.st, ex.cellAddr(g, o.Type())), t: o.Type()}
				}
				e.fail(x, "unknown package member %s", x.name)
			}
		}
	}
	s := e.eval(x.args[0])
	if s.it != nil {
		switch x.name {
		case "n":
			return mathSV(s.it.count)
		case "i":
			return mathSV(ex.b.Select(e.st.get(ex, "iter"), s.it.ref))
		}
		e.fail(x, "iterator field")
	}
	return e.fieldOf(x, s, x.name)
}

func (e *Env) fieldOf(x *Ex, s SV, name string) SV {
	ex := e.ex
	if strings.HasPrefix(name, "$") {
		g := ex.P.db.ghosts[name]
		if g == nil {
			e.fail(x, "unknown ghost %s", name)
		}
		srt, gt := e.binderSort(g.typ)
		idx := e.term(SV{v: s.v, t: s.t})
		key := ex.ghostKey(name, idx.sort, srt)
		return SV{v: ex.b.Select(e.st.get(ex, key), idx), t: gt}
	}
	if s.t == nil {
		e.fail(x, "field %s of untyped value", name)
	}
	t := s.t
	ptr := s.lv
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok && !s.lv {
		t = p.Elem()
		ptr = true
	}
	obj, path, _ := types.LookupFieldOrMethod(t, true, ex.anyPkg(t), name)
	v, ok := obj.(*types.Var)
	if !ok || v == nil {
		e.fail(x, "no field %s in %s", name, t)
	}
	cur := SV{v: s.v, t: t, lv: ptr}
	for _, i := range path {
		if p, ok := cur.t.Underlying().(*types.Pointer); ok && !cur.lv {
			cur = SV{v: cur.v, t: p.Elem(), lv: true}
		}
		st := cur.t.Underlying().(*types.Struct)
		ft := st.Field(i).Type()
		if cur.lv {
			a := ex.fieldAddr(cur.v, cur.t, i)
			if isObj(ft) {
				if at, ok := a.(*Term); ok {
					cur = SV{v: at, t: ft, lv: true}
				} else {
					cur = SV{v: ex.loadRaw(e.st, a.(*Addr)), t: ft}
				}
			} else {
				cur = SV{v: ex.loadRaw(e.st, a.(*Addr)), t: ft}
			}
		} else {
			cur = SV{v: ex.ty.FieldOf(cur.t, i, e.term(cur)), t: ft}
		}
	}
	return cur
}

func (e *Env) index(x *Ex, s SV, i *Term, ie *Ex) SV {
	ex := e.ex
	if s.t == nil {
		return mathSV(ex.b.Select(e.term(s), i))
	}
	switch u := s.t.Underlying().(type) {
	case *types.Slice:
		sl := e.term(s)
		arr := ex.b.Select(e.st.get(ex, ex.elemKey(u.Elem())), ex.ty.SBase(sl))
		return SV{v: ex.b.Select(arr, ex.b.Add(ex.ty.SOff(sl), i)), t: u.Elem()}
	case *types.Map:
		m := e.term(s)
		return SV{v: ex.mapGet(e.st, m, s.t, i), t: u.Elem()}
	case *types.Array:
		if s.lv {
			arr := ex.b.Select(e.st.get(ex, ex.elemKey(u.Elem())), s.v.(*Term))
			return SV{v: ex.b.Select(arr, i), t: u.Elem()}
		}
		return SV{v: ex.b.Select(e.term(s), i), t: u.Elem()}
	}
	return mathSV(ex.b.Select(e.term(s), i))
}

func (e *Env) callDef(x *Ex, d *Def, args []SV) SV {
	ex := e.ex
	if len(args) != len(d.params) {
		e.fail(x, "wrong argument count for %s", d.name)
	}
	if d.fun {
		var as []*Term
		for i, a := range args {
			t := e.term(a)
			srt, _ := e.binderSort(d.types[i])
			if t.sort != srt {
				if srt == SIface && a.t != nil {
					t = ex.ty.Box(a.t, t)
				} else if t == ex.ty.Nil() {
					t = ex.ty.ZeroSort(srt)
				} else {
					e.fail(x, "argument %d of %s has sort %s, want %s", i, d.name, t.sort, srt)
				}
			}
			as = append(as, t)
		}
		srt, gt := e.binderSort(d.ret)
		ex.useFun(d)
		return SV{v: ex.b.App("fn@"+d.name, srt, as...), t: gt}
	}
	c := e.child()
	// macros see only their parameters (and globals)
	c.up = nil
	for i, p := range d.params {
		a := args[i]
		if i < len(d.types) && d.types[i] != "" && a.t == nil {
			_, a.t = e.binderSort(d.types[i])
		}
		c.names[p] = a
	}
	r := c.eval(d.body)
	if r.lv { // keep as value in this state
		return SV{v: r.v, t: r.t, lv: true}
	}
	return r
}

func (e *Env) callEx(x *Ex) SV {
	ex := e.ex
	b := ex.b
	arg := func(i int) *Term { return e.term(e.eval(x.args[i])) }
	switch x.name {
	case "old":
		c := *e
		if c.old == nil {
			e.fail(x, "old() not available here")
		}
		c.st = e.old
		v := c.eval(x.args[0])
		if v.lv {
			return SV{v: c.term(v), t: v.t}
		}
		return v
	case "relocked": // when a lock was last taken
		c := *e
		if ex.relocked == nil {
			e.fail(x, "relocked(): no lock is taken")
		}
		c.st = ex.relocked
		v := c.eval(x.args[0])
		if v.lv {
			return SV{v: c.term(v), t: v.t}
		}
		return v
	case "enter": // at loop entry, state and loop variables
		c := *e
		if c.pre == nil || c.enter == nil {
			e.fail(x, "enter() not available here")
		}
		c.st = e.pre
		c.names = c.enter()
		c.up = e
		v := c.eval(x.args[0])
		if v.lv {
			return SV{v: c.term(v), t: v.t}
		}
		return v
	case "pre":
		c := *e
		if c.pre == nil {
			e.fail(x, "pre() not available here")
		}
		c.st = e.pre
		v := c.eval(x.args[0])
		if v.lv {
			return SV{v: c.term(v), t: v.t}
		}
		return v
	case "len":
		s := e.eval(x.args[0])
		t := e.term(s)
		switch {
		case t.sort == SSlice:
			return mathSV(ex.ty.SLen(t))
		case t.sort == SStr:
			return mathSV(ex.strlen(t))
		case t.sort == SRef:
			return mathSV(ex.mapLen(e.st, t))
		}
		e.fail(x, "len of %s", t.sort)
	case "cap":
		t := arg(0)
		if t.sort == SRef {
			return mathSV(b.App("chancap", SInt, t))
		}
		return mathSV(ex.ty.SCap(t))
	case "base":
		return SV{v: ex.ty.SBase(arg(0))}
	case "off":
		return mathSV(ex.ty.SOff(arg(0)))
	case "elems": // raw element array of a slice: map[int]E
		s := e.eval(x.args[0])
		return SV{v: b.Select(e.st.get(ex, ex.elemKey(s.t.Underlying().(*types.Slice).Elem())), ex.ty.SBase(e.term(s)))}
	case "fresh":
		t := e.refOf(e.eval(x.args[0]))
		return mathSV(b.And(b.Ne(t, ex.ty.Nil()), b.Ge(ex.age(t), e.ctr0)))
	case "freshornil":
		t := e.refOf(e.eval(x.args[0]))
		return mathSV(b.Or(b.Eq(t, ex.ty.Nil()), b.Ge(ex.age(t), e.ctr0)))
	case "allocated":
		t := e.refOf(e.eval(x.args[0]))
		return mathSV(b.Lt(ex.age(t), e.st.get(ex, "ctr")))
	case "age":
		return mathSV(ex.age(e.refOf(e.eval(x.args[0]))))
	case "istype":
		t := e.typeArg(x.args[1])
		return mathSV(b.Eq(ex.ty.TagOf(arg(0)), ex.ty.Tag(t)))
	case "implements":
		t := e.typeArg(x.args[1])
		return mathSV(ex.ty.Implements(t, arg(0)))
	case "as":
		t := e.typeArg(x.args[1])
		return SV{v: ex.ty.Unbox(t, arg(0)), t: t}
	case "box":
		v := e.eval(x.args[0])
		return SV{v: ex.ty.Box(v.t, e.term(v)), t: types.NewInterfaceType(nil, nil)}
	case "monitorinv":
		v := e.eval(x.args[0])
		pt := v.t.Underlying().(*types.Pointer).Elem()
		m := ex.P.monitorOf(pt)
		if m == nil {
			e.fail(x, "no monitor for %s", pt)
		}
		var cs []*Term
		for _, c := range m.invs {
			cs = append(cs, ex.monInv(e, m, c, e.term(v), pt))
		}
		return mathSV(b.And(cs...))
	case "unlocked":
		v := e.eval(x.args[0])
		pt := v.t.Underlying().(*types.Pointer).Elem()
		m := ex.P.monitorOf(pt)
		return mathSV(b.Eq(b.Select(e.st.get(ex, "held"), ex.mutexRef(e.term(v), pt, m)), b.Int(0)))
	case "released": // the lock was released, and so others may have changed what it guards
		v := e.eval(x.args[0])
		pt := v.t.Underlying().(*types.Pointer).Elem()
		m := ex.P.monitorOf(pt)
		return mathSV(b.Select(e.st.get(ex, "released"), ex.mutexRef(e.term(v), pt, m)))
	case "store":
		a, i, v := e.eval(x.args[0]), arg(1), e.eval(x.args[2])
		at := e.term(a)
		_, vs := splitArr(at.sort)
		vt := e.term(v)
		if vt.sort != vs && vs == SIface {
			vt = ex.ty.Box(v.t, vt)
		}
		return SV{v: b.Store(at, i, vt)}
	case "bv":
		return SV{v: b.BV8(arg(0).ival.Int64()), t: types.Typ[types.Uint8]}
	case "ghostmap": // the map of a ghost field as a whole
		g := ex.P.db.ghosts[x.args[0].name]
		if g == nil {
			e.fail(x, "no ghost %s", x.args[0].name)
		}
		is, _ := e.binderSort(g.owner)
		vs, _ := e.binderSort(g.typ)
		return SV{v: e.st.get(ex, ex.ghostKey(g.name, is, vs))}
	case "emptymap":
		return mathSV(b.Eq(ex.mapDom(e.st, arg(0), e.eval(x.args[0]).t), b.ConstArr(arrSort(ex.ty.Sort(e.eval(x.args[0]).t.Underlying().(*types.Map).Key()), SBool), b.False)))
	case "allocs": // the age of the next object
		return mathSV(e.st.get(ex, "ctr"))
	case "chan0": // the first channel made by the function
		if len(ex.chans) == 0 {
			e.fail(x, "the function makes no channel")
		}
		return SV{v: ex.chans[0]}
	case "domsof": // domsof(m): the key sets of all maps of the type of m, by reference
		dk, _, _, _ := ex.mapKeys(e.exprType(x.args[0]))
		return SV{v: e.st.get(ex, dk)}
	case "valsof":
		_, vk, _, _ := ex.mapKeys(e.exprType(x.args[0]))
		return SV{v: e.st.get(ex, vk)}
	case "mapdom":
		s := e.eval(x.args[0])
		return SV{v: ex.mapDom(e.st, e.term(s), s.t)}
	case "mapvals":
		s := e.eval(x.args[0])
		return SV{v: ex.mapVals(e.st, e.term(s), s.t)}
	case "key": // key(it, j)
		it := e.eval(x.args[0]).it
		return SV{v: b.Select(it.order, arg(1)), t: it.kt}
	case "pos":
		it := e.eval(x.args[0]).it
		return mathSV(b.Select(it.pos, arg(1)))
	case "order": // the keys of an iteration by position
		return SV{v: e.eval(x.args[0]).it.order}
	case "fieldmap": // fieldmap(x.f): the field f of all objects, by reference
		t := ex.P.lookupType(specTypeString(x.args[0].args[0]))
		if t == nil {
			s := e.eval(x.args[0].args[0])
			t = s.t
			if p, ok := t.Underlying().(*types.Pointer); ok && !s.lv {
				t = p.Elem()
			}
		}
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == x.args[0].name {
				return SV{v: e.st.get(ex, ex.fieldKey(t, i))}
			}
		}
		e.fail(x, "no field %s", x.args[0].name)
	case "elemsof": // elemsof(T): the elements of all slices of T, by base
		return SV{v: e.st.get(ex, ex.elemKey(e.typeArg(x.args[0])))}
	case "elemmap": // elemmap(s): the elements of all slices of the type of s, by base
		s := e.eval(x.args[0])
		return SV{v: e.st.get(ex, ex.elemKey(s.t.Underlying().(*types.Slice).Elem()))}
	case "iterdom": // key was in the map when the iteration began
		it := e.eval(x.args[0]).it
		return mathSV(b.And(b.Ne(it.m, ex.ty.Nil()), b.Select(it.dom, arg(1))))
	case "itermap":
		it := e.eval(x.args[0]).it
		return SV{v: it.m, t: it.mt}
	case "instof": // instof(x): x well-typed at Go type: used for binder typing
		return e.eval(x.args[0])
	case "formatted": // formatted(s, format, args): s is the text of the arguments as they are in this state
		return mathSV(ex.isfmt(e.st, arg(0), arg(1), arg(2)))
	case "fmtcount":
		return mathSV(e.st.get(ex, "fmtn"))
	case "now":
		return mathSV(e.st.get(ex, "now"))
	case "typed": // typed(x, T): give a Go type to an untyped reference
		v := e.eval(x.args[0])
		return SV{v: e.term(v), t: e.typeArg(x.args[1])}
	case "min":
		p, q := arg(0), arg(1)
		return mathSV(b.Ite(b.Le(p, q), p, q))
	case "max":
		p, q := arg(0), arg(1)
		return mathSV(b.Ite(b.Ge(p, q), p, q))
	case "conv": // conv(x, T)
		v := e.eval(x.args[0])
		return SV{v: v.v, t: e.typeArg(x.args[1]), lv: v.lv}
	case "addr": // address of an object lvalue
		v := e.eval(x.args[0])
		if !v.lv {
			e.fail(x, "addr of non-object")
		}
		return SV{v: v.v, t: types.NewPointer(v.t)}
	case "ext": // ext("name", args...): result of a pure external function
		var as []*Term
		for _, a := range x.args[1:] {
			v := e.eval(a)
			as = append(as, e.term(v))
		}
		nm := x.args[0].name
		srt := SStr
		if i := strings.Index(nm, ":"); i >= 0 {
			srt, _ = e.binderSort(nm[i+1:])
			nm = nm[:i]
		}
		if !strings.HasPrefix(nm, "sprintf!") {
			nm = "ext@" + nm
		}
		return mathSV(b.App(nm, srt, as...))
	case "substr":
		return mathSV(b.App("substr", SStr, arg(0), arg(1), arg(2)))
	case "errtext":
		return mathSV(b.App("errtext", SStr, arg(0)))
	}
	if d, ok := ex.P.db.defs[x.name]; ok {
		var as []SV
		for i, a := range x.args {
			v := e.eval(a)
			if v.lv && d.fun {
				v = SV{v: e.term(v), t: v.t}
			}
			_ = i
			as = append(as, v)
		}
		return e.callDef(x, d, as)
	}
	e.fail(x, "unknown function %s", x.name)
	return SV{}
}

func (e *Env) refOf(v SV) *Term {
	if v.lv {
		return v.v.(*Term)
	}
	t := e.term(v)
	switch t.sort {
	case SRef:
		return t
	case SSlice:
		return e.ex.ty.SBase(t)
	case SIface:
		// reference held by an interface (pointer dynamic types)
		return e.ex.b.App("ifaceref", SRef, t)
	}
	panic(unsupported("no reference in %s", t.sort))
}

// exprType: the type of an expression, or of the field T.f
func (e *Env) exprType(x *Ex) types.Type {
	if x.op == "field" {
		if t := e.ex.P.lookupType(specTypeString(x.args[0])); t != nil {
			if st, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == x.name {
						return st.Field(i).Type()
					}
				}
			}
		}
	}
	return e.eval(x).t
}

func (e *Env) typeArg(x *Ex) types.Type {
	s := specTypeString(x)
	t := e.ex.P.lookupType(s)
	if t == nil {
		e.fail(x, "unknown type %s", s)
	}
	return t
}

func specTypeString(x *Ex) string {
	switch x.op {
	case "star":
		return "*" + specTypeString(x.args[0])
	case "field":
		return specTypeString(x.args[0]) + "." + x.name
	case "str":
		return x.name
	}
	return x.name
}

func (ex *Exec) constTerm(v constant.Value, t types.Type) *Term {
	b := ex.b
	switch v.Kind() {
	case constant.Bool:
		return b.Bool(constant.BoolVal(v))
	case constant.String:
		return b.Str(constant.StringVal(v))
	case constant.Int:
		if bt, ok := t.Underlying().(*types.Basic); ok {
			if bt.Info()&types.IsFloat != 0 {
				return b.Const("flt@"+v.ExactString(), SFlt)
			}
			if bt.Kind() == types.Uint8 {
				n, _ := constant.Int64Val(v)
				return b.BV8(n)
			}
		}
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return b.BigInt(n)
	case constant.Float:
		return b.Const("flt@"+v.ExactString(), SFlt)
	}
	panic(unsupported("constant %s", v))
}

// mkForall reparametrises integer variables so that array reads make triggers.
func (ex *Exec) mkForall(vs []*Term, pats [][]*Term, body *Term) *Term {
	b := ex.b
	if len(pats) == 0 {
		var keys, ints, rest []*Term
		for _, v := range vs {
			switch v.sort {
			case SStr:
				keys = append(keys, v)
			case SInt:
				ints = append(ints, v)
			default:
				rest = append(rest, v)
			}
		}
		if len(keys) > 0 && len(rest) == 0 {
			if r := ex.mkForallKeys(keys, ints, body); r != nil {
				return r
			}
		}
	}
	if len(pats) == 0 && len(vs) > 1 {
		if r := ex.mkForallN(vs, body); r != nil {
			return r
		}
	}
	if len(pats) > 0 || len(vs) != 1 || vs[0].sort != SInt {
		return b.Forall(vs, pats, body)
	}
	v := vs[0]
	offs := map[*Term]bool{}
	var order []*Term
	seen := map[*Term]bool{}
	var apps [][]*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] || !t.fv[v] {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1].fv[v] && !t.args[0].fv[v] && t.args[1].sort == SInt {
			d := b.Sub(t.args[1], v)
			if !d.fv[v] && !offs[d] {
				offs[d] = true
				order = append(order, d)
			}
		}
		if t.op == "app" && strings.HasPrefix(t.name, "fn@") && len(t.fv) == 1 {
			for _, a := range t.args {
				if a == v {
					apps = append(apps, []*Term{t})
					break
				}
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(body)
	if len(order) == 0 {
		return b.Forall(vs, pats, body)
	}
	var cs []*Term
	for n, d := range order {
		if n >= 4 {
			break
		}
		var w, nb *Term
		if d.isInt() && d.ival.Sign() == 0 {
			w, nb = v, body
		} else {
			w = b.BoundVar(v.name, SInt)
			nb = b.Subst(body, map[*Term]*Term{v: b.Sub(w, d)})
		}
		// triggers: selects indexed exactly by w
		var ps [][]*Term
		s2 := map[*Term]bool{}
		var find func(t *Term)
		find = func(t *Term) {
			if s2[t] || !t.fv[w] {
				return
			}
			s2[t] = true
			if t.op == "select" && t.args[1] == w && !t.args[0].fv[w] {
				ps = append(ps, []*Term{t})
			}
			for _, a := range t.args {
				find(a)
			}
		}
		find(nb)
		if len(ps) == 0 {
			continue
		}
		// name compound arrays so that the triggers are plain
		sub := map[*Term]*Term{}
		for _, p := range ps {
			if a := p[0].args[0]; complexArr(a) && len(a.fv) == 0 {
				sub[a] = ex.nameTerm(a)
			}
		}
		if len(sub) > 0 {
			nb = b.Subst(nb, sub)
			for i, p := range ps {
				ps[i] = []*Term{b.Subst(p[0], sub)}
			}
		}
		// patterns must not contain connectives
		var qs [][]*Term
		for _, p := range ps {
			if !complexArr(p[0]) {
				qs = append(qs, p)
			}
		}
		if ps = qs; len(ps) == 0 {
			continue
		}
		cs = append(cs, b.Forall([]*Term{w}, ps, nb))
	}
	if len(cs) == 0 {
		return b.Forall(vs, pats, body)
	}
	if len(apps) > 0 {
		cs = append(cs, ex.plainForall(vs, apps, body))
	}
	return b.And(cs...)
}

// plainForall names closed compound subterms of the patterns and drops
// patterns that still are not plain.
func (ex *Exec) plainForall(vs []*Term, pats [][]*Term, body *Term) *Term {
	b := ex.b
	sub := map[*Term]*Term{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if !complexArr(t) {
			return
		}
		if len(t.fv) == 0 {
			sub[t] = ex.nameTerm(t)
			return
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, p := range pats {
		for _, t := range p {
			visit(t)
		}
	}
	if len(sub) > 0 {
		body = b.Subst(body, sub)
	}
	var out [][]*Term
	for _, p := range pats {
		ok := true
		var q []*Term
		for _, t := range p {
			t = b.Subst(t, sub)
			if complexArr(t) {
				ok = false
			}
			q = append(q, t)
		}
		if ok {
			out = append(out, q)
		}
	}
	return b.Forall(vs, out, body)
}

func complexArr(t *Term) bool {
	switch t.op {
	case "store", "ite", "constarr":
		return true
	}
	for _, a := range t.args {
		if complexArr(a) {
			return true
		}
	}
	return false
}

// nameTerm introduces a constant equal to a closed term.
func (ex *Exec) nameTerm(t *Term) *Term {
	if c, ok := ex.named[t]; ok {
		return c
	}
	c := ex.b.Fresh("nm", t.sort)
	c.stamp = t.stamp
	ex.named[t] = c
	ex.facts = append(ex.facts, ex.b.mk("=", "", SBool, []*Term{c, t}))
	return c
}

// mkForallN: several integer variables; each is shifted so that some array read
// is indexed by it alone, which gives one multi-pattern.
func (ex *Exec) mkForallN(vs []*Term, body *Term) *Term {
	b := ex.b
	sub := map[*Term]*Term{}
	ws := make([]*Term, len(vs))
	for n, v := range vs {
		if v.sort != SInt {
			return nil
		}
		var off *Term
		seen := map[*Term]bool{}
		var visit func(t *Term)
		visit = func(t *Term) {
			if off != nil || seen[t] || !t.fv[v] {
				return
			}
			seen[t] = true
			if t.op == "select" && t.args[1].sort == SInt && t.args[1].fv[v] && len(t.args[1].fv) == 1 && len(t.args[0].fv) == 0 {
				if d := b.Sub(t.args[1], v); !d.fv[v] {
					off = d
					return
				}
			}
			for _, a := range t.args {
				visit(a)
			}
		}
		visit(body)
		if off == nil {
			return nil
		}
		ws[n] = v
		if !(off.isInt() && off.ival.Sign() == 0) {
			ws[n] = b.BoundVar(v.name, SInt)
			sub[v] = b.Sub(ws[n], off)
		}
	}
	nb := body
	if len(sub) > 0 {
		nb = b.Subst(body, sub)
	}
	pat := make([]*Term, len(vs))
	for n, w := range ws {
		seen := map[*Term]bool{}
		var find func(t *Term)
		find = func(t *Term) {
			if pat[n] != nil || seen[t] || !t.fv[w] {
				return
			}
			seen[t] = true
			if t.op == "select" && t.args[1] == w && len(t.args[0].fv) == 0 {
				pat[n] = t
				return
			}
			for _, a := range t.args {
				find(a)
			}
		}
		find(nb)
		if pat[n] == nil {
			return nil
		}
	}
	sub = map[*Term]*Term{}
	for _, p := range pat {
		if a := p.args[0]; complexArr(a) {
			sub[a] = ex.nameTerm(a)
		}
	}
	if len(sub) > 0 {
		nb = b.Subst(nb, sub)
		for i, p := range pat {
			pat[i] = b.Subst(p, sub)
		}
	}
	return b.Forall(ws, [][]*Term{pat}, nb)
}

// recApps lists the applications of recursive functions to the key, as their
// limited twins (see useFun), which makes them triggers for the predecessor.
func (ex *Exec) recApps(body, key *Term) []*Term { return ex.recAppsOf(body, []*Term{key}) }

func (ex *Exec) recAppsOf(body *Term, vars []*Term) []*Term {
	b := ex.b
	key := vars[0]
	isVar := map[*Term]bool{}
	for _, v := range vars {
		isVar[v] = true
	}
	var res []*Term
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] || !t.fv[key] {
			return
		}
		seen[t] = true
		if t.op == "app" && strings.HasPrefix(t.name, "fn@") && len(t.fv) == len(vars) {
			if d := ex.P.db.defs[t.name[3:]]; d != nil && d.base != nil {
				ok := true
				direct := map[*Term]bool{}
				for _, a := range t.args {
					if isVar[a] {
						direct[a] = true
					} else if len(a.fv) > 0 || complexArr(a) {
						ok = false
					}
				}
				if ok && len(direct) == len(vars) && len(res) < 4 {
					res = append(res, b.App("lim@"+t.name[3:], t.sort, t.args...))
				}
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(body)
	return res
}

// mkForallKeys: quantification over map keys (and integers, innermost). The
// triggers are the reads of a map or of an array of keys.
func (ex *Exec) mkForallKeys(keys, ints []*Term, body *Term) *Term {
	b := ex.b
	if len(ints) > 0 {
		// a recursive function of all the variables
		vars := append(append([]*Term{}, keys...), ints...)
		if as := ex.recAppsOf(body, vars); len(as) > 0 {
			var pats [][]*Term
			for _, a := range as {
				pats = append(pats, []*Term{a})
			}
			return b.Forall(vars, pats, body)
		}
	}
	// arrays indexed by each key
	reads := make([]map[*Term]bool, len(keys))
	var order []*Term
	all := map[*Term]bool{}
	for n, k := range keys {
		reads[n] = map[*Term]bool{}
		seen := map[*Term]bool{}
		var visit func(t *Term)
		visit = func(t *Term) {
			if seen[t] || !t.fv[k] {
				return
			}
			seen[t] = true
			if t.op == "select" && t.args[1] == k && len(t.args[0].fv) == 0 {
				reads[n][t.args[0]] = true
				if !all[t.args[0]] {
					all[t.args[0]] = true
					order = append(order, t.args[0])
				}
			}
			for _, a := range t.args {
				visit(a)
			}
		}
		visit(body)
		if len(reads[n]) == 0 && (len(keys) > 1 || len(ex.recApps(body, k)) == 0) {
			return nil
		}
	}
	sub := map[*Term]*Term{}
	nm := func(a *Term) *Term {
		if !complexArr(a) {
			return a
		}
		if sub[a] == nil {
			sub[a] = ex.nameTerm(a)
		}
		return sub[a]
	}
	var pats [][]*Term
	if len(keys) == 1 {
		for i, a := range order {
			if i < 8 {
				pats = append(pats, []*Term{b.Select(nm(a), keys[0])})
			}
		}
		for _, a := range ex.recApps(body, keys[0]) {
			pats = append(pats, []*Term{a})
		}
	} else {
		for _, a := range order {
			var p []*Term
			for n, k := range keys {
				if reads[n][a] {
					p = append(p, b.Select(nm(a), k))
				}
			}
			if len(p) == len(keys) && len(pats) < 4 {
				pats = append(pats, p)
			}
		}
		if len(pats) == 0 {
			var p []*Term
			for n, k := range keys {
				for _, a := range order {
					if reads[n][a] {
						p = append(p, b.Select(nm(a), k))
						break
					}
				}
			}
			pats = append(pats, p)
		}
	}
	if len(sub) > 0 {
		body = b.Subst(body, sub)
	}
	if len(ints) > 0 {
		body = ex.mkForall(ints, nil, body)
	}
	return b.Forall(keys, pats, body)
}
