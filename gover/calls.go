package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) call(fr *Frame, c *ssa.Call, st *State, reach *Term) ([]Val, *State, *Term) {
	var args []Val
	for _, a := range c.Call.Args {
		args = append(args, ex.val(fr, a))
	}
	var fnv Val
	if c.Call.IsInvoke() {
		fnv = ex.val(fr, c.Call.Value)
	} else if _, ok := c.Call.Value.(*ssa.Builtin); !ok {
		fnv = ex.val(fr, c.Call.Value)
	}
	fr.site++
	return ex.callWith(fr, &c.Call, fnv, args, st, reach, c.Pos(), fmt.Sprintf("c%d.%s", c.Block().Index, c.Name()))
}

func sigTypes(sig *types.Signature, recv types.Type) (ps, rs []types.Type) {
	if recv != nil {
		ps = append(ps, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i).Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, sig.Results().At(i).Type())
	}
	return
}

func (ex *Exec) callWith(fr *Frame, c *ssa.CallCommon, fnv Val, args []Val, st *State, reach *Term, pos token.Pos, site string) ([]Val, *State, *Term) {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return ex.builtin(fr, b, c, args, st, reach, pos)
	}
	if c.IsInvoke() {
		return ex.invoke(fr, c, fnv.(*Term), args, st, reach, pos, site)
	}
	ft, ok := fnv.(*Term)
	if !ok {
		panic(unsupported("call of %T", fnv))
	}
	if cl := ex.closure[ft.name]; ft.op == "const" && cl != nil {
		return ex.callFn(fr, cl.fn, append(cl.recvArgs(), args...), cl.binds, st, reach, pos, site)
	}
	// conditional function value: split
	if ft.op == "ite" {
		r1, s1, c1 := ex.callWith(fr, c, ft.args[1], args, st.clone(), ex.b.And(reach, ft.args[0]), pos, site+"t")
		r2, s2, c2 := ex.callWith(fr, c, ft.args[2], args, st.clone(), ex.b.And(reach, ex.b.Not(ft.args[0])), pos, site+"f")
		m, rr := ex.merge([]edge{{cond: c1, st: s1}, {cond: c2, st: s2}})
		var out []Val
		for i := range r1 {
			out = append(out, ex.iteVal(ft.args[0], r1[i], r2[i]))
		}
		return out, m, rr
	}
	// unknown function value: contract by parameter or by named function type
	con := ex.funcTypeContract(fr, c.Value)
	sig := c.Signature()
	ps, rs := sigTypes(sig, nil)
	if con == nil {
		panic(unsupported("call of unknown function value %s (%s) without contract", c.Value.Name(), tstr(c.Value.Type())))
	}
	ex.assert(reach, "nil", "func_non_nil", nil, pos, "called function value is not nil", ex.b.Ne(ft, ex.ty.ZeroSort(SFunc)))
	lv := ex.P.lockLevels()
	ex.levelCheck(lv.min(lv.bySig(sig)), "call of a function value", st, reach, pos)
	return ex.apply(con, args, ps, rs, st, reach, pos, &SV{v: ft, t: c.Value.Type()})
}

func (cl *Closure) recvArgs() []Val {
	if cl.recv != nil {
		return []Val{cl.recv}
	}
	return nil
}

func (ex *Exec) funcTypeContract(fr *Frame, v ssa.Value) *Contract {
	if p, ok := v.(*ssa.Parameter); ok && fr.parent == nil && ex.con != nil {
		for i, q := range fr.fn.Params {
			if q == p && i < len(ex.con.params) {
				if c := ex.P.db.functypes[ex.con.name+"."+ex.con.params[i]]; c != nil {
					return c
				}
			}
		}
	}
	if ft, ok := ex.val(fr, v).(*Term); ok && ft.op == "const" && ex.con != nil {
		// parameter of the root function reached through inlining
		for i, q := range ex.root.Params {
			_ = q
			if i < len(ex.con.params) && ft.name == sanitize("p@"+ex.con.params[i]) {
				if c := ex.P.db.functypes[ex.con.name+"."+ex.con.params[i]]; c != nil {
					return c
				}
			}
		}
	}
	if n, ok := types.Unalias(v.Type()).(*types.Named); ok {
		nm := n.Obj().Name()
		if n.Obj().Pkg() != nil {
			nm = n.Obj().Pkg().Name() + "." + nm
		}
		if c := ex.P.db.functypes[nm]; c != nil {
			return c
		}
	}
	// functions read from a field with a contract: functype pkg.Type.field
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			t := fa.X.Type().Underlying().(*types.Pointer).Elem()
			k := tstr(t) + "." + t.Underlying().(*types.Struct).Field(fa.Field).Name()
			if c := ex.P.db.functypes[k]; c != nil {
				return c
			}
		}
	}
	return nil
}

func (ex *Exec) callFn(fr *Frame, fn *ssa.Function, args []Val, binds []Val, st *State, reach *Term, pos token.Pos, site string) ([]Val, *State, *Term) {
	key := fnKey(fn)
	if r, s, rr, ok := ex.special(fr, key, fn, args, st, reach, pos); ok {
		return r, s, rr
	}
	if con := ex.P.db.contracts[key]; con != nil && !con.opts["inline"] && !(ex.pure && con.kind == "func" && fn.Blocks != nil) && !(con.opts["inlinefn"] && ex.closureArg(args)) && (con.kind == "extern" || fn.Parent() == nil && fn.Synthetic == "" || fn.Origin() != nil) {
		con := ex.P.db.contracts[key]
		ps, rs := ex.fnTypes(fn)
		if ta := fn.TypeArgs(); len(ta) > 0 {
			sv := ex.targ
			ex.targ = ta[0]
			defer func() { ex.targ = sv }()
		}
		if con.kind == "func" {
			ex.calls[con.name] = true
		}
		ex.levelCheck(ex.P.lockLevels().min([]*ssa.Function{fn}), "call of "+con.name, st, reach, pos)
		out, ns, rr := ex.apply(con, args, ps, rs, st, reach, pos, nil)
		for i, v := range out {
			ex.results = append(ex.results, SV{v: v, t: rs[i]})
		}
		return out, ns, rr
	}
	if o := fn.Origin(); o != nil && strings.HasPrefix(fn.Synthetic, "instantiation wrapper") {
		fn = o // a generic function called by a generic one
	}
	if fn.Blocks != nil && (ex.P.inRepo(fn) || fn.Synthetic != "") {
		ex.inlined[key] = true
		return ex.execBody(fn, args, binds, st, reach, fr, site)
	}
	mode := ex.P.db.pure[key]
	ps, rs := ex.fnTypes(fn)
	switch mode {
	case "pure", "havoc":
		return ex.pureCall(key, mode, args, ps, rs, st, reach), st, reach
	}
	// unknown external function: allowed only if no reachable memory is passed
	for i, p := range ps {
		switch p.Underlying().(type) {
		case *types.Basic:
		default:
			if isTime(p) {
				continue
			}
			panic(unsupported("external function %s has no contract (argument %d of type %s)", key, i, p))
		}
	}
	ex.trusted["external "+key+": any result, no effect"] = true
	return ex.pureCall(key, "havoc", args, ps, rs, st, reach), st, reach
}

// closureArg: one of the arguments is a function whose body is known here
func (ex *Exec) closureArg(args []Val) bool {
	for _, a := range args {
		if t, ok := a.(*Term); ok && t.sort == SFunc && t.op == "const" && ex.closure[t.name] != nil {
			return true
		}
	}
	return false
}

func (ex *Exec) fnTypes(fn *ssa.Function) (ps, rs []types.Type) {
	for _, p := range fn.Params {
		ps = append(ps, p.Type())
	}
	if fn.Params == nil { // no body
		var recv types.Type
		if r := fn.Signature.Recv(); r != nil {
			recv = r.Type()
		}
		ps, _ = sigTypes(fn.Signature, recv)
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		rs = append(rs, fn.Signature.Results().At(i).Type())
	}
	return
}

func (ex *Exec) pureCall(key, mode string, args []Val, ps, rs []types.Type, st *State, reach *Term) []Val {
	ex.trusted["external "+key+" ("+mode+")"] = true
	var out []Val
	for i, r := range rs {
		srt := ex.ty.Sort(r)
		var v *Term
		if mode == "pure" {
			var as []*Term
			for j, a := range args {
				t, ok := a.(*Term)
				if !ok {
					panic(unsupported("interior pointer passed to %s", key))
				}
				if t.sort == SSlice { // content matters, not identity
					et := ps[j].Underlying().(*types.Slice).Elem()
					as = append(as, ex.b.Select(st.get(ex, ex.elemKey(et)), ex.ty.SBase(t)), ex.ty.SOff(t), ex.ty.SLen(t))
					continue
				}
				as = append(as, t)
			}
			nm := "ext@" + key
			if len(rs) > 1 {
				nm += fmt.Sprintf("!%d", i)
			}
			v = ex.b.App(nm, srt, as...)
			if srt == SSlice || srt == SRef {
				ex.wf(reach, st, v, r, 0)
			}
		} else {
			v = ex.b.Fresh("ret@"+key, srt)
			ex.wf(reach, st, v, r, 0)
		}
		out = append(out, v)
	}
	return out
}

// ---------- interface calls ----------

func (ex *Exec) invoke(fr *Frame, c *ssa.CallCommon, recv *Term, args []Val, st *State, reach *Term, pos token.Pos, site string) ([]Val, *State, *Term) {
	// known dynamic type: call the method itself
	if recv.op == "app" && strings.HasPrefix(recv.name, "box@") {
		for _, t := range ex.ty.tagType {
			if boxName(t) == recv.name {
				if con := ex.ifaceContract(c); con == nil || !ex.conOpt("abstract") {
					fn := ex.P.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
					if fn != nil {
						return ex.callFn(fr, fn, append([]Val{recv.args[0]}, args...), nil, st, reach, pos, site)
					}
				}
			}
		}
	}
	if recv.op == "ite" && (boxed(recv.args[1]) || boxed(recv.args[2])) {
		r1, s1, c1 := ex.invoke(fr, c, recv.args[1], args, st.clone(), ex.b.And(reach, recv.args[0]), pos, site+"t")
		r2, s2, c2 := ex.invoke(fr, c, recv.args[2], args, st.clone(), ex.b.And(reach, ex.b.Not(recv.args[0])), pos, site+"f")
		m, rr := ex.merge([]edge{{cond: c1, st: s1}, {cond: c2, st: s2}})
		var out []Val
		for i := range r1 {
			out = append(out, ex.iteVal(recv.args[0], r1[i], r2[i]))
		}
		return out, m, rr
	}
	con := ex.ifaceContract(c)
	if con == nil {
		panic(unsupported("no interface contract for %s.%s", tstr(c.Value.Type()), c.Method.Name()))
	}
	if !ex.conOpt("nonil") {
		ex.assert(reach, "nil", "iface_non_nil", nil, pos, "method call on non-nil interface", ex.b.Ne(recv, ex.ty.ZeroSort(SIface)))
	}
	sig := c.Signature()
	ps, rs := sigTypes(sig, c.Value.Type())
	lv := ex.P.lockLevels()
	ex.levelCheck(lv.min(lv.byIface(c)), "call of "+con.name, st, reach, pos)
	out, ns, rr := ex.apply(con, append([]Val{recv}, args...), ps, rs, st, reach, pos, nil)
	if con.opts["maypanic"] {
		ex.unwind(fr, ns, rr, pos)
	}
	return out, ns, rr
}

func boxed(t *Term) bool {
	return t.op == "app" && strings.HasPrefix(t.name, "box@") || t.op == "ite" && (boxed(t.args[1]) || boxed(t.args[2]))
}

func (ex *Exec) conOpt(o string) bool { return ex.con != nil && ex.con.opts[o] }

func (ex *Exec) ifaceContract(c *ssa.CallCommon) *Contract {
	db := ex.P.db
	m := c.Method.Name()
	if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
		nm := n.Obj().Name()
		if n.Obj().Pkg() != nil {
			nm = n.Obj().Pkg().Name() + "." + nm
		}
		if con := db.ifaces[nm+"."+m]; con != nil {
			return con
		}
		// the interface that declares the method (embedding)
		if r := c.Method.Type().(*types.Signature).Recv(); r != nil {
			if rn, ok := types.Unalias(r.Type()).(*types.Named); ok {
				nm := rn.Obj().Name()
				if rn.Obj().Pkg() != nil {
					nm = rn.Obj().Pkg().Name() + "." + nm
				}
				if con := db.ifaces[nm+"."+m]; con != nil {
					return con
				}
			}
		}
	}
	if con := db.ifaces["any."+m]; con != nil {
		return con
	}
	return nil
}

// ---------- contracts at call sites ----------

type Loc struct {
	key string
	ref *Term // nil: every reference
	t   types.Type
	sub *Term // for a map: only this key (externs)
}

func (ex *Exec) locs(env *Env, x *Ex) []Loc {
	objLocs := func(r *Term, t types.Type) []Loc { return ex.objLocs(r, t) }
	switch x.op {
	case "elems":
		s := env.eval(x.args[0])
		if s.t == nil {
			env.fail(x, "elements of untyped")
		}
		switch u := s.t.Underlying().(type) {
		case *types.Slice:
			return []Loc{{key: ex.elemKey(u.Elem()), ref: ex.ty.SBase(env.term(s))}}
		case *types.Map:
			dk, vk, _, _ := ex.mapKeys(s.t)
			m := env.term(s)
			return []Loc{{key: dk, ref: m}, {key: vk, ref: m}, {key: "ml", ref: m}}
		case *types.Array:
			return []Loc{{key: ex.elemKey(u.Elem()), ref: s.v.(*Term)}}
		}
	case "index":
		// one entry of a map
		s := env.eval(x.args[0])
		mt, ok := s.t.Underlying().(*types.Map)
		if !ok {
			env.fail(x, "not a map")
		}
		k := env.term(env.eval(x.args[1]))
		dk, vk, _, _ := ex.mapKeys(s.t)
		m := env.term(s)
		return []Loc{{key: dk, ref: m, sub: k}, {key: vk, ref: m, sub: k, t: mt.Elem()}, {key: "ml", ref: m}}
	case "star":
		s := env.eval(x.args[0])
		t := s.t.Underlying().(*types.Pointer).Elem()
		if isObj(t) {
			return objLocs(env.term(s), t)
		}
		return []Loc{{key: ex.cellKey(t), ref: env.term(s), t: t}}
	case "call":
		if x.name == "all" {
			if x.args[0].op == "ident" && strings.HasPrefix(x.args[0].name, "$") {
				g := ex.P.db.ghosts[x.args[0].name]
				srt, _ := env.binderSort(g.typ)
				idx, _ := env.binderSort(ghostIdx(g))
				return []Loc{{key: ex.ghostKey(g.name, idx, srt)}}
			}
			if x.args[0].op == "call" && x.args[0].name == "elemtype" {
				t := env.typeArg(x.args[0].args[0])
				return []Loc{{key: ex.elemKey(t)}}
			}
			if x.args[0].op == "field" {
				t := ex.P.lookupType(specTypeString(x.args[0].args[0]))
				if t == nil {
					t = env.eval(x.args[0].args[0]).t
					if p, ok := t.Underlying().(*types.Pointer); ok {
						t = p.Elem()
					}
				}
				st := t.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == x.args[0].name {
						if isOpaque(st.Field(i).Type()) {
							return []Loc{{key: ex.cellKey(st.Field(i).Type())}}
						}
						return []Loc{{key: ex.fieldKey(t, i)}}
					}
				}
			}
		}
		if d := ex.P.db.defs[x.name]; d != nil {
			_ = d
		}
	case "field":
		if strings.HasPrefix(x.name, "$") {
			g := ex.P.db.ghosts[x.name]
			if g == nil {
				env.fail(x, "unknown ghost")
			}
			srt, _ := env.binderSort(g.typ)
			s := env.eval(x.args[0])
			idx := env.term(SV{v: s.v, t: s.t})
			return []Loc{{key: ex.ghostKey(x.name, idx.sort, srt), ref: idx}}
		}
		s := env.eval(x.args[0])
		t := s.t
		if p, ok := t.Underlying().(*types.Pointer); ok && !s.lv {
			t = p.Elem()
		} else if !s.lv {
			env.fail(x, "modifies of a non-location")
		}
		cur := s.v
		obj, path, _ := types.LookupFieldOrMethod(t, true, ex.anyPkg(t), x.name)
		if _, ok := obj.(*types.Var); !ok {
			env.fail(x, "no such field")
		}
		for n, i := range path {
			ft := t.Underlying().(*types.Struct).Field(i).Type()
			a := ex.fieldAddr(cur, t, i)
			if n == len(path)-1 {
				if r, ok := a.(*Term); ok {
					return objLocs(r, ft)
				}
				ad := a.(*Addr)
				return []Loc{{key: ad.key, ref: ad.ref, t: ft}}
			}
			cur, t = a, ft
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				cur, t = ex.loadRaw(env.st, a.(*Addr)), p.Elem()
			}
		}
	}
	env.fail(x, "not a location")
	return nil
}

func ghostIdx(g *GhostField) string {
	switch g.owner {
	case "chan", "ref":
		return "ref"
	case "func":
		return "func"
	}
	return "any"
}

func (ex *Exec) objLocs(r *Term, t types.Type) []Loc {
	switch {
	case isOpaque(t):
		return []Loc{{key: ex.cellKey(t), ref: r, t: t}}
	case isArrayT(t):
		return []Loc{{key: ex.elemKey(t.Underlying().(*types.Array).Elem()), ref: r}}
	}
	var out []Loc
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch a := ex.fieldAddr(r, t, i).(type) {
		case *Term:
			out = append(out, ex.objLocs(a, st.Field(i).Type())...)
		case *Addr:
			out = append(out, Loc{key: a.key, ref: a.ref, t: st.Field(i).Type()})
		}
	}
	return out
}

func (ex *Exec) havocLoc(st *State, l Loc, cond *Term) {
	b := ex.b
	H := st.get(ex, l.key)
	if l.ref == nil {
		f := b.Fresh("hv@"+l.key, H.sort)
		st.set(l.key, b.Ite(cond, f, H))
		ex.heapWF(b.True, f, l.key, st.get(ex, "ctr"))
		ex.recordWrite(l.key, nil)
		return
	}
	_, vs := splitArr(H.sort)
	if l.sub != nil {
		_, es := splitArr(vs)
		f := b.Fresh("hv@"+l.key, es)
		row := b.Store(b.Select(H, l.ref), l.sub, f)
		st.set(l.key, b.Ite(cond, b.Store(H, l.ref, row), H))
		ex.recordWrite(l.key, l.ref)
		if l.t != nil {
			ex.wf(b.True, st, f, l.t, 0)
		}
		return
	}
	f := b.Fresh("hv@"+l.key, vs)
	st.set(l.key, b.Ite(cond, b.Store(H, l.ref, f), H))
	ex.recordWrite(l.key, l.ref)
	if l.t != nil {
		ex.wf(b.True, st, f, l.t, 0)
	}
}

func (ex *Exec) apply(con *Contract, args []Val, ps, rs []types.Type, st *State, reach *Term, pos token.Pos, self *SV) ([]Val, *State, *Term) {
	b := ex.b
	con.used = true
	env := &Env{ex: ex, names: map[string]SV{}, st: st, old: st, ctr0: st.get(ex, "ctr"), targ: ex.targ}
	if self != nil {
		env.names["self"] = *self
	}
	if len(con.params) > len(args) {
		panic(unsupported("contract %s has %d parameters, call has %d", con.name, len(con.params), len(args)))
	}
	for i, n := range con.params {
		env.names[n] = SV{v: args[i], t: ps[i]}
	}
	if con.kind == "extern" || con.kind == "iface" || con.kind == "functype" || con.opts["trusted"] {
		ex.trusted[con.kind+" contract "+con.name] = true
	}
	var relock []*Term
	for _, l := range con.optv["locks"] {
		sv := env.names[l]
		pt := sv.t.Underlying().(*types.Pointer).Elem()
		m := ex.P.monitorOf(pt)
		mu := ex.mutexRef(env.term(sv), pt, m)
		ex.assert(reach, "lock", "no_self_deadlock", m.props, pos, "callee "+con.name+" locks "+l+": not already held", b.Eq(b.Select(st.get(ex, "held"), mu), b.Int(0)))
		// Other goroutines may have had the lock since it was last released.
		if rel := b.Select(st.get(ex, "released"), mu); !rel.isFalse() && ex.con != nil && ex.con.opts["calm"] {
			ex.trusted["calm: "+ex.con.name+" is stated for the case that no other goroutine uses the locked parts between the calls it makes on them"] = true
		} else if !rel.isFalse() {
			pre := st.clone()
			ex.havocMonitor(st, env.term(sv), pt, m, rel)
			ex.relinearize(mu, rel, pre, st, reach, pos)
			for _, c := range m.invs {
				ex.assume(reach, ex.monInv(env, m, c, env.term(sv), pt))
			}
		}
		relock = append(relock, mu)
	}
	if con.kind == "func" && len(con.params) > 0 && con.opts["method"] {
		// receiver non-nil
	}
	if con.kind == "func" && strings.HasPrefix(con.name, "(*") && !con.opts["nilrecv"] {
		if r, ok := args[0].(*Term); ok {
			ex.nilCheck(reach, r, pos, "receiver of "+con.name+" is not nil")
		}
	}
	for _, c := range con.clauses {
		switch c.kind {
		case "let":
			env.names[c.label] = env.eval(c.e)
		case "requires":
			ex.assert(reach, "requires", "pre_"+short(con.name)+"_"+c.label, c.props, pos, "precondition of "+con.name+": "+c.text, ex.Bool(env, c.e))
		}
	}
	old := st.clone()
	ns := st.clone()
	nf0 := len(ex.facts)
	if !con.opts["noalloc"] {
		c2 := b.Fresh("ctr", SInt)
		ex.assume(reach, b.Ge(c2, old.get(ex, "ctr")))
		ns.set("ctr", c2)
		ex.recordScalar("ctr")
	}
	for _, c := range con.clauses {
		if c.kind != "modifies" {
			continue
		}
		cond := b.True
		if c.when != nil {
			cond = ex.Bool(env, c.when)
		}
		for _, x := range c.list {
			for _, l := range ex.locs(env, x) {
				if l.key != "" {
					if l.sub != nil && con.kind != "extern" {
						env.fail(x, "entries of maps are locations of extern contracts only")
					}
					ex.havocLoc(ns, l, cond)
				}
			}
		}
	}
	for _, k := range []string{"now", "fmtn"} {
		if con.opts["keep_"+k] || con.kind == "extern" && !con.opts["any_"+k] {
			continue
		}
		c2 := b.Fresh(k, SInt)
		ex.assume(reach, b.Ge(c2, old.get(ex, k)))
		ns.set(k, c2)
		ex.recordScalar(k)
	}
	for _, mu := range relock {
		ns.set("released", b.Store(ns.get(ex, "released"), mu, b.True))
		ex.recordWrite("released", mu)
	}
	var out []Val
	env2 := &Env{ex: ex, names: env.names, st: ns, old: old, ctr0: old.get(ex, "ctr"), targ: ex.targ}
	for i, r := range rs {
		v := b.Fresh("r@"+short(con.name), ex.ty.Sort(r))
		ex.wf(reach, ns, v, r, 0)
		out = append(out, v)
		if i < len(con.results) {
			env2.names[con.results[i]] = SV{v: v, t: r}
		}
	}
	for _, c := range con.clauses {
		if (c.kind == "ensures" || c.kind == "trust") && len(c.metas) == 0 {
			ex.assume(reach, ex.Bool(env2, c.e))
		}
	}
	ex.vac = append(ex.vac, vacPoint{reach, nf0, len(ex.facts), "call of " + con.name})
	return out, ns, reach
}

func (ex *Exec) monitorKey(k string) string { return "" }

func short(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// ---------- builtins ----------

func (ex *Exec) builtin(fr *Frame, bi *ssa.Builtin, c *ssa.CallCommon, args []Val, st *State, reach *Term, pos token.Pos) ([]Val, *State, *Term) {
	b, ty := ex.b, ex.ty
	ret := func(v ...Val) ([]Val, *State, *Term) { return v, st, reach }
	t := func(i int) *Term {
		x, ok := args[i].(*Term)
		if !ok {
			panic(unsupported("builtin %s of %T", bi.Name(), args[i]))
		}
		return x
	}
	switch bi.Name() {
	case "len":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return ret(ty.SLen(t(0)))
		case *types.Map:
			ex.checkOwner(reach, st, t(0), pos)
			ex.mapLenFacts(reach, st, t(0), c.Args[0].Type())
			return ret(ex.mapLen(st, t(0)))
		case *types.Basic:
			n := ex.strlen(t(0))
			ex.assume(reach, b.And(b.Ge(n, b.Int(0)), b.Eq(b.Eq(n, b.Int(0)), b.Eq(t(0), b.Str("")))))
			return ret(n)
		case *types.Array:
			return ret(b.Int(u.Len()))
		case *types.Pointer:
			return ret(b.Int(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Chan:
			n := b.Fresh("chanlen", SInt)
			ex.assume(reach, b.Ge(n, b.Int(0)))
			return ret(n)
		}
	case "cap":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return ret(ty.SCap(t(0)))
		case *types.Chan:
			return ret(b.App("chancap", SInt, t(0)))
		case *types.Array:
			return ret(b.Int(u.Len()))
		}
	case "append":
		s := t(0)
		st1 := c.Args[0].Type().Underlying().(*types.Slice)
		x := t(1)
		if x.sort == SStr {
			panic(unsupported("append string to bytes"))
		}
		et := st1.Elem()
		if o, ok := ex.owners[s]; ok {
			_ = o
			ex.checkOwner(reach, st, s, pos)
		}
		n := ty.SLen(x)
		arr := b.Select(st.get(ex, ex.elemKey(et)), ty.SBase(x))
		if n.isInt() && n.ival.IsInt64() && n.ival.Int64() <= 8 {
			var vals []*Term
			for i := int64(0); i < n.ival.Int64(); i++ {
				vals = append(vals, b.Select(arr, b.Add(ty.SOff(x), b.Int(i))))
			}
			if len(vals) == 0 {
				return ret(s)
			}
			return ret(ex.appendSlice(st, reach, et, s, nil, nil, n, len(vals), vals))
		}
		return ret(ex.appendSlice(st, reach, et, s, arr, ty.SOff(x), n, -1, nil))
	case "copy":
		dst, src := t(0), t(1)
		if src.sort == SStr {
			panic(unsupported("copy from string"))
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		k := ex.elemKey(et)
		H := st.get(ex, k)
		n := b.Ite(b.Le(ty.SLen(dst), ty.SLen(src)), ty.SLen(dst), ty.SLen(src))
		da, sa := b.Select(H, ty.SBase(dst)), b.Select(H, ty.SBase(src))
		if complexArr(da) {
			da = ex.nameTerm(da)
		}
		if complexArr(sa) {
			sa = ex.nameTerm(sa)
		}
		na := b.Fresh("copy", da.sort)
		i := b.BoundVar("i", SInt)
		sel := b.Select(na, i)
		in := b.And(b.Le(ty.SOff(dst), i), b.Lt(i, b.Add(ty.SOff(dst), n)))
		ex.assume(reach, b.Forall([]*Term{i}, [][]*Term{{sel}}, b.Eq(sel, b.Ite(in, b.Select(sa, b.Add(ty.SOff(src), b.Sub(i, ty.SOff(dst)))), b.Select(da, i)))))
		st.set(k, b.Store(H, ty.SBase(dst), na))
		ex.recordWrite(k, ty.SBase(dst))
		return ret(n)
	case "delete":
		ex.checkOwnerMode(reach, st, t(0), pos, 2)
		ex.mapDelete(st, t(0), c.Args[0].Type(), t(1))
		return ret()
	case "min", "max":
		v := t(0)
		for i := 1; i < len(args); i++ {
			if bi.Name() == "min" {
				v = b.Ite(ex.compare("<=", v, t(i)), v, t(i))
			} else {
				v = b.Ite(ex.compare(">=", v, t(i)), v, t(i))
			}
		}
		return ret(v)
	case "clear":
		if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			dk, _, ks, _ := ex.mapKeys(c.Args[0].Type())
			_ = mt
			m := t(0)
			st.set(dk, b.Store(st.get(ex, dk), m, b.ConstArr(arrSort(ks, SBool), b.False)))
			st.set("ml", b.Store(st.get(ex, "ml"), m, b.Int(0)))
			ex.recordWrite(dk, m)
			ex.recordWrite("ml", m)
			return ret()
		}
		s := t(0)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		k := ex.elemKey(et)
		H := st.get(ex, k)
		da := b.Select(H, ty.SBase(s))
		if complexArr(da) {
			da = ex.nameTerm(da)
		}
		na := b.Fresh("clear", da.sort)
		i := b.BoundVar("i", SInt)
		sel := b.Select(na, i)
		in := b.And(b.Le(ty.SOff(s), i), b.Lt(i, b.Add(ty.SOff(s), ty.SLen(s))))
		ex.assume(reach, b.Forall([]*Term{i}, [][]*Term{{sel}}, b.Eq(sel, b.Ite(in, ty.Zero(et), b.Select(da, i)))))
		st.set(k, b.Store(H, ty.SBase(s), na))
		ex.recordWrite(k, ty.SBase(s))
		return ret()
	case "close", "print", "println":
		return ret()
	case "recover":
		return ret(ty.ZeroSort(SIface))
	case "ssa:wrapnilchk":
		ex.nilCheck(reach, t(0), pos, "receiver of promoted method is not nil")
		return ret(args[0])
	}
	panic(unsupported("builtin %s", bi.Name()))
}
