package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	name    string
	con     *Contract
	obls    []*Obl
	err     string // outside the verifier's reach
	specErr string
	calls   []string
	inlined []string
	trusted []string
	rounds  int
	dur     time.Duration
	ncands  int
	kept    []string
	notes   []string
	spawned []string
	missing bool
	vacOK   int
	support int
	solveMs float64
}

func (ex *Exec) useFun(d *Def) {
	if ex.funs[d.name] {
		return
	}
	ex.funs[d.name] = true
	if d.body == nil {
		return
	}
	env := &Env{ex: ex, names: map[string]SV{}, st: ex.entry, old: ex.entry, ctr0: ex.b.Const("ctr0", SInt)}
	var vs []*Term
	for i, p := range d.params {
		srt, t := env.binderSort(d.types[i])
		v := ex.b.BoundVar(p, srt)
		vs = append(vs, v)
		env.names[p] = SV{v: v, t: t}
	}
	srt, retT := env.binderSort(d.ret)
	if d.base != nil {
		b := ex.b
		// f(m) unfolds once, to the limited twin of f at m-1, which does not
		// unfold again; f(m) and its twin are equal.
		m := vs[len(vs)-1]
		n := b.Sub(m, b.Int(1))
		at := func(f string, i *Term) *Term {
			as := append(append([]*Term{}, vs[:len(vs)-1]...), i)
			return b.App(f+d.name, srt, as...)
		}
		fm := at("fn@", m)
		ex.axioms = append(ex.axioms, axiomT{b.Forall(vs, [][]*Term{{fm}}, b.And(
			b.mk("=", "", SBool, []*Term{fm, at("lim@", m)}),
			b.Implies(b.Eq(m, b.Int(0)), b.mk("=", "", SBool, []*Term{fm, env.term(env.eval(d.base))})))), "definition of " + d.name})
		env.names["prev"] = SV{v: at("lim@", n), t: retT}
		env.names[d.params[len(vs)-1]] = SV{v: n, t: types.Typ[types.Int]}
		step := env.term(env.eval(d.body))
		ex.axioms = append(ex.axioms, axiomT{b.Forall(vs, [][]*Term{{fm}}, b.Implies(b.Gt(m, b.Int(0)), b.mk("=", "", SBool, []*Term{fm, step}))), "definition of " + d.name})
		return
	}
	app := ex.b.App("fn@"+d.name, srt, vs...)
	body := env.term(env.eval(d.body))
	ex.axioms = append(ex.axioms, axiomT{ex.b.Forall(vs, [][]*Term{{app}}, ex.b.mk("=", "", SBool, []*Term{app, body})), "definition of " + d.name})
}

// vacPoint: a place where facts are assumed; they must not contradict what was
// known before.
type vacPoint struct {
	reach  *Term
	n0, n1 int
	what   string
}

type axiomT struct {
	t    *Term
	text string
}

var sortNames = regexp.MustCompile(`(Opq|TP)@[^ ()]+`)

func newExec(P *Prog, con *Contract, fn *ssa.Function, loops map[string]*loopInfo, dropped map[string]bool, keySort map[string]string) *Exec {
	b := newTB()
	ex := &Exec{P: P, b: b, ty: newTypes(b), root: fn, con: con, keySort: keySort, closure: map[string]*Closure{}, unlocked: map[*Term]*State{}, owned: map[*Term]ownedInfo{},
		named: map[*Term]*Term{}, embs: map[string]embInfo{}, owners: map[*Term]ownerInfo{}, loops: loops, dropped: dropped,
		funs: map[string]bool{}, globals: map[string]bool{}, iters: map[*Term]*IterInfo{}, calls: map[string]bool{}, inlined: map[string]bool{},
		cfacts: map[string]bool{}, trusted: map[string]bool{}, wfseen: map[[3]*Term]bool{}, hwf: map[*Term]bool{}}
	for _, srt := range keySort { // sorts of keys known from earlier rounds
		for _, n := range sortNames.FindAllString(srt, -1) {
			ex.ty.useSort(n)
		}
	}
	ex.entry = &State{h: map[string]*Term{}}
	ctr0 := b.Const("ctr0", SInt)
	ex.facts = append(ex.facts, b.Ge(ctr0, b.Int(0)))
	ex.facts = append(ex.facts, b.mk("=", "", SBool, []*Term{b.App("age", SInt, ex.ty.Nil()), b.Int(-1)}))
	ex.facts = append(ex.facts, b.Ge(ex.entry.get(ex, "now"), b.Int(0)))
	return ex
}

// runLemma: the requirements imply the conclusions, for all values of the parameters.
func (ex *Exec) runLemma() {
	b, con := ex.b, ex.con
	env := &Env{ex: ex, names: map[string]SV{}, st: ex.entry, old: ex.entry, ctr0: b.Const("ctr0", SInt)}
	ex.rootEnv = env
	for _, p := range con.params {
		nm, typ, _ := strings.Cut(p, " ")
		srt, t := env.binderSort(typ)
		c := b.Const("p@"+nm, srt)
		if t != nil {
			ex.wf(b.True, ex.entry, c, t, 0)
		}
		env.names[nm] = SV{v: c, t: t}
	}
	for _, a := range ex.P.db.axioms {
		ex.axioms = append(ex.axioms, axiomT{ex.Bool(env, a.e), a.text})
	}
	for _, c := range con.clauses {
		switch c.kind {
		case "let":
			env.names[c.label] = env.eval(c.e)
		case "requires":
			ex.facts = append(ex.facts, ex.Bool(env, c.e))
		}
	}
	ex.entryFacts = len(ex.facts)
	for _, c := range con.clauses {
		if c.kind == "ensures" {
			ex.assert(b.True, "lemma", c.label, c.props, 0, c.text, ex.Bool(env, c.e))
		}
	}
}

// symExec runs the function body once.
func (ex *Exec) runFn() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupportedErr:
				err = fmt.Errorf("outside the verifier's reach: %s (near %s)", x.msg, ex.pos(ex.lastPos))
			case specErr:
				err = specErr{x.msg}
			default:
				if ex.P.strict {
					panic(r)
				}
				err = fmt.Errorf("outside the verifier's reach: internal: %v (near %s)", r, ex.pos(ex.lastPos))
			}
		}
	}()
	b, con, fn := ex.b, ex.con, ex.root
	if con.kind == "lemma" {
		ex.runLemma()
		return nil
	}
	if len(con.params) != len(fn.Params) {
		panic(specErr{fmt.Sprintf("contract %s lists %d parameters, the function has %d", con.name, len(con.params), len(fn.Params))})
	}
	env := &Env{ex: ex, names: map[string]SV{}, st: ex.entry, old: ex.entry, ctr0: b.Const("ctr0", SInt)}
	ex.rootEnv = env
	var args []Val
	for i, p := range fn.Params {
		c := b.Const("p@"+con.params[i], ex.ty.Sort(p.Type()))
		ex.wf(b.True, ex.entry, c, p.Type(), 0)
		env.names[con.params[i]] = SV{v: c, t: p.Type()}
		args = append(args, c)
		if i == 0 && fn.Signature.Recv() != nil && c.sort == SRef && !con.opts["nilrecv"] {
			ex.facts = append(ex.facts, b.Ne(c, ex.ty.Nil()))
		}
		if c.sort == SRef {
			ex.facts = append(ex.facts, b.Implies(b.Ne(c, ex.ty.Nil()), b.Eq(b.App("embkind", SInt, c), b.Int(0))))
		}
	}
	for _, a := range ex.P.db.axioms {
		t := ex.Bool(env, a.e)
		ex.axioms = append(ex.axioms, axiomT{t, a.text})
	}
	for _, c := range con.clauses {
		switch c.kind {
		case "let":
			env.names[c.label] = env.eval(c.e)
		case "requires", "defines":
			ex.facts = append(ex.facts, ex.Bool(env, c.e))
		}
	}
	// entry snapshot must not pick up later changes
	st := ex.entry.clone()
	ex.entryFacts = len(ex.facts)
	ex.rootRets = nil
	ex.execBody(fn, args, nil, st, b.True, nil, "")
	if len(ex.rootRets) == 0 {
		ex.notes = append(ex.notes, "function never returns normally")
	}
	_, rts := ex.fnTypes(fn)
	for ri, r := range ex.rootRets {
		lin := ex.linOld(r.st)
		renv := &Env{ex: ex, names: map[string]SV{}, st: r.st, old: lin, ctr0: b.Const("ctr0", SInt), up: env}
		for i, v := range r.vals {
			if i < len(con.results) {
				renv.names[con.results[i]] = SV{v: v, t: rts[i]}
			}
		}
		for _, c := range con.clauses {
			if c.kind != "ensures" {
				continue
			}
			pr := c.props
			if len(c.metas) > 0 {
				ex.assert(r.reach, "ensures", c.label, pr, r.pos, c.text, ex.someIter(renv, c))
				continue
			}
			ex.assert(r.reach, "ensures", c.label, pr, r.pos, c.text, ex.Bool(renv, c.e))
		}
		ex.exitFrame(env, lin, r, ri)
		for _, nm := range con.optv["closure"] {
			ex.later(con, nm, renv, r)
		}
		for _, k := range []string{"now", "fmtn"} {
			if con.opts["keep_"+k] {
				ex.assert(r.reach, "frame", "keep_"+k, nil, r.pos, "no effect on "+k, b.Eq(r.st.get(ex, k), ex.entry.get(ex, k)))
			}
		}
		held := r.st.get(ex, "held")
		h0 := ex.entry.get(ex, "held")
		if held != h0 {
			m := b.Fresh("mtx", SRef)
			ex.assert(r.reach, "lock", "locks_balanced", nil, r.pos, "every lock taken is released on return", b.Eq(b.Select(held, m), b.Select(h0, m)))
		}
	}
	return nil
}

// someIter: the clause holds of one of the map iterations of the function, or
// of one of the values of that type its callees returned
func (ex *Exec) someIter(renv *Env, c *Clause) *Term {
	var its []*IterInfo
	for _, it := range ex.iters {
		its = append(its, it)
	}
	sort.Slice(its, func(i, j int) bool { return its[i].ref.name < its[j].ref.name })
	out := ex.b.False
	var cands []SV
	if c.metas[0].typ == "iter" {
		for _, it := range its {
			cands = append(cands, SV{it: it})
		}
	} else {
		for _, r := range ex.results {
			if tstr(r.t) == c.metas[0].typ {
				cands = append(cands, r)
			}
		}
	}
	for _, cand := range cands {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(specErr); !ok {
						panic(r)
					}
				}
			}()
			env := &Env{ex: ex, names: map[string]SV{c.metas[0].name: cand}, st: renv.st, old: renv.old, ctr0: renv.ctr0, up: renv}
			out = ex.b.Or(out, ex.Bool(env, c.e))
		}()
	}
	return out
}

// later: what the function value returned as result nm does when it is called
// some time after the return. Ghost state is arbitrary by then; old() in a
// later clause is the state just before that call.
func (ex *Exec) later(con *Contract, nm string, renv *Env, r retInfo) {
	b := ex.b
	parts := strings.Split(nm, ".")
	nx := &Ex{op: "ident", name: parts[0]}
	for _, f := range parts[1:] {
		nx = &Ex{op: "field", name: f, args: []*Ex{nx}}
	}
	fsv := renv.eval(nx)
	ft := renv.term(fsv)
	sig := fsv.t.Underlying().(*types.Signature)
	st := r.st.clone()
	for k, v := range st.h {
		if strings.HasPrefix(k, "g:") {
			st.set(k, b.Fresh("later@"+k, v.sort))
		}
	}
	for _, c := range con.clauses {
		if c.kind == "between" {
			for _, x := range c.list {
				for _, l := range ex.locs(renv, x) {
					ex.havocLoc(st, l, b.True)
				}
			}
		}
	}
	before := st.clone()
	args := []Val{}
	names := map[string]SV{}
	for k, v := range renv.names {
		names[k] = v
	}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		a := b.Fresh("later@"+p.Name(), ex.ty.Sort(p.Type()))
		ex.wf(r.reach, st, a, p.Type(), 0)
		args = append(args, a)
		names[fmt.Sprintf("a%d", i)] = SV{v: a, t: p.Type()}
	}
	env := &Env{ex: ex, names: names, st: before, old: before, ctr0: before.get(ex, "ctr"), up: renv.up}
	reach := r.reach
	for _, c := range con.clauses {
		if c.kind == "assume" && len(con.optv["then"]) == 0 {
			ex.assume(reach, ex.Bool(env, c.e))
		}
	}
	ex.laterEnv = env
	defer func() { ex.laterEnv = nil }()
	outs, ns, rr := ex.callLater(ft, args, st, reach)
	for i, o := range outs {
		names[fmt.Sprintf("r%d", i)] = SV{v: o, t: sig.Results().At(i).Type()}
	}
	// ... and then a method of its result
	for _, m := range con.optv["then"] {
		rv := outs[0].(*Term)
		if !boxed(rv) || rv.op != "app" {
			panic(unsupported("method of an unknown result"))
		}
		var dt types.Type
		for _, t := range ex.ty.tagType {
			if boxName(t) == rv.name {
				dt = t
			}
		}
		fn := ex.P.prog.LookupMethod(dt, ex.anyPkg(dt), m)
		if fn == nil {
			panic(unsupported("no method %s", m))
		}
		before = ns.clone()
		as := []Val{rv.args[0]}
		ps, rs := sigTypes(fn.Signature, nil)
		for i, t := range ps {
			a := b.Fresh("then@"+fmt.Sprint(i), ex.ty.Sort(t))
			ex.wf(rr, ns, a, t, 0)
			as = append(as, a)
			names[fmt.Sprintf("b%d", i)] = SV{v: a, t: t}
		}
		env.st, env.old, env.ctr0 = before, before, before.get(ex, "ctr")
		for _, c := range con.clauses {
			if c.kind == "assume" {
				ex.assume(rr, ex.Bool(env, c.e))
			}
		}
		fr := &Frame{fn: ex.root, vals: map[ssa.Value]Val{}, iters: map[ssa.Value]*IterInfo{}}
		var o2 []Val
		o2, ns, rr = ex.callFn(fr, fn, as, nil, ns, rr, ex.root.Pos(), "then")
		for i, o := range o2 {
			names[fmt.Sprintf("s%d", i)] = SV{v: o, t: rs[i]}
		}
	}
	env2 := &Env{ex: ex, names: names, st: ns, old: before, ctr0: before.get(ex, "ctr"), up: renv.up}
	for _, c := range con.clauses {
		if c.kind == "later" {
			ex.assert(rr, "later", c.label, c.props, r.pos, "when "+nm+" is called: "+c.text, ex.Bool(env2, c.e))
		}
	}
}

func (ex *Exec) callLater(ft *Term, args []Val, st *State, reach *Term) ([]Val, *State, *Term) {
	if ft.op == "ite" {
		r1, s1, c1 := ex.callLater(ft.args[1], args, st.clone(), ex.b.And(reach, ft.args[0]))
		r2, s2, c2 := ex.callLater(ft.args[2], args, st.clone(), ex.b.And(reach, ex.b.Not(ft.args[0])))
		m, rr := ex.merge([]edge{{cond: c1, st: s1}, {cond: c2, st: s2}})
		var out []Val
		for i := range r1 {
			out = append(out, ex.iteVal(ft.args[0], r1[i], r2[i]))
		}
		return out, m, rr
	}
	cl := ex.closure[ft.name]
	if ft.op != "const" || cl == nil {
		panic(unsupported("returned function value is not a closure of this function"))
	}
	fr := &Frame{fn: ex.root, vals: map[ssa.Value]Val{}, iters: map[ssa.Value]*IterInfo{}}
	return ex.callFn(fr, cl.fn, append(cl.recvArgs(), args...), cl.binds, st, reach, ex.root.Pos(), "later")
}

func (ex *Exec) exitFrame(env *Env, old *State, r retInfo, ri int) {
	b, con := ex.b, ex.con
	if old != ex.entry {
		e := *env
		e.st, e.old = old, old
		env = &e
	}
	type ml struct {
		l    Loc
		cond *Term
	}
	var locs []ml
	for _, c := range con.clauses {
		if c.kind != "modifies" {
			continue
		}
		cond := b.True
		if c.when != nil {
			cond = ex.Bool(env, c.when)
		}
		for _, x := range c.list {
			for _, l := range ex.locs(env, x) {
				locs = append(locs, ml{l, cond})
			}
		}
	}
	var keys []string
	for k := range r.st.h {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		switch k {
		case "ctr", "now", "held", "released", "iter", "epoch", "fmtn":
			continue
		}
		if strings.HasPrefix(k, "lvl") || strings.HasPrefix(k, "lin:") {
			continue
		}
		now, was := r.st.h[k], old.get(ex, k)
		if now == was {
			continue
		}
		idx, _ := splitArr(now.sort)
		x := b.Const("fr@"+idx, idx)
		conds := []*Term{}
		if idx == SRef {
			conds = append(conds, b.Lt(ex.age(x), b.Const("ctr0", SInt)), b.Ne(x, ex.ty.Nil()))
		}
		skip := false
		for _, m := range locs {
			if m.l.key != k {
				continue
			}
			if m.l.ref == nil {
				if m.cond.isTrue() {
					skip = true
				}
				conds = append(conds, b.Not(m.cond))
				continue
			}
			conds = append(conds, b.Not(b.And(m.cond, b.Eq(x, m.l.ref))))
		}
		if skip {
			continue
		}
		ex.assert(r.reach, "frame", "modifies_"+sanitize(strings.TrimLeft(k, "fcemvdlg:")), nil, r.pos, "only what the contract lists is modified ("+k+")",
			b.Implies(b.And(conds...), b.Eq(b.Select(now, x), b.Select(was, x))))
	}
}

type Verifier struct {
	P      *Prog
	solver *Solver
	debug  bool
	prop   string // only the obligations that decide this property
}

func (V *Verifier) verify(con *Contract) *FnResult {
	t0 := time.Now()
	res := &FnResult{name: con.name, con: con}
	defer func() { res.dur = time.Since(t0) }()
	fn := V.P.fns[con.name]
	if fn == nil && con.kind != "lemma" {
		res.missing = true
		res.err = "function " + con.name + " not found in the source"
		return res
	}
	loops := map[string]*loopInfo{}
	dropped := map[string]bool{}
	keySort := map[string]string{}
	var ex *Exec
	for round := 0; ; round++ {
		if round > 60 {
			res.err = "loop analysis did not stabilise"
			return res
		}
		for _, l := range loops {
			for _, m := range l.mods {
				m.seen = nil
			}
		}
		ex = newExec(V.P, con, fn, loops, dropped, keySort)
		err := ex.runFn()
		if err != nil {
			if se, ok := err.(specErr); ok {
				res.specErr = se.msg
			}
			res.err = err.Error()
			return res
		}
		if ex.restart || prune(loops) {
			continue
		}
		// candidates
		var cs []*Obl
		for _, o := range ex.obls {
			if o.cand != "" && !o.trivial {
				cs = append(cs, o)
			}
		}
		res.rounds++
		if len(cs) > 0 {
			V.solver.solveAll(ex, cs, true)
			bad := 0
			for _, o := range cs {
				if o.status == "" {
					if !dropped[o.cand] {
						bad++
						if V.debug {
							fmt.Printf("  drop %s  (%s) %s\n", o.cand, o.kind, o.text)
						}
					}
					dropped[o.cand] = true
				}
			}
			if bad > 0 {
				continue
			}
		}
		break
	}
	var support []*Obl // obligations of other properties, which the facts contain
	if V.prop != "" {
		var keep []*Obl
		for _, o := range ex.obls {
			if o.cand != "" || counts(con, o, V.prop) {
				keep = append(keep, o)
			} else if !o.trivial {
				support = append(support, o)
			}
		}
		ex.obls = keep
	}
	var rest []*Obl
	for _, o := range ex.obls {
		if o.cand == "" && !o.trivial {
			rest = append(rest, o)
		}
	}
	V.solver.solveAll(ex, append(append([]*Obl(nil), rest...), support...), false)
	res.support = len(support)
	// What was proved under an obligation of another property that fails is
	// not proved: it is proved again without.
	without := map[int]bool{}
	names := ""
	for _, o := range support {
		if o.status == "" && o.fact >= 0 {
			without[o.fact] = true
			names += " " + o.kind + ":" + o.label + " (" + strings.Join(o.props, ",") + ")"
		}
	}
	if len(without) > 0 {
		var again, of []*Obl
		for _, o := range ex.obls {
			if o.status == "" || o.trivial {
				continue
			}
			hit := false
			for i := range without {
				hit = hit || i < o.nfacts
			}
			if hit {
				c := *o
				c.status, c.out, c.without = "", "", without
				again, of = append(again, &c), append(of, o)
			}
		}
		V.solver.solveAll(ex, again, false)
		for i, o := range again {
			if o.status == "" {
				of[i].status = ""
				of[i].out = "discharged only under the undischarged" + names + "; " + o.out
			}
		}
	}
	// vacuity: the precondition must not be contradictory
	vac := &Obl{kind: "vacuity", label: "precondition_satisfiable", goal: ex.b.False, nfacts: ex.entryFacts, fn: con.name, text: "the precondition and the axioms are not contradictory"}
	V.solver.solveAll(ex, []*Obl{vac}, true)
	if vac.status != "" {
		vac.status = ""
		vac.out = "contradictory"
		ex.obls = append(ex.obls, vac)
	} else {
		vac.status = "not refuted"
	}
	var vs []*Obl
	seen := map[string]bool{}
	for _, p := range ex.vac {
		if k := fmt.Sprint(p.what, p.n1); seen[k] || p.reach.isFalse() {
			continue
		} else {
			seen[k] = true
		}
		vs = append(vs, &Obl{kind: "vacuity", goal: ex.b.Not(p.reach), nfacts: p.n1, nbefore: p.n0, fn: con.name, text: p.what})
	}
	V.solver.solveAll(ex, vs, true)
	for _, v := range vs {
		if v.status == "" {
			res.vacOK++
			continue
		}
		w := &Obl{kind: "vacuity", goal: v.goal, nfacts: v.nbefore, fn: con.name}
		V.solver.solveAll(ex, []*Obl{w}, false)
		if w.status == "" {
			ex.obls = append(ex.obls, &Obl{kind: "vacuity", label: "consistent", goal: ex.b.False, fn: con.name, text: "facts assumed at " + v.text + " are consistent", out: "contradictory"})
		}
	}
	if len(ex.rootRets) > 0 {
		alive := false
		var al []*Obl
		for _, r := range ex.rootRets {
			al = append(al, &Obl{kind: "vacuity", goal: ex.b.Not(r.reach), nfacts: len(ex.facts), fn: con.name})
		}
		V.solver.solveAll(ex, al, true)
		for _, v := range al {
			if v.status == "" {
				alive = true
			}
		}
		bad := len(without) > 0
		for _, o := range ex.obls {
			if o.status == "" {
				bad = true
			}
		}
		if !alive && !bad {
			ex.obls = append(ex.obls, &Obl{kind: "vacuity", label: "some_return_reachable", goal: ex.b.False, fn: con.name, text: "some return is reachable", out: "all returns unreachable"})
		}
	}
	n := map[string]int{}
	for _, o := range ex.obls {
		base := o.kind
		if o.label != "" {
			base += ":" + o.label
		}
		n[base]++
		o.name = fmt.Sprintf("%s/%s", con.name, base)
		if n[base] > 1 {
			o.name += fmt.Sprintf("#%d", n[base])
		}
		res.solveMs += o.ms
	}
	res.obls = ex.obls
	res.calls = sortedKeys(ex.calls)
	res.inlined = sortedKeys(ex.inlined)
	res.trusted = sortedKeys(ex.trusted)
	res.notes = ex.notes
	res.spawned = ex.spawned
	keep := map[string]bool{}
	for _, o := range ex.obls {
		if o.cand != "" {
			keep[o.text] = true
		}
	}
	res.kept = sortedKeys(keep)
	res.ncands = len(dropped) + len(keep)
	return res
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = types.Typ

// unwind: a call panicked in state st. The deferred functions of all frames run,
// and what the contract promises for that case holds.
func (ex *Exec) unwind(fr *Frame, st *State, reach *Term, pos token.Pos) {
	any := false
	for _, c := range ex.con.clauses {
		any = any || c.kind == "unwinds"
	}
	if !any {
		return
	}
	sv := ex.active
	ex.active = nil
	ns := st.clone()
	for f := fr; f != nil; f = f.parent {
		reach = ex.runDefers(f, ns, reach)
	}
	ex.active = sv
	env := ex.rootEnv
	if ex.laterEnv != nil {
		env = ex.laterEnv
	}
	env2 := &Env{ex: ex, names: env.names, st: ns, old: env.old, ctr0: env.ctr0, up: env.up}
	for _, c := range ex.con.clauses {
		if c.kind == "unwinds" {
			ex.assert(reach, "unwinds", c.label, c.props, pos, "if the call panics: "+c.text, ex.Bool(env2, c.e))
		}
	}
}
