package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Lock order. Every monitor has a level; a goroutine may take a lock only
// while all locks it holds have lower levels. The level of a function is the
// lowest level of a lock it may take, over everything it may call (class
// hierarchy analysis within the repository; calls through interfaces reach
// every implementation in the repository, calls of function values every
// function of that type whose value is used).

const noLevel = 1 << 20

type levels struct {
	of      map[*ssa.Function]int
	byIface func(c *ssa.CallCommon) []*ssa.Function
	bySig   func(sig *types.Signature) []*ssa.Function
}

func (P *Prog) lockLevels() *levels {
	if P.lv != nil {
		return P.lv
	}
	all := ssautil.AllFunctions(P.prog)
	var fns []*ssa.Function
	for f := range all {
		if f.Blocks != nil && (P.inRepo(f) || f.Synthetic != "") {
			fns = append(fns, f)
		}
	}
	lv := &levels{of: map[*ssa.Function]int{}}
	P.lv = lv
	// concrete types of the repository
	var concrete []types.Type
	for _, t := range P.prog.RuntimeTypes() {
		d := t
		if p, ok := d.(*types.Pointer); ok {
			d = p.Elem()
		}
		if n, ok := types.Unalias(d).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && !types.IsInterface(t) {
			concrete = append(concrete, t)
		}
	}
	lv.byIface = func(c *ssa.CallCommon) []*ssa.Function {
		it, ok := c.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		var out []*ssa.Function
		for _, t := range concrete {
			if types.Implements(t, it) {
				if m := P.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil {
					out = append(out, m)
				}
			}
		}
		return out
	}
	// functions whose value is used other than by calling it
	taken := map[*ssa.Function]bool{}
	for _, f := range fns {
		for _, blk := range f.Blocks {
			for _, ins := range blk.Instrs {
				var callee ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee {
						taken[g] = true
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					taken[mc.Fn.(*ssa.Function)] = true
				}
			}
		}
	}
	lv.bySig = func(sig *types.Signature) []*ssa.Function {
		var out []*ssa.Function
		for g := range taken {
			if types.Identical(types.NewSignatureType(nil, nil, nil, g.Signature.Params(), g.Signature.Results(), g.Signature.Variadic()), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
				out = append(out, g)
			}
		}
		return out
	}
	edges := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fns {
		lv.of[f] = noLevel
		for _, blk := range f.Blocks {
			for _, ins := range blk.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && !onlyReturned(mc) {
					edges[f] = append(edges[f], mc.Fn.(*ssa.Function))
				}
				if _, ok := ins.(*ssa.Go); ok {
					continue
				}
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				if g := c.StaticCallee(); g != nil {
					if l := P.lockOf(c, g); l != 0 && l < lv.of[f] {
						lv.of[f] = l
					}
					edges[f] = append(edges[f], g)
				} else if c.IsInvoke() {
					edges[f] = append(edges[f], lv.byIface(c)...)
				} else if _, ok := c.Value.(*ssa.Builtin); !ok {
					edges[f] = append(edges[f], lv.bySig(c.Signature())...)
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			for _, g := range edges[f] {
				if l, ok := lv.of[g]; ok && l < lv.of[f] {
					lv.of[f] = l
					changed = true
				}
			}
		}
	}
	return lv
}

// onlyReturned: the closure is handed out or stored, not run by its maker.
func onlyReturned(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		switch r := r.(type) {
		case *ssa.Return, *ssa.DebugRef, *ssa.Go:
		case *ssa.ChangeType:
			for _, q := range *r.Referrers() {
				switch q.(type) {
				case *ssa.Return, *ssa.DebugRef:
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// lockOf: level of the lock taken by a call of Lock or RLock, 0 if none.
func (P *Prog) lockOf(c *ssa.CallCommon, g *ssa.Function) int {
	switch g.RelString(nil) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).TryLock":
	default:
		return 0
	}
	fa, ok := c.Args[0].(*ssa.FieldAddr)
	if !ok {
		return 0
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	m := P.monitorOf(t)
	if m == nil || t.Underlying().(*types.Struct).Field(fa.Field).Name() != m.mutex {
		return 0
	}
	return m.level
}

func (lv *levels) min(fs []*ssa.Function) int {
	l := noLevel
	for _, f := range fs {
		if x, ok := lv.of[f]; ok && x < l {
			l = x
		}
	}
	return l
}

// levelCheck: every lock held now has a level below l.
func (ex *Exec) levelCheck(l int, what string, st *State, reach *Term, p token.Pos) {
	held := st.get(ex, "held")
	if l >= noLevel || held == ex.initial("held") {
		return
	}
	b := ex.b
	m := b.Fresh("mtx", SRef)
	ex.assert(reach, "lock", "order", []string{"C22"}, p, what+" only while holding locks of lower levels", b.Or(b.Eq(b.Select(held, m), b.Int(0)), b.Lt(b.App("locklevel", SInt, m), b.Int(int64(l)))))
}

// blocking: an operation that waits for others; no lock may be held.
func (ex *Exec) blocking(what string, st *State, reach *Term, p token.Pos) {
	b := ex.b
	if ex.con != nil && ex.con.opts["nonblocking"] {
		ex.assert(reach, "block", "never_blocks", ex.con.props, p, what+" cannot be reached: the function never waits", b.False)
	}
	held := st.get(ex, "held")
	if held != ex.initial("held") {
		m := b.Fresh("mtx", SRef)
		ex.assert(reach, "lock", "no_lock_while_waiting", []string{"C22"}, p, what+" only while holding no lock", b.Eq(b.Select(held, m), b.Int(0)))
	}
	if ex.con != nil {
		for _, c := range ex.con.clauses {
			if c.kind == "waiting" {
				ex.assert(reach, "waiting", c.label, c.props, p, "when "+what+": "+c.text, ex.Bool(&Env{ex: ex, names: map[string]SV{}, st: st, old: ex.entry, ctr0: b.Const("ctr0", SInt), up: ex.rootEnv}, c.e))
			}
		}
	}
}

// touching lists the functions of the repository that read or write guarded
// state or take a monitored lock.
func (P *Prog) touching() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for f := range ssautil.AllFunctions(P.prog) {
		if f.Blocks == nil || !P.inRepo(f) || f.Synthetic != "" && f.Origin() == nil {
			continue
		}
		for _, blk := range f.Blocks {
			for _, ins := range blk.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t := fa.X.Type().Underlying().(*types.Pointer).Elem()
				m := P.monitorOf(t)
				if m == nil {
					continue
				}
				nm := t.Underlying().(*types.Struct).Field(fa.Field).Name()
				if nm == m.mutex || m.guards[nm] {
					out[f] = true
				}
			}
		}
	}
	return out
}

// autoContracts: exported functions that touch guarded state and have no
// contract get one with no pre- or postcondition, so that at least their use
// of locks is checked.
func (P *Prog) autoContracts() []*Contract {
	var out []*Contract
	seen := map[string]bool{}
	for f := range P.touching() {
		key := fnKey(f)
		if f.Parent() != nil || !token.IsExported(f.Name()) || P.db.contracts[key] != nil || seen[key] || P.fns[key] == nil {
			continue
		}
		seen[key] = true
		c := &Contract{kind: "func", name: key, props: []string{"C22"}, opts: map[string]bool{"auto": true}, optv: map[string][]string{}}
		for i := range P.fns[key].Params {
			c.params = append(c.params, "p"+strconv.Itoa(i))
		}
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}
