package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

const (
	SBool  = "Bool"
	SInt   = "Int"
	SRef   = "Ref"
	SStr   = "Str"
	SSlice = "Slice"
	SIface = "Iface"
	SFunc  = "Func"
	SFlt   = "Flt"
	SBV8   = "(_ BitVec 8)"
)

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// splitArr returns the key and value sorts of an array sort.
func splitArr(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic(unsupported("not an array sort: %s", s))
	}
	body := s[len("(Array ") : len(s)-1]
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

type Term struct {
	op    string
	name  string // for const / literal text
	args  []*Term
	sort  string
	id    int
	stamp int            // creation stamp of the newest havoc constant inside
	fv    map[*Term]bool // free bound variables
	qvars []*Term
	pats  [][]*Term
	ival  *big.Int
}

func (t *Term) String() string { return t.render(nil) }

func (t *Term) isInt() bool   { return t.op == "int" }
func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }

type TB struct { // term bank
	tab     map[string]*Term
	n       int
	clock   int
	decls   []string          // ordered declarations (consts & funs)
	declSet map[string]string // name -> declaration text
	True    *Term
	False   *Term
	strlits map[string]*Term
	fresh   map[string]int
}

func newTB() *TB {
	b := &TB{tab: map[string]*Term{}, declSet: map[string]string{}, strlits: map[string]*Term{}, fresh: map[string]int{}}
	b.True = b.mk("true", "true", SBool, nil)
	b.False = b.mk("false", "false", SBool, nil)
	return b
}

func (b *TB) mk(op, name, srt string, args []*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := b.tab[k]; ok {
		return t
	}
	b.n++
	t := &Term{op: op, name: name, args: args, sort: srt, id: b.n}
	for _, a := range args {
		if a.stamp > t.stamp {
			t.stamp = a.stamp
		}
		for v := range a.fv {
			if t.fv == nil {
				t.fv = map[*Term]bool{}
			}
			t.fv[v] = true
		}
	}
	b.tab[k] = t
	return t
}

// Declare a constant.
func (b *TB) Const(name, srt string) *Term {
	name = sanitize(name)
	if _, ok := b.declSet[name]; !ok {
		d := fmt.Sprintf("(declare-fun %s () %s)", name, srt)
		b.declSet[name] = d
		b.decls = append(b.decls, d)
	}
	return b.mk("const", name, srt, nil)
}

// Fresh constant, stamped with the current clock.
func (b *TB) Fresh(prefix, srt string) *Term {
	prefix = sanitize(prefix)
	b.fresh[prefix]++
	name := fmt.Sprintf("%s!%d", prefix, b.fresh[prefix])
	t := b.Const(name, srt)
	b.clock++
	t.stamp = b.clock
	return t
}

func (b *TB) Func(name string, argSorts []string, srt string) string {
	name = sanitize(name)
	if _, ok := b.declSet[name]; !ok {
		d := fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(argSorts, " "), srt)
		b.declSet[name] = d
		b.decls = append(b.decls, d)
	}
	return name
}

func (b *TB) App(fn string, srt string, args ...*Term) *Term {
	var ss []string
	for _, a := range args {
		ss = append(ss, a.sort)
	}
	fn = b.Func(fn, ss, srt)
	if len(args) == 0 {
		return b.mk("const", fn, srt, nil)
	}
	return b.mk("app", fn, srt, args)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', strings.ContainsRune("_!@#$.-+~", r):
			sb.WriteRune(r)
		case r == '*':
			sb.WriteString("~p~")
		case r == '[':
			sb.WriteString("~l~")
		case r == ']':
			sb.WriteString("~r~")
		case r == ' ':
			sb.WriteString("_")
		default:
			sb.WriteString("~")
		}
	}
	o := sb.String()
	if o == "" {
		return "x"
	}
	if o[0] >= '0' && o[0] <= '9' || o[0] == '-' || o[0] == '+' {
		o = "x" + o
	}
	return o
}

func (b *TB) BoundVar(name, srt string) *Term {
	b.fresh["bv"]++
	nm := fmt.Sprintf("%s?%d", sanitize(name), b.fresh["bv"])
	t := b.mk("bvar", nm, srt, nil)
	t.fv = map[*Term]bool{t: true}
	return t
}

func (b *TB) Int(n int64) *Term { return b.BigInt(big.NewInt(n)) }

func (b *TB) BigInt(n *big.Int) *Term {
	t := b.mk("int", n.String(), SInt, nil)
	if t.ival == nil {
		t.ival = new(big.Int).Set(n)
	}
	return t
}

func (b *TB) BV8(n int64) *Term {
	return b.mk("bvlit", fmt.Sprintf("#x%02x", n&0xff), SBV8, nil)
}

func (b *TB) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}

func (b *TB) Str(s string) *Term {
	if t, ok := b.strlits[s]; ok {
		return t
	}
	nm := fmt.Sprintf("str@%d", len(b.strlits))
	t := b.Const(nm, SStr)
	b.strlits[s] = t
	return t
}

func (b *TB) Not(x *Term) *Term {
	switch {
	case x.isTrue():
		return b.False
	case x.isFalse():
		return b.True
	case x.op == "not":
		return x.args[0]
	}
	return b.mk("not", "", SBool, []*Term{x})
}

func (b *TB) nary(op string, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if x.op == "not" && seen[x.args[0]] {
			return false
		}
		if seen[b.notIfExists(x)] && b.notIfExists(x) != nil {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.mk(op, "", SBool, out)
}

func (b *TB) notIfExists(x *Term) *Term {
	k := fmt.Sprintf("not||Bool|%d", x.id)
	return b.tab[k]
}

func (b *TB) And(xs ...*Term) *Term { return b.nary("and", b.True, b.False, xs) }

func (b *TB) Or(xs ...*Term) *Term {
	// (X and c) or (X and not c) => X
	t := b.nary("or", b.False, b.True, xs)
	if t.op == "or" {
		for i := 0; i < len(t.args); i++ {
			for j := i + 1; j < len(t.args); j++ {
				if m := b.mergeCompl(t.args[i], t.args[j]); m != nil {
					rest := []*Term{m}
					for k, a := range t.args {
						if k != i && k != j {
							rest = append(rest, a)
						}
					}
					return b.Or(rest...)
				}
			}
		}
	}
	return t
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

// mergeCompl: if p = X&c and q = X&!c (as sets), return X.
func (b *TB) mergeCompl(p, q *Term) *Term {
	ps, qs := conjuncts(p), conjuncts(q)
	inP := map[*Term]bool{}
	for _, x := range ps {
		inP[x] = true
	}
	inQ := map[*Term]bool{}
	for _, x := range qs {
		inQ[x] = true
	}
	var dp, dq []*Term
	for _, x := range ps {
		if !inQ[x] {
			dp = append(dp, x)
		}
	}
	for _, x := range qs {
		if !inP[x] {
			dq = append(dq, x)
		}
	}
	if len(dp) == 0 {
		return p // p subset => q stronger => p or q = p
	}
	if len(dq) == 0 {
		return q
	}
	if len(dp) == 1 && len(dq) == 1 && b.Not(dp[0]) == dq[0] {
		var common []*Term
		for _, x := range ps {
			if inQ[x] {
				common = append(common, x)
			}
		}
		return b.And(common...)
	}
	// single-difference on one side: (X & c) or (X & !c & D) => X & (c or D) : keep simple
	if len(dp) == 1 && len(dq) > 1 {
		for i, d := range dq {
			if d == b.Not(dp[0]) {
				rest := append(append([]*Term{}, dq[:i]...), dq[i+1:]...)
				var common []*Term
				for _, x := range ps {
					if inQ[x] {
						common = append(common, x)
					}
				}
				return b.And(append(common, b.Or(dp[0], b.And(rest...)))...)
			}
		}
	}
	return nil
}

func (b *TB) Implies(p, q *Term) *Term {
	if p.isTrue() {
		return q
	}
	if p.isFalse() || q.isTrue() || p == q {
		return b.True
	}
	if q.isFalse() {
		return b.Not(p)
	}
	return b.mk("=>", "", SBool, []*Term{p, q})
}

func (b *TB) Ite(c, x, y *Term) *Term {
	if c.isTrue() || x == y {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("ite sort mismatch %s vs %s", x.sort, y.sort))
	}
	if x.sort == SBool {
		if x.isTrue() {
			return b.Or(c, y)
		}
		if x.isFalse() {
			return b.And(b.Not(c), y)
		}
		if y.isTrue() {
			return b.Or(b.Not(c), x)
		}
		if y.isFalse() {
			return b.And(c, x)
		}
	}
	if c.op == "not" {
		return b.Ite(c.args[0], y, x)
	}
	// merge constructors
	if x.op == "ctor" && y.op == "ctor" && x.name == y.name {
		as := make([]*Term, len(x.args))
		for i := range as {
			as[i] = b.Ite(c, x.args[i], y.args[i])
		}
		return b.Ctor(x.name, x.sort, as...)
	}
	if x.op == "ite" && x.args[0] == c {
		return b.Ite(c, x.args[1], y)
	}
	if y.op == "ite" && y.args[0] == c {
		return b.Ite(c, x, y.args[2])
	}
	return b.mk("ite", "", x.sort, []*Term{c, x, y})
}

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.sort != y.sort {
		panic(unsupported("eq sort mismatch %s vs %s: %s = %s", x.sort, y.sort, x, y))
	}
	if x.op == "int" && y.op == "int" {
		return b.Bool(x.ival.Cmp(y.ival) == 0)
	}
	if x.op == "bvlit" && y.op == "bvlit" {
		return b.Bool(x.name == y.name)
	}
	if x.sort == SBool {
		if x.isTrue() {
			return y
		}
		if y.isTrue() {
			return x
		}
		if x.isFalse() {
			return b.Not(y)
		}
		if y.isFalse() {
			return b.Not(x)
		}
	}
	if x.op == "ctor" && y.op == "ctor" && x.name == y.name {
		var cs []*Term
		for i := range x.args {
			cs = append(cs, b.Eq(x.args[i], y.args[i]))
		}
		return b.And(cs...)
	}
	if x.op == "app" && y.op == "app" && strings.HasPrefix(x.name, "box@") && strings.HasPrefix(y.name, "box@") {
		if x.name == y.name {
			return b.Eq(x.args[0], y.args[0])
		}
		return b.False
	}
	if x.op == "const" && x.name == "str" || x.id > y.id {
		x, y = y, x
	}
	return b.mk("=", "", SBool, []*Term{x, y})
}

func (b *TB) Ne(x, y *Term) *Term { return b.Not(b.Eq(x, y)) }

// linear sums: represented as "+" nary with int literal last, scaled terms as "*" lit t.
func (b *TB) linAdd(coef map[*Term]*big.Int, order *[]*Term, c *big.Int, t *Term, k *big.Int) {
	switch {
	case t.op == "int":
		c.Add(c, new(big.Int).Mul(k, t.ival))
	case t.op == "+":
		for _, a := range t.args {
			b.linAdd(coef, order, c, a, k)
		}
	case t.op == "*" && t.args[0].op == "int":
		b.linAdd(coef, order, c, t.args[1], new(big.Int).Mul(k, t.args[0].ival))
	default:
		if _, ok := coef[t]; !ok {
			coef[t] = new(big.Int)
			*order = append(*order, t)
		}
		coef[t].Add(coef[t], k)
	}
}

func (b *TB) sum(ts []*Term, ks []int64) *Term {
	coef := map[*Term]*big.Int{}
	var order []*Term
	c := new(big.Int)
	for i, t := range ts {
		b.linAdd(coef, &order, c, t, big.NewInt(ks[i]))
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var out []*Term
	for _, t := range order {
		k := coef[t]
		if k.Sign() == 0 {
			continue
		}
		if k.IsInt64() && k.Int64() == 1 {
			out = append(out, t)
		} else {
			out = append(out, b.mk("*", "", SInt, []*Term{b.BigInt(k), t}))
		}
	}
	if len(out) == 0 {
		return b.BigInt(c)
	}
	if c.Sign() != 0 {
		out = append(out, b.BigInt(c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.mk("+", "", SInt, out)
}

func (b *TB) Add(x, y *Term) *Term { return b.sum([]*Term{x, y}, []int64{1, 1}) }
func (b *TB) Sub(x, y *Term) *Term { return b.sum([]*Term{x, y}, []int64{1, -1}) }
func (b *TB) Neg(x *Term) *Term    { return b.sum([]*Term{x}, []int64{-1}) }

func (b *TB) Mul(x, y *Term) *Term {
	if y.op == "int" {
		x, y = y, x
	}
	if x.op == "int" {
		if y.op == "int" {
			return b.BigInt(new(big.Int).Mul(x.ival, y.ival))
		}
		if x.ival.IsInt64() {
			return b.sum([]*Term{y}, []int64{x.ival.Int64()})
		}
	}
	return b.mk("*", "", SInt, []*Term{x, y})
}

func (b *TB) Le(x, y *Term) *Term {
	d := b.Sub(y, x)
	if d.op == "int" {
		return b.Bool(d.ival.Sign() >= 0)
	}
	return b.mk("<=", "", SBool, []*Term{x, y})
}
func (b *TB) Lt(x, y *Term) *Term {
	d := b.Sub(y, x)
	if d.op == "int" {
		return b.Bool(d.ival.Sign() > 0)
	}
	return b.Not(b.Le(y, x))
}
func (b *TB) Ge(x, y *Term) *Term { return b.Le(y, x) }
func (b *TB) Gt(x, y *Term) *Term { return b.Lt(y, x) }

// Ctor builds a datatype constructor application.
func (b *TB) Ctor(name, srt string, args ...*Term) *Term {
	// eta: mk(sel0(x), sel1(x), ...) = x
	if len(args) > 0 && args[0].op == "sel" && strings.HasPrefix(args[0].name, name+".0.") {
		x := args[0].args[0]
		ok := x.sort == srt
		for i, a := range args {
			if a.op != "sel" || a.args[0] != x || !strings.HasPrefix(a.name, fmt.Sprintf("%s.%d.", name, i)) {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return b.mk("ctor", name, srt, args)
}

// Sel is a datatype selector; name must be "<ctor>.<i>.<field>".
func (b *TB) Sel(ctor string, i int, field, srt string, x *Term) *Term {
	if x.op == "ctor" && x.name == ctor {
		return x.args[i]
	}
	if x.op == "ite" {
		l, r := x.args[1], x.args[2]
		if l.op == "ctor" || r.op == "ctor" || l.op == "ite" || r.op == "ite" {
			return b.Ite(x.args[0], b.Sel(ctor, i, field, srt, l), b.Sel(ctor, i, field, srt, r))
		}
	}
	return b.mk("sel", fmt.Sprintf("%s.%d.%s", ctor, i, field), srt, []*Term{x})
}

func (b *TB) Select(a, i *Term) *Term {
	_, v := splitArr(a.sort)
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if b.distinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
			if k := a.args[1]; k.sort == SStr && k.op == "const" && strings.HasPrefix(k.name, "str@") {
				return b.Ite(b.Eq(i, k), a.args[2], b.Select(a.args[0], i))
			}
			break
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		if a.op == "ite" {
			l, r := a.args[1], a.args[2]
			if storeish(l) || storeish(r) {
				return b.Ite(a.args[0], b.Select(l, i), b.Select(r, i))
			}
		}
		break
	}
	return b.mk("select", "", v, []*Term{a, i})
}

func storeish(t *Term) bool { return t.op == "store" || t.op == "ite" || t.op == "constarr" }

// distinct: syntactically known distinct.
func (b *TB) distinct(x, y *Term) bool {
	if x == y {
		return false
	}
	if x.sort == SInt {
		d := b.Sub(x, y)
		return d.op == "int" && d.ival.Sign() != 0
	}
	if x.sort == SStr && x.op == "const" && y.op == "const" && strings.HasPrefix(x.name, "str@") && strings.HasPrefix(y.name, "str@") {
		return true
	}
	if x.sort == SRef {
		// fresh allocation versus anything older
		fx, fy := strings.HasPrefix(x.name, "new@") && x.op == "const", strings.HasPrefix(y.name, "new@") && y.op == "const"
		if fx && fy {
			return true
		}
		if fx && y.stamp < x.stamp || fy && x.stamp < y.stamp {
			return true
		}
	}
	return false
}

func (b *TB) Store(a, i, v *Term) *Term {
	_, vs := splitArr(a.sort)
	if v.sort != vs {
		panic(unsupported("store sort mismatch: array %s value %s (%s)", a.sort, v.sort, v))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return b.mk("store", "", a.sort, []*Term{a, i, v})
}

func (b *TB) ConstArr(srt string, v *Term) *Term {
	return b.mk("constarr", "", srt, []*Term{v})
}

func (b *TB) Op(op, srt string, args ...*Term) *Term { return b.mk(op, "", srt, args) }

func (b *TB) quant(q string, vars []*Term, pats [][]*Term, body *Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	used := false
	for _, v := range vars {
		if body.fv[v] {
			used = true
		}
	}
	if !used {
		return body
	}
	var sb strings.Builder
	sb.WriteString(q)
	for _, v := range vars {
		fmt.Fprintf(&sb, "|v%d", v.id)
	}
	for _, p := range pats {
		sb.WriteString("|p")
		for _, t := range p {
			fmt.Fprintf(&sb, ",%d", t.id)
		}
	}
	fmt.Fprintf(&sb, "|b%d", body.id)
	if t, ok := b.tab[sb.String()]; ok {
		return t
	}
	b.n++
	t := &Term{op: q, args: []*Term{body}, sort: SBool, id: b.n, qvars: vars, pats: pats, stamp: body.stamp}
	for v := range body.fv {
		drop := false
		for _, q := range vars {
			if q == v {
				drop = true
			}
		}
		if !drop {
			if t.fv == nil {
				t.fv = map[*Term]bool{}
			}
			t.fv[v] = true
		}
	}
	b.tab[sb.String()] = t
	return t
}

func (b *TB) Forall(vars []*Term, pats [][]*Term, body *Term) *Term {
	return b.quant("forall", vars, pats, body)
}
func (b *TB) Exists(vars []*Term, body *Term) *Term { return b.quant("exists", vars, nil, body) }

// Subst replaces bound variables (or any terms) by others.
func (b *TB) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if t.op == "forall" || t.op == "exists" {
			np := make([][]*Term, len(t.pats))
			for i, p := range t.pats {
				for _, x := range p {
					y := rec(x)
					if y != x {
						ch = true
					}
					np[i] = append(np[i], y)
				}
			}
			if ch {
				r = b.quant(t.op, t.qvars, np, na[0])
			}
		} else if ch {
			r = b.rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (b *TB) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return b.Not(a[0])
	case "and":
		return b.And(a...)
	case "or":
		return b.Or(a...)
	case "=>":
		return b.Implies(a[0], a[1])
	case "ite":
		return b.Ite(a[0], a[1], a[2])
	case "=":
		return b.Eq(a[0], a[1])
	case "+":
		ks := make([]int64, len(a))
		for i := range ks {
			ks[i] = 1
		}
		return b.sum(a, ks)
	case "*":
		return b.Mul(a[0], a[1])
	case "<=":
		return b.Le(a[0], a[1])
	case "select":
		return b.Select(a[0], a[1])
	case "store":
		return b.Store(a[0], a[1], a[2])
	case "ctor":
		return b.Ctor(t.name, t.sort, a...)
	case "sel":
		parts := strings.SplitN(t.name, ".", -1)
		_ = parts
		// name is "<ctor>.<i>.<field>"; ctor contains no dots (sanitized separately)
		ix := strings.Index(t.name, ".")
		rest := t.name[ix+1:]
		iy := strings.Index(rest, ".")
		var i int
		fmt.Sscanf(rest[:iy], "%d", &i)
		return b.Sel(t.name[:ix], i, rest[iy+1:], t.sort, a[0])
	}
	return b.mk(t.op, t.name, t.sort, a)
}

// ---- rendering ----

func (t *Term) head() string {
	switch t.op {
	case "const", "bvar", "bvlit", "true", "false":
		return t.name
	case "int":
		if t.ival.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.ival).String() + ")"
		}
		return t.name
	}
	return ""
}

// render prints the term; defs maps shared closed subterms to names.
func (t *Term) render(defs map[*Term]string) string {
	var sb strings.Builder
	t.write(&sb, defs, true)
	return sb.String()
}

func (t *Term) write(sb *strings.Builder, defs map[*Term]string, top bool) {
	if !top {
		if n, ok := defs[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	if h := t.head(); h != "" {
		sb.WriteString(h)
		return
	}
	switch t.op {
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for i, v := range t.qvars {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString("(" + v.name + " " + v.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
			t.args[0].write(sb, defs, false)
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					x.write(sb, defs, false)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		} else {
			t.args[0].write(sb, defs, false)
		}
		sb.WriteString(")")
		return
	case "constarr":
		sb.WriteString("((as const " + t.sort + ") ")
		t.args[0].write(sb, defs, false)
		sb.WriteString(")")
		return
	case "ctor":
		if len(t.args) == 0 {
			sb.WriteString(t.name)
			return
		}
	}
	op := t.op
	if op == "app" || op == "ctor" || op == "sel" {
		op = t.name
	}
	sb.WriteString("(" + op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.write(sb, defs, false)
	}
	sb.WriteString(")")
}

// shareDefs computes definitions for closed subterms used more than once.
func shareDefs(roots []*Term) (order []*Term, defs map[*Term]string) {
	uses := map[*Term]int{}
	var post []*Term
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		uses[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				visit(x)
			}
		}
		post = append(post, t)
	}
	for _, r := range roots {
		visit(r)
	}
	defs = map[*Term]string{}
	for _, t := range post {
		if uses[t] > 1 && len(t.args) > 0 && len(t.fv) == 0 {
			defs[t] = fmt.Sprintf("d!%d", t.id)
			order = append(order, t)
		}
	}
	return
}

type unsupportedErr struct{ msg string }

func (e unsupportedErr) Error() string { return e.msg }
func unsupported(f string, a ...any) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, a...)}
}
