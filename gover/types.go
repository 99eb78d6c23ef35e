package main

// Mapping of Go types to SMT sorts, struct datatypes, zero values, type tags.

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func qual(p *types.Package) string { return p.Name() }

func tstr(t types.Type) string { return types.TypeString(types.Unalias(t), qual) }

// isOpaque: struct types the verifier does not look into.
func isOpaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	if n.Obj().Pkg().Path() == "runtime" && n.Obj().Name() == "Frame" {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "regexp", "bytes", "strings", "log", "encoding/json", "html/template", "text/tabwriter", "runtime", "runtime/trace", "embed", "math/rand", "bufio":
		return true
	}
	return false
}

// atomicSort: sort of the value held by a sync/atomic type.
func atomicSort(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync/atomic" {
		return ""
	}
	switch n.Obj().Name() {
	case "Value":
		return SIface
	case "Bool":
		return SBool
	case "Int32", "Int64", "Uint32", "Uint64", "Uintptr":
		return SInt
	case "Pointer":
		return SRef
	}
	return ""
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isStructT(t types.Type) bool {
	if isTime(t) || isOpaque(t) {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func isArrayT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// isObj: types whose storage is an object of its own (struct, array, opaque).
func isObj(t types.Type) bool { return isStructT(t) || isArrayT(t) || isOpaque(t) }

type Types struct {
	b       *TB
	structs map[string]*StructInfo
	order   []string // declaration order of datatypes
	sorts   []string // uninterpreted sorts
	sortSet map[string]bool
	tags    map[string]int
	tagType map[string]types.Type
	sortT   map[string]types.Type
}

type StructInfo struct {
	name   string // ctor / sort name
	fields []FieldInfo
}
type FieldInfo struct {
	name string
	t    types.Type
	sort string
}

func newTypes(b *TB) *Types {
	ty := &Types{b: b, structs: map[string]*StructInfo{}, sortSet: map[string]bool{}, tags: map[string]int{}, tagType: map[string]types.Type{}, sortT: map[string]types.Type{}}
	for _, s := range []string{SRef, SStr, SIface, SFunc, SFlt} {
		ty.useSort(s)
	}
	return ty
}

func (ty *Types) useSort(s string) {
	if !ty.sortSet[s] {
		ty.sortSet[s] = true
		ty.sorts = append(ty.sorts, s)
	}
}

func (ty *Types) Sort(t types.Type) string {
	t = types.Unalias(t)
	if isTime(t) {
		return SInt
	}
	if s := atomicSort(t); s != "" {
		return s
	}
	if isOpaque(t) {
		s := sanitize("Opq@" + strings.ReplaceAll(tstr(t), ".", "@"))
		ty.useSort(s)
		return s
	}
	if tp, ok := t.(*types.TypeParam); ok {
		// numeric type parameters are integers
		if isIntTP(tp) {
			return SInt
		}
		s := sanitize("TP@" + tp.Obj().Name())
		ty.useSort(s)
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Kind() == types.Uint8:
			return SBV8
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SFlt
		case u.Kind() == types.UnsafePointer:
			return SRef
		case u.Kind() == types.UntypedNil:
			return SRef
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return SRef
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SIface
	case *types.Signature:
		return SFunc
	case *types.Struct:
		return ty.Struct(t).name
	case *types.Array:
		return arrSort(SInt, ty.Sort(u.Elem()))
	}
	panic(unsupported("type %s", t))
}

func isIntTP(tp *types.TypeParam) bool {
	iface, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	n := 0
	for i := 0; i < iface.NumEmbeddeds(); i++ {
		switch e := types.Unalias(iface.EmbeddedType(i)).(type) {
		case *types.Union:
			for j := 0; j < e.Len(); j++ {
				b, ok := e.Term(j).Type().Underlying().(*types.Basic)
				if !ok || b.Info()&types.IsInteger == 0 || b.Kind() == types.Uint8 {
					return false
				}
				n++
			}
		default:
			b, ok := e.Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 {
				return false
			}
			n++
		}
	}
	return n > 0
}

func (ty *Types) Struct(t types.Type) *StructInfo {
	key := tstr(t)
	if si, ok := ty.structs[key]; ok {
		return si
	}
	st := t.Underlying().(*types.Struct)
	nm := sanitize("St@" + strings.ReplaceAll(key, ".", "@"))
	if len(nm) > 60 {
		h := fnv.New32a()
		h.Write([]byte(key))
		nm = fmt.Sprintf("St@anon%08x", h.Sum32())
	}
	si := &StructInfo{name: nm}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		si.fields = append(si.fields, FieldInfo{name: f.Name(), t: f.Type(), sort: ty.Sort(f.Type())})
	}
	ty.structs[key] = si
	ty.order = append(ty.order, key)
	return si
}

func (ty *Types) StructVal(t types.Type, vals []*Term) *Term {
	si := ty.Struct(t)
	return ty.b.Ctor(si.name, si.name, vals...)
}

func (ty *Types) FieldOf(t types.Type, i int, x *Term) *Term {
	si := ty.Struct(t)
	return ty.b.Sel(si.name, i, sanitize(si.fields[i].name), si.fields[i].sort, x)
}

func (ty *Types) SetField(t types.Type, i int, x, v *Term) *Term {
	si := ty.Struct(t)
	vs := make([]*Term, len(si.fields))
	for j := range vs {
		if j == i {
			vs[j] = v
		} else {
			vs[j] = ty.FieldOf(t, j, x)
		}
	}
	return ty.StructVal(t, vs)
}

func (ty *Types) Zero(t types.Type) *Term {
	b := ty.b
	t = types.Unalias(t)
	if isTime(t) {
		return b.Int(0)
	}
	if s := atomicSort(t); s != "" {
		return ty.ZeroSort(s)
	}
	if isOpaque(t) {
		return b.Const("zero@"+ty.Sort(t), ty.Sort(t))
	}
	if isStructT(t) {
		si := ty.Struct(t)
		vs := make([]*Term, len(si.fields))
		for i, f := range si.fields {
			vs[i] = ty.Zero(f.t)
		}
		return ty.StructVal(t, vs)
	}
	if isArrayT(t) {
		return b.ConstArr(ty.Sort(t), ty.Zero(t.Underlying().(*types.Array).Elem()))
	}
	return ty.ZeroSort(ty.Sort(t))
}

func (ty *Types) ZeroSort(s string) *Term {
	b := ty.b
	switch s {
	case SBool:
		return b.False
	case SInt:
		return b.Int(0)
	case SBV8:
		return b.BV8(0)
	case SStr:
		return b.Str("")
	case SFlt:
		return b.Const("flt@0", SFlt)
	case SRef:
		return b.Const("nil", SRef)
	case SIface:
		return b.Const("nilI", SIface)
	case SFunc:
		return b.Const("nilF", SFunc)
	case SSlice:
		return ty.MkSlice(b.Const("nil", SRef), b.Int(0), b.Int(0), b.Int(0))
	}
	return b.Const("zero@"+s, s)
}

func (ty *Types) Nil() *Term { return ty.b.Const("nil", SRef) }

func (ty *Types) MkSlice(base, off, ln, cp *Term) *Term {
	return ty.b.Ctor("mkslice", SSlice, base, off, ln, cp)
}
func (ty *Types) SBase(s *Term) *Term { return ty.b.Sel("mkslice", 0, "base", SRef, s) }
func (ty *Types) SOff(s *Term) *Term  { return ty.b.Sel("mkslice", 1, "off", SInt, s) }
func (ty *Types) SLen(s *Term) *Term  { return ty.b.Sel("mkslice", 2, "len", SInt, s) }
func (ty *Types) SCap(s *Term) *Term  { return ty.b.Sel("mkslice", 3, "cap", SInt, s) }

// Tag returns the dynamic type tag of a concrete type.
func (ty *Types) Tag(t types.Type) *Term {
	k := tstr(t)
	id, ok := ty.tags[k]
	if !ok {
		id = len(ty.tags) + 1
		ty.tags[k] = id
		ty.tagType[k] = t
	}
	return ty.b.Int(int64(id))
}

func boxName(t types.Type) string { return sanitize("box@" + tstr(t)) }

func (ty *Types) Box(t types.Type, x *Term) *Term {
	ty.Tag(t)
	return ty.b.App(boxName(t), SIface, x)
}

func (ty *Types) Unbox(t types.Type, i *Term) *Term {
	ty.Tag(t)
	if i.op == "app" && i.name == boxName(t) {
		return i.args[0]
	}
	if i.op == "ite" {
		l, r := i.args[1], i.args[2]
		if l.op == "app" || r.op == "app" {
			return ty.b.Ite(i.args[0], ty.Unbox(t, l), ty.Unbox(t, r))
		}
	}
	ty.b.Func(boxName(t), []string{ty.Sort(t)}, SIface)
	return ty.b.App("un"+boxName(t), ty.Sort(t), i)
}

func (ty *Types) TagOf(i *Term) *Term {
	if i.op == "app" && strings.HasPrefix(i.name, "box@") {
		for k, t := range ty.tagType {
			if boxName(t) == i.name {
				return ty.b.Int(int64(ty.tags[k]))
			}
		}
	}
	if i.op == "const" && i.name == "nilI" {
		return ty.b.Int(0)
	}
	if i.op == "ite" {
		return ty.b.Ite(i.args[0], ty.TagOf(i.args[1]), ty.TagOf(i.args[2]))
	}
	return ty.b.App("tagof", SInt, i)
}

func implName(t types.Type) string { return sanitize("impl@" + tstr(t)) }

// Implements: dynamic type of i implements interface type t.
func (ty *Types) Implements(t types.Type, i *Term) *Term {
	tag := ty.TagOf(i)
	ty.sortT["impl:"+tstr(t)] = t
	if tag.isInt() {
		if tag.ival.Sign() == 0 {
			return ty.b.False
		}
		for k, id := range ty.tags {
			if int64(id) == tag.ival.Int64() {
				return ty.b.Bool(types.Implements(ty.tagType[k], t.Underlying().(*types.Interface)))
			}
		}
	}
	if t.Underlying().(*types.Interface).NumMethods() == 0 {
		return ty.b.Ne(tag, ty.b.Int(0))
	}
	return ty.b.App(implName(t), SBool, tag)
}

// Prelude renders sort, datatype and background axioms.
func (ty *Types) Prelude() string {
	var sb strings.Builder
	for _, s := range ty.sorts {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	sb.WriteString("(declare-datatypes ((Slice 0)) (((mkslice (mkslice.0.base Ref) (mkslice.1.off Int) (mkslice.2.len Int) (mkslice.3.cap Int)))))\n")
	for _, k := range ty.order {
		si := ty.structs[k]
		if len(si.fields) == 0 {
			fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s))))\n", si.name, si.name+"")
			continue
		}
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", si.name, si.name)
		for i, f := range si.fields {
			fmt.Fprintf(&sb, " (%s.%d.%s %s)", si.name, i, sanitize(f.name), f.sort)
		}
		sb.WriteString("))))\n")
	}
	return sb.String()
}

// Axioms over declared symbols (must be rendered after the declarations).
func (ty *Types) Axioms() []string {
	var out []string
	b := ty.b
	if len(b.strlits) > 1 {
		var ns []string
		for _, t := range b.strlits {
			ns = append(ns, t.name)
		}
		sort.Strings(ns)
		out = append(out, "(assert (distinct "+strings.Join(ns, " ")+"))")
	}
	has := func(n string) bool { _, ok := b.declSet[n]; return ok }
	var keys []string
	for k := range ty.tags {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		t := ty.tagType[k]
		bn := boxName(t)
		if !has(bn) {
			continue
		}
		srt := ty.Sort(t)
		if has("tagof") {
			out = append(out, fmt.Sprintf("(assert (forall ((x %s)) (! (= (tagof (%s x)) %d) :pattern ((%s x)))))", srt, bn, ty.tags[k], bn))
		}
		if has("un" + bn) {
			out = append(out, fmt.Sprintf("(assert (forall ((x %s)) (! (= (un%s (%s x)) x) :pattern ((%s x)))))", srt, bn, bn, bn))
			if has("tagof") {
				out = append(out, fmt.Sprintf("(assert (forall ((i Iface)) (! (=> (= (tagof i) %d) (= (%s (un%s i)) i)) :pattern ((un%s i)))))", ty.tags[k], bn, bn, bn))
			}
		}
	}
	// boxes are not nil
	if has("nilI") && has("tagof") {
		out = append(out, "(assert (= (tagof nilI) 0))", "(assert (forall ((i Iface)) (! (=> (= (tagof i) 0) (= i nilI)) :pattern ((tagof i)))))")
	} else if has("nilI") {
		for _, k := range keys {
			bn := boxName(ty.tagType[k])
			if has(bn) {
				out = append(out, fmt.Sprintf("(assert (forall ((x %s)) (! (not (= (%s x) nilI)) :pattern ((%s x)))))", ty.Sort(ty.tagType[k]), bn, bn))
			}
		}
	}
	for sk, it := range ty.sortT {
		if !strings.HasPrefix(sk, "impl:") || !has(implName(it)) {
			continue
		}
		out = append(out, fmt.Sprintf("(assert (not (%s 0)))", implName(it)))
		for _, k := range keys {
			v := types.Implements(ty.tagType[k], it.Underlying().(*types.Interface))
			out = append(out, fmt.Sprintf("(assert (= (%s %d) %v))", implName(it), ty.tags[k], v))
		}
	}
	return out
}

// fnKey is the name under which contracts refer to a function.
func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Parent() != nil {
		return fnKey(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star = "*"
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			nm := n.Obj().Name()
			if n.Obj().Pkg() != nil {
				nm = n.Obj().Pkg().Name() + "." + nm
			}
			return "(" + star + nm + ")." + fn.Name()
		}
		return "(" + tstr(recv.Type()) + ")." + fn.Name()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Name() + "." + fn.Name()
	}
	return fn.String()
}
