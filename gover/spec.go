package main

// Contract language: lexer, parser, and the database of contracts.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Ex struct {
	op   string // ident int str call field index slice unary binary forall exists ite star
	name string
	args []*Ex
	vars []Binder
	trig [][]*Ex
	pos  string
}

type Binder struct{ name, typ string }

func (e *Ex) String() string {
	if e == nil {
		return ""
	}
	switch e.op {
	case "ident", "int":
		return e.name
	case "str":
		return strconv.Quote(e.name)
	case "call":
		var as []string
		for _, a := range e.args {
			as = append(as, a.String())
		}
		return e.name + "(" + strings.Join(as, ", ") + ")"
	case "field":
		return e.args[0].String() + "." + e.name
	case "index":
		return e.args[0].String() + "[" + e.args[1].String() + "]"
	case "unary":
		return e.name + e.args[0].String()
	case "binary":
		return "(" + e.args[0].String() + " " + e.name + " " + e.args[1].String() + ")"
	case "ite":
		return "(" + e.args[0].String() + " ? " + e.args[1].String() + " : " + e.args[2].String() + ")"
	case "forall", "exists":
		var vs []string
		for _, v := range e.vars {
			vs = append(vs, v.name+" "+v.typ)
		}
		return "(" + e.op + " " + strings.Join(vs, ", ") + " :: " + e.args[0].String() + ")"
	}
	return "?" + e.op
}

type Clause struct {
	kind  string // requires ensures modifies inv
	props []string
	label string
	e     *Ex
	list  []*Ex    // modifies
	metas []Binder // inv metavars
	text  string
	pos   string
	when  *Ex
}

type Contract struct {
	kind    string // func extern iface functype
	name    string
	params  []string
	results []string
	props   []string
	clauses []*Clause
	opts    map[string]bool
	optv    map[string][]string
	pos     string
	used    bool
}

type Monitor struct {
	typ    string // pkg.Type
	mutex  string
	guards map[string]bool // field -> true; "buf[*]" guards elements too
	level  int
	invs   []*Clause
	props  []string
	owns   []string // types whose objects belong to the monitored object
}

type Def struct {
	name   string
	params []string
	types  []string
	ret    string
	body   *Ex
	fun    bool // emit as SMT function
	base   *Ex  // recursive on the last parameter n: value at 0; body is the value at n+1, given prev
}

type GhostField struct{ owner, name, typ string }

type Axiom struct {
	e    *Ex
	text string
}

type SpecDB struct {
	contracts map[string]*Contract // key kind-insensitive name
	ifaces    map[string]*Contract // "pkg.Iface.Method"
	functypes map[string]*Contract
	monitors  map[string]*Monitor // pkg.Type
	defs      map[string]*Def
	ghosts    map[string]*GhostField // owner.$name
	axioms    []*Axiom
	globals   map[string][]*Clause // assumed invariants on package variables
	lemmas    []*Contract
	order     []*Contract
	pure      map[string]string // extern name -> "pure" | "havoc"
}

func newSpecDB() *SpecDB {
	return &SpecDB{contracts: map[string]*Contract{}, ifaces: map[string]*Contract{}, functypes: map[string]*Contract{}, monitors: map[string]*Monitor{}, defs: map[string]*Def{}, ghosts: map[string]*GhostField{}, globals: map[string][]*Clause{}, pure: map[string]string{}}
}

func loadSpecs(dir string) *SpecDB {
	db := newSpecDB()
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		p := &parser{file: filepath.Base(f), db: db}
		p.lex(string(data))
		p.parseFile()
	}
	return db
}

type tok struct {
	k    string // id int str op eof
	s    string
	line int
	a, z int // source offsets
	col  int
}

type parser struct {
	file string
	src  string
	toks []tok
	i    int
	db   *SpecDB
}

func (p *parser) fail(f string, a ...any) {
	t := p.toks[p.i]
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, t.line, fmt.Sprintf(f, a...), t.s))
}

func (p *parser) lex(src string) {
	p.src = src
	line := 1
	ls := 0
	i := 0
	isId := func(c byte) bool {
		return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	ops := []string{"<==>", "==>", "...", "::", "==", "!=", "<=", ">=", "&&", "||", ":="}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
			ls = i
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad string", p.file, line))
			}
			p.toks = append(p.toks, tok{"str", s, line, i, j + 1, i - ls})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == '_') {
				j++
			}
			p.toks = append(p.toks, tok{"int", strings.ReplaceAll(src[i:j], "_", ""), line, i, j, i - ls})
			i = j
		case isId(c):
			j := i
			for j < len(src) && isId(src[j]) {
				j++
			}
			p.toks = append(p.toks, tok{"id", src[i:j], line, i, j, i - ls})
			i = j
		default:
			m := ""
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					m = o
					break
				}
			}
			if m == "" {
				m = string(c)
			}
			p.toks = append(p.toks, tok{"op", m, line, i, i + len(m), i - ls})
			i += len(m)
		}
	}
	p.toks = append(p.toks, tok{"eof", "", line, i, i, 0})
}

func (p *parser) peek() tok { return p.toks[p.i] }
func (p *parser) next() tok { t := p.toks[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return t.k != "str" && t.s == s && t.k != "eof"
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.i--
		p.fail("expected identifier")
	}
	return t.s
}

// rawName reads a function/type name made of tokens up to a stopper paren at depth 0.
func (p *parser) funcName() string {
	// forms: pkg.Name | (*pkg.T).Name | (pkg.T).Name | pkg.Iface.Method | interface{Free()}.Free
	var sb strings.Builder
	if p.accept("(") {
		sb.WriteString("(")
		for !p.is(")") {
			sb.WriteString(p.next().s)
		}
		p.expect(")")
		sb.WriteString(")")
	} else {
		sb.WriteString(p.ident())
	}
	for p.accept(".") || p.accept("/") {
		sb.WriteString(p.toks[p.i-1].s)
		sb.WriteString(p.ident())
	}
	return sb.String()
}

func (p *parser) typeName() string {
	var sb strings.Builder
	for {
		if p.accept("*") {
			sb.WriteString("*")
			continue
		}
		if p.accept("[") {
			p.expect("]")
			sb.WriteString("[]")
			continue
		}
		break
	}
	id := p.ident()
	sb.WriteString(id)
	if id == "map" && p.is("[") {
		p.expect("[")
		sb.WriteString("[" + p.typeName() + "]")
		p.expect("]")
		sb.WriteString(p.typeName())
		return sb.String()
	}
	if id == "struct" && p.accept("{") {
		p.expect("}")
		sb.WriteString("{}")
		return sb.String()
	}
	if id == "chan" {
		sb.WriteString(" " + p.typeName())
		return sb.String()
	}
	for p.accept(".") {
		sb.WriteString("." + p.ident())
	}
	if p.is("[") && p.toks[p.i+1].k == "id" { // generic instance
		p.expect("[")
		sb.WriteString("[" + p.typeName() + "]")
		p.expect("]")
	}
	return sb.String()
}

func (p *parser) parseFile() {
	for p.peek().k != "eof" {
		pos := fmt.Sprintf("%s:%d", p.file, p.peek().line)
		switch kw := p.ident(); kw {
		case "monitor":
			m := &Monitor{guards: map[string]bool{}}
			m.typ = p.funcName()
			m.mutex = p.ident()
			for {
				switch {
				case p.accept("level"):
					m.level, _ = strconv.Atoi(p.next().s)
				case p.accept("owns"):
					m.owns = append(m.owns, p.funcName())
				case p.accept("props"):
					m.props = p.propList()
				case p.accept("guards"):
					for {
						f := p.ident()
						if p.accept("[") {
							p.expect("*")
							p.expect("]")
							m.guards[f+"[*]"] = true
						}
						m.guards[f] = true
						if !p.accept(",") {
							break
						}
					}
				case p.is("invariant"):
					m.invs = append(m.invs, p.clause())
				default:
					goto doneMon
				}
			}
		doneMon:
			p.db.monitors[m.typ] = m
		case "def", "fun", "rec":
			d := &Def{fun: kw != "def"}
			d.name = p.ident()
			p.expect("(")
			for !p.accept(")") {
				d.params = append(d.params, p.ident())
				ty := ""
				if !p.is(",") && !p.is(")") {
					ty = p.typeName()
				}
				d.types = append(d.types, ty)
				p.accept(",")
			}
			if !p.is("=") && !p.is("def") && kw != "def" {
				d.ret = p.typeName()
			}
			if p.accept("=") {
				d.body = p.expr(0)
			}
			if kw == "rec" {
				d.base = d.body
				p.expect("then")
				d.body = p.expr(0)
			}
			p.db.defs[d.name] = d
		case "ghost":
			owner := p.funcName()
			i := strings.LastIndex(owner, ".")
			g := &GhostField{owner: owner[:i], name: owner[i+1:]}
			g.typ = p.typeName()
			p.db.ghosts[g.name] = g
		case "axiom":
			a := p.peek().a
			e := p.expr(0)
			p.db.axioms = append(p.db.axioms, &Axiom{e: e, text: p.src[a:p.toks[p.i-1].z]})
		case "global":
			nm := p.funcName()
			for p.is("invariant") || p.is("assume") {
				p.db.globals[nm] = append(p.db.globals[nm], p.clause())
			}
		case "pure", "havoc":
			for {
				p.db.pure[p.funcName()] = kw
				if !p.accept(",") {
					break
				}
			}
		case "func", "extern", "iface", "functype", "lemma":
			c := &Contract{kind: kw, opts: map[string]bool{}, optv: map[string][]string{}, pos: pos}
			c.name = p.funcName()
			p.expect("(")
			for !p.accept(")") {
				nm := p.ident()
				if kw == "lemma" {
					nm += " " + p.typeName()
				}
				c.params = append(c.params, nm)
				p.accept(",")
			}
			if p.accept("(") {
				for !p.accept(")") {
					c.results = append(c.results, p.ident())
					p.accept(",")
				}
			}
			for {
				switch {
				case p.accept("props"):
					c.props = p.propList()
				case p.accept("opt"):
					for p.peek().k == "id" && !clauseKw[p.peek().s] && p.peek().col > 0 {
						o := p.ident()
						if p.accept("=") {
							v := p.next().s
							for p.accept(".") {
								v += "." + p.ident()
							}
							c.optv[o] = append(c.optv[o], v)
						} else {
							c.opts[o] = true
						}
					}
				case p.peek().k == "id" && clauseKw[p.peek().s] && p.peek().col > 0:
					c.clauses = append(c.clauses, p.clause())
				default:
					goto doneFn
				}
			}
		doneFn:
			switch kw {
			case "iface":
				p.db.ifaces[c.name] = c
			case "functype":
				p.db.functypes[c.name] = c
			case "lemma":
				p.db.lemmas = append(p.db.lemmas, c)
			default:
				if p.db.contracts[c.name] != nil {
					p.fail("duplicate contract %s", c.name)
				}
				p.db.contracts[c.name] = c
			}
			p.db.order = append(p.db.order, c)
		default:
			p.i--
			p.fail("unknown item")
		}
	}
}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "inv": true, "invariant": true, "assume": true, "props": true, "opt": true, "trust": true, "let": true, "later": true, "rely": true, "waiting": true, "received": true, "sends": true, "spawned": true, "defines": true, "between": true, "unwinds": true}

func (p *parser) propList() []string {
	var out []string
	for {
		out = append(out, p.ident())
		if !p.accept(",") {
			return out
		}
	}
}

func (p *parser) clause() *Clause {
	c := &Clause{pos: fmt.Sprintf("%s:%d", p.file, p.peek().line)}
	c.kind = p.ident()
	if p.is("[") {
		p.next()
		if c.kind == "inv" {
			for !p.accept("]") {
				n := p.ident()
				c.metas = append(c.metas, Binder{n, p.typeName()})
				p.accept(",")
			}
		} else {
			for !p.accept("]") {
				s := p.ident()
				if len(s) >= 3 && s[0] == 'C' && s[1] >= '0' && s[1] <= '9' {
					c.props = append(c.props, s)
				} else if c.label == "" {
					c.label = s
				} else {
					c.label += "_" + s
				}
				p.accept(",")
			}
		}
	}
	if c.kind == "ensures" && p.accept("some") { // of some map iteration of the function
		for !p.accept("::") {
			n := p.ident()
			c.metas = append(c.metas, Binder{n, p.typeName()})
			p.accept(",")
		}
	}
	a := p.peek().a
	if c.kind == "modifies" || c.kind == "between" {
		for {
			if p.accept("nothing") {
				break
			}
			c.list = append(c.list, p.expr(0))
			if !p.accept(",") {
				break
			}
		}
		if p.accept("when") {
			c.when = p.expr(0)
		}
	} else if c.kind == "let" {
		c.label = p.ident()
		p.expect("=")
		c.e = p.expr(0)
	} else {
		c.e = p.expr(0)
	}
	c.text = strings.Join(strings.Fields(p.src[a:p.toks[p.i-1].z]), " ")
	return c
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "?": 3, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6, "+": 7, "-": 7, "++": 7, "|": 7, "*": 8, "/": 8, "%": 8, "&": 8}

func (p *parser) expr(min int) *Ex {
	lhs := p.unary()
	for {
		t := p.peek()
		if t.k == "str" || t.k == "eof" || t.k == "int" {
			return lhs
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min || t.k == "id" && t.s != "in" {
			return lhs
		}
		p.next()
		pos := fmt.Sprintf("%s:%d", p.file, t.line)
		switch t.s {
		case "==>": // right assoc
			rhs := p.expr(pr)
			lhs = &Ex{op: "binary", name: t.s, args: []*Ex{lhs, rhs}, pos: pos}
		case "?":
			a := p.expr(4)
			p.expect(":")
			b := p.expr(3)
			lhs = &Ex{op: "ite", args: []*Ex{lhs, a, b}, pos: pos}
		default:
			rhs := p.expr(pr + 1)
			e := &Ex{op: "binary", name: t.s, args: []*Ex{lhs, rhs}, pos: pos}
			// chained comparisons a <= b < c
			if pr == 6 && lhs.op == "binary" && binPrec[lhs.name] == 6 && lhs.pos != "paren" && (strings.HasPrefix(lhs.name, "<") || strings.HasPrefix(lhs.name, ">")) {
				e = &Ex{op: "binary", name: "&&", args: []*Ex{lhs, {op: "binary", name: t.s, args: []*Ex{lhs.args[1], rhs}, pos: pos}}, pos: pos}
			} else if pr == 6 && lhs.op == "binary" && lhs.name == "&&" && lhs.pos != "paren" && min <= 6 {
				last := lhs.args[1]
				e = &Ex{op: "binary", name: "&&", args: []*Ex{lhs, {op: "binary", name: t.s, args: []*Ex{last.args[1], rhs}, pos: pos}}, pos: pos}
			}
			lhs = e
		}
	}
}

func (p *parser) unary() *Ex {
	t := p.peek()
	pos := fmt.Sprintf("%s:%d", p.file, t.line)
	switch {
	case p.accept("!"):
		return &Ex{op: "unary", name: "!", args: []*Ex{p.unary()}, pos: pos}
	case p.accept("-"):
		return &Ex{op: "unary", name: "-", args: []*Ex{p.unary()}, pos: pos}
	case p.accept("*"):
		return &Ex{op: "star", args: []*Ex{p.unary()}, pos: pos}
	case t.k == "id" && (t.s == "forall" || t.s == "exists"):
		p.next()
		e := &Ex{op: t.s, pos: pos}
		for {
			n := p.ident()
			e.vars = append(e.vars, Binder{n, p.typeName()})
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var ts []*Ex
			for !p.accept("}") {
				ts = append(ts, p.expr(0))
				p.accept(",")
			}
			e.trig = append(e.trig, ts)
		}
		p.expect("::")
		e.args = []*Ex{p.expr(0)}
		return e
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Ex {
	t := p.next()
	pos := fmt.Sprintf("%s:%d", p.file, t.line)
	switch {
	case t.k == "int":
		return &Ex{op: "int", name: t.s, pos: pos}
	case t.k == "str":
		return &Ex{op: "str", name: t.s, pos: pos}
	case t.s == "(":
		e := p.expr(0)
		p.expect(")")
		cp := *e
		if cp.op == "binary" {
			cp.pos = "paren"
		}
		return &cp
	case t.k == "id":
		return &Ex{op: "ident", name: t.s, pos: pos}
	}
	p.i--
	p.fail("unexpected token")
	return nil
}

func (p *parser) postfix(e *Ex) *Ex {
	for {
		t := p.peek()
		pos := fmt.Sprintf("%s:%d", p.file, t.line)
		switch {
		case t.k == "op" && t.s == ".":
			p.next()
			e = &Ex{op: "field", name: p.ident(), args: []*Ex{e}, pos: pos}
		case t.k == "op" && t.s == "[":
			p.next()
			if p.accept("*") {
				p.expect("]")
				e = &Ex{op: "elems", args: []*Ex{e}, pos: pos}
				continue
			}
			i := p.expr(0)
			p.expect("]")
			e = &Ex{op: "index", args: []*Ex{e, i}, pos: pos}
		case t.k == "op" && t.s == "(" && (e.op == "ident" || e.op == "field"):
			p.next()
			c := &Ex{op: "call", pos: pos}
			if e.op == "ident" {
				c.name = e.name
			} else { // pkg.f(x)
				c.name = e.args[0].String() + "." + e.name
			}
			for !p.accept(")") {
				c.args = append(c.args, p.expr(0))
				p.accept(",")
			}
			e = c
		default:
			return e
		}
	}
}
