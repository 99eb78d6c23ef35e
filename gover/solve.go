package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"
)

type Solver struct {
	jobs     int
	timeout  time.Duration
	deadline time.Time
	scale    int // multiplies the time limits
	dump     string
	ndump    int
	mu       sync.Mutex
	qmu      sync.Mutex
	calls    int
	totalMs  float64
	byBack   map[string]int
}

func newSolver() *Solver {
	return &Solver{scale: 1, jobs: 8, timeout: 20 * time.Second, byBack: map[string]int{}}
}

// rendered facts of an Exec, shared by its obligations
type rendered struct {
	ex    *Exec
	facts []string
	syms  []map[string]bool
	text  map[*Term]string
}

func symsOf(t *Term, seen map[*Term]bool, out map[string]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "const" || t.op == "app" {
		out[t.name] = true
	}
	for _, a := range t.args {
		symsOf(a, seen, out)
	}
	for _, p := range t.pats {
		for _, x := range p {
			symsOf(x, seen, out)
		}
	}
}

// heapKeys collects the names of the heap components (fields, elements, maps,
// ghosts) that occur in t; with inq, only those inside quantifiers.
func heapKeys(t *Term, inq bool, seen map[*Term]bool, out map[string]bool) (quant bool) {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == "forall" || t.op == "exists" {
		quant = true
		inq = false
		seen = map[*Term]bool{}
	}
	if t.op == "const" && !inq {
		for _, p := range []string{"H0@", "hv@", "lp@", "later@"} {
			if k, ok := strings.CutPrefix(t.name, p); ok {
				k, _, _ = strings.Cut(k, "!")
				out[k] = true
			}
		}
	}
	for _, a := range t.args {
		if heapKeys(a, inq, seen, out) {
			quant = true
		}
	}
	return quant
}

// prune leaves out quantified facts about parts of the heap that the goal does
// not mention. (Fewer hypotheses: what is proved from them is proved.)
func (ex *Exec) prune(facts []*Term, ng *Term, wide bool) []*Term {
	keys := map[string]bool{}
	heapKeys(ng, false, map[*Term]bool{}, keys)
	if wide { // and what quantified facts relate to it
		more := map[string]bool{}
		var add func(f *Term)
		add = func(f *Term) {
			switch f.op {
			case "and":
				for _, a := range f.args {
					add(a)
				}
				return
			case "=>":
				add(f.args[len(f.args)-1])
				return
			}
			ks := map[string]bool{}
			heapKeys(f, true, map[*Term]bool{}, ks)
			for k := range ks {
				if keys[k] {
					for k := range ks {
						more[k] = true
					}
					break
				}
			}
		}
		for _, f := range facts {
			add(f)
		}
		for k := range more {
			keys[k] = true
		}
	}
	var out []*Term
	var add func(cond []*Term, f *Term)
	add = func(cond []*Term, f *Term) {
		switch f.op {
		case "and":
			for _, a := range f.args {
				add(cond, a)
			}
			return
		case "=>":
			add(append(cond[:len(cond):len(cond)], f.args[:len(f.args)-1]...), f.args[len(f.args)-1])
			return
		}
		ks := map[string]bool{}
		if heapKeys(f, true, map[*Term]bool{}, ks) {
			for k := range ks {
				if !keys[k] {
					return
				}
			}
		}
		out = append(out, ex.b.Implies(ex.b.And(cond...), f))
	}
	for _, f := range facts {
		add(nil, f)
	}
	return out
}

// query renders the SMT problem facts => goal (negated).
func (ex *Exec) query(o *Obl, opts string) string { return ex.query2(o, opts, 0) }

func (ex *Exec) query2(o *Obl, opts string, prune int) string {
	var roots []*Term
	ng := ex.b.Not(o.goal)
	facts := ex.facts[:o.nfacts]
	if len(o.without) > 0 {
		facts = nil
		for i, f := range ex.facts[:o.nfacts] {
			if !o.without[i] {
				facts = append(facts, f)
			}
		}
	}
	if prune > 0 {
		facts = ex.prune(facts, ng, prune > 1)
	}
	roots = append(roots, facts...)
	roots = append(roots, ng)
	used := map[string]bool{}
	seen := map[*Term]bool{}
	for _, r := range roots {
		symsOf(r, seen, used)
	}
	// axioms: include those that share a declared function with the problem
	inc := make([]bool, len(ex.axioms))
	var axs []*Term
	for ch := true; ch; {
		ch = false
		for i, a := range ex.axioms {
			if inc[i] {
				continue
			}
			as := map[string]bool{}
			symsOf(a.t, map[*Term]bool{}, as)
			hit := false
			nfn := 0
			for s := range as {
				if strings.HasPrefix(s, "fn@") || strings.HasPrefix(s, "ext@") || strings.HasPrefix(s, "sprintf!") {
					nfn++
					if used[s] {
						hit = true
					}
				}
			}
			if hit || nfn == 0 {
				inc[i] = true
				ch = true
				axs = append(axs, a.t)
				for s := range as {
					used[s] = true
				}
			}
		}
	}
	roots = append(roots, axs...)
	order, defs := shareDefs(roots)
	var sb strings.Builder
	sb.WriteString(opts)
	sb.WriteString(ex.ty.Prelude())
	typeAx := ex.ty.Axioms()
	ta := strings.Join(typeAx, "\n")
	for _, d := range ex.b.decls {
		nm := strings.Fields(d)[1]
		if used[nm] || strings.Contains(ta, nm) {
			sb.WriteString(d)
			sb.WriteByte('\n')
		}
	}
	sb.WriteString(ta)
	sb.WriteByte('\n')
	for _, t := range order {
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", defs[t], t.sort, t.render(defs))
	}
	ref := func(t *Term) string {
		if n, ok := defs[t]; ok {
			return n
		}
		return t.render(defs)
	}
	for _, a := range axs {
		sb.WriteString("(assert " + ref(a) + ")\n")
	}
	for _, f := range facts {
		sb.WriteString("(assert " + ref(f) + ")\n")
	}
	sb.WriteString("(assert " + ref(ng) + ")\n(check-sat)\n")
	return sb.String()
}

const z3opts = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 1)\n(set-option :type_check true)\n"

func runProc(parent context.Context, d time.Duration, stdin string, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(parent, d)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Stdin = strings.NewReader(stdin)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	err := c.Run()
	return out.String(), err
}

var procs = make(chan bool, max(2, runtime.NumCPU()))

func (s *Solver) one(ex *Exec, o *Obl, quick bool) {
	t0 := time.Now()
	defer func() {
		o.ms = float64(time.Since(t0).Microseconds()) / 1000
		s.mu.Lock()
		s.totalMs += o.ms
		s.calls++
		if o.status != "" {
			s.byBack[o.status]++
		}
		s.mu.Unlock()
	}()
	s.qmu.Lock()
	q := ex.query(o, z3opts)
	s.qmu.Unlock()
	if s.dump != "" {
		s.mu.Lock()
		s.ndump++
		n := s.ndump
		s.mu.Unlock()
		os.WriteFile(filepath.Join(s.dump, fmt.Sprintf("q%04d-%s.smt2", n, sanitize(o.kind+"_"+o.label))), []byte("; "+o.text+"\n; "+o.pos+" cand "+o.cand+"\n"+q), 0o644)
	}
	type variant struct {
		label, query, name string
		args               []string
	}
	run := func(ctx context.Context, v variant, d time.Duration) (bool, string) {
		if !s.deadline.IsZero() && time.Now().After(s.deadline) {
			return false, "deadline"
		}
		// one solver process per core, so that the time limits mean something
		select {
		case procs <- true:
		case <-ctx.Done():
			return false, ""
		}
		defer func() { <-procs }()
		if o.kind != "vacuity" {
			d *= time.Duration(s.scale)
		}
		out, _ := runProc(ctx, d, v.query, v.name, v.args...)
		f := strings.TrimSpace(out)
		for strings.HasPrefix(f, "WARNING") {
			_, r, ok := strings.Cut(f, "\n")
			if !ok {
				break
			}
			f = strings.TrimSpace(r)
		}
		if strings.Contains(f, "(error") && ctx.Err() == nil {
			fmt.Fprintf(os.Stderr, "SOLVER ERROR %s %s %s %s %.150q\n", v.label, o.fn, o.kind, o.text, f)
			return false, v.label + ": " + f + "; "
		}
		if f == "unsat" {
			return true, ""
		}
		if len(f) > 300 {
			f = f[:300]
		}
		return false, v.label + ": " + f + "; "
	}
	z3args := []string{"-in", "-smt2"}
	qp := ""
	if len(q) > 60000 && o.kind != "vacuity" {
		s.qmu.Lock()
		qp = ex.query2(o, z3opts, 1)
		s.qmu.Unlock()
		if s.dump != "" {
			s.mu.Lock()
			n := s.ndump
			s.mu.Unlock()
			os.WriteFile(filepath.Join(s.dump, fmt.Sprintf("p%04d-%s.smt2", n, sanitize(o.kind+"_"+o.label))), []byte("; "+o.text+"\n; "+o.pos+" cand "+o.cand+"\n"+qp), 0o644)
		}
		if ok, _ := run(context.Background(), variant{"z3-4.8.12", qp, "z3", z3args}, time.Second); ok {
			o.status = "z3-4.8.12"
			return
		}
	}
	first := variant{"z3-4.8.12", q, "z3", z3args}
	d := s.timeout
	short := 2 * time.Second
	if quick {
		d, short = 5*time.Second, 5*time.Second
		if o.kind == "vacuity" {
			short = 2 * time.Second
		}
	}
	bg := context.Background()
	if ok, out := run(bg, first, short); ok {
		o.status = first.label
		return
	} else {
		o.out += out
		if strings.Contains(out, "(error") {
			return
		}
	}
	q3 := strings.TrimPrefix(q, z3opts)
	mb := variant{"z3-4.8.12+mbqi", "(set-option :smt.random_seed 1)\n" + q3, "z3", z3args}
	mb2 := variant{"z3-4.8.12+mbqi", strings.Replace(q, "smt.mbqi false", "smt.mbqi true", 1), "z3", z3args}
	if quick {
		if strings.Contains(o.cand, "|frame0|") || (tmplCand.MatchString(o.cand) && strings.HasSuffix(o.out, ": ; ")) {
			// no verdict in time on one of those that carry the other proofs
			if qp != "" {
				if ok, _ := run(bg, variant{"z3-5.3.2", qp, "z3-new", z3args}, 3*time.Second); ok {
					o.status = "z3-5.3.2"
					return
				}
			}
			v := variant{"z3-5.3.2", q, "z3-new", z3args}
			if ok, out := run(bg, v, 5*time.Second); ok {
				o.status = v.label
				return
			} else {
				o.out += out
			}
		}
		if strings.Contains(o.text, "exists") || strings.Contains(o.cand, "exists") {
			for _, v := range []variant{mb2, mb} {
				if ok, out := run(bg, v, 5*time.Second); ok {
					o.status = v.label
					break
				} else {
					o.out += out
				}
			}
		}
		return
	}
	// a portfolio, the first to refute the negated obligation decides
	vs := []variant{first, {"z3-5.3.2", q, "z3-new", z3args}}
	if qp != "" {
		s.qmu.Lock()
		qw := ex.query2(o, z3opts, 2)
		s.qmu.Unlock()
		vs = append(vs, variant{"z3-5.3.2", qp, "z3-new", z3args}, variant{"z3-4.8.12", qw, "z3", z3args}, variant{"z3-5.3.2", qw, "z3-new", z3args})
	}
	if strings.Contains(q, "(forall") {
		vs = append(vs, mb, mb2)
	}
	if !strings.Contains(q, "(as const") { // cvc5 wants values in constant arrays
		vs = append(vs, variant{"cvc5-1.1.2", "(set-logic ALL)\n" + q3, "cvc5", []string{"--lang=smt2", "--seed=1"}})
	}
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	type answer struct {
		ok  bool
		out string
		v   variant
	}
	ch := make(chan answer, len(vs))
	for _, v := range vs {
		go func() {
			ok, out := run(ctx, v, d)
			ch <- answer{ok, out, v}
		}()
	}
	for range vs {
		a := <-ch
		if a.ok {
			o.status = a.v.label
			return
		}
		o.out += a.out
	}
}

var tmplCand = regexp.MustCompile(`\|t[0-9]+\|`)

func (s *Solver) solveAll(ex *Exec, os []*Obl, quick bool) {
	sem := make(chan bool, s.jobs)
	var wg sync.WaitGroup
	for _, o := range os {
		if o.trivial {
			continue
		}
		wg.Add(1)
		sem <- true
		go func(o *Obl) {
			defer wg.Done()
			defer func() { <-sem }()
			s.one(ex, o, quick)
		}(o)
	}
	wg.Wait()
}
