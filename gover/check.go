package main

// The check of one property: discharge the obligations of the contracts that
// carry it, run the harness (runtime check of the same contracts on concrete
// histories), write the evidence.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func (c *Contract) carries(p string) bool {
	if has(c.props, p) {
		return true
	}
	for _, cl := range c.clauses {
		if has(cl.props, p) {
			return true
		}
	}
	return false
}

// counts says whether an obligation of a function decides property p: it is
// labelled with it, or it is one of the unlabelled obligations (absence of
// panics, frame, locks, preconditions of callees) of a function that serves it.
func counts(c *Contract, o *Obl, p string) bool {
	if len(o.props) > 0 {
		return has(o.props, p)
	}
	if p == "C22" && o.kind != "lock" && o.kind != "monitor" && o.kind != "vacuity" {
		return false
	}
	return has(c.props, p)
}

func (r *FnResult) undischarged(p string) int {
	n := 0
	for _, o := range r.obls {
		if o.status == "" && (o.kind == "vacuity" || counts(r.con, o, p)) {
			n++
		}
	}
	return n
}

type harnessReport struct {
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct"`
	Samples     []string `json:"samples"`
	Tests       []string `json:"tests"`
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	root := fs.String("root", "/verif", "")
	prop := fs.String("prop", "", "")
	noHarness := fs.Bool("noharness", false, "")
	noProof := fs.Bool("noproof", false, "")
	fs.Parse(args)
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	id := *prop
	replayDir := filepath.Join(*root, "replay")
	os.MkdirAll(replayDir, 0o755)
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	replay := filepath.Join(replayDir, id+".txt")
	os.Remove(replay)

	// the harness runs beside the prover
	var hOut string
	var hFail, hBroken bool
	var rep harnessReport
	var wg sync.WaitGroup
	if !*noHarness {
		wg.Add(1)
		go func() {
			defer wg.Done()
			hOut, hFail, hBroken, rep = runHarness(*repo, *root, id, tier, seed)
		}()
	}

	db := loadSpecs(filepath.Join(*root, "contracts"))
	var results []*FnResult
	var loadErr string
	var solver *Solver
	if !*noProof {
		P, err := loadProg(*repo, db)
		if err != nil {
			loadErr = err.Error()
		} else {
			solver = newSolver()
			if tier == "thorough" {
				solver.timeout = 60 * time.Second
			}
			solver.deadline = t0.Add(600 * time.Second)
			results = verifyAll(P, solver, id)
			wg.Wait()
			// what was not discharged gets a second attempt with more time, unless a
			// concrete run has decided already
			for i, r := range results {
				if hFail || r.err != "" || r.undischarged(id) == 0 {
					continue
				}
				s2 := newSolver()
				s2.scale, s2.timeout, s2.deadline = 3, solver.timeout, solver.deadline
				V := &Verifier{P: P, solver: s2, prop: id}
				if r2 := V.verify(r.con); r2.err == "" && r2.undischarged(id) < r.undischarged(id) {
					r2.solveMs += r.solveMs
					results[i] = r2
				}
			}
		}
	}
	wg.Wait()

	type fobl struct {
		Obligation string  `json:"obligation"`
		At         string  `json:"at"`
		Clause     string  `json:"clause"`
		Backend    string  `json:"backend"`
		Ms         float64 `json:"ms"`
	}
	var obls []fobl
	var failed []*Obl
	total, done := 0, 0
	kinds := map[string]int{}
	back := map[string]int{}
	var fns, outside, assumptions, trusted, inlined []string
	solveMs := 0.0
	tset, iset := map[string]bool{}, map[string]bool{}
	for _, r := range results {
		solveMs += r.solveMs
		if r.err != "" {
			outside = append(outside, r.name+": "+r.err)
			continue
		}
		n := 0
		for _, o := range r.obls {
			if !counts(r.con, o, id) && o.kind != "vacuity" {
				continue
			}
			n++
			total++
			kinds[o.kind]++
			if o.status != "" {
				done++
				back[o.status]++
			} else {
				failed = append(failed, o)
			}
			obls = append(obls, fobl{o.name, o.pos, o.text, o.status, o.ms})
		}
		fns = append(fns, fmt.Sprintf("%s (%d obligations)", r.name, n))
		for _, t := range r.trusted {
			tset[t] = true
		}
		for _, t := range r.inlined {
			iset[t] = true
		}
		for _, t := range r.notes {
			assumptions = append(assumptions, r.name+": "+t)
		}
	}
	trusted, inlined = sortedKeys(tset), sortedKeys(iset)
	violations := 0
	var lines []string
	if hFail {
		violations++
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s violated on a concrete run against the code in %s (seed %d)\n", id, *repo, seed)
		fmt.Fprintf(&sb, "rerun: VERIF_SEED=%d VERIF_TIER=%s bash %s/check.sh %s\n\n%s\n", seed, tier, *root, id, hOut)
		for _, o := range failed {
			fmt.Fprintf(&sb, "\nundischarged obligation %s at %s\n  %s\n  %s\n", o.name, o.pos, o.text, o.out)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", id, replay))
	} else if len(failed) > 0 {
		violations++
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: obligations the verifier could not discharge on the code in %s\n", id, *repo)
		for _, o := range failed {
			fmt.Fprintf(&sb, "\nobligation %s\n  at %s\n  clause: %s\n  solvers: %s\n", o.name, o.pos, o.text, o.out)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", id, replay))
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "proof",
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  violations,
		"assumptions": append(append([]string{}, baseAssumptions...), assumptions...),
		"coverage": map[string]any{
			"obligations": total, "discharged": done,
			"checker_cmd":                 fmt.Sprintf("bash %s/check.sh %s", *root, id),
			"trusted_base":                append(append([]string{}, baseTrusted...), trusted...),
			"functions_under_contract":    fns,
			"functions_inlined":           inlined,
			"outside_verifier_reach":      outside,
			"obligations_by_kind":         kinds,
			"discharged_by_backend":       back,
			"solver_time_ms":              solveMs,
			"obligation_list":             obls,
			"bounded_runtime_evaluations": rep.Evaluations,
			"bounded_runtime_distinct":    rep.Distinct,
			"bounded_runtime_tests":       rep.Tests,
			"bounded_runtime_samples":     rep.Samples,
			"load_error":                  loadErr,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*root, "evidence", id+".json"), b, 0o644)
	fmt.Printf("%s: %d/%d obligations discharged over %d functions; harness: %d evaluations; %.1fs\n", id, done, total, len(fns), rep.Evaluations, time.Since(t0).Seconds())
	for _, o := range outside {
		fmt.Println("outside the verifier's reach (bounded check only):", o)
	}
	for _, o := range failed {
		fmt.Printf("  undischarged: %s at %s: %s\n", o.name, o.pos, o.text)
	}
	if hFail {
		s := hOut
		if len(s) > 4000 {
			s = s[:4000]
		}
		fmt.Println(s)
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if violations > 0 {
		os.Exit(1)
	}
	if loadErr != "" || hBroken {
		fmt.Println("check could not run:", loadErr, hOut)
		os.Exit(2)
	}
}

func verifyAll(P *Prog, solver *Solver, prop string) []*FnResult {
	var cs []*Contract
	for _, c := range P.db.order {
		if (c.kind == "func" || c.kind == "lemma") && !c.opts["trusted"] && c.carries(prop) {
			cs = append(cs, c)
		}
	}
	if prop == "C22" {
		cs = append(cs, P.autoContracts()...)
	}
	res := make([]*FnResult, len(cs))
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	for i, c := range cs {
		wg.Add(1)
		go func(i int, c *Contract) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			V := &Verifier{P: P, solver: solver, prop: prop}
			res[i] = V.verify(c)
		}(i, c)
	}
	wg.Wait()
	sort.SliceStable(res, func(i, j int) bool { return res[i].name < res[j].name })
	return res
}

var baseTrusted = []string{
	"gover (this verifier: go/ssa front end, symbolic execution, contract language), golang.org/x/tools/go/ssa, the Go compiler",
	"z3 4.8.12, z3 5.3.2, cvc5 1.1.2",
}

var baseAssumptions = []string{
	"partial correctness: termination of loops is not proved",
	"int counters are treated as mathematical integers where the machine arithmetic cannot overflow before memory is exhausted",
	"shared mutable state is only reached through the functions under contract (monitor discipline, checked under C22)",
}

// runHarness compiles the harness packages into the module (by overlay) and runs
// the tests of one property. Package api uses exported API only; the others reach
// into internal packages and are left out when they no longer compile.
func runHarness(repo, root, id, tier string, seed int) (out string, fail, broken bool, rep harnessReport) {
	hd := filepath.Join(root, "harness")
	dirs, _ := os.ReadDir(hd)
	for _, d := range dirs {
		if !d.IsDir() {
			continue
		}
		o, f, b, r := runHarnessPkg(repo, filepath.Join(hd, d.Name()), d.Name(), id, tier, seed)
		if b && d.Name() != "api" {
			rep.Tests = append(rep.Tests, "(package "+d.Name()+" does not compile against this tree and was left out)")
			continue
		}
		if f || b {
			out += o
		}
		fail = fail || f
		broken = broken || b
		rep.Evaluations += r.Evaluations
		rep.Distinct += r.Distinct
		rep.Samples = append(rep.Samples, r.Samples...)
		rep.Tests = append(rep.Tests, r.Tests...)
	}
	return
}

func runHarnessPkg(repo, hd, name, id, tier string, seed int) (out string, fail, broken bool, rep harnessReport) {
	ents, _ := os.ReadDir(hd)
	repl := map[string]string{}
	plain, race := false, false
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		src := filepath.Join(hd, e.Name())
		b, _ := os.ReadFile(src)
		if strings.Contains(string(b), "func Test"+id) {
			plain = true
		}
		if strings.Contains(string(b), "func TestRace"+id) {
			race = true
		}
		repl[filepath.Join(repo, "verifharness", name, e.Name())] = src
	}
	if !plain && !race {
		return
	}
	tmp, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		return err.Error(), false, true, rep
	}
	defer os.RemoveAll(tmp)
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local",
		"VERIF_OUT="+filepath.Join(tmp, "rep"), fmt.Sprint("VERIF_SEED=", seed), "VERIF_TIER="+tier)
	build := func(race bool, bin string) (string, error) {
		args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", bin}
		if race {
			args = append(args, "-race")
		}
		c := exec.Command("go", append(args, "./verifharness/"+name)...)
		c.Dir, c.Env = repo, env
		b, err := c.CombinedOutput()
		return string(b), err
	}
	run := func(bin, re string) (string, error) {
		to := "240s"
		if tier == "thorough" {
			to = "800s"
		}
		c := exec.Command(bin, "-test.run", re, "-test.count=1", "-test.timeout", to)
		c.Dir, c.Env = tmp, append(env, "TMPDIR="+tmp)
		b, err := c.CombinedOutput()
		return string(b), err
	}
	if plain {
		bin := filepath.Join(tmp, "h.test")
		if o, err := build(false, bin); err != nil {
			return "harness does not build: " + o, false, true, rep
		}
		o, err := run(bin, "^Test"+id+"($|_)")
		out = o
		if err != nil {
			fail = true
		}
	}
	if race && !fail {
		rb := filepath.Join(tmp, "hr.test")
		if o, err := build(true, rb); err != nil {
			return "harness does not build with -race: " + o, false, true, rep
		}
		o, err := run(rb, "^TestRace"+id+"($|_)")
		if err != nil {
			out, fail = o, true
		}
	}
	fl, _ := filepath.Glob(filepath.Join(tmp, "rep*"))
	for _, f := range fl {
		var r harnessReport
		b, _ := os.ReadFile(f)
		if json.Unmarshal(b, &r) == nil {
			rep.Evaluations += r.Evaluations
			rep.Distinct += r.Distinct
			rep.Samples = append(rep.Samples, r.Samples...)
			rep.Tests = append(rep.Tests, r.Tests...)
		}
	}
	return
}
