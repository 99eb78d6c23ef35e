package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gover fn|ssa ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "fn":
		cmdFn(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "touch":
		db := loadSpecs("/verif/contracts")
		P, err := loadProg("/repo", db)
		if err != nil {
			panic(err)
		}
		for f := range P.touching() {
			fmt.Println(fnKey(f), db.contracts[fnKey(f)] != nil, P.lockLevels().of[f])
		}
	case "ssa":
		P, err := loadProg("/repo", newSpecDB())
		if err != nil {
			panic(err)
		}
		re := regexp.MustCompile(os.Args[2])
		for k, f := range P.fns {
			if re.MatchString(k) {
				f.WriteTo(os.Stdout)
			}
		}
	}
}

func cmdFn(args []string) {
	fs := flag.NewFlagSet("fn", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	spec := fs.String("spec", "/verif/contracts", "")
	dump := fs.String("dump", "", "")
	debug := fs.Bool("debug", false, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	db := loadSpecs(*spec)
	P, err := loadProg(*repo, db)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	P.strict = true
	re := regexp.MustCompile(fs.Arg(0))
	V := &Verifier{P: P, solver: newSolver(), debug: *debug}
	V.solver.dump = *dump
	if *dump != "" {
		os.RemoveAll(*dump)
		os.MkdirAll(*dump, 0o755)
	}
	bad := 0
	for _, c := range db.order {
		if c.kind != "func" && c.kind != "lemma" || c.opts["trusted"] || !re.MatchString(c.name) {
			continue
		}
		r := V.verify(c)
		ok, n := 0, len(r.obls)
		for _, o := range r.obls {
			if o.status != "" {
				ok++
			}
		}
		fmt.Printf("%-60s %d/%d  %.2fs rounds=%d cands=%d\n", c.name, ok, n, r.dur.Seconds(), r.rounds, r.ncands)
		if r.err != "" {
			bad++
			fmt.Println("   ERROR", r.err)
		}
		for _, o := range r.obls {
			if o.status == "" {
				bad++
				fmt.Printf("   FAIL %s %v at %s: %s  [%s]\n", o.name, o.props, o.pos, o.text, strings.ReplaceAll(o.out, "\n", " "))
			} else if *verbose {
				fmt.Printf("   ok   %s %v at %s: %s [%s %.0fms]\n", o.name, o.props, o.pos, o.text, o.status, o.ms)
			}
		}
		if *verbose {
			fmt.Println("   inlined:", r.inlined, "calls:", r.calls, "trusted:", r.trusted)
			for _, k := range r.kept {
				fmt.Println("   inv:", k)
			}
		}
		for _, n := range r.notes {
			fmt.Println("   note:", n)
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
