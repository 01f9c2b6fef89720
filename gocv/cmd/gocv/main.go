// Command gocv verifies contracts on the repository's Go code.
package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime/pprof"
	"time"

	"verif/gocv/cv"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gocv verify|check [flags]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		verify(os.Args[2:])
	case "check":
		check(os.Args[2:])
	case "funcs":
		p, err := cv.Load("/repo")
		if err != nil {
			panic(err)
		}
		for k := range p.Funcs {
			fmt.Println(k)
		}
	case "ssa":
		p, err := cv.Load("/repo")
		if err != nil {
			panic(err)
		}
		for _, k := range os.Args[2:] {
			if f := p.Funcs[k]; f != nil {
				f.WriteTo(os.Stdout)
			}
		}
	default:
		os.Exit(2)
	}
}

func verify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	dir := fs.String("contracts", "/verif/contracts", "")
	prop := fs.String("prop", "", "")
	verb := fs.Bool("v", false, "")
	to := fs.Int("t", 200, "seconds per root")
	fs.Parse(args)
	if f := os.Getenv("GOCV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	p, err := cv.Load(*repo)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	specs, err := cv.ParseSpecs(*dir)
	if err != nil {
		fmt.Println("contracts:", err)
		os.Exit(2)
	}
	roots, lemmas, missing := cv.Roots(p, specs, *prop)
	if fs.NArg() > 0 {
		re := regexp.MustCompile(fs.Arg(0))
		var r2 []*cv.Contract
		for _, r := range roots {
			if re.MatchString(r.Key) {
				r2 = append(r2, r)
			}
		}
		var l2 []*cv.Lemma
		for _, l := range lemmas {
			if re.MatchString("lemma " + l.Name) {
				l2 = append(l2, l)
			}
		}
		roots, lemmas = r2, l2
	}
	t0 := time.Now()
	res := cv.RunRoots(p, specs, roots, lemmas, *prop, time.Duration(*to)*time.Second, 1)
	bad, n := 0, 0
	for _, m := range missing {
		fmt.Println("MISSING", m)
	}
	for _, r := range res {
		st := "ok"
		f := r.Failed()
		if len(f) > 0 || r.Aborted != "" || len(r.Errs) > 0 {
			st = "FAIL"
			bad++
		}
		n += len(r.Obls)
		fmt.Printf("%-4s %-50s %3d obligations, %d returns, %.1fs\n", st, r.Key, len(r.Obls), r.Returns, r.Wall.Seconds())
		if r.Aborted != "" {
			fmt.Println("     aborted:", r.Aborted)
		}
		for _, e := range r.Errs {
			fmt.Println("     spec error:", e)
		}
		for _, o := range f {
			fmt.Printf("     FAILED %s (%d of %d) %s\n", o.Name, o.Failed, o.VCs, o.Spec)
			if *verb {
				fmt.Println(o.Detail)
			}
		}
		if *verb {
			fmt.Println("     used:", r.Used, "inlined:", r.Inlined, "dropped:", r.Dropped)
			for _, a := range r.Assumed {
				fmt.Println("     assumed:", a)
			}
			for _, o := range r.Obls {
				fmt.Printf("     %s vcs=%d failed=%d %v\n", o.Name, o.VCs, o.Failed, o.By)
			}
		}
	}
	fmt.Printf("%d roots, %d failing, %d obligations, %.1fs; queries %d, solver %.1fs\n", len(res), bad, n, time.Since(t0).Seconds(), cv.GStats.Queries.Load(), float64(cv.GStats.SolverNS.Load())/1e9)
	if bad > 0 {
		os.Exit(1)
	}
}
