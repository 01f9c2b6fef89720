package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/gocv/cv"
)

// finding is one line of the known-findings file.
type finding struct{ kind, name, what string }

var knownRE = regexp.MustCompile(`^known: property=(\S+) (obligation|harness)=(.+?) :: (.*)$`)

func readFindings(file, prop string) []finding {
	var out []finding
	data, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(data), "\n") {
		if m := knownRE.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == prop {
			out = append(out, finding{m[2], m[3], m[4]})
		}
	}
	return out
}

// harnessResult is what the bounded replay harness reported.
type harnessResult struct {
	state    string // "ok", "failed", "not built", "none"
	fails    []string
	cases    int64
	runs     int
	scen     []string
	detail   string
	wall     float64
	packages []string
	unbuilt  []string
}

type harness struct {
	tmp  string
	bins []hbin
	note string
}

type hbin struct {
	pkg, bin, dir string
	err           string
}

// buildHarness compiles the replay tests of a property into test binaries.
func buildHarness(verif, repo, prop, tmp string) *harness {
	h := &harness{tmp: tmp}
	base := filepath.Join(verif, "replay", prop)
	ents, _ := os.ReadDir(base)
	for _, e := range ents {
		if !e.IsDir() {
			continue
		}
		rel := strings.ReplaceAll(e.Name(), "__", "/")
		rel, _, _ = strings.Cut(rel, "@") // a second test package of the same directory
		if rel == "root" || rel == "rootx" {
			rel = "."
		}
		dir := filepath.Join(repo, rel)
		files, _ := filepath.Glob(filepath.Join(base, e.Name(), "*.go"))
		if len(files) == 0 {
			continue
		}
		ov := map[string]string{}
		// the repository's own tests are left out of the build
		own, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
		for _, f := range own {
			ov[f] = ""
		}
		race := false
		pkg := ""
		for _, f := range files {
			src, _ := os.ReadFile(f)
			if bytes.Contains(src, []byte("//vp:race")) {
				race = true
			}
			if m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(src); m != nil {
				pkg = string(m[1])
			}
			ov[filepath.Join(dir, "zz_vp_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go")] = f
		}
		for _, name := range []string{"vp", "peer"} {
			if name == "peer" && !strings.HasSuffix(pkg, "_test") {
				continue
			}
			common, err := os.ReadFile(filepath.Join(verif, "replay", "common", name+".go.txt"))
			if err == nil {
				cf := filepath.Join(tmp, name+"_"+e.Name()+"_common.go")
				os.WriteFile(cf, bytes.Replace(common, []byte("package PKG"), []byte("package "+pkg), 1), 0o644)
				ov[filepath.Join(dir, "zz_vp_"+name+"_common_test.go")] = cf
			}
		}
		if race {
			withoutCgo(dir, tmp, ov)
			if rel != "." {
				withoutCgo(repo, tmp, ov)
			}
		}
		oj, _ := json.Marshal(map[string]any{"Replace": ov})
		of := filepath.Join(tmp, "overlay_"+e.Name()+".json")
		os.WriteFile(of, oj, 0o644)
		bin := filepath.Join(tmp, "h_"+e.Name()+".test")
		args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
		if race {
			args = append(args, "-race")
		}
		args = append(args, "./"+rel)
		cgo := "0"
		if race {
			cgo = "1"
		}
		out, err := goCmd(repo, cgo, args...)
		b := hbin{pkg: rel, bin: bin, dir: dir}
		if err != nil {
			b.err = fmt.Sprintf("%v\n%s", err, out)
		}
		h.bins = append(h.bins, b)
	}
	return h
}

// withoutCgo makes a build with cgo (which the race detector needs) compile
// the files that a build without cgo compiles: czmq is not installed here.
func withoutCgo(dir, tmp string, ov map[string]string) {
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	tag := regexp.MustCompile(`(?m)^//go:build (.*)$`)
	for _, f := range names {
		if _, replaced := ov[f]; replaced {
			continue
		}
		src, err := os.ReadFile(f)
		m := tag.FindSubmatchIndex(src)
		if err != nil || m == nil {
			continue
		}
		switch line := string(src[m[2]:m[3]]); {
		case strings.Contains(line, "!cgo"):
			cf := filepath.Join(tmp, "nocgo_"+filepath.Base(f))
			src = regexp.MustCompile(`(?m)^// \+build.*$`).ReplaceAll(tag.ReplaceAll(src, nil), nil)
			os.WriteFile(cf, src, 0o644)
			ov[f] = cf
		case strings.Contains(line, "cgo"):
			ov[f] = ""
		}
	}
}

func goCmd(dir, cgo string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "CGO_ENABLED="+cgo, "GOFLAGS=", "GOWORK=off")
	out, err := cmd.CombinedOutput()
	return string(out), err
}

type runOut struct {
	fails []string
	cases int64
	scen  []string
	tail  string
}

// runBin runs one harness binary and collects its reports.
func runBin(b hbin, run, seed, tier, tmp string, limit time.Duration) runOut {
	ctx, cancel := context.WithTimeout(context.Background(), limit+20*time.Second)
	defer cancel()
	wd, _ := os.MkdirTemp(tmp, "wd")
	cmd := exec.CommandContext(ctx, b.bin, "-test.run", run, "-test.timeout", limit.String(), "-test.count=1")
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "VERIF_SEED="+seed, "VERIF_TIER="+tier, "TMPDIR="+wd)
	out, err := cmd.CombinedOutput()
	r := runOut{}
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	last, crash := "", ""
	done := map[string]bool{}
	for sc.Scan() {
		l := sc.Text()
		switch {
		case strings.HasPrefix(l, "VPRUN "):
			last = strings.Fields(l)[1]
			r.scen = append(r.scen, last)
		case strings.HasPrefix(l, "VPDONE "):
			done[strings.Fields(l)[1]] = true
		case strings.HasPrefix(l, "VPFAIL "):
			r.fails = append(r.fails, strings.TrimPrefix(l, "VPFAIL "))
		case strings.HasPrefix(l, "VPCOUNT "):
			n, _ := strconv.ParseInt(strings.TrimSpace(strings.TrimPrefix(l, "VPCOUNT ")), 10, 64)
			r.cases += n
		case crash == "" && (strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "WARNING: DATA RACE")):
			crash = l
		}
	}
	if err != nil && len(r.fails) == 0 && last != "" {
		what := crash
		if what == "" {
			what = err.Error()
		}
		if last != "" && !done[last] || crash != "" {
			r.fails = append(r.fails, last+": the process ended with "+what)
		}
	}
	t := string(out)
	if len(t) > 12000 {
		t = t[:6000] + "\n...\n" + t[len(t)-6000:]
	}
	r.tail = t
	return r
}

func (h *harness) run(seed, tier string) harnessResult {
	res := harnessResult{state: "none"}
	t0 := time.Now()
	limit := 200 * time.Second
	if tier == "thorough" {
		limit = 400 * time.Second
	}
	for _, b := range h.bins {
		res.packages = append(res.packages, b.pkg)
		if b.err != "" {
			res.unbuilt = append(res.unbuilt, b.pkg)
			res.detail += b.err
			continue
		}
		if res.state != "failed" {
			res.state = "ok"
		}
		r := runBin(b, "^TestVP", seed, tier, h.tmp, limit)
		res.runs++
		res.cases += r.cases
		res.scen = append(res.scen, r.scen...)
		if len(r.fails) == 0 {
			continue
		}
		// confirm: schedule noise does not fail twice
		confirmed := false
		var all []string
		for i := 0; i < 3 && !confirmed; i++ {
			r2 := runBin(b, "^TestVP", seed, tier, h.tmp, limit)
			res.runs++
			for _, f := range r2.fails {
				for _, g := range r.fails {
					if scenario(f) == scenario(g) {
						confirmed = true
						all = append(all, g)
					}
				}
			}
			if confirmed {
				res.detail += r.tail
			}
		}
		if confirmed {
			res.state = "failed"
			seen := map[string]bool{}
			for _, f := range all {
				if !seen[f] {
					seen[f] = true
					res.fails = append(res.fails, f)
				}
			}
		}
	}
	if len(res.unbuilt) > 0 && res.state != "failed" {
		res.state = "not built"
		if res.runs > 0 {
			res.state = "partly built"
		}
	}
	res.wall = time.Since(t0).Seconds()
	return res
}

func scenario(f string) string {
	if i := strings.Index(f, ":"); i >= 0 {
		return f[:i]
	}
	return f
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	noh := fs.Bool("noharness", false, "")
	nov := fs.Bool("noverify", false, "")
	fs.Parse(args)
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := os.Getenv("VERIF_SEED")
	if _, err := strconv.Atoi(seed); err != nil {
		seed = "1"
	}
	tmp, err := os.MkdirTemp("", "gocv")
	if err != nil {
		fmt.Println("cannot create a scratch directory:", err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmp)
	hc := make(chan *harness, 1)
	go func() {
		if *noh {
			hc <- &harness{tmp: tmp}
			return
		}
		hc <- buildHarness(*verif, *repo, *prop, tmp)
	}()

	p, err := cv.Load(*repo)
	if err != nil {
		fmt.Println("the repository does not load:", err)
		os.RemoveAll(tmp)
		os.Exit(2)
	}
	specs, err := cv.ParseSpecs(filepath.Join(*verif, "contracts"))
	if err != nil {
		fmt.Println("contracts:", err)
		os.RemoveAll(tmp)
		os.Exit(2)
	}
	perRoot := 90 * time.Second
	if tier == "thorough" {
		perRoot = 240 * time.Second
	}
	byKey := map[string]*cv.RootResult{}
	var missing []string
	if !*nov {
		roots, lemmas, miss := cv.Roots(p, specs, *prop)
		missing = miss
		for _, r := range cv.RunRoots(p, specs, roots, lemmas, *prop, perRoot, 1) {
			byKey[r.Key] = r
		}
		// the contracts those proofs rest on
		for {
			var more []*cv.Contract
			var moreL []*cv.Lemma
			seen := map[string]bool{}
			for _, r := range byKey {
				for _, u := range r.Used {
					if byKey[u] != nil || seen[u] {
						continue
					}
					seen[u] = true
					if strings.HasPrefix(u, "lemma ") {
						for _, l := range specs.Lemmas {
							if "lemma "+l.Name == u && !l.Trusted {
								moreL = append(moreL, l)
							}
						}
						continue
					}
					ct := specs.Funcs[u]
					if ct == nil || ct.Trusted || ct.NoVerify || ct.Iface {
						continue
					}
					if why := cv.Misfit(p, ct); why != "" {
						continue
					}
					more = append(more, ct)
				}
			}
			if len(more)+len(moreL) == 0 {
				break
			}
			for _, r := range cv.RunRoots(p, specs, more, moreL, "", perRoot, 1) {
				byKey[r.Key] = r
			}
		}
		// a second, slower attempt at what failed, so that load does not decide
		var again []*cv.Contract
		var againL []*cv.Lemma
		for k, r := range byKey {
			if len(r.Failed()) == 0 && r.Aborted == "" {
				continue
			}
			if strings.HasPrefix(k, "lemma ") {
				for _, l := range specs.Lemmas {
					if "lemma "+l.Name == k {
						againL = append(againL, l)
					}
				}
			} else {
				again = append(again, specs.Funcs[k])
			}
		}
		if len(again)+len(againL) > 0 && time.Since(t0) < 240*time.Second {
			for _, ct := range again {
				pr := *prop
				if !ct.InProp(pr) {
					pr = ""
				}
				for _, r := range cv.RunRoots(p, specs, []*cv.Contract{ct}, nil, pr, perRoot, 3) {
					byKey[r.Key] = r
				}
				if time.Since(t0) > 300*time.Second {
					break
				}
			}
			for _, r := range cv.RunRoots(p, specs, nil, againL, *prop, perRoot, 3) {
				byKey[r.Key] = r
			}
		}
	}
	// A clause of another property that does not hold matters here only if this
	// property's own proofs rest on it: they are redone without it.
	var weakened []string
	var ignoredList []*cv.Obligation
	fallback := false
	ignored := map[*cv.Obligation]bool{}
	for round := 0; round < 8 && time.Since(t0) < 420*time.Second; round++ {
		changed := map[string]bool{}
		for _, k := range sortedKeys(byKey) {
			ct := specs.Funcs[k]
			if ct == nil {
				continue
			}
			for _, o := range byKey[k].Failed() {
				if ignored[o] || ct.Owns(o, *prop) {
					continue
				}
				if ok, used := ct.Weaken(o); ok {
					ignored[o] = true
					ignoredList = append(ignoredList, o)
					weakened = append(weakened, o.Name)
					if used {
						changed[k] = true
					}
				}
			}
		}
		if len(changed) == 0 {
			break
		}
		var own, dep []*cv.Contract
		for _, k := range sortedKeys(byKey) {
			ct := specs.Funcs[k]
			uses := false
			for _, u := range byKey[k].Used {
				uses = uses || changed[u]
			}
			if ct == nil || !uses {
				continue
			}
			if ct.InProp(*prop) {
				own = append(own, ct)
			} else {
				dep = append(dep, ct)
			}
		}
		redo := cv.RunRoots(p, specs, own, nil, *prop, perRoot, 1)
		redo = append(redo, cv.RunRoots(p, specs, dep, nil, "", perRoot, 1)...)
		for _, r := range redo {
			old := byKey[r.Key]
			if r.Aborted != "" && old.Aborted == "" {
				// without the clause there is no answer, so its failure counts
				fallback = true
				round = 1 << 20
				break
			}
			byKey[r.Key] = r
		}
	}
	verifyWall := time.Since(t0).Seconds()
	h := <-hc
	var hr harnessResult
	if *noh {
		hr.state = "none"
	} else {
		hr = h.run(seed, tier)
	}

	findings := readFindings(filepath.Join(*verif, "known-findings.txt"), *prop)
	known := func(kind, name string) *finding {
		for i := range findings {
			if findings[i].kind == kind && findings[i].name == name {
				return &findings[i]
			}
		}
		return nil
	}
	printed := map[string]bool{}
	sayKnown := func(f *finding) {
		if !printed[f.what] {
			printed[f.what] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.what)
		}
	}
	var failed []*cv.Obligation
	var undecided []string
	obl, dis := 0, 0
	by := map[string]int{}
	assumed := map[string]bool{}
	var funcs []string
	inl := map[string]bool{}
	for _, k := range sortedKeys(byKey) {
		r := byKey[k]
		if r.Aborted != "" {
			undecided = append(undecided, k+": "+r.Aborted)
		}
		for _, e := range r.Errs {
			undecided = append(undecided, k+": contract not applicable: "+e)
		}
		funcs = append(funcs, fmt.Sprintf("%s (%d obligations)", k, len(r.Obls)))
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		for _, u := range r.Used {
			if ct := specs.Funcs[u]; ct != nil && (ct.Trusted || ct.Iface || ct.NoVerify) {
				assumed["assumed contract: "+u] = true
			}
		}
		for _, i := range r.Inlined {
			inl[i] = true
		}
		for _, o := range r.Obls {
			obl++
			if o.Failed == 0 {
				dis++
				for b, n := range o.By {
					by[b] += n
				}
				continue
			}
			if ignored[o] {
				obl--
				continue
			}
			if f := known("obligation", o.Name); f != nil {
				sayKnown(f)
				continue
			}
			failed = append(failed, o)
		}
	}
	if fallback {
		failed = append(failed, ignoredList...)
		obl += len(ignoredList)
		weakened = nil
	}
	for _, m := range missing {
		undecided = append(undecided, m)
	}
	var hfails []string
	for _, f := range hr.fails {
		if k := known("harness", scenario(f)); k != nil {
			sayKnown(k)
			continue
		}
		hfails = append(hfails, f)
	}
	if len(byKey) > 0 && obl == 0 {
		undecided = append(undecided, "no obligations were generated")
	}

	viol := 0
	replay := filepath.Join(*verif, "evidence", *prop+".replay.txt")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	os.Remove(replay)
	if len(failed) > 0 || len(hfails) > 0 {
		viol = len(failed) + len(hfails)
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\n", *prop)
		if len(hfails) > 0 {
			fmt.Fprintf(&b, "== failing inputs on the real code (replay harness /verif/replay/%s, seed %s)\n", *prop, seed)
			for _, f := range hfails {
				fmt.Fprintf(&b, "  %s\n", f)
			}
			fmt.Fprintf(&b, "  rerun: VERIF_SEED=%s VERIF_TIER=%s %s/check.sh %s\n\n%s\n\n", seed, tier, *verif, *prop, hr.detail)
		}
		for _, o := range failed {
			fmt.Fprintf(&b, "== obligation not discharged: %s\n   %s (%s), %s; %d of %d verification conditions\n   clause: %s\n%s\n", o.Name, o.Kind, o.Pos, o.Path, o.Failed, o.VCs, o.Spec, o.Detail)
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
	}

	tb := []string{
		"gocv (verif/gocv): the condition generator over go/ssa and its simplifier",
		"golang.org/x/tools/go/ssa as the meaning of the Go source; the Go compiler",
		"z3 5.3.2 and, where it gives up, z3 4.8.12 and cvc5 1.1.2",
		"sequential semantics per call: other goroutines act only at lock acquisitions and where contracts say so",
	}
	tb = append(tb, sortedKeys(assumed)...)
	ev := map[string]any{
		"property": *prop, "tier": tier, "level": "proof", "wall_s": round(time.Since(t0).Seconds()), "violations": viol,
		"assumptions": append([]string{"machine integers are modelled exactly (wrap-around), lengths and capacities are below 2^62", "heap allocation never fails"}, sortedKeys(assumed)...),
		"coverage": map[string]any{
			"obligations": obl, "discharged": dis,
			"checker_cmd":                fmt.Sprintf("%s/check.sh %s", *verif, *prop),
			"trusted_base":               tb,
			"functions_under_contract":   funcs,
			"functions_inlined":          sortedKeys(inl),
			"verification_conditions_by": by,
			"solver_queries":             cv.GStats.Queries.Load(),
			"solver_s":                   round(float64(cv.GStats.SolverNS.Load()) / 1e9),
			"verify_wall_s":              round(verifyWall),
			"undecided":                  undecided,
			"clauses_of_other_properties_that_failed_and_were_not_relied_on": weakened,
			"bounded_replay_harness": map[string]any{"state": hr.state, "cases": hr.cases, "scenarios": hr.scen, "packages": hr.packages, "packages_that_do_not_build": hr.unbuilt, "wall_s": round(hr.wall), "label": "bounded; not counted as proved"},
		},
	}
	n, _ := strconv.Atoi(seed)
	ev["seed"] = n
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(js, '\n'), 0o644)

	for _, u := range undecided {
		fmt.Println("undecided:", u)
	}
	if len(weakened) > 0 {
		fmt.Println("not relied on (clauses of other properties that do not hold):", strings.Join(weakened, ", "))
	}
	if len(hr.unbuilt) > 0 {
		fmt.Println("the replay harness does not build against this tree:", firstLines(hr.detail, 5))
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions and lemmas, %.1fs; harness %s, %d cases, %.1fs\n", *prop, obl, dis, len(byKey), verifyWall, hr.state, hr.cases, hr.wall)
	os.RemoveAll(tmp)
	if viol > 0 {
		for _, f := range hfails {
			fmt.Println("failing input:", f)
		}
		for _, o := range failed {
			fmt.Println("obligation not discharged:", o.Name)
		}
		if len(hfails) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, replay)
		}
		os.Exit(1)
	}
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func round(f float64) float64 { return float64(int(f*10)) / 10 }

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
