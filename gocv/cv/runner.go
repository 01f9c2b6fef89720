package cv

import (
	"fmt"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// RootResult is the outcome of verifying one root.
type RootResult struct {
	Key     string
	Kind    string // "function" or "lemma"
	Obls    []*Obligation
	Aborted string
	Errs    []string
	Assumed []string
	Used    []string
	Inlined []string
	Dropped []string
	Returns int
	Paths   int
	Wall    time.Duration
}

// Failed lists the obligations of the root that were not discharged.
func (r *RootResult) Failed() []*Obligation {
	var out []*Obligation
	for _, o := range r.Obls {
		if o.Failed > 0 {
			out = append(out, o)
		}
	}
	return out
}

// InProp reports whether the contract carries obligations of the property.
func (ct *Contract) InProp(prop string) bool {
	if prop == "" {
		return true
	}
	if contains(ct.Props, prop) || contains(ct.Panics, prop) || contains(ct.Races, prop) {
		return true
	}
	for _, cs := range [][]Clause{ct.Ensures, ct.Steps, ct.Allocs} {
		for _, c := range cs {
			if contains(c.Props, prop) {
				return true
			}
		}
	}
	return false
}

// Owns reports whether a failure of the obligation is a violation of the
// property, as opposed to one of a contract its proofs may rest on.
func (ct *Contract) Owns(o *Obligation, prop string) bool {
	switch o.Kind {
	case "postcondition", "loop step", "alloc", "panic":
		if len(o.Props) > 0 {
			return contains(o.Props, prop)
		}
		return contains(ct.Props, prop)
	case "frame", "vacuity":
		return contains(ct.Props, prop)
	}
	return true
}

// Weaken takes what the obligation stands for out of the contract, so that
// callers are verified without it. It reports whether that could be done, and
// whether callers could have relied on it.
func (ct *Contract) Weaken(o *Obligation) (ok, used bool) {
	switch o.Kind {
	case "loop step", "alloc", "panic", "vacuity":
		return true, false
	case "postcondition":
		for i := range ct.Ensures {
			if ct.Key+"/ensures:"+clauseName(ct.Ensures[i], i) == o.Name {
				ct.Ensures[i].Off = true
				return true, true
			}
		}
	case "frame":
		if f, ok := strings.CutPrefix(o.Name, ct.Key+"/frame:F."); ok {
			if e, err := ParseExpr(`field("` + f + `")`); err == nil {
				ct.Modifies = append(ct.Modifies, Clause{E: e, Src: "field " + f, Pos: ct.Pos})
				return true, true
			}
		}
	}
	return false, true
}

// Roots lists the contracts to verify for a property, and those whose function is absent.
func Roots(p *Program, specs *Specs, prop string) (roots []*Contract, lemmas []*Lemma, missing []string) {
	for _, k := range specs.Order {
		ct := specs.Funcs[k]
		if ct.Trusted || ct.NoVerify || ct.Iface || !ct.InProp(prop) {
			continue
		}
		fn := p.Funcs[k]
		if fn == nil || fn.Blocks == nil {
			missing = append(missing, k+": no such function")
			continue
		}
		x := &Exec{}
		if !x.fits(ct, fn) {
			missing = append(missing, k+": its signature changed")
			continue
		}
		roots = append(roots, ct)
	}
	for _, l := range specs.Lemmas {
		if l.Trusted || prop != "" && !contains(l.Props, prop) {
			continue
		}
		lemmas = append(lemmas, l)
	}
	return
}

// RunRoots verifies all roots in parallel.
func RunRoots(p *Program, specs *Specs, roots []*Contract, lemmas []*Lemma, prop string, perRoot time.Duration, slow int) []*RootResult {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, max(2, runtime.NumCPU()/slow))
	var out []*RootResult
	immut := immutCheck(p, specs)
	run := func(key, kind string, f func(x *Exec)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			t0 := time.Now()
			x := NewExec(p, specs)
			defer x.Close()
			x.prop = prop
			x.Slow = slow
			x.deadline = t0.Add(perRoot)
			func() {
				defer func() {
					if r := recover(); r != nil {
						if os.Getenv("GOCV_PANIC") != "" {
							panic(r)
						}
						x.aborted = fmt.Sprintf("internal: %v", r)
					}
				}()
				f(x)
			}()
			x.Errs = append(x.Errs, immut...)
			r := &RootResult{Key: key, Kind: kind, Aborted: x.aborted, Errs: x.Errs, Assumed: sortedStrings(x.Assumed), Used: sortedStrings(x.Used), Inlined: sortedStrings(x.Inlined),
				Dropped: x.Dropped, Returns: x.Returns, Paths: x.paths, Wall: time.Since(t0)}
			for _, n := range x.Order {
				r.Obls = append(r.Obls, x.Obls[n])
			}
			if os.Getenv("GOCV_TIME") != "" {
				fmt.Fprintf(os.Stderr, "%6.1fs %s\n", r.Wall.Seconds(), key)
			}
			mu.Lock()
			out = append(out, r)
			mu.Unlock()
		}()
	}
	for _, ct := range roots {
		ct := ct
		run(ct.Key, "function", func(x *Exec) { x.VerifyFunc(ct, p.Funcs[ct.Key]) })
	}
	for _, l := range lemmas {
		l := l
		run("lemma "+l.Name, "lemma", func(x *Exec) { x.VerifyLemma(l) })
	}
	wg.Wait()
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return out
}

// Misfit says why the contract cannot be applied to the loaded program ("" if it can).
func Misfit(p *Program, ct *Contract) string {
	fn := p.Funcs[ct.Key]
	if fn == nil || fn.Blocks == nil {
		return "no such function"
	}
	if !(&Exec{}).fits(ct, fn) {
		return "its signature changed"
	}
	return ""
}

// immutCheck finds writes to fields declared immutable outside the construction of their object.
func immutCheck(p *Program, specs *Specs) (bad []string) {
	if len(specs.Immut) == 0 {
		return nil
	}
	for _, k := range sortedKeys(p.Funcs) {
		for _, b := range p.Funcs[k].Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
				st := pt.Underlying().(*types.Struct)
				name := TypeName(pt) + "." + st.Field(fa.Field).Name()
				if !specs.Immut[name] {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); ok {
					continue
				}
				for _, u := range *fa.Referrers() {
					if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
						continue
					}
					bad = append(bad, fmt.Sprintf("%s: %s is declared immutable but may be written in %s", p.Pos(u.Pos()), name, k))
				}
			}
		}
	}
	return bad
}
