package cv

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one named proof obligation, aggregated over paths.
type Obligation struct {
	Name   string
	Func   string
	Kind   string
	Props  []string
	Pos    string
	Spec   string
	VCs    int
	Failed int
	By     map[string]int
	Detail string
	Path   string
}

type closure struct {
	fn    *ssa.Function
	binds []*Term
}

// Exec verifies one root function.
type Exec struct {
	c     *Ctx
	p     *Program
	specs *Specs
	sol   *Solver
	pkg   *ssa.Package

	init     map[string]*Term
	epochs   []*epoch
	keys     map[string]*keyInfo
	addrID   map[string]string
	addrs    map[string]*addrInfo
	factDone map[*Term]bool
	ctr      int
	tags     map[string]int64
	tagT     map[int64]types.Type
	closures map[int64]*closure
	private  map[ssa.Value]bool
	funcRefs map[*ssa.Function]*Term
	globals  map[*ssa.Global]*Term
	ginit    map[*ssa.Global]*Term
	lockN    int
	recDepth int

	root      *Contract
	rootFn    *ssa.Function
	rootEnv   *Env
	prop      string // property being checked ("" = all)
	quiet     int
	Obls      map[string]*Obligation
	Order     []string
	Assumed   map[string]bool
	Used      map[string]bool
	Inlined   map[string]bool
	Dropped   []string
	Returns   int
	OkReturns int // returns that may be without error
	paths     int
	steps     int
	deadline  time.Time
	aborted   string
	visN      int
	loopMemo  map[*ssa.BasicBlock]*loopInfo
	tags0     int
	Errs      []string
	feasTO    int
	rewriting bool
	candMemo  map[string]map[string]bool
	cancels   map[*Term]bool
	Slow      int // factor on the solver's time limits
	mapGuards map[*Term]mapGuard
	ctrMarks  []int // allocation counters of interest, newest first
}

// Frame is one activation.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	caller *Frame
	depth  int
	ret    func(st *State, res []*Term)
	active map[*ssa.BasicBlock]*loopCtx
	id     int
	con    *Contract
	isRoot bool
	entry  *State
}

var frameN int

type abortErr struct{ msg string }

func NewExec(p *Program, specs *Specs) *Exec {
	c := NewCtx()
	x := &Exec{c: c, p: p, specs: specs, init: map[string]*Term{}, keys: map[string]*keyInfo{}, addrID: map[string]string{}, addrs: map[string]*addrInfo{},
		factDone: map[*Term]bool{}, ctr: baseCtr, tags: map[string]int64{}, tagT: map[int64]types.Type{}, closures: map[int64]*closure{}, private: map[ssa.Value]bool{},
		funcRefs: map[*ssa.Function]*Term{}, globals: map[*ssa.Global]*Term{}, ginit: map[*ssa.Global]*Term{},
		Obls: map[string]*Obligation{}, Assumed: map[string]bool{}, Used: map[string]bool{}, Inlined: map[string]bool{}, loopMemo: map[*ssa.BasicBlock]*loopInfo{},
		feasTO: 250, candMemo: map[string]map[string]bool{}, cancels: map[*Term]bool{}}
	c.factHook = x.refFact
	c.viewStrip = x.viewStrip
	c.hooks = map[string]func(a []*Term) *Term{
		"flat":  func(a []*Term) *Term { return x.flat(a[0]) },
		"noarr": func(a []*Term) *Term { return x.noArr(a[0], a[1]) },
		"viewS": func(a []*Term) *Term { return x.viewOf(a[0], a[1]) },
	}
	for _, b := range []int{16, 32, 64} {
		b := b
		c.hooks[fmt.Sprintf("be%d", b)] = func(a []*Term) *Term { return x.be(b, a[0]) }
		c.hooks[fmt.Sprintf("ube%d", b)] = func(a []*Term) *Term { return x.ube(b, a[0]) }
	}
	for _, n := range []string{"lower", "upper", "trimspace", "title"} {
		n := n
		c.hooks["fn_"+n] = func(a []*Term) *Term { return x.strFun(n, a[0]) }
	}
	for _, n := range []string{"B", "Seq_B", "Seq_Int"} {
		c.hooks["pfx_"+n] = func(a []*Term) *Term { return x.isPrefix(a[0], a[1]) }
	}
	x.sol = NewSolver(c)
	x.listKey()
	return x
}

func (x *Exec) Close() { x.sol.Close() }

func (x *Exec) assumeNote(s string) { x.Assumed[s] = true }

// ---- path condition

func (x *Exec) assume(st *State, t *Term) {
	if st.dead || t.op == "true" {
		return
	}
	if t.op == "false" {
		st.dead = true
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			x.assume(st, a)
		}
		return
	}
	n := x.c.Not(t)
	for _, p := range st.pc {
		if p == t {
			return
		}
		if p == n {
			st.dead = true
			return
		}
	}
	st.pc = append(st.pc, t)
}

// feasible prunes a branch whose path condition is contradictory.
func (x *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	r := x.sol.Check(st.pc, x.c.False, x.feasTO)
	if r == "unsat" {
		st.dead = true
		return false
	}
	return true
}

// eqRewrite uses the path's equations between sequences as rewrite rules, larger to smaller.
func (x *Exec) eqRewrite(pc []*Term, goal *Term) ([]*Term, *Term, bool) {
	c := x.c
	em := map[*Term]*Term{}
	use := map[*Term]bool{}
	for _, p := range pc {
		if !strings.HasPrefix(p.op, "eq_") {
			continue
		}
		a, b := p.args[0], p.args[1]
		if a.size < b.size {
			a, b = b, a
		}
		if a.size == b.size || len(a.args) == 0 || occurs(b, a) {
			continue
		}
		if o, ok := em[a]; !ok || b.size < o.size {
			em[a] = b
		}
		use[p] = true
	}
	if len(em) == 0 {
		return nil, nil, false
	}
	c.enterCtx(pc)
	defer c.leaveCtx()
	ng := goal
	for i := 0; i < 3; i++ {
		n := c.Subst(ng, em)
		if n == ng {
			break
		}
		ng = n
	}
	if ng == goal {
		return nil, nil, false
	}
	npc := pc[:len(pc):len(pc)]
	for _, p := range pc {
		if use[p] || !hasSeq(p) {
			continue
		}
		if n := c.Subst(p, em); n != p && n.op != "true" && n.op != "false" {
			npc = append(npc, flatAnd(n)...)
		}
	}
	return npc, ng, true
}

func occurs(t, s *Term) bool {
	if t == s {
		return true
	}
	if t.size <= s.size {
		return false
	}
	for _, a := range t.args {
		if occurs(a, s) {
			return true
		}
	}
	return false
}

// simpPC adds to pc its non-arithmetic facts as the simplifier reads them in their context.
func (x *Exec) simpPC(pc []*Term) []*Term {
	out, lits := x.simpPC1(pc)
	if !lits {
		return out
	}
	x.c.leaveCtx()
	x.c.enterCtx(out)
	out, _ = x.simpPC1(out)
	return out
}

// simpPC1 adds the simplified forms of pc; lits says that a guard of a formula
// was discharged, which may have given new arithmetic facts.
func (x *Exec) simpPC1(pc []*Term) (out []*Term, lits bool) {
	out = pc[:len(pc):len(pc)]
	in := map[*Term]bool{}
	vl := map[*Term]*Term{} // variables known to be a literal
	for _, p := range pc {
		in[p] = true
		if strings.HasPrefix(p.op, "eq_") {
			a, b := p.args[0], p.args[1]
			if len(b.args) == 0 && !strings.HasPrefix(b.op, "lit_") {
				a, b = b, a
			}
			if strings.HasPrefix(b.op, "lit_") && len(a.args) == 0 && !strings.HasPrefix(a.op, "lit_") {
				vl[a] = b
			}
		}
	}
	for _, p := range pc {
		switch p.op {
		case "forall":
			continue
		default:
			if !hasSeq(p) {
				continue
			}
		}
		q := p
		for { // modus ponens
			if q.op == "=>" {
				have := true
				for _, a := range flatAnd(q.args[0]) {
					if !in[a] {
						have = false
					}
				}
				if have {
					q = q.args[1]
					continue
				}
			}
			if q.op == "=" && q.args[0].sort == x.c.Bool {
				a, b := q.args[0], q.args[1]
				if in[a] {
					q = b
					continue
				}
				if in[b] {
					q = a
					continue
				}
				if in[x.c.Not(a)] {
					q = x.c.Not(b)
					continue
				}
				if in[x.c.Not(b)] {
					q = x.c.Not(a)
					continue
				}
			}
			break
		}
		n := x.c.deepBool(x.c.Subst(q, vl))
		if n != p && n.op != "true" && n.op != "false" {
			lits = lits || q != p
			for _, a := range flatAnd(n) {
				if !in[a] {
					in[a] = true
					out = append(out, a)
				}
			}
		}
	}
	return out, lits
}

// instances instantiates the path's universal facts at the matching terms of
// the goal and the path, keeping those whose guard the context discharges.
func (x *Exec) instances(pc []*Term, goal *Term) []*Term {
	c := x.c
	var qs []*Term
	for _, p := range pc {
		if p.op == "forall" && len(p.pats) > 0 && len(p.pats[0]) == 1 {
			qs = append(qs, p)
		}
	}
	if len(qs) == 0 {
		return nil
	}
	byOp := map[string][]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || len(t.args) == 0 {
			return
		}
		seen[t] = true
		if t.op == "forall" || t.op == "exists" {
			return
		}
		if !t.bound && len(byOp[t.op]) < 60 {
			byOp[t.op] = append(byOp[t.op], t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(goal)
	for _, p := range pc {
		walk(p)
	}
	in := map[*Term]bool{}
	for _, p := range pc {
		in[p] = true
	}
	var out []*Term
	for _, q := range qs {
		pat := q.pats[0][0]
		for _, t := range byOp[pat.op] {
			m := map[*Term]*Term{}
			if !matchTerm(pat, t, q.qvars, m) || len(m) != len(q.qvars) {
				continue
			}
			n := c.Subst(q.args[0], m)
			for n.op == "=>" {
				have := true
				for _, a := range flatAnd(n.args[0]) {
					if !in[a] {
						have = false
					}
				}
				if !have {
					break
				}
				n = n.args[1]
			}
			if n.op == "true" || n.op == "=>" || n.op == "forall" {
				continue
			}
			for _, f := range flatAnd(n) {
				if f.op != "=>" && f.op != "forall" && !in[f] && len(out) < 80 {
					in[f] = true
					out = append(out, f)
				}
			}
		}
	}
	return out
}

func matchTerm(p, t *Term, vars []*Term, m map[*Term]*Term) bool {
	if !p.bound {
		return p == t
	}
	for _, v := range vars {
		if v == p {
			if o, ok := m[v]; ok {
				return o == t
			}
			if t.sort != p.sort {
				return false
			}
			m[v] = t
			return true
		}
	}
	if p.op != t.op || len(p.args) != len(t.args) || len(p.args) == 0 || p.op == "lin" {
		return false
	}
	for i := range p.args {
		if !matchTerm(p.args[i], t.args[i], vars, m) {
			return false
		}
	}
	return true
}

func hasSeq(t *Term) bool {
	if t.sort != nil && t.sort.Elem != nil {
		return true
	}
	for _, a := range t.args {
		if hasSeq(a) {
			return true
		}
	}
	return false
}

// litMap collects path facts for goal simplification.
func (x *Exec) litMap(pc []*Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	c := x.c
	for _, p := range pc {
		if p.op == "not" {
			m[p.args[0]] = c.False
		} else {
			m[p] = c.True
			if n := c.Not(p); n.op != "not" {
				m[n] = c.False
			}
		}
		if p.op == "=" || strings.HasPrefix(p.op, "eq_") {
			a, b := p.args[0], p.args[1]
			ground := func(t *Term) bool {
				return t.isInt() || len(t.args) == 0 && t.sort.Elem != nil && (strings.HasPrefix(t.op, "lit_") || strings.HasPrefix(t.op, "empty_"))
			}
			if ground(a) && !ground(b) {
				m[b] = a
			} else if ground(b) && !ground(a) {
				m[a] = b
			} else if len(a.args) == 0 && a.born > b.born && !a.bound {
				m[a] = b
			} else if len(b.args) == 0 && b.born > a.born && !b.bound {
				m[b] = a
			} else if a.sort == c.Int {
				if v, t := c.solveYoungest(a, b); v != nil && m[v] == nil {
					m[v] = t
				}
			}
		}
	}
	return m
}

// holds tries to prove goal from pc with time limit ms; it never reports.
func (x *Exec) holds(pc []*Term, goal *Term, ms int, fallback int) (bool, string, []*Term, *Term) {
	c := x.c
	switch goal.op {
	case "true":
		GStats.Simplify.Add(1)
		return true, "simplifier", nil, nil
	case "and":
		by := "simplifier"
		for _, a := range goal.args {
			ok, b, fpc, fg := x.holds(pc, a, ms, fallback)
			if !ok {
				return false, b, fpc, fg
			}
			if b != "simplifier" {
				by = b
			}
			switch a.op { // a proved conjunct may guard the rest
			case "<=", "<":
				pc = append(pc[:len(pc):len(pc)], a)
			}
		}
		return true, by, nil, nil
	case "=>":
		npc := append(pc[:len(pc):len(pc)], flatAnd(goal.args[0])...)
		return x.holds(npc, goal.args[1], ms, fallback)
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range goal.qvars {
			nv := c.Var("sk_"+v.op, v.sort)
			m[v] = nv
		}
		return x.holds(pc, c.Subst(goal.args[0], m), ms, fallback)
	case "ite":
		if goal.sort == c.Bool {
			ok, by, fpc, fg := x.holds(pc, c.Imp(goal.args[0], goal.args[1]), ms, fallback)
			if !ok {
				return ok, by, fpc, fg
			}
			return x.holds(pc, c.Imp(c.Not(goal.args[0]), goal.args[2]), ms, fallback)
		}
	case "=":
		if goal.args[0].sort == c.Bool {
			a, b := goal.args[0], goal.args[1]
			ok, by, fpc, fg := x.holds(pc, c.Imp(a, b), ms, fallback)
			if !ok {
				return ok, by, fpc, fg
			}
			return x.holds(pc, c.Imp(b, a), ms, fallback)
		}
	}
	// simplify with the path's literals
	g := goal
	c.enterCtx(pc)
	if more := x.instances(pc, goal); len(more) > 0 {
		pc = append(pc[:len(pc):len(pc)], more...)
		c.leaveCtx()
		c.enterCtx(pc)
	}
	pc = x.simpPC(pc)
	lm := x.litMap(pc)
	for i := 0; i < 4; i++ {
		n := c.Subst(g, lm)
		if n == g {
			break
		}
		g = n
	}
	c.leaveCtx()
	if g != goal {
		switch g.op {
		case "true":
			GStats.Simplify.Add(1)
			return true, "simplifier", nil, nil
		case "and", "=>", "forall", "ite":
			return x.holds(pc, g, ms, fallback)
		}
	}
	if os.Getenv("GOCV_SLOW") != "" {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 1500*time.Millisecond {
				fmt.Fprintf(os.Stderr, "SLOW %.1fs %d pc; goal %s\n   was %s\n", d.Seconds(), len(pc), g, goal)
				if os.Getenv("GOCV_SLOW") == "2" {
					for _, p := range pc {
						fmt.Fprintf(os.Stderr, "     %s\n", p)
					}
				}
			}
		}()
	}
	r := x.sol.Check(pc, g, ms)
	if r == "unsat" {
		GStats.Z3.Add(1)
		return true, "z3", nil, nil
	}
	if g != goal {
		if r2 := x.sol.Check(pc, goal, ms); r2 == "unsat" {
			GStats.Z3.Add(1)
			return true, "z3", nil, nil
		}
	}
	if !x.rewriting {
		if npc, ng, ok := x.eqRewrite(pc, g); ok {
			x.rewriting = true
			done, by, fp, fg := x.holds(npc, ng, ms, 0)
			x.rewriting = false
			if !done && os.Getenv("GOCV_REW") != "" && fallback > 0 {
				fmt.Fprintf(os.Stderr, "REWRITTEN\n")
				for _, p := range fp {
					fmt.Fprintf(os.Stderr, "  %s\n", p)
				}
				fmt.Fprintf(os.Stderr, "REWGOAL %s\n", fg)
			}
			if done {
				return true, by, nil, nil
			}
		}
	}
	if fallback > 0 {
		res, by := x.sol.fallback(pc, g, fallback)
		if res == "unsat" {
			if by == "cvc5" {
				GStats.Cvc5.Add(1)
			} else {
				GStats.Z3b.Add(1)
			}
			return true, by, nil, nil
		}
		r = r + "/" + res
	}
	return false, r, pc, g
}

func flatAnd(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

const (
	proveMS    = 4000
	proveFB    = 20
	probeMS    = 1500
	maxDetails = 3
)

func (x *Exec) slow() int { return max(1, x.Slow) }

// prove discharges goal as a named obligation and assumes it afterwards.
func (x *Exec) prove(st *State, goal *Term, name, kind string, props []string, pos, src string) bool {
	if st.dead {
		return true
	}
	if x.quiet > 0 {
		x.assume(st, goal)
		return true
	}
	if x.prop != "" && len(props) > 0 && !contains(props, x.prop) {
		x.assume(st, goal)
		return true
	}
	o := x.Obls[name]
	if o == nil {
		o = &Obligation{Name: name, Kind: kind, Props: props, Pos: pos, Spec: src, By: map[string]int{}, Func: x.root.Key}
		x.Obls[name] = o
		x.Order = append(x.Order, name)
	}
	o.VCs++
	fb := proveFB
	if o.Failed > 0 {
		fb = 0 // one failure is enough for this obligation
	}
	ms := proveMS * x.slow()
	fb *= x.slow()
	if o.Failed > 2 {
		ms = 300
	}
	ok, by, fpc, fg := x.holds(st.pc, goal, ms, fb)
	if ok {
		o.By[by]++
	} else {
		o.Failed++
		if o.Failed == 1 {
			o.Detail = x.describe(fpc, fg, by)
			o.Path = fmt.Sprintf("path %d", x.paths)
		}
	}
	x.assume(st, goal)
	return ok
}

func contains(s []string, v string) bool {
	for _, e := range s {
		if e == v {
			return true
		}
	}
	return false
}

func (x *Exec) describe(pc []*Term, g *Term, by string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "solver: %s\npath condition:\n", by)
	for _, p := range pc {
		fmt.Fprintf(&b, "  %s\n", p)
	}
	fmt.Fprintf(&b, "goal:\n  %s\n", g)
	return b.String()
}

// ---- panics

// panicCheck: cond must hold for the instruction not to panic.
func (x *Exec) panicCheck(fr *Frame, st *State, cond *Term, kind string, in ssa.Instruction) {
	if cond.op == "true" || st.dead {
		return
	}
	if pp := panicProps(x.root); len(pp) > 0 && x.quiet == 0 {
		pos := "?"
		if in != nil {
			pos = x.p.Pos(in.Pos())
		}
		x.prove(st, cond, fmt.Sprintf("%s/no-panic:%s:%s", x.root.Key, kind, FuncKey(fr.fn)), "panic", pp, pos, kind+" cannot occur")
		return
	}
	x.assume(st, cond)
}

func (x *Exec) nilCheck(fr *Frame, st *State, p *Term, in ssa.Instruction) {
	x.panicCheck(fr, st, x.c.Not(x.c.Eq(p, x.c.I(0))), "nil-dereference", in)
}

// ---- values

func (x *Exec) constTerm(v *ssa.Const) *Term {
	c := x.c
	if v.Value == nil {
		return c.Zero(v.Type())
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return c.BoolT(constant.BoolVal(v.Value))
	case constant.String:
		return c.Str(constant.StringVal(v.Value))
	case constant.Int:
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return c.Fun("float_"+sanitize(v.Value.ExactString()), c.Int)
		}
		n, _ := new(big.Int).SetString(v.Value.ExactString(), 10)
		return c.Big(n)
	}
	return c.Fun("float_"+sanitize(v.Value.ExactString()), c.Int)
}

func (x *Exec) funcRef(fn *ssa.Function) *Term {
	if t, ok := x.funcRefs[fn]; ok {
		return t
	}
	t := x.c.I(int64(300000 + len(x.funcRefs)))
	x.funcRefs[fn] = t
	x.closures[t.ival.Int64()] = &closure{fn: fn}
	return t
}

func (x *Exec) globalRef(g *ssa.Global) *Term {
	if t, ok := x.globals[g]; ok {
		return t
	}
	t := x.c.I(int64(2000 + len(x.globals)))
	x.globals[g] = t
	return t
}

func (x *Exec) globalRefByName(pkg *ssa.Package, name string) *Term {
	if pkg != nil {
		if g := pkg.Var(name); g != nil {
			return x.globalRef(g)
		}
	}
	evalFail("no global %s", name)
	return nil
}

// readGlobal is the current value of a package variable.
func (x *Exec) readGlobal(st *State, g *ssa.Global) *Term {
	t := g.Type().(*types.Pointer).Elem()
	if !x.p.InRepoPkg(g.Pkg) {
		if v, ok := x.ginit[g]; ok {
			return v
		}
		v := x.externGlobal(g, t)
		x.ginit[g] = v
		return v
	}
	if x.p.onlyInit[g] && structOf(t) == nil {
		return x.globalInit(g)
	}
	return x.read(st, x.locOf(x.globalRef(g), t))
}

func (x *Exec) externGlobal(g *ssa.Global, t types.Type) *Term {
	if isIface(t) {
		// error values of the standard library: distinct non-nil constants
		return x.c.Cons(x.c.Iface, x.typeIDName("errorString"), x.globalRef(g))
	}
	x.ctr += 0
	v := x.c.VarOf("ext_"+g.Name(), t, 2000)
	x.facts(v, t)
	return v
}

func (x *Exec) typeIDName(n string) *Term {
	id, ok := x.tags["!"+n]
	if !ok {
		id = int64(len(x.tags) + 1)
		x.tags["!"+n] = id
	}
	return x.c.I(id)
}

// globalInit evaluates the initialiser of a variable assigned only by package initialisation.
func (x *Exec) globalInit(g *ssa.Global) *Term {
	if v, ok := x.ginit[g]; ok {
		return v
	}
	t := g.Type().(*types.Pointer).Elem()
	x.ginit[g] = x.c.Zero(t)
	init := g.Pkg.Func("init")
	var res *Term
	c := x.c
	var ev func(v ssa.Value) *Term
	ev = func(v ssa.Value) *Term {
		switch y := v.(type) {
		case *ssa.Const:
			return x.constTerm(y)
		case *ssa.MakeInterface:
			if e := ev(y.X); e != nil {
				return x.mkIface(e, y.X.Type())
			}
		case *ssa.ChangeType:
			return ev(y.X)
		case *ssa.Function:
			return x.funcRef(y)
		case *ssa.Call:
			if f := y.Call.StaticCallee(); f != nil {
				switch f.String() {
				case "errors.New", "fmt.Errorf":
					return c.Cons(c.Iface, x.typeIDName("errorString"), x.globalRef(g))
				}
			}
		case *ssa.UnOp:
			if y.Op == token.MUL {
				if al, ok := y.X.(*ssa.Alloc); ok {
					if _, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array); !ok {
						return nil
					}
					r := c.Zero(al.Type().(*types.Pointer).Elem())
					for _, ref := range *al.Referrers() {
						ia, ok := ref.(*ssa.IndexAddr)
						if !ok {
							if ref != ssa.Instruction(y) {
								return nil
							}
							continue
						}
						k, ok := ia.Index.(*ssa.Const)
						if !ok || len(*ia.Referrers()) != 1 {
							return nil
						}
						st, ok := (*ia.Referrers())[0].(*ssa.Store)
						if !ok || st.Addr != ia {
							return nil
						}
						e := ev(st.Val)
						if e == nil {
							return nil
						}
						r = c.Upd(r, x.constTerm(k), e)
					}
					return r
				}
				if g2, ok := y.X.(*ssa.Global); ok && (x.p.onlyInit[g2] || !x.p.InRepoPkg(g2.Pkg)) {
					return x.readGlobal(nil, g2)
				}
			}
		}
		return nil
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if s.Addr == g {
				res = ev(s.Val)
				if res == nil {
					res = x.c.VarOf("g_"+g.Name(), t, baseCtr)
					x.facts(res, t)
					if isRef(t) {
						c.AssertBG(c.App("<", c.Bool, c.I(0), res))
					}
				}
			}
			if ia, ok := s.Addr.(*ssa.IndexAddr); ok && ia.X == g {
				if k, ok := ia.Index.(*ssa.Const); ok {
					if res == nil {
						res = c.Zero(t)
					}
					if e := ev(s.Val); e != nil {
						res = c.Upd(res, x.constTerm(k), e)
					} else {
						res = c.Upd(res, x.constTerm(k), x.havocVal("g", s.Val.Type()))
					}
				}
			}
		}
	}
	if res == nil {
		res = c.Zero(t)
	}
	x.ginit[g] = res
	return res
}

// InRepoPkg reports whether the package belongs to the repository.
func (p *Program) InRepoPkg(sp *ssa.Package) bool {
	return sp != nil && strings.HasPrefix(sp.Pkg.Path(), modulePath)
}

func (x *Exec) val(fr *Frame, v ssa.Value) *Term {
	switch y := v.(type) {
	case *ssa.Const:
		return x.constTerm(y)
	case *ssa.Global:
		return x.globalRef(y)
	case *ssa.Function:
		return x.funcRef(y)
	}
	r, ok := fr.env[v]
	if !ok {
		panic(abortErr{fmt.Sprintf("value %s of %s not set", v.Name(), fr.fn)})
	}
	if r.T == nil {
		panic(abortErr{fmt.Sprintf("tuple value %s used as a term in %s", v.Name(), fr.fn)})
	}
	return r.T
}

func (fr *Frame) set(v ssa.Value, t *Term) { fr.env[v] = Val{T: t} }

// ---- block execution

func (x *Exec) checkBudget() {
	x.steps++
	if x.steps%256 == 0 && !x.deadline.IsZero() && time.Now().After(x.deadline) {
		panic(abortErr{"time budget exhausted"})
	}
	if x.steps > 4000000 {
		panic(abortErr{"step budget exhausted"})
	}
}

// jump transfers control along the edge from -> to.
func (x *Exec) jump(fr *Frame, st *State, from, to *ssa.BasicBlock) {
	if st.dead {
		return
	}
	// leaving probed loops drops the path
	for h, lc := range fr.active {
		if lc.probe && !lc.info.blocks[to] && h != to {
			lc.exits++
			return
		}
	}
	var phis []*Term
	var pv []*ssa.Phi
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pv = append(pv, ph)
		phis = append(phis, x.val(fr, ph.Edges[idx]))
	}
	li := x.loopOf(fr.fn, to)
	if li != nil {
		if lc, ok := fr.active[to]; ok && li.blocks[from] {
			lc.back(st, phis)
			return
		}
		x.enterLoop(fr, st, li, pv, phis)
		return
	}
	for i, p := range pv {
		fr.set(p, phis[i])
	}
	x.run(fr, st, to, len(pv))
}

// run executes block b from instruction i.
func (x *Exec) run(fr *Frame, st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		x.checkBudget()
		in := b.Instrs[i]
		switch y := in.(type) {
		case *ssa.Jump:
			x.jump(fr, st, b, b.Succs[0])
			return
		case *ssa.If:
			cond := x.val(fr, y.Cond)
			if cond.op != "true" && cond.op != "false" {
				if n := x.c.Subst(cond, x.litMap(st.pc)); n.op == "true" || n.op == "false" {
					cond = n
				}
			}
			if cond.op == "true" {
				x.jump(fr, st, b, b.Succs[0])
				return
			}
			if cond.op == "false" {
				x.jump(fr, st, b, b.Succs[1])
				return
			}
			s1 := st.clone()
			x.assume(s1, cond)
			if x.feasible(s1) {
				x.jump(fr, s1, b, b.Succs[0])
			}
			x.assume(st, x.c.Not(cond))
			if x.feasible(st) {
				x.jump(fr, st, b, b.Succs[1])
			}
			return
		case *ssa.Return:
			for _, lc := range fr.active {
				if lc.probe {
					lc.exits++
					return
				}
			}
			var res []*Term
			for _, r := range y.Results {
				res = append(res, x.val(fr, r))
			}
			x.paths++
			fr.ret(st, res)
			return
		case *ssa.Panic:
			x.panicCheck(fr, st, x.c.False, "explicit-panic", in)
			return
		case *ssa.Call:
			next := i + 1
			x.callInstr(fr, st, y.Common(), in, func(st *State, res []*Term) {
				x.bindResult(fr, y, res)
				x.run(fr, st, b, next)
			})
			return
		case *ssa.Go:
			if x.goInPlace(fr, y) {
				next := i + 1
				x.assumeNote("goroutine runs in place, not interleaved with its creator: " + x.goKey(fr, y))
				x.callInstr(fr, st, &y.Call, in, func(st *State, _ []*Term) {
					st.inplace = true
					x.run(fr, st, b, next)
				})
				return
			}
			x.goInstr(fr, st, y)
		case *ssa.RunDefers:
			next := i + 1
			ds := st.defers[fr.id]
			delete(st.defers, fr.id)
			x.runDefers(fr, st, ds, func(st *State) { x.run(fr, st, b, next) })
			return
		case *ssa.Select:
			x.selectInstr(fr, st, y, b, i+1)
			return
		default:
			if !x.simple(fr, st, in, b, i+1) {
				return
			}
		}
	}
}

func (x *Exec) bindResult(fr *Frame, v ssa.Value, res []*Term) {
	if tp, ok := v.Type().(*types.Tuple); ok {
		if tp.Len() != 0 {
			fr.env[v] = Val{Tup: res}
		}
		return
	}
	if len(res) == 1 {
		fr.env[v] = Val{T: res[0]}
	}
}

func (x *Exec) runDefers(fr *Frame, st *State, ds []deferEnt, k func(*State)) {
	if st.dead {
		return
	}
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	x.callWith(fr, st, d.call, d.fn, d.args, d.pos, func(st *State, _ []*Term) {
		x.runDefers(fr, st, ds[:len(ds)-1], k)
	})
}

// simple executes a non-calling instruction; false means control was taken over.
func (x *Exec) simple(fr *Frame, st *State, in ssa.Instruction, b *ssa.BasicBlock, next int) bool {
	c := x.c
	switch y := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.set(y, x.alloc(st, y.Type().(*types.Pointer).Elem()))
	case *ssa.Store:
		p := x.val(fr, y.Addr)
		v := x.val(fr, y.Val)
		x.nilCheck(fr, st, p, in)
		l := x.locOf(p, y.Addr.Type().Underlying().(*types.Pointer).Elem())
		x.guardCheck(fr, st, l, true, in)
		x.storeCheck(st, l, v)
		x.write(st, l, v)
	case *ssa.UnOp:
		return x.unop(fr, st, y, b, next)
	case *ssa.BinOp:
		fr.set(y, x.binop(fr, st, y.Op, x.val(fr, y.X), x.val(fr, y.Y), y.X.Type(), y.Y.Type(), y.Type(), in))
	case *ssa.FieldAddr:
		p := x.val(fr, y.X)
		x.nilCheck(fr, st, p, in)
		l := x.fieldLoc(x.locOf(p, y.X.Type().Underlying().(*types.Pointer).Elem()), y.Field)
		fr.set(y, l.ptr)
	case *ssa.Field:
		v := c.Field(x.val(fr, y.X), y.Field)
		x.facts(v, y.Type())
		fr.set(y, v)
	case *ssa.IndexAddr:
		i := x.val(fr, y.Index)
		base := x.val(fr, y.X)
		switch u := y.X.Type().Underlying().(type) {
		case *types.Slice:
			x.panicCheck(fr, st, c.And(c.Le(c.I(0), i), c.Lt(i, c.ln(base))), "index-out-of-range", in)
			fr.set(y, x.elemLoc(c.arr(base), c.Add(c.off(base), i), u.Elem()).ptr)
		case *types.Pointer:
			a := arrayOf(u.Elem())
			x.nilCheck(fr, st, base, in)
			x.panicCheck(fr, st, c.And(c.Le(c.I(0), i), c.Lt(i, c.I(a.Len()))), "index-out-of-range", in)
			l := x.locOf(base, u.Elem())
			fr.set(y, x.elemLoc(x.arrRef(l), i, a.Elem()).ptr)
		}
	case *ssa.Index:
		i := x.val(fr, y.Index)
		v := x.val(fr, y.X)
		x.panicCheck(fr, st, c.And(c.Le(c.I(0), i), c.Lt(i, c.Len(v))), "index-out-of-range", in)
		r := c.Nth(v, i)
		x.facts(r, y.Type())
		fr.set(y, r)
	case *ssa.Slice:
		return x.sliceInstr(fr, st, y, in)
	case *ssa.Lookup:
		m := x.val(fr, y.X)
		k := x.val(fr, y.Index)
		if isString(y.X.Type()) {
			x.panicCheck(fr, st, c.And(c.Le(c.I(0), k), c.Lt(k, c.Len(m))), "index-out-of-range", in)
			fr.set(y, c.Nth(m, k))
			break
		}
		x.mapCheck(st, m, false, in)
		mt := y.X.Type().Underlying().(*types.Map)
		has, v := x.mapLookup(st, m, k, mt)
		if y.CommaOk {
			fr.env[y] = Val{Tup: []*Term{v, has}}
		} else {
			fr.set(y, v)
		}
	case *ssa.MapUpdate:
		m := x.val(fr, y.Map)
		x.panicCheck(fr, st, c.Not(c.Eq(m, c.I(0))), "nil-map-write", in)
		x.mapCheck(st, m, true, in)
		mt := y.Map.Type().Underlying().(*types.Map)
		x.mapSet(st, m, x.val(fr, y.Key), x.val(fr, y.Value), mt)
	case *ssa.MakeMap:
		r := x.fresh()
		md, mv := x.mapKeys(y.Type().Underlying().(*types.Map))
		ds, vs := x.keys[md].sort.Val, x.keys[mv].sort.Val
		st.heap[md] = c.Store(x.heapTerm(st, md), r, c.ConstArr(ds, c.False))
		st.heap[mv] = c.Store(x.heapTerm(st, mv), r, c.ConstArr(vs, c.Zero(y.Type().Underlying().(*types.Map).Elem())))
		fr.set(y, r)
	case *ssa.MakeChan:
		r := x.fresh()
		n := x.val(fr, y.Size)
		x.panicCheck(fr, st, c.Le(c.I(0), n), "makechan-size", in)
		ck := x.chanKey(y.Type().Underlying().(*types.Chan).Elem())
		st.heap[ck] = c.Store(x.heapTerm(st, ck), r, c.Empty(x.keys[ck].sort.Val))
		rk := x.rcvdKey(y.Type().Underlying().(*types.Chan).Elem())
		st.heap[rk] = c.Store(x.heapTerm(st, rk), r, c.Empty(x.keys[rk].sort.Val))
		cl := x.closedKey(y.Type())
		st.heap[cl] = c.Store(x.heapTerm(st, cl), r, c.False)
		cc := x.key("CN|cap", c.Int, false, nil)
		st.heap[cc] = c.Store(x.heapTerm(st, cc), r, n)
		fr.set(y, r)
	case *ssa.MakeSlice:
		l, cp := x.val(fr, y.Len), x.val(fr, y.Cap)
		x.panicCheck(fr, st, c.And(c.Le(c.I(0), l), c.Le(l, cp), c.Le(cp, c.Big(maxElems(sliceOf(y.Type()).Elem(), pow2(48))))), "makeslice-len", in)
		x.allocCheck(fr, st, cp, sliceOf(y.Type()).Elem(), "make", in)
		fr.set(y, x.makeSlice(st, l, cp, sliceOf(y.Type()).Elem()))
	case *ssa.MakeInterface:
		fr.set(y, x.mkIface(x.val(fr, y.X), y.X.Type()))
	case *ssa.MakeClosure:
		r := x.fresh()
		var bs []*Term
		for _, v := range y.Bindings {
			bs = append(bs, x.val(fr, v))
		}
		x.closures[r.ival.Int64()] = &closure{fn: y.Fn.(*ssa.Function), binds: bs}
		fr.set(y, r)
	case *ssa.ChangeInterface:
		fr.set(y, x.val(fr, y.X))
	case *ssa.ChangeType:
		v := x.val(fr, y.X)
		fr.set(y, x.retype(v, y.X.Type(), y.Type()))
	case *ssa.Convert:
		if s := sliceOf(y.Type()); s != nil && isString(y.X.Type()) {
			x.allocCheck(fr, st, x.c.Len(x.val(fr, y.X)), s.Elem(), "conversion", in)
		} else if s := sliceOf(y.X.Type()); s != nil && isString(y.Type()) {
			x.allocCheck(fr, st, x.c.ln(x.val(fr, y.X)), s.Elem(), "conversion", in)
		}
		fr.set(y, x.convert(fr, st, x.val(fr, y.X), y.X.Type(), y.Type()))
	case *ssa.MultiConvert:
		fr.set(y, x.convert(fr, st, x.val(fr, y.X), y.X.Type(), y.Type()))
	case *ssa.SliceToArrayPointer:
		v := x.havocVal("s2ap", y.Type())
		fr.set(y, v)
	case *ssa.Extract:
		t := fr.env[y.Tuple].Tup
		if y.Index >= len(t) {
			panic(abortErr{fmt.Sprintf("extract %d of %d in %s", y.Index, len(t), fr.fn)})
		}
		fr.set(y, t[y.Index])
	case *ssa.TypeAssert:
		x.typeAssert(fr, st, y, in)
	case *ssa.Range:
		x.rangeInstr(fr, st, y)
	case *ssa.Next:
		return x.nextInstr(fr, st, y, b, next)
	case *ssa.Defer:
		d := deferEnt{call: &y.Call, pos: in}
		for _, a := range y.Call.Args {
			d.args = append(d.args, x.val(fr, a))
		}
		if _, ok := y.Call.Value.(*ssa.Builtin); !ok {
			d.fn = x.val(fr, y.Call.Value)
		}
		st.defers[fr.id] = append(st.defers[fr.id][:len(st.defers[fr.id]):len(st.defers[fr.id])], d)
	case *ssa.Send:
		ch := x.val(fr, y.Chan)
		v := x.val(fr, y.X)
		x.chanSend(fr, st, ch, v, y.Chan.Type(), in)
	default:
		panic(abortErr{fmt.Sprintf("unsupported instruction %T in %s", in, fr.fn)})
	}
	return !st.dead
}

// retype changes the datatype of a struct value between identical underlying types.
func (x *Exec) retype(v *Term, from, to types.Type) *Term {
	s := x.c.SortOf(to)
	if v.sort == s {
		return v
	}
	if v.sort.DT != nil && s.DT != nil && len(v.sort.DT.Fields) == len(s.DT.Fields) {
		var as []*Term
		for i := range s.DT.Fields {
			as = append(as, x.c.Field(v, i))
		}
		return x.c.Cons(s, as...)
	}
	return x.havocVal("retype", to)
}

// allocCheck: the contract's bounds on a single allocation of n elements.
func (x *Exec) allocCheck(fr *Frame, st *State, n *Term, elem types.Type, what string, in ssa.Instruction) {
	if len(x.root.Allocs) == 0 || st.dead || x.quiet > 0 || x.rootEnv == nil {
		return
	}
	pos := "?"
	if in != nil {
		pos = x.p.Pos(in.Pos())
	}
	size := x.c.Mul(x.c.I(gcSizes.Sizeof(elem)), n)
	for _, cl := range x.root.Allocs {
		env := *x.rootEnv
		env.st = st
		env.vars = map[string]SV{}
		for k, v := range x.rootEnv.vars {
			env.vars[k] = v
		}
		env.vars[cl.Vars[0].Name] = SV{size, types.Typ[types.Int]}
		t, err := env.Bool(cl.E)
		if err != nil {
			x.specErr(x.root, cl, err)
			return
		}
		props := cl.Props
		if len(props) == 0 {
			props = x.root.Props
		}
		x.prove(st, t, fmt.Sprintf("%s/allocates:%s:%s:%s", x.root.Key, strings.ReplaceAll(cl.Label, " ", "-"), what, FuncKey(fr.fn)), "alloc", props, pos, cl.Src)
	}
}

var gcSizes = types.SizesFor("gc", "amd64")

func (x *Exec) makeSlice(st *State, l, cp *Term, elem types.Type) *Term {
	c := x.c
	r := x.fresh()
	k := x.elemKey(elem)
	st.heap[k] = c.Store(x.heapTerm(st, k), r, c.Rep(c.SeqOf(elem), c.Zero(elem), cp))
	c.AssertBG(c.App("=", c.Bool, c.Fun("arrlen", c.Int, r), cp))
	c.alens[r] = cp
	return c.Cons(c.Sl, r, c.I(0), l, cp)
}

// newArr allocates a backing array with the given content.
func (x *Exec) newArr(st *State, content *Term, elem types.Type) *Term {
	c := x.c
	r := x.fresh()
	k := x.elemKey(elem)
	st.heap[k] = c.Store(x.heapTerm(st, k), r, content)
	n := c.Len(content)
	c.AssertBG(c.App("=", c.Bool, c.Fun("arrlen", c.Int, r), n))
	c.alens[r] = n
	return r
}

func (x *Exec) newSlice(st *State, content *Term, elem types.Type) *Term {
	c := x.c
	n := c.Len(content)
	return c.Cons(c.Sl, x.newArr(st, content, elem), c.I(0), n, n)
}

func (x *Exec) mapLookup(st *State, m, k *Term, mt *types.Map) (*Term, *Term) {
	c := x.c
	md, mv := x.mapKeys(mt)
	x.nilMapFact(md)
	has := c.Select(c.Select(x.heapTerm(st, md), m), k)
	v := c.Select(c.Select(x.heapTerm(st, mv), m), k)
	x.facts(v, mt.Elem())
	return has, c.Ite(has, v, c.Zero(mt.Elem()))
}

func (x *Exec) nilMapFact(md string) {
	c := x.c
	h := x.initHeap(md)
	c.AssertBG(c.App("=", c.Bool, c.App("select", x.keys[md].sort.Val, h, c.I(0)), c.ConstArr(x.keys[md].sort.Val, c.False)))
}

func (x *Exec) mapSet(st *State, m, k, v *Term, mt *types.Map) {
	c := x.c
	md, mv := x.mapKeys(mt)
	hd, hv := x.heapTerm(st, md), x.heapTerm(st, mv)
	st.heap[md] = c.Store(hd, m, c.Store(c.Select(hd, m), k, c.True))
	st.heap[mv] = c.Store(hv, m, c.Store(c.Select(hv, m), k, v))
}

func (x *Exec) mapDel(st *State, m, k *Term, mt *types.Map) {
	c := x.c
	md, _ := x.mapKeys(mt)
	x.nilMapFact(md)
	hd := x.heapTerm(st, md)
	st.heap[md] = c.Store(hd, m, c.Store(c.Select(hd, m), k, c.False))
}

func (x *Exec) unop(fr *Frame, st *State, y *ssa.UnOp, b *ssa.BasicBlock, next int) bool {
	c := x.c
	switch y.Op {
	case token.MUL:
		if g, ok := y.X.(*ssa.Global); ok {
			fr.set(y, x.readGlobal(st, g))
			return true
		}
		p := x.val(fr, y.X)
		x.nilCheck(fr, st, p, y)
		l := x.locOf(p, y.X.Type().Underlying().(*types.Pointer).Elem())
		x.guardCheck(fr, st, l, false, y)
		v := x.read(st, l)
		x.mapLoaded(l, v, y.Type())
		fr.set(y, v)
	case token.NOT:
		fr.set(y, c.Not(x.val(fr, y.X)))
	case token.SUB:
		v := x.val(fr, y.X)
		fr.set(y, x.wrap(st, c.Sub(c.I(0), v), y.Type()))
	case token.XOR:
		v := x.val(fr, y.X)
		lo, hi, ok := intRange(y.Type())
		if ok && lo.Sign() == 0 {
			fr.set(y, c.Sub(c.Big(hi), v))
		} else {
			fr.set(y, c.Sub(c.I(-1), v))
		}
	case token.ARROW:
		ch := x.val(fr, y.X)
		et := y.X.Type().Underlying().(*types.Chan).Elem()
		v, ok := x.chanRecv(st, ch, et)
		if y.CommaOk {
			fr.env[y] = Val{Tup: []*Term{v, ok}}
		} else {
			fr.set(y, v)
		}
	}
	return true
}

func (x *Exec) chanRecv(st *State, ch *Term, et types.Type) (v, ok *Term) {
	c := x.c
	ok = c.Var("rok", c.Bool)
	r := x.havocVal("recv", et)
	if ch.op != "ctxDone" {
		st.events = append(st.events, Event{Kind: "recv", Args: []*Term{ch}})
	}
	if ch.op == "ctxDone" {
		st.events = append(st.events, Event{Kind: "ctxdone", Args: []*Term{ch.args[0]}})
		x.assume(st, x.c.Fun("u_cancelled", x.c.Bool, ch.args[0]))
	}
	if st.inplace && ch.isInt() && ch.ival.Cmp(big64(baseCtr)) >= 0 && !hasGo(st) {
		// a channel of this function's own, filled by a goroutine that ran in place
		log := c.Select(x.heapTerm(st, x.chanKey(et)), ch)
		got := c.Len(c.Select(x.heapTerm(st, x.rcvdKey(et)), ch))
		if n := c.Len(log); n.isInt() && got.isInt() && got.ival.Cmp(n.ival) < 0 {
			ok, r = c.True, c.Nth(log, got)
		}
	}
	return x.recvFacts(st, ch, r, ok, et)
}

func hasGo(st *State) bool {
	for _, e := range st.events {
		if e.Kind == "go" {
			return true
		}
	}
	return false
}

func (x *Exec) recvFacts(st *State, ch, r, ok *Term, et types.Type) (*Term, *Term) {
	c := x.c
	cl := c.Select(x.heapTerm(st, x.closedKey(types.NewChan(types.SendRecv, et))), ch)
	z := c.Zero(et)
	if IsEmptyStruct(et) && !x.p.emptySends {
		// a pure signal: nothing is ever sent on it
		x.assume(st, c.Not(ok))
	}
	if ch.op != "ctxDone" {
		x.assume(st, c.Or(cl, ok))
		// what was received from the channel, in order
		rk := x.rcvdKey(et)
		h := x.heapTerm(st, rk)
		cur := c.Select(h, ch)
		st.heap[rk] = c.Store(h, ch, c.Ite(ok, c.Cat(cur, c.Unit(cur.sort, r)), cur))
	}
	return c.Ite(ok, r, z), ok
}

func (x *Exec) chanSend(fr *Frame, st *State, ch, v *Term, t types.Type, in ssa.Instruction) {
	c := x.c
	et := t.Underlying().(*types.Chan).Elem()
	x.panicCheck(fr, st, c.Not(c.Select(x.heapTerm(st, x.closedKey(t)), ch)), "send-on-closed-channel", in)
	ck := x.chanKey(et)
	h := x.heapTerm(st, ck)
	cur := c.Select(h, ch)
	st.heap[ck] = c.Store(h, ch, c.Cat(cur, c.Unit(cur.sort, v)))
}

func (x *Exec) selectInstr(fr *Frame, st *State, y *ssa.Select, b *ssa.BasicBlock, next int) {
	c := x.c
	nrecv := 0
	for _, s := range y.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	type rslot struct{ t types.Type }
	var recvT []types.Type
	for _, s := range y.States {
		if s.Dir == types.RecvOnly {
			recvT = append(recvT, s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
	}
	n := len(y.States)
	total := n
	if !y.Blocking {
		total++
	}
	for i := 0; i < total; i++ {
		s := st.clone()
		tup := []*Term{c.I(int64(i)), c.False}
		if i == n {
			tup[0] = c.I(-1)
			for _, cs := range y.States {
				if cs.Dir == types.RecvOnly { // a channel closed before the call would have been received from
					ch := x.val(fr, cs.Chan)
					if ch.op != "ctxDone" {
						x.assume(s, c.Or(c.Eq(ch, c.I(0)), c.Not(c.Select(x.initHeap(x.closedKey(cs.Chan.Type())), ch))))
						// a closed flag never resets: one known to be set would have made the case ready
						x.assume(s, c.Or(c.Eq(ch, c.I(0)), c.Not(c.Select(x.heapTerm(s, x.closedKey(cs.Chan.Type())), ch))))
						for _, ev := range s.events {
							if ev.Kind == "recv" {
								x.assume(s, c.Fun("u_emptyafter", c.Bool, ch, ev.Args[0]))
							}
						}
					}
				}
				if cs.Dir == types.SendOnly { // the default is taken when nothing else can proceed
					ch := x.val(fr, cs.Chan)
					x.assume(s, c.Or(c.Eq(ch, c.I(0)), c.Fun("u_wasfull", c.Bool, ch)))
				}
			}
		}
		ri := 0
		for j, cs := range y.States {
			if cs.Dir != types.RecvOnly {
				continue
			}
			if j == i {
				ch := x.val(fr, cs.Chan)
				// a nil channel never proceeds
				x.assume(s, c.Not(c.Eq(ch, c.I(0))))
				v, ok := x.chanRecv(s, ch, recvT[ri])
				tup[1] = ok
				tup = append(tup, v)
			} else {
				tup = append(tup, c.Zero(recvT[ri]))
			}
			ri++
		}
		if i < n && y.States[i].Dir == types.SendOnly {
			ch := x.val(fr, y.States[i].Chan)
			x.assume(s, c.Not(c.Eq(ch, c.I(0))))
			x.chanSend(fr, s, ch, x.val(fr, y.States[i].Send), y.States[i].Chan.Type(), y)
		}
		if s.dead || !x.feasible(s) {
			continue
		}
		s.events = append(s.events, Event{Kind: "select", Key: fmt.Sprint(i)})
		fr.env[y] = Val{Tup: tup}
		x.run(fr, s, b, next)
	}
}

func (x *Exec) typeAssert(fr *Frame, st *State, y *ssa.TypeAssert, in ssa.Instruction) {
	c := x.c
	v := x.val(fr, y.X)
	var ok, r *Term
	if isIface(y.AssertedType) {
		tg := c.tag(v)
		if tg.isInt() {
			if tg.ival.Sign() == 0 {
				ok = c.False
			} else if t, known := x.tagT[tg.ival.Int64()]; known {
				ok = c.BoolT(types.Implements(t, y.AssertedType.Underlying().(*types.Interface)))
			}
		}
		if ok == nil {
			f := c.Fun("impl_"+sanitize(TypeName(y.AssertedType)), c.Bool, tg)
			ok = c.And(f, c.Not(c.Eq(tg, c.I(0))))
		}
		r = v
	} else {
		ok = c.Eq(c.tag(v), x.typeID(y.AssertedType))
		r = x.unbox(c.val(v), y.AssertedType)
		if isRef(y.AssertedType) && r.below == 0 && v.below != 0 {
			r.below = v.below
		}
	}
	if y.CommaOk {
		fr.env[y] = Val{Tup: []*Term{c.Ite(ok, r, c.Zero(y.AssertedType)), ok}}
		return
	}
	x.panicCheck(fr, st, ok, "type-assertion", in)
	fr.set(y, r)
}

func (x *Exec) sliceInstr(fr *Frame, st *State, y *ssa.Slice, in ssa.Instruction) bool {
	c := x.c
	v := x.val(fr, y.X)
	lo := c.I(0)
	if y.Low != nil {
		lo = x.val(fr, y.Low)
	}
	if isString(y.X.Type()) {
		hi := c.Len(v)
		if y.High != nil {
			hi = x.val(fr, y.High)
		}
		x.panicCheck(fr, st, c.And(c.Le(c.I(0), lo), c.Le(lo, hi), c.Le(hi, c.Len(v))), "slice-out-of-range", in)
		fr.set(y, c.SubSeq(v, lo, hi))
		return !st.dead
	}
	var arr, off, ln, cp *Term
	if p, ok := y.X.Type().Underlying().(*types.Pointer); ok {
		a := arrayOf(p.Elem())
		x.nilCheck(fr, st, v, in)
		l := x.locOf(v, p.Elem())
		arr, off, ln, cp = x.arrRef(l), c.I(0), c.I(a.Len()), c.I(a.Len())
		c.AssertBG(c.App("=", c.Bool, c.ArrLen(arr), c.I(a.Len())))
	} else {
		arr, off, ln, cp = c.arr(v), c.off(v), c.ln(v), c.cp(v)
	}
	hi := ln
	if y.High != nil {
		hi = x.val(fr, y.High)
	}
	mx := cp
	if y.Max != nil {
		mx = x.val(fr, y.Max)
	}
	x.panicCheck(fr, st, c.And(c.Le(c.I(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, cp)), "slice-out-of-range", in)
	fr.set(y, c.Cons(c.Sl, arr, c.Add(off, lo), c.Sub(hi, lo), c.Sub(mx, lo)))
	return !st.dead
}

func (x *Exec) rangeInstr(fr *Frame, st *State, y *ssa.Range) {
	c := x.c
	if isString(y.X.Type()) {
		fr.env[y] = Val{T: x.val(fr, y.X)}
		return
	}
	m := x.val(fr, y.X)
	mt := y.X.Type().Underlying().(*types.Map)
	ks := c.SortOf(mt.Key())
	x.visN++
	key := x.key("V|"+sanitize(TypeName(mt.Key()))+fmt.Sprintf("%p", y)[6:], c.Array(ks, c.Bool), false, nil)
	st.heap[key] = c.Store(x.heapTerm(st, key), c.I(1), c.ConstArr(c.Array(ks, c.Bool), c.False))
	st.visited = key
	okey := x.key("VO|"+key[2:], c.Seq(ks), false, nil)
	st.heap[okey] = c.Store(x.heapTerm(st, okey), c.I(1), c.Empty(c.Seq(ks)))
	fr.env[y] = Val{T: m, Tup: nil}
}

// nextInstr forks: another element, or the end of the iteration.
func (x *Exec) nextInstr(fr *Frame, st *State, y *ssa.Next, b *ssa.BasicBlock, next int) bool {
	c := x.c
	rg := y.Iter.(*ssa.Range)
	if y.IsString {
		ok := c.Var("ok", c.Bool)
		i := x.havocVal("ri", types.Typ[types.Int])
		s := x.val(fr, rg)
		x.assume(st, c.Imp(ok, c.And(c.Le(c.I(0), i), c.Lt(i, c.Len(s)))))
		fr.env[y] = Val{Tup: []*Term{ok, i, x.havocVal("rune", types.Typ[types.Rune])}}
		return true
	}
	mt := rg.X.Type().Underlying().(*types.Map)
	m := x.val(fr, rg)
	x.mapCheck(st, m, false, y)
	md, mv := x.mapKeys(mt)
	x.nilMapFact(md)
	dom := c.Select(x.heapTerm(st, md), m)
	key := "V|" + sanitize(TypeName(mt.Key())) + fmt.Sprintf("%p", rg)[6:]
	vis := c.Select(x.heapTerm(st, key), c.I(1))
	st.visited = key
	// more
	s1 := st.clone()
	k := x.havocVal("mk", mt.Key())
	x.assume(s1, c.Select(dom, k))
	x.assume(s1, c.Not(c.Select(vis, k)))
	v := c.Select(c.Select(x.heapTerm(s1, mv), m), k)
	x.facts(v, mt.Elem())
	s1.heap[key] = c.Store(x.heapTerm(s1, key), c.I(1), c.Store(vis, k, c.True))
	okey := x.key("VO|"+key[2:], c.Seq(c.SortOf(mt.Key())), false, nil)
	ord := c.Select(x.heapTerm(s1, okey), c.I(1))
	s1.heap[okey] = c.Store(x.heapTerm(s1, okey), c.I(1), c.Cat(ord, c.Unit(ord.sort, k)))
	if x.feasible(s1) {
		fr.env[y] = Val{Tup: []*Term{c.True, k, v}}
		x.run(fr, s1, b, next)
	}
	// done: every key was visited
	kb := c.BoundVar("k", c.SortOf(mt.Key()))
	x.assume(st, c.Forall([]*Term{kb}, c.Imp(c.Select(dom, kb), c.Select(vis, kb)), []*Term{c.App("select", c.Bool, dom, kb)}))
	if x.feasible(st) {
		fr.env[y] = Val{Tup: []*Term{c.False, c.Zero(mt.Key()), c.Zero(mt.Elem())}}
		x.run(fr, st, b, next)
	}
	return false
}

// goKey names the function of a go statement.
func (x *Exec) goKey(fr *Frame, y *ssa.Go) string {
	if f := y.Call.StaticCallee(); f != nil {
		return FuncKey(f)
	}
	return "dynamic"
}

func (x *Exec) goInPlace(fr *Frame, y *ssa.Go) bool {
	k := x.goKey(fr, y)
	for _, p := range x.specs.Inplace {
		if strings.Contains(k, p) {
			return true
		}
	}
	return false
}

func (x *Exec) goInstr(fr *Frame, st *State, y *ssa.Go) {
	ev := Event{Kind: "go"}
	for _, a := range y.Call.Args {
		ev.Args = append(ev.Args, x.val(fr, a))
		ev.Typs = append(ev.Typs, a.Type())
	}
	switch {
	case y.Call.IsInvoke():
		ev.Key = "(" + TypeName(y.Call.Value.Type()) + ")." + y.Call.Method.Name()
		ev.Args = append([]*Term{x.val(fr, y.Call.Value)}, ev.Args...)
	default:
		f := x.val(fr, y.Call.Value)
		ev.Fn = f
		ev.Key = "dynamic"
		if f.isInt() {
			if cl, ok := x.closures[f.ival.Int64()]; ok {
				ev.Key = FuncKey(cl.fn)
				if len(ev.Args) == 0 {
					ev.Args = append(ev.Args, cl.binds...)
				}
			}
		}
	}
	if cl := x.spawnedFn(ev.Fn); cl != nil && x.quiet == 0 {
		if ct := x.specs.Funcs[FuncKey(cl.fn)]; ct != nil && !ct.Iface && len(cl.binds) == 0 && x.p.InRepo(cl.fn) && x.fits(ct, cl.fn) {
			// the goroutine starts in a state that meets its precondition
			env := &Env{x: x, st: st, old: st, vars: x.bindParams(ct, recvType(cl.fn), cl.fn.Signature, ev.Args), pkg: x.pkgOf(ct), ctr: x.ctr}
			for i, cq := range ct.Requires {
				t, err := env.Bool(cq.E)
				if err != nil {
					x.specErr(ct, cq, err)
					continue
				}
				x.prove(st.clone(), t, fmt.Sprintf("%s/pre:go:%s:%s", x.root.Key, ct.Key, clauseName(cq, i)), "precondition", cq.Props, x.p.Pos(y.Pos()), cq.Src)
				if cq.E.Op == "call" && cq.E.Name == "held" {
					if l, ok := env.loc(cq.E.Args[0]); ok {
						// the goroutine takes the lock over
						for i := len(st.locks) - 1; i >= 0; i-- {
							if st.locks[i].mu == l.ptr {
								st.locks = append(append([]lockEnt{}, st.locks[:i]...), st.locks[i+1:]...)
								break
							}
						}
					}
				}
			}
		}
	}
	if ev.Key == "dynamic" && x.spawnedFn(ev.Fn) == nil {
		// a value of a named function type: its contract's effect counts from the go statement on
		x.panicCheck(fr, st, x.c.Not(x.c.Eq(ev.Fn, x.c.I(0))), "nil-function-call", y)
		if st.dead {
			return
		}
		if _, named := y.Call.Value.Type().(*types.Named); named {
			if ct := x.specs.Funcs["("+TypeName(y.Call.Value.Type())+").call"]; ct != nil && ct.Iface {
				x.assumeNote("a function value started with go has done what its contract says when its creator goes on: " + ct.Key)
				st.events = append(st.events, ev)
				x.applyContract(fr, st, ct, ct.Key, y.Call.Value.Type(), y.Call.Signature(), append([]*Term{ev.Fn}, ev.Args...), y, func(*State, []*Term) {})
				return
			}
		}
	}
	x.assumeNote("goroutine started with go is not interleaved with its creator: " + ev.Key)
	st.events = append(st.events, ev)
}

func (x *Exec) spawnedFn(f *Term) *closure {
	if f == nil || !f.isInt() {
		return nil
	}
	return x.closures[f.ival.Int64()]
}

// ---- arithmetic

func (x *Exec) inRange(st *State, t *Term, lo, hi *big.Int) bool {
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return true
	}
	c := x.c
	g := c.And(c.Le(c.Big(lo), t), c.Le(t, c.Big(hi)))
	if g.op == "true" {
		return true
	}
	return x.sol.Check(st.pc, g, 400) == "unsat"
}

func (x *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	lo, hi, ok := intRange(typ)
	if !ok {
		return t
	}
	if t.isInt() {
		m := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
		r := new(big.Int).Sub(t.ival, lo)
		r.Mod(r, m).Add(r, lo)
		return x.c.Big(r)
	}
	if x.inRange(st, t, lo, hi) {
		if len(t.args) > 0 || t.op == "lin" {
			return t
		}
		return t
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	return x.c.Add(x.c.ModK(x.c.Sub(t, x.c.Big(lo)), m), x.c.Big(lo))
}

func (x *Exec) bit(v *Term, k uint) *Term {
	return x.c.ModK(x.c.DivK(v, pow2(k)), big64(2))
}

func (x *Exec) binop(fr *Frame, st *State, op token.Token, a, b *Term, ta, tb, tr types.Type, in ssa.Instruction) *Term {
	c := x.c
	isFloat := func(t types.Type) bool {
		bt, ok := t.Underlying().(*types.Basic)
		return ok && bt.Info()&(types.IsFloat|types.IsComplex) != 0
	}
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if a.sort == c.Sl {
			// only comparison with nil is legal
			if b == c.NilSlice() {
				r = c.Eq(c.arr(a), c.I(0))
			} else {
				r = c.Eq(c.arr(b), c.I(0))
			}
		} else if isFloat(ta) {
			r = c.Var("fcmp", c.Bool)
		} else {
			if a.sort != b.sort { // interface against concrete
				if a.sort == c.Iface {
					b = x.mkIface(b, tb)
				} else if b.sort == c.Iface {
					a = x.mkIface(a, ta)
				}
			}
			if a == c.NilIface() {
				r = c.Eq(c.tag(b), c.I(0))
			} else if b == c.NilIface() {
				r = c.Eq(c.tag(a), c.I(0))
			} else {
				r = c.Eq(a, b)
			}
		}
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isFloat(ta) {
			return c.Var("fcmp", c.Bool)
		}
		if a.sort == c.B {
			lt := func(p, q *Term) *Term { return c.Fun("strlt", c.Bool, p, q) }
			switch op {
			case token.LSS:
				return lt(a, b)
			case token.GTR:
				return lt(b, a)
			case token.LEQ:
				return c.Not(lt(b, a))
			}
			return c.Not(lt(a, b))
		}
		switch op {
		case token.LSS:
			return c.Lt(a, b)
		case token.LEQ:
			return c.Le(a, b)
		case token.GTR:
			return c.Lt(b, a)
		}
		return c.Le(b, a)
	}
	if isFloat(tr) {
		return c.Var("float", c.Int)
	}
	switch op {
	case token.ADD:
		if a.sort == c.B {
			return c.Cat(a, b)
		}
		return x.wrap(st, c.Add(a, b), tr)
	case token.SUB:
		return x.wrap(st, c.Sub(a, b), tr)
	case token.MUL:
		return x.wrap(st, c.Mul(a, b), tr)
	case token.QUO, token.REM:
		if !b.isInt() {
			x.panicCheck(fr, st, c.Not(c.Eq(b, c.I(0))), "division-by-zero", in)
			if op == token.REM {
				return c.Rem(a, b)
			}
			return x.havocVal("div", tr)
		}
		k := b.ival
		if k.Sign() == 0 {
			x.panicCheck(fr, st, c.False, "division-by-zero", in)
			return c.I(0)
		}
		neg := k.Sign() < 0
		ak := new(big.Int).Abs(k)
		q := c.DivK(a, ak)
		if a.lo == nil || a.lo.Sign() < 0 {
			q = c.Ite(c.Le(c.I(0), a), q, c.Sub(c.I(0), c.DivK(c.Sub(c.I(0), a), ak)))
		}
		if op == token.REM {
			return c.Sub(a, c.MulK(q, ak))
		}
		if neg {
			q = c.Sub(c.I(0), q)
		}
		return x.wrap(st, q, tr)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if a.isInt() && op != token.AND_NOT {
			a, b = b, a
		}
		if b.isInt() && a.isInt() {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(a.ival, b.ival)
			case token.OR:
				r.Or(a.ival, b.ival)
			case token.XOR:
				r.Xor(a.ival, b.ival)
			case token.AND_NOT:
				r.AndNot(a.ival, b.ival)
			}
			return c.Big(r)
		}
		if b.isInt() && b.ival.Sign() >= 0 {
			k := b.ival
			if op == token.AND {
				// mask of the form 2^n-1
				if n := new(big.Int).Add(k, bigOne); new(big.Int).And(n, k).Sign() == 0 {
					return c.ModK(a, n)
				}
			}
			if k.BitLen() <= 64 {
				r := c.I(0)
				if op != token.AND {
					r = a
				}
				for i := 0; i < k.BitLen(); i++ {
					if k.Bit(i) == 0 {
						continue
					}
					w := pow2(uint(i))
					bt := c.MulK(x.bit(a, uint(i)), w)
					switch op {
					case token.AND:
						r = c.Add(r, bt)
					case token.OR:
						r = c.Add(r, c.Sub(c.Big(w), bt))
					case token.XOR:
						r = c.Add(r, c.Sub(c.Big(w), c.MulK(bt, big64(2))))
					case token.AND_NOT:
						r = c.Sub(r, bt)
					}
				}
				if lo, hi, ok := intRange(tr); ok && (r.lo == nil || r.lo.Cmp(lo) < 0 || r.hi == nil || r.hi.Cmp(hi) > 0) && len(r.args) > 0 {
					// the result fits the operand type
					v := c.Var("bits", c.Int)
					v.lo, v.hi = lo, hi
					c.AssertBG(c.And(c.App("<=", c.Bool, c.Big(lo), v), c.App("<=", c.Bool, v, c.Big(hi))))
					x.assume(st, c.App("=", c.Bool, v, r))
					return v
				}
				return r
			}
		}
		lo, hi, ok := intRange(tr)
		if ok && lo.Sign() == 0 && hi.BitLen() <= 8 {
			// bytewise: sum of bit combinations
			r := c.I(0)
			for i := uint(0); i < 8; i++ {
				p, q := c.Eq(x.bit(a, i), c.I(1)), c.Eq(x.bit(b, i), c.I(1))
				var s *Term
				switch op {
				case token.AND:
					s = c.And(p, q)
				case token.OR:
					s = c.Or(p, q)
				case token.XOR:
					s = c.Not(c.Eq(p, q))
				default:
					s = c.And(p, c.Not(q))
				}
				r = c.Add(r, c.Ite(s, c.Big(pow2(i)), c.I(0)))
			}
			return r
		}
		return x.havocVal("bitop", tr)
	case token.SHL:
		if b.isInt() && b.ival.IsInt64() && b.ival.Int64() < 64 {
			return x.wrap(st, c.MulK(a, pow2(uint(b.ival.Int64()))), tr)
		}
		return x.havocVal("shl", tr)
	case token.SHR:
		if b.isInt() && b.ival.IsInt64() && b.ival.Int64() < 64 {
			return c.DivK(a, pow2(uint(b.ival.Int64())))
		}
		return x.havocVal("shr", tr)
	}
	panic(abortErr{"unsupported operator " + op.String()})
}

func (x *Exec) convert(fr *Frame, st *State, v *Term, from, to types.Type) *Term {
	c := x.c
	if lo, hi, ok := intRange(to); ok {
		if _, _, ok2 := intRange(from); ok2 || v.isInt() && v.sort == c.Int {
			flo, fhi, _ := intRange(from)
			if flo != nil && flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
				return v
			}
			return x.wrap(st, v, to)
		}
		return x.havocVal("conv", to)
	}
	if isString(to) {
		if s := sliceOf(from); s != nil && isByte(s.Elem()) {
			return x.seqOf(st, v, s.Elem())
		}
		if isString(from) {
			return v
		}
		return x.havocVal("conv", to)
	}
	if s := sliceOf(to); s != nil && isByte(s.Elem()) && isString(from) {
		if n := c.Len(v); n.isInt() && n.ival.Sign() == 0 {
			r := x.fresh()
			return c.Cons(c.Sl, r, c.I(0), c.I(0), c.I(0))
		}
		return x.newSlice(st, v, s.Elem())
	}
	if c.SortOf(to) == v.sort {
		return v
	}
	return x.havocVal("conv", to)
}

// ---- calls

func (x *Exec) callInstr(fr *Frame, st *State, cc *ssa.CallCommon, in ssa.Instruction, k func(*State, []*Term)) {
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, x.val(fr, a))
	}
	var fn *Term
	if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fn = x.val(fr, cc.Value)
	}
	x.callWith(fr, st, cc, fn, args, in, k)
}

// callWith performs a call with evaluated operands.
func (x *Exec) callWith(fr *Frame, st *State, cc *ssa.CallCommon, fnv *Term, args []*Term, in ssa.Instruction, k func(*State, []*Term)) {
	if st.dead {
		return
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		x.builtin(fr, st, bi.Name(), cc, args, in, k)
		return
	}
	if cc.IsInvoke() {
		x.invoke(fr, st, cc, fnv, args, in, k)
		return
	}
	var fn *ssa.Function
	var binds []*Term
	if f, ok := cc.Value.(*ssa.Function); ok {
		fn = f
	} else if fnv.isInt() {
		if cl, ok := x.closures[fnv.ival.Int64()]; ok {
			fn, binds = cl.fn, cl.binds
		}
	}
	if fn == nil && x.cancels[fnv] {
		st.events = append(st.events, Event{Kind: "cancel", Args: []*Term{fnv}})
		k(st, nil)
		return
	}
	if fn == nil {
		x.panicCheck(fr, st, x.c.Not(x.c.Eq(fnv, x.c.I(0))), "nil-function-call", in)
		if st.dead {
			return
		}
		if m, ok := x.fnContract(cc); ok {
			x.applyContract(fr, st, m, m.Key, nil, cc.Signature(), args, in, k)
			return
		}
		// a value of a named function type: its contract is a method "call"
		if _, named := cc.Value.Type().(*types.Named); named {
			if ct := x.specs.Funcs["("+TypeName(cc.Value.Type())+").call"]; ct != nil && ct.Iface {
				x.applyContract(fr, st, ct, ct.Key, cc.Value.Type(), cc.Signature(), append([]*Term{fnv}, args...), in, k)
				return
			}
		}
		x.unknownCall(fr, st, "function value "+TypeName(cc.Value.Type())+" in "+FuncKey(fr.fn), cc.Signature(), args, k)
		return
	}
	x.callFn(fr, st, fn, binds, args, in, k)
}

// fnContract finds the contract of calls through a function-valued field or parameter: "iface pkg.T_field(args)".
func (x *Exec) fnContract(cc *ssa.CallCommon) (*Contract, bool) {
	u, ok := cc.Value.(*ssa.UnOp)
	if !ok {
		return nil, false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil, false
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	s := structOf(t)
	if s == nil {
		return nil, false
	}
	n := TypeName(t)
	i := strings.LastIndex(n, ".")
	ct, ok := x.specs.Funcs[n[:i+1]+n[i+1:]+"_"+s.Field(fa.Field).Name()]
	return ct, ok && ct.Iface
}

type CallInfo struct {
	fr  *Frame
	in  ssa.Instruction
	fn  *ssa.Function
	sig *types.Signature
	key string
}

func (x *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, binds, args []*Term, in ssa.Instruction, k func(*State, []*Term)) {
	// generic instances share the contract of their origin
	key := FuncKey(fn)
	if fn.Origin() != nil {
		key = FuncKey(fn.Origin())
	}
	ci := &CallInfo{fr: fr, in: in, fn: fn, sig: fn.Signature, key: key}
	if x.p.InRepo(fn) {
		if ct := x.specs.Funcs[key]; ct != nil && !ct.Inline && !ct.Closure && !x.isDropped(ct) {
			if x.fits(ct, fn) {
				x.callContract(fr, st, ct, fn, args, in, k)
				return
			}
			x.dropContract(ct, "signature changed")
		}
		if fn.Blocks != nil && fr.depth < 14 && !x.onStack(fr, fn) {
			x.inline(fr, st, fn, binds, args, k)
			return
		}
		x.unknownCall(fr, st, "call of "+key+" not inlined", fn.Signature, args, k)
		return
	}
	if m, ok := libModels[libKey(fn)]; ok {
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "net" {
			st.events = append(st.events, Event{Kind: "call", Key: libKey(fn), Args: args})
		}
		m(x, ci, st, args, k)
		return
	}
	if fn.Synthetic != "" && fn.Blocks != nil && (strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "thunk")) {
		x.inline(fr, st, fn, binds, args, k)
		return
	}
	x.unknownCall(fr, st, "external "+libKey(fn), fn.Signature, args, k)
}

func libKey(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.String()
}

func (x *Exec) onStack(fr *Frame, fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.caller {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (x *Exec) isDropped(ct *Contract) bool { return contains(x.Dropped, ct.Key) }
func (x *Exec) dropContract(ct *Contract, why string) {
	x.Dropped = append(x.Dropped, ct.Key)
	x.assumeNote("contract of " + ct.Key + " not applied: " + why)
}

func (x *Exec) fits(ct *Contract, fn *ssa.Function) bool {
	n := len(ct.Params)
	if ct.Recv != "" {
		n++
	}
	return n == len(fn.Params) && (len(ct.Results) == 0 || len(ct.Results) == fn.Signature.Results().Len())
}

func (x *Exec) inline(fr *Frame, st *State, fn *ssa.Function, binds, args []*Term, k func(*State, []*Term)) {
	x.Inlined[FuncKey(fn)] = true
	frameN := x.nextFrame()
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, caller: fr, depth: fr.depth + 1, active: map[*ssa.BasicBlock]*loopCtx{}, id: frameN}
	for i, p := range fn.Params {
		nf.set(p, args[i])
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			nf.set(v, binds[i])
		}
	}
	nf.ret = func(st *State, res []*Term) { k(st, res) }
	x.run(nf, st, fn.Blocks[0], 0)
}

func (x *Exec) nextFrame() int {
	x.tags0++
	return x.tags0
}

// unknownCall havocs what an unmodelled callee could reach through its arguments.
func (x *Exec) unknownCall(fr *Frame, st *State, what string, sig *types.Signature, args []*Term, k func(*State, []*Term)) {
	x.assumeNote("unmodelled (results unconstrained, no effect on tracked state beyond slice arguments): " + what)
	for i, a := range args {
		if a.sort == x.c.Sl && i < sig.Params().Len() {
			if s := sliceOf(sig.Params().At(i).Type()); s != nil && isByte(s.Elem()) {
				x.havocSlice(st, a, s.Elem())
			}
		}
	}
	k(st, x.havocResults("ext", sig))
}

func (x *Exec) havocSlice(st *State, a *Term, elem types.Type) {
	c := x.c
	k := x.elemKey(elem)
	h := x.heapTerm(st, k)
	old := c.Select(h, c.arr(a))
	nv := c.Var("hs", old.sort)
	x.lenIs(nv, c.ln(a))
	o, e := c.off(a), c.Add(c.off(a), c.ln(a))
	st.heap[k] = c.Store(h, c.arr(a), c.Cat(c.Cat(c.SubSeq(old, c.I(0), o), nv), c.SubSeq(old, e, c.Len(old))))
}

// lenIs records the length of a fresh sequence variable.
func (x *Exec) lenIs(s, n *Term) {
	x.c.AssertBG(x.c.App("=", x.c.Bool, x.c.App("len_"+s.sort.Name, x.c.Int, s), n))
	x.c.setLen(s, n)
}

func (x *Exec) havocResults(hint string, sig *types.Signature) []*Term {
	var res []*Term
	x.bump()
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, x.havocVal(hint, sig.Results().At(i).Type()))
	}
	return res
}

// invoke performs an interface method call.
func (x *Exec) invoke(fr *Frame, st *State, cc *ssa.CallCommon, recv *Term, args []*Term, in ssa.Instruction, k func(*State, []*Term)) {
	c := x.c
	tg := c.tag(recv)
	x.panicCheck(fr, st, c.Not(c.Eq(tg, c.I(0))), "nil-interface-call", in)
	if st.dead {
		return
	}
	if tg.op != "int" {
		if n := c.Subst(tg, x.litMap(st.pc)); n.isInt() {
			tg = n
		}
	}
	key := "(" + TypeName(cc.Value.Type()) + ")." + cc.Method.Name()
	if ct := x.specs.Funcs[key]; tg.isInt() && (ct == nil || !ct.Iface || x.root.Opts["byinterface"] == "") {
		if t, ok := x.tagT[tg.ival.Int64()]; ok {
			if fn := x.p.Prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); fn != nil && (x.p.InRepo(fn) || libModels[libKey(fn)] != nil) {
				rv := x.unbox(c.val(recv), t)
				x.callFn(fr, st, fn, nil, append([]*Term{rv}, args...), in, k)
				return
			}
		}
	}
	sig := cc.Method.Type().(*types.Signature)
	all := append([]*Term{recv}, args...)
	if ct := x.specs.Funcs[key]; ct != nil && ct.Iface {
		x.applyContract(fr, st, ct, key, cc.Value.Type(), sig, all, in, k)
		return
	}
	if m, ok := libModels[key]; ok {
		m(x, &CallInfo{fr: fr, in: in, sig: sig, key: key}, st, all, k)
		return
	}
	// method of an embedded interface: look for a model by method name on io/net types
	if m, ok := libModels["*."+cc.Method.Name()]; ok {
		m(x, &CallInfo{fr: fr, in: in, sig: sig, key: key}, st, all, k)
		return
	}
	x.unknownCall(fr, st, "interface method "+key, sig, args, k)
}

func (x *Exec) callContract(fr *Frame, st *State, ct *Contract, fn *ssa.Function, args []*Term, in ssa.Instruction, k func(*State, []*Term)) {
	var rt types.Type
	if r := fn.Signature.Recv(); r != nil {
		rt = r.Type()
	}
	x.applyContract(fr, st, ct, FuncKey(fn), rt, fn.Signature, args, in, k)
}

func (x *Exec) pkgOf(ct *Contract) *ssa.Package {
	for _, sp := range x.p.Pkgs {
		if sp.Pkg.Name() == ct.Pkg {
			return sp
		}
	}
	return nil
}

func (x *Exec) bindParams(ct *Contract, rt types.Type, sig *types.Signature, args []*Term) map[string]SV {
	vars := map[string]SV{}
	i := 0
	if ct.Recv != "" || rt != nil {
		if ct.Recv != "" {
			vars[ct.Recv] = SV{args[0], rt}
		}
		i = 1
	}
	for j, p := range ct.Params {
		if i+j < len(args) {
			vars[p] = SV{args[i+j], sig.Params().At(j).Type()}
		}
	}
	return vars
}

// applyContract uses a contract at a call: requires are proved, ensures assumed.
func (x *Exec) applyContract(fr *Frame, st *State, ct *Contract, key string, rt types.Type, sig *types.Signature, args []*Term, in ssa.Instruction, k func(*State, []*Term)) {
	x.Used[ct.Key] = true
	pos := "?"
	if in != nil {
		pos = x.p.Pos(in.Pos())
	}
	old := st.clone()
	env := &Env{x: x, st: st, old: old, vars: x.bindParams(ct, rt, sig, args), pkg: x.pkgOf(ct), ctr: x.ctr}
	for i, cl := range ct.Requires {
		t, err := env.Bool(cl.E)
		if err != nil {
			x.specErr(ct, cl, err)
			continue
		}
		props := cl.Props
		x.prove(st, t, fmt.Sprintf("%s/pre:%s:%s", x.root.Key, ct.Key, clauseName(cl, i)), "precondition", props, pos, cl.Src)
		if st.dead {
			return
		}
	}
	// two-stage havoc: state at the last lock acquisition, then the final state
	ctr0 := x.ctr
	ctr1 := x.bump()
	mid := st.clone()
	if err := x.havocModifies(mid, env, ct, ctr0, ctr1); err != nil {
		x.Errs = append(x.Errs, fmt.Sprintf("%s: modifies: %v", ct.Key, err))
	}
	x.keepLocals(fr, mid, old.heap, nil)
	needMid := ct.Opts["twostage"] != ""
	if needMid {
		if err := x.havocModifies(st, env, ct, ctr0, ctr1); err != nil {
			x.Errs = append(x.Errs, fmt.Sprintf("%s: modifies: %v", ct.Key, err))
		}
		x.keepLocals(fr, st, old.heap, nil)
	} else {
		st.heap = mid.heap
		mid = old
	}
	res := x.havocResults(ct.Key[strings.LastIndex(ct.Key, ".")+1:], sig)
	env = &Env{x: x, st: st, old: old, lock: mid, vars: x.bindParams(ct, rt, sig, args), pkg: x.pkgOf(ct), ctr: ctr0, fromCall: true}
	for i, r := range ct.Results {
		if i < len(res) {
			env.vars[r] = SV{res[i], sig.Results().At(i).Type()}
		}
	}
	for _, ef := range ct.Effects {
		lhs, rhs := ef.E.Args[0], ef.E.Args[1]
		v, err := env.Term(rhs)
		if err != nil {
			x.specErr(ct, ef, err)
			continue
		}
		if err := x.assignGhost(st, env, lhs, v.T); err != nil {
			x.specErr(ct, ef, err)
		}
	}
	for _, cl := range ct.Ensures {
		if cl.Off || mentionsRange(cl.E) || len(cl.Vars) > 0 { // about the callee's own map iteration
			continue
		}
		t, err := env.Bool(cl.E)
		if err != nil {
			x.specErr(ct, cl, err)
			continue
		}
		x.assume(st, t)
	}
	st.events = append(st.events, Event{Kind: "call", Key: ct.Key, Args: args})
	if st.dead {
		return
	}
	k(st, res)
}

func mentionsRange(e *Expr) bool {
	if e == nil {
		return false
	}
	if e.Op == "call" && (e.Name == "visited" || e.Name == "order") {
		return true
	}
	for _, a := range e.Args {
		if mentionsRange(a) {
			return true
		}
	}
	return false
}

func clauseName(cl Clause, i int) string {
	if cl.Label != "" {
		return strings.ReplaceAll(cl.Label, " ", "-")
	}
	return fmt.Sprintf("#%d", i+1)
}

func (x *Exec) specErr(ct *Contract, cl Clause, err error) {
	s := fmt.Sprintf("%s: %s: %v", cl.Pos, cl.Src, err)
	for _, e := range x.Errs {
		if e == s {
			return
		}
	}
	x.Errs = append(x.Errs, s)
}

// assignGhost sets a ghost location or a heap location.
func (x *Exec) assignGhost(st *State, env *Env, lhs *Expr, v *Term) error {
	c := x.c
	if lhs.Op == "call" {
		if d := x.specs.Defs[lhs.Name]; d != nil && d.Ghost {
			a, err := env.Term(lhs.Args[0])
			if err != nil {
				return err
			}
			k := x.ghostKey(d)
			st.heap[k] = c.Store(x.heapTerm(st, k), env.refOf(a), v)
			return nil
		}
	}
	if l, ok := env.loc(lhs); ok {
		x.write(st, l, v)
		return nil
	}
	return fmt.Errorf("not assignable")
}

// modLoc is one location of a modifies clause.
type modLoc struct {
	key string
	ref *Term // nil: the whole key
	// slice elements lo..hi
	lo, hi *Term
	all    bool
}

// modLocs resolves a modifies clause.
func (x *Exec) modLocs(env *Env, e *Expr) (out []modLoc, err error) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(evalErr); ok {
				err = fmt.Errorf("%s", ee.msg)
				return
			}
			panic(r)
		}
	}()
	c := x.c
	var leaf func(l Loc)
	leaf = func(l Loc) {
		if l.elem {
			out = append(out, modLoc{key: l.key, ref: l.base, lo: l.idx, hi: c.AddK(l.idx, 1)})
			return
		}
		if s := structOf(l.typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				leaf(x.fieldLoc(l, i))
			}
			return
		}
		if a := arrayOf(l.typ); a != nil && !isOpaque(l.typ) {
			out = append(out, modLoc{key: x.elemKey(a.Elem()), ref: x.arrRef(l)})
			return
		}
		out = append(out, modLoc{key: x.leafKey(l), ref: l.base})
		if TypeName(l.typ) == "bytes.Buffer" {
			out = append(out, modLoc{key: x.outKey(), ref: l.ptr})
		}
	}
	switch e.Op {
	case "all":
		return []modLoc{{all: true}}, nil
	case "call":
		if d := x.specs.Defs[e.Name]; d != nil && d.Ghost {
			k := x.ghostKey(d)
			if len(e.Args) == 1 && e.Args[0].Op == "str" && e.Args[0].Name == "*" {
				return []modLoc{{key: k}}, nil
			}
			a := env.eval(e.Args[0])
			return []modLoc{{key: k, ref: env.refOf(a)}}, nil
		}
		switch e.Name {
		case "elems": // contents of a slice
			v := env.eval(e.Args[0])
			k := x.elemKey(sliceOf(v.GT).Elem())
			return []modLoc{{key: k, ref: c.arr(v.T), lo: c.off(v.T), hi: c.Add(c.off(v.T), c.ln(v.T))}}, nil
		case "elemscap":
			v := env.eval(e.Args[0])
			k := x.elemKey(sliceOf(v.GT).Elem())
			return []modLoc{{key: k, ref: c.arr(v.T), lo: c.off(v.T), hi: c.Add(c.off(v.T), c.cp(v.T))}}, nil
		case "elemsAll": // whole heap of an element type
			gt := x.goType(e.Args[0].Name)
			return []modLoc{{key: x.elemKey(gt)}}, nil
		case "map":
			v := env.eval(e.Args[0])
			mt := v.GT.Underlying().(*types.Map)
			md, mv := x.mapKeys(mt)
			return []modLoc{{key: md, ref: v.T}, {key: mv, ref: v.T}}, nil
		case "mapsAll":
			gt := x.goType(e.Args[0].Name).Underlying().(*types.Map)
			md, mv := x.mapKeys(gt)
			return []modLoc{{key: md}, {key: mv}}, nil
		case "chan":
			v := env.eval(e.Args[0])
			et := v.GT.Underlying().(*types.Chan).Elem()
			return []modLoc{{key: x.chanKey(et), ref: v.T}, {key: x.rcvdKey(et), ref: v.T}}, nil
		case "closedflag":
			v := env.chanArg(env.eval(e.Args[0]))
			return []modLoc{{key: x.closedKey(v.GT), ref: v.T}}, nil
		case "closedflags", "chans": // the closed flags, contents of every channel with that element type
			et := x.goType(e.Args[0].Name)
			if et == nil {
				evalFail("unknown type %s", e.Args[0].Name)
			}
			if e.Name == "chans" {
				return []modLoc{{key: x.chanKey(et)}, {key: x.rcvdKey(et)}}, nil
			}
			return []modLoc{{key: x.closedKey(types.NewChan(types.SendRecv, et))}}, nil
		case "field": // a field of every object
			n := e.Args[0].Name
			i := strings.LastIndex(n, ".")
			gt := x.goType(n[:i])
			if gt == nil {
				evalFail("unknown type in %s", n)
			}
			path, ok := fieldPath(gt, n[i+1:])
			if !ok {
				evalFail("unknown field %s", n)
			}
			l := x.locOf(c.I(0), gt)
			for _, p := range path {
				l = x.fieldLoc(l, p)
			}
			leaf(l)
			for i := range out {
				out[i].ref = nil
				out[i].lo, out[i].hi = nil, nil
			}
			return out, nil
		case "cells":
			gt := x.goType(e.Args[0].Name)
			return []modLoc{{key: x.cellKey(gt)}}, nil
		case "if": // if(cond, loc): location only when cond
			g := env.bool(e.Args[0])
			if g.op == "false" {
				return nil, nil
			}
			return x.modLocs(env, e.Args[1])
		}
	}
	l, ok := env.loc(e)
	if !ok {
		return nil, fmt.Errorf("not a location")
	}
	leaf(l)
	return out, nil
}

// havocModifies havocs the locations a contract may modify, and lets new objects appear.
func (x *Exec) havocModifies(st *State, env *Env, ct *Contract, ctr0, ctr1 int) error {
	c := x.c
	pre := env.st
	var locs []modLoc
	for _, m := range ct.Modifies {
		ls, err := x.modLocs(env, m.E)
		if err != nil {
			return fmt.Errorf("%s: %v", m.Src, err)
		}
		locs = append(locs, ls...)
	}
	for _, m := range locs {
		if m.all {
			x.newEpoch(st, ctr0, ctr1)
			return nil
		}
	}
	// allocations: heaps grow above ctr0
	grown := map[string]bool{}
	grow := func(k string) {
		if grown[k] {
			return
		}
		grown[k] = true
		h := x.heapTerm(st, k)
		nv := x.heapVar(k, "al", ctr1)
		c.ext[nv.op] = extInfo{old: h, ctr: ctr0}
		x.extAxiom(nv, h, ctr0)
		st.heap[k] = nv
	}
	for _, a := range ct.Allocates {
		if err := x.growType(a, grow); err != nil {
			return err
		}
	}
	for _, m := range locs {
		if m.key == x.outKey() && m.ref != nil {
			x.bufMutate(st, m.ref)
		}
		h := x.heapTerm(st, m.key)
		if m.ref == nil {
			st.heap[m.key] = x.heapVar(m.key, "hv", ctr1)
			continue
		}
		ki := x.keys[m.key]
		nv := c.Var("m_"+m.key, ki.sort.Val)
		if ki.refs {
			nv.below = ctr1
		}
		if ki.typ != nil && !strings.HasPrefix(m.key, "E|") {
			x.facts(nv, ki.typ)
		}
		if m.lo != nil {
			oldc := c.Select(x.heapTerm(pre, m.key), m.ref)
			old := c.Select(h, m.ref)
			_ = oldc
			x.lenIs(nv, c.Sub(m.hi, m.lo))
			st.heap[m.key] = c.Store(h, m.ref, c.Cat(c.Cat(c.SubSeq(old, c.I(0), m.lo), nv), c.SubSeq(old, m.hi, c.Len(old))))
			continue
		}
		if strings.HasPrefix(m.key, "E|") {
			x.lenIs(nv, c.ArrLen(m.ref))
		}
		st.heap[m.key] = c.Store(h, m.ref, nv)
	}
	return nil
}

// keepLocals restores, after other code ran, the contents of slices that this
// function made, only reads and never hands out. With a loop given: of those made before it.
func (x *Exec) keepLocals(fr *Frame, st *State, was map[string]*Term, li *loopInfo) {
	if fr == nil {
		return
	}
	var vals []ssa.Value
	for v, t := range fr.env {
		in, ok := v.(ssa.Instruction)
		if !ok || t.T == nil || sliceOf(v.Type()) == nil || t.T.sort != x.c.Sl {
			continue
		}
		if li != nil && (li.blocks[in.Block()] || !in.Block().Dominates(li.header)) {
			continue
		}
		k := x.elemKey(sliceOf(v.Type()).Elem())
		if was[k] == nil || st.heap[k] == was[k] {
			continue
		}
		if x.privateSlice(v) {
			vals = append(vals, v)
		}
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].Name() < vals[j].Name() })
	for _, v := range vals {
		k := x.elemKey(sliceOf(v.Type()).Elem())
		r := x.c.arr(fr.env[v].T)
		st.heap[k] = x.c.Store(x.heapTerm(st, k), r, x.c.Select(was[k], r))
	}
}

// privateSlice: the slice's array is made here, written by nothing afterwards and known to nobody else.
func (x *Exec) privateSlice(v ssa.Value) bool {
	if r, ok := x.private[v]; ok {
		return r
	}
	x.private[v] = false
	made := false
	switch y := v.(type) {
	case *ssa.MakeSlice:
		made = true
	case *ssa.Call: // append to an empty slice of its own
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			switch d := y.Call.Args[0].(type) {
			case *ssa.Const:
				made = d.IsNil()
			case *ssa.Slice:
				if a, ok := d.X.(*ssa.Alloc); ok {
					if at := arrayOf(a.Type().Underlying().(*types.Pointer).Elem()); at != nil && at.Len() == 0 {
						made = true
					}
				}
			}
		}
	}
	if !made || v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		switch y := u.(type) {
		case *ssa.IndexAddr:
			for _, w := range *y.Referrers() {
				switch z := w.(type) {
				case *ssa.UnOp:
					if z.Op != token.MUL {
						return false
					}
				case *ssa.DebugRef:
				default:
					return false
				}
			}
		case *ssa.Call:
			b, ok := y.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	x.private[v] = true
	return true
}

func (x *Exec) extAxiom(nv, old *Term, ctr int) {
	n := fmt.Sprintf("(forall ((r Int)) (! (=> (< r %d) (= (select %s r) (select OLD r))) :pattern ((select %s r))))", ctr, nv.op, nv.op)
	if len(old.args) == 0 {
		x.c.AxiomRaw(strings.ReplaceAll(n, "OLD", old.op))
		return
	}
	r := x.c.BoundVar("r", x.c.Int)
	lt := x.c.App("<", x.c.Bool, r, x.c.I(int64(ctr)))
	eq := x.c.App("=", x.c.Bool, x.c.App("select", nv.sort.Val, nv, r), x.c.App("select", nv.sort.Val, old, r))
	x.c.AssertBG(x.c.quant("forall", []*Term{r}, x.c.App("=>", x.c.Bool, lt, eq), [][]*Term{{x.c.App("select", nv.sort.Val, nv, r)}}))
}

// growKey lets new objects appear in a heap and keeps the old ones.
func (x *Exec) growKey(st *State, k string, ctr0, ctr1 int) {
	h := x.heapTerm(st, k)
	nv := x.heapVar(k, "al", ctr1)
	x.c.ext[nv.op] = extInfo{old: h, ctr: ctr0}
	x.extAxiom(nv, h, ctr0)
	st.heap[k] = nv
}

// immut reports whether a heap key holds a field declared immutable.
func (x *Exec) immut(k string) bool {
	return len(x.specs.Immut) > 0 && strings.HasPrefix(k, "F|") && x.specs.Immut[strings.Replace(k[2:], "|", ".", 1)]
}

// growType applies grow to every heap key of a type named in allocates.
func (x *Exec) growType(name string, grow func(string)) error {
	if name == "" || name == "nothing" {
		return nil
	}
	if strings.HasPrefix(name, "G:") {
		d := x.specs.Defs[name[2:]]
		if d == nil {
			return fmt.Errorf("no ghost %s", name)
		}
		grow(x.ghostKey(d))
		return nil
	}
	if strings.HasPrefix(name, "elems ") {
		gt := x.goType(strings.TrimSpace(name[6:]))
		if gt == nil {
			return fmt.Errorf("unknown type %s", name)
		}
		grow(x.elemKey(gt))
		return nil
	}
	gt := x.goType(name)
	if gt == nil {
		return fmt.Errorf("unknown type %s", name)
	}
	switch u := gt.Underlying().(type) {
	case *types.Slice:
		grow(x.elemKey(u.Elem()))
		return nil
	case *types.Map:
		md, mv := x.mapKeys(u)
		grow(md)
		grow(mv)
		return nil
	}
	var leaf func(l Loc)
	leaf = func(l Loc) {
		if s := structOf(l.typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				leaf(x.fieldLoc(l, i))
			}
			return
		}
		if a := arrayOf(l.typ); a != nil && !isOpaque(l.typ) {
			grow(x.elemKey(a.Elem()))
			return
		}
		grow(x.leafKey(l))
	}
	leaf(x.locOf(x.c.I(0), gt))
	return nil
}

// ---- builtins

func (x *Exec) builtin(fr *Frame, st *State, name string, cc *ssa.CallCommon, args []*Term, in ssa.Instruction, k func(*State, []*Term)) {
	c := x.c
	one := func(t *Term) { k(st, []*Term{t}) }
	switch name {
	case "len":
		a := args[0]
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			one(c.ln(a))
		case *types.Map:
			md, _ := x.mapKeys(u)
			x.nilMapFact(md)
			l := x.mapLen(c.Select(x.heapTerm(st, md), a))
			x.assumeNote("a map has fewer than 2^40 entries")
			x.assume(st, c.Le(l, c.Big(pow2(40))))
			one(l)
		case *types.Chan:
			v := c.Var("chlen", c.Int)
			v.lo, v.hi = bigZero, maxLen
			c.AssertBG(c.App("<=", c.Bool, c.I(0), v))
			one(v)
		case *types.Pointer:
			one(c.I(arrayOf(u.Elem()).Len()))
		default:
			one(c.Len(a))
		}
	case "cap":
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			one(c.cp(args[0]))
		case *types.Pointer:
			one(c.I(arrayOf(u.Elem()).Len()))
		case *types.Chan:
			one(c.Select(x.heapTerm(st, x.key("CN|cap", c.Int, false, nil)), args[0]))
		default:
			one(c.Len(args[0]))
		}
	case "append":
		x.appendCall(fr, st, cc, args, k)
	case "copy":
		x.copyCall(fr, st, cc, args, k)
	case "delete":
		x.mapCheck(st, args[0], true, in)
		x.mapDel(st, args[0], args[1], cc.Args[0].Type().Underlying().(*types.Map))
		k(st, nil)
	case "close":
		ch := args[0]
		cl := x.closedKey(cc.Args[0].Type())
		x.panicCheck(fr, st, c.Not(c.Eq(ch, c.I(0))), "close-of-nil-channel", in)
		x.panicCheck(fr, st, c.Not(c.Select(x.heapTerm(st, cl), ch)), "close-of-closed-channel", in)
		if st.dead {
			return
		}
		st.heap[cl] = c.Store(x.heapTerm(st, cl), ch, c.True)
		k(st, nil)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			p := c.Le(r, a)
			if name == "max" {
				p = c.Le(a, r)
			}
			r = c.Ite(p, r, a)
		}
		one(r)
	case "print", "println":
		k(st, nil)
	case "recover":
		one(c.NilIface())
	case "clear":
		if m, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			md, _ := x.mapKeys(m)
			x.nilMapFact(md)
			st.heap[md] = c.Store(x.heapTerm(st, md), args[0], c.ConstArr(x.keys[md].sort.Val, c.False))
		} else {
			x.havocSlice(st, args[0], sliceOf(cc.Args[0].Type()).Elem())
		}
		k(st, nil)
	case "ssa:wrapnilchk":
		x.nilCheck(fr, st, args[0], in)
		one(args[0])
	default:
		panic(abortErr{"unsupported builtin " + name})
	}
}

func (x *Exec) appendCall(fr *Frame, st *State, cc *ssa.CallCommon, args []*Term, k func(*State, []*Term)) {
	c := x.c
	s := args[0]
	elem := sliceOf(cc.Args[0].Type()).Elem()
	var add *Term
	if len(args) == 1 {
		k(st, []*Term{s})
		return
	}
	if args[1].sort == c.Sl {
		add = x.seqOf(st, args[1], elem)
	} else {
		add = args[1] // string
	}
	m := c.Len(add)
	if args[1].sort == c.Sl {
		m = c.ln(args[1])
	}
	key := x.elemKey(elem)
	ln, cp := c.ln(s), c.cp(s)
	n := c.Add(ln, m)
	// m == 0 leaves the slice alone
	zero := c.Eq(m, c.I(0))
	fits := c.Le(n, cp)
	lm := x.litMap(st.pc)
	simp := func(t *Term) *Term {
		if t.op == "true" || t.op == "false" {
			return t
		}
		return c.Subst(t, lm)
	}
	zero, fits = simp(zero), simp(fits)
	branch := func(cond *Term, f func(*State)) {
		if cond.op == "false" {
			return
		}
		s2 := st.clone()
		x.assume(s2, cond)
		if s2.dead || cond.op != "true" && !x.feasible(s2) {
			return
		}
		f(s2)
	}
	branch(zero, func(st *State) { k(st, []*Term{s}) })
	nz := c.Not(zero)
	branch(c.And(nz, fits), func(st *State) {
		if a := c.arr(s); !a.isInt() {
			for _, lim := range x.ctrMarks {
				f := c.Le(c.I(int64(lim)), a)
				if ok, _, _, _ := x.holds(st.pc, f, 500, 0); ok {
					x.assume(st, f)
					break
				}
			}
		}
		h := x.heapTerm(st, key)
		old := c.Select(h, c.arr(s))
		a, b := c.Add(c.off(s), ln), c.Add(c.off(s), n)
		st.heap[key] = c.Store(h, c.arr(s), c.Cat(c.Cat(c.SubSeq(old, c.I(0), a), add), c.SubSeq(old, b, c.Len(old))))
		k(st, []*Term{c.Cons(c.Sl, c.arr(s), c.off(s), n, cp)})
	})
	branch(c.And(nz, c.Not(fits)), func(st *State) {
		x.allocCheck(fr, st, n, elem, "append", nil)
		ncp := c.Var("ncap", c.Int)
		ncp.lo, ncp.hi = bigZero, maxLen
		c.AssertBG(c.And(c.App("<=", c.Bool, n, ncp), c.App("<=", c.Bool, ncp, c.Big(maxLen))))
		pad := c.Var("pad", c.SeqOf(elem))
		x.lenIs(pad, c.Sub(ncp, n))
		if hasRefs(elem) {
			pad.below = 1
		}
		r := x.fresh()
		content := c.Cat(c.Cat(x.seqOf(st, s, elem), add), pad)
		st.heap[key] = c.Store(x.heapTerm(st, key), r, content)
		c.AssertBG(c.App("=", c.Bool, c.Fun("arrlen", c.Int, r), ncp))
		c.alens[r] = ncp
		x.assume(st, c.Le(n, ncp))
		k(st, []*Term{c.Cons(c.Sl, r, c.I(0), n, ncp)})
	})
}

func (x *Exec) copyCall(fr *Frame, st *State, cc *ssa.CallCommon, args []*Term, k func(*State, []*Term)) {
	c := x.c
	d := args[0]
	elem := sliceOf(cc.Args[0].Type()).Elem()
	var src, m *Term
	if args[1].sort == c.Sl {
		src = x.seqOf(st, args[1], elem)
		m = c.ln(args[1])
	} else {
		src = args[1]
		m = c.Len(src)
	}
	key := x.elemKey(elem)
	do := func(st *State, n *Term) {
		h := x.heapTerm(st, key)
		old := c.Select(h, c.arr(d))
		a, b := c.off(d), c.Add(c.off(d), n)
		st.heap[key] = c.Store(h, c.arr(d), c.Cat(c.Cat(c.SubSeq(old, c.I(0), a), c.SubSeq(src, c.I(0), n)), c.SubSeq(old, b, c.Len(old))))
		k(st, []*Term{n})
	}
	cond := c.Le(m, c.ln(d))
	if cond.op == "true" {
		do(st, m)
		return
	}
	if cond.op == "false" {
		do(st, c.ln(d))
		return
	}
	s2 := st.clone()
	x.assume(s2, cond)
	if x.feasible(s2) {
		do(s2, m)
	}
	x.assume(st, c.Not(cond))
	if x.feasible(st) {
		do(st, c.ln(d))
	}
}

// ---- locks

func (x *Exec) lockSpec(ptr *Term) (*LockSpec, *Term, types.Type) {
	ai, ok := x.addrs[ptr.op]
	if !ok || ai.elem {
		return nil, nil, nil
	}
	for _, ls := range x.specs.Locks {
		if ai.key == ls.Type && pathStr(ai.rootT, ai.path) == ls.Mu {
			return ls, ptr.args[0], ai.rootT
		}
	}
	return nil, nil, nil
}

// guardOf finds the lock that guards the location.
func (x *Exec) guardOf(l Loc) (*LockSpec, string) {
	if l.elem || l.base == nil || len(l.path) == 0 {
		return nil, ""
	}
	// objects created here are not shared yet
	if l.base.isInt() && l.base.ival.Cmp(big64(baseCtr)) >= 0 {
		return nil, ""
	}
	name := pathStr(l.rootT, l.path)
	for _, ls := range x.specs.Locks {
		if contains(ls.All, l.key+"."+name) {
			return ls, name
		}
		if ls.Type != l.key {
			continue
		}
		for _, f := range ls.Guards {
			if f == name || strings.HasPrefix(name, f+".") {
				return ls, name
			}
		}
	}
	return nil, ""
}

// guardCheck: accesses to guarded fields need the lock when races are an obligation.
func (x *Exec) guardCheck(fr *Frame, st *State, l Loc, write bool, in ssa.Instruction) {
	if len(x.root.Races) == 0 || x.quiet > 0 {
		return
	}
	if ls, name := x.guardOf(l); ls != nil {
		x.holdsLock(st, mapGuard{ls, l.base, name, ls.Type != l.key}, write, in)
	}
}

// mapGuard names the lock-guarded field a map was loaded from.
type mapGuard struct {
	spec *LockSpec
	obj  *Term
	name string
	all  bool // a field of another object, guarded by the one lock of the spec
}

func (x *Exec) holdsLock(st *State, g mapGuard, write bool, in ssa.Instruction) {
	ok := false
	for _, h := range st.locks {
		if h.spec == g.spec && (h.obj == g.obj || g.all) && (h.mode == 'W' || !write) {
			ok = true
		}
	}
	mode := "read"
	if write {
		mode = "write"
	}
	x.prove(st.clone(), x.c.BoolT(ok), fmt.Sprintf("%s/lock:%s-%s-%s", x.root.Key, mode, g.spec.Type, g.name), "lock", x.root.Races, x.p.Pos(in.Pos()),
		fmt.Sprintf("%s of %s.%s holds %s.%s", mode, g.spec.Type, g.name, g.spec.Type, g.spec.Mu))
}

// mapLoaded remembers that map m was loaded from a guarded field.
func (x *Exec) mapLoaded(l Loc, m *Term, t types.Type) {
	if _, ok := t.Underlying().(*types.Map); !ok || len(x.root.Races) == 0 {
		return
	}
	if ls, name := x.guardOf(l); ls != nil {
		if x.mapGuards == nil {
			x.mapGuards = map[*Term]mapGuard{}
		}
		x.mapGuards[m] = mapGuard{ls, l.base, name, ls.Type != l.key}
	}
}

// mapCheck: the contents of a guarded map are guarded too.
func (x *Exec) mapCheck(st *State, m *Term, write bool, in ssa.Instruction) {
	if len(x.root.Races) == 0 || x.quiet > 0 {
		return
	}
	if g, ok := x.mapGuards[m]; ok {
		x.holdsLock(st, g, write, in)
	}
}

func (x *Exec) lock(fr *Frame, st *State, mu *Term, mode byte, in ssa.Instruction) {
	ls, obj, rt := x.lockSpec(mu)
	if lp := lockProps(x.root); len(lp) > 0 {
		already := false
		for _, h := range st.locks {
			if h.mu == mu {
				already = true
			}
		}
		nm := "mutex"
		if ls != nil {
			nm = ls.Type + "." + ls.Mu
		}
		x.prove(st, x.c.BoolT(!already), fmt.Sprintf("%s/lock:no-reacquire:%s", x.root.Key, nm), "lock", lp, x.p.Pos(in.Pos()), "the lock is not already held")
		if already {
			return
		}
	}
	st.locks = append(st.locks[:len(st.locks):len(st.locks)], lockEnt{mu: mu, mode: mode, spec: ls, obj: obj})
	if ls != nil {
		fresh := obj.isInt() && obj.ival.Cmp(big64(baseCtr)) >= 0
		if !fresh {
			before := make(map[string]*Term, len(st.heap))
			for k, v := range st.heap {
				before[k] = v
			}
			defer x.interfered(st, before)
			for _, g := range ls.Guards {
				l := x.locOf(obj, rt)
				t := rt
				ok := true
				for _, seg := range strings.Split(g, ".") {
					i := fieldIndex(t, seg)
					if i < 0 {
						ok = false
						break
					}
					l = x.fieldLoc(l, i)
					t = l.typ
				}
				if !ok {
					continue
				}
				if sliceOf(l.typ) != nil && contains(ls.Frozen, g) {
					x.bump()
					x.write(st, l, x.havocVal("lk", l.typ))
					continue
				}
				x.havocLoc(st, l)
			}
			for _, g := range ls.All {
				x.havocField(st, g)
			}
			env := &Env{x: x, st: st, vars: map[string]SV{ls.Recv: {obj, types.NewPointer(rt)}}, pkg: x.pkg}
			env.old = &State{heap: before}
			for _, iv := range append(append([]Clause{}, ls.Inv...), ls.Evol...) {
				if t, err := env.Bool(iv.E); err == nil {
					x.assume(st, t)
				} else {
					x.Errs = append(x.Errs, fmt.Sprintf("%s: %v", iv.Pos, err))
				}
			}
		}
		if len(ls.Evol) > 0 || x.root.Opts["releases"] != "" {
			snap := make(map[string]*Term, len(st.heap))
			for k, v := range st.heap {
				snap[k] = v
			}
			st.locks[len(st.locks)-1].heap = snap
		}
	}
	if len(st.locks) > 1 {
		return // locked() refers to the acquisition of the outermost lock
	}
	snap := make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		snap[k] = v
	}
	st.locked = snap
	x.lockN++
	st.lockN = x.lockN
}

// havocField forgets a field of every object, and the elements of slices it holds.
func (x *Exec) havocField(st *State, n string) {
	i := strings.LastIndex(n, ".")
	gt := x.goType(n[:i])
	path, ok := fieldPath(gt, n[i+1:])
	if gt == nil || !ok {
		x.Errs = append(x.Errs, "unknown field "+n)
		return
	}
	l := x.locOf(x.c.I(0), gt)
	for _, p := range path {
		l = x.fieldLoc(l, p)
	}
	x.bump()
	k := x.leafKey(l)
	st.heap[k] = x.heapVar(k, "lk", x.ctr)
	if s := sliceOf(l.typ); s != nil {
		k := x.elemKey(s.Elem())
		st.heap[k] = x.heapVar(k, "lke", x.ctr)
	}
}

// interfered: what other goroutines did before the lock was acquired is no modification by this function.
func (x *Exec) interfered(st *State, before map[string]*Term) {
	base := make(map[string]*Term, len(st.base)+4)
	for k, v := range st.base {
		base[k] = v
	}
	for _, k := range sortedKeys(st.heap) {
		if k == epochKey {
			continue
		}
		cur, was := st.heap[k], x.heapIn(before, k)
		b := base[k]
		if b == nil {
			b = x.initHeap(k)
		}
		var refs []*Term
		t := cur
		for ; t != was && t.op == "store"; t = t.args[0] {
		}
		if t != was { // the whole field changed
			base[k] = cur
			continue
		}
		for t := cur; t != was && t.op == "store"; t = t.args[0] {
			if r := t.args[1]; x.c.Select(cur, r) != x.c.Select(was, r) {
				refs = append(refs, r)
			}
		}
		if len(refs) == 0 {
			continue
		}
		for i := len(refs) - 1; i >= 0; i-- {
			b = x.c.Store(b, refs[i], x.c.Select(cur, refs[i]))
		}
		base[k] = b
	}
	st.base = base
}

func fieldIndex(t types.Type, name string) int {
	s := structOf(t)
	if s == nil {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// havocLoc forgets the value at l (and, for maps and slices, the contents).
func (x *Exec) havocLoc(st *State, l Loc) {
	c := x.c
	if s := structOf(l.typ); s != nil && !l.elem {
		for i := 0; i < s.NumFields(); i++ {
			x.havocLoc(st, x.fieldLoc(l, i))
		}
		return
	}
	if m, ok := l.typ.Underlying().(*types.Map); ok {
		// the reference is stable, the contents change
		r := x.read(st, l)
		md, mv := x.mapKeys(m)
		for _, k := range []string{md, mv} {
			nv := c.Var("lk", x.keys[k].sort.Val)
			if x.keys[k].refs {
				nv.below = x.ctr
			}
			st.heap[k] = c.Store(x.heapTerm(st, k), r, nv)
		}
		return
	}
	if s := sliceOf(l.typ); s != nil {
		x.bump()
		v := x.havocVal("lk", l.typ)
		x.write(st, l, v)
		k := x.elemKey(s.Elem())
		nv := c.Var("lke", x.keys[k].sort.Val)
		if x.keys[k].refs {
			nv.below = x.ctr
		}
		x.lenIs(nv, c.ArrLen(c.arr(v)))
		st.heap[k] = c.Store(x.heapTerm(st, k), c.arr(v), nv)
		return
	}
	x.bump()
	x.write(st, l, x.havocVal("lk", l.typ))
}

func (x *Exec) unlock(fr *Frame, st *State, mu *Term, mode byte, in ssa.Instruction) {
	for i := len(st.locks) - 1; i >= 0; i-- {
		h := st.locks[i]
		if h.mu == mu && h.mode == mode {
			st.rel = h.heap
			if h.spec != nil && len(h.spec.Inv)+len(h.spec.Evol) > 0 && mode == 'W' {
				_, _, rt := x.lockSpec(mu)
				env := &Env{x: x, st: st, vars: map[string]SV{h.spec.Recv: {h.obj, types.NewPointer(rt)}}, pkg: x.pkg}
				for j, iv := range append(append([]Clause{}, h.spec.Inv...), h.spec.Evol...) {
					kind := "lockinv"
					if j >= len(h.spec.Inv) {
						kind, env.old = "evolves", &State{heap: h.heap}
					}
					if t, err := env.Bool(iv.E); err == nil {
						x.prove(st, t, fmt.Sprintf("%s/%s:%s.%s:%s", x.root.Key, kind, h.spec.Type, h.spec.Mu, clauseName(iv, j)), "lock invariant", iv.Props, x.p.Pos(in.Pos()), iv.Src)
					} else {
						x.Errs = append(x.Errs, fmt.Sprintf("%s: %v", iv.Pos, err))
					}
				}
			}
			n := append([]lockEnt{}, st.locks[:i]...)
			st.locks = append(n, st.locks[i+1:]...)
			return
		}
	}
	if lp := lockProps(x.root); len(lp) > 0 {
		x.prove(st, x.c.False, fmt.Sprintf("%s/lock:unlock-of-held", x.root.Key), "lock", lp, x.p.Pos(in.Pos()), "Unlock matches a held lock")
	}
}

// ---- roots

// VerifyFunc verifies the function of a contract.
func (x *Exec) VerifyFunc(ct *Contract, fn *ssa.Function) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abortErr); ok {
				x.aborted = a.msg
				return
			}
			if e, ok := r.(evalErr); ok {
				x.aborted = "specification: " + e.msg
				return
			}
			if os.Getenv("GOCV_PANIC") != "" {
				panic(r)
			}
			x.aborted = fmt.Sprintf("internal: %v", r)
		}
	}()
	x.root, x.rootFn = ct, fn
	x.pkg = x.pkgOf(ct)
	st := &State{heap: map[string]*Term{}, defers: map[int][]deferEnt{}}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, active: map[*ssa.BasicBlock]*loopCtx{}, id: x.nextFrame(), isRoot: true, con: ct}
	c := x.c
	var args []*Term
	for i, p := range fn.Params {
		v := c.VarOf(p.Name(), p.Type(), baseCtr)
		x.facts(v, p.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				x.assume(st, c.Lt(c.I(0), v))
			}
		} else if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			x.assume(st, c.Le(c.I(0), v))
		}
		args = append(args, v)
		fr.set(p, v)
	}
	vars := x.bindParams(ct, recvType(fn), fn.Signature, args)
	for _, v := range fn.FreeVars {
		t := c.VarOf(v.Name(), v.Type(), baseCtr)
		x.facts(t, v.Type())
		if _, ok := v.Type().Underlying().(*types.Pointer); ok {
			x.assume(st, c.Lt(c.I(0), t))
		}
		fr.set(v, t)
		vars[v.Name()] = SV{t, v.Type()}
	}
	env := &Env{x: x, st: st, vars: vars, pkg: x.pkg, ctr: baseCtr}
	for _, ap := range ct.Applies {
		if err := x.useLemma(st, ap.E.Name, nil); err != nil {
			x.specErr(ct, ap, err)
		}
	}
	for _, cl := range ct.Requires {
		if cl.E.Op == "call" && (cl.E.Name == "held" || cl.E.Name == "rheld") {
			l, ok := env.loc(cl.E.Args[0])
			if !ok {
				x.specErr(ct, cl, fmt.Errorf("not a lock"))
				continue
			}
			ls, obj, _ := x.lockSpec(l.ptr)
			mode := byte('W')
			if cl.E.Name == "rheld" {
				mode = 'R'
			}
			st.locks = append(st.locks, lockEnt{mu: l.ptr, mode: mode, spec: ls, obj: obj, heap: st.clone().heap})
			continue
		}
		t, err := env.Bool(cl.E)
		if err != nil {
			x.specErr(ct, cl, err)
			continue
		}
		x.assume(st, t)
	}
	if st.dead || !x.feasible(st) {
		x.note("vacuity:requires-satisfiable", "vacuity", false, "the preconditions are contradictory")
		return nil
	}
	entry := st.clone()
	fr.entry = entry
	nlocks := len(st.locks)
	if ct.Opts["releases"] != "" {
		nlocks = 0
	}
	x.rootEnv = &Env{x: x, st: st, old: entry, vars: vars, pkg: x.pkg, ctr: baseCtr}
	fr.ret = func(st *State, res []*Term) { x.atReturn(ct, fr, fn, st, entry, vars, res, nlocks) }
	x.run(fr, st, fn.Blocks[0], 0)
	if x.Returns == 0 && !ct.AnyExit && ct.Opts["noreturn"] == "" {
		x.note("vacuity:return-reachable", "vacuity", false, "no path reaches a return")
	}
	if x.Returns > 0 && x.OkReturns == 0 && ct.Opts["alwaysfails"] == "" {
		x.note("vacuity:success-reachable", "vacuity", false, "no path returns without an error")
	}
	return nil
}

func recvType(fn *ssa.Function) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		return r.Type()
	}
	return nil
}

func (x *Exec) note(name, kind string, ok bool, detail string) {
	n := x.root.Key + "/" + name
	o := x.Obls[n]
	if o == nil {
		o = &Obligation{Name: n, Kind: kind, By: map[string]int{}, Func: x.root.Key, Spec: detail}
		x.Obls[n] = o
		x.Order = append(x.Order, n)
	}
	o.VCs++
	if ok {
		o.By["engine"]++
	} else {
		o.Failed++
		o.Detail = detail
	}
}

// overLocals evaluates a clause; one that is stated for local variables has
// to hold of some choice of the function's values of those types.
func (x *Exec) overLocals(fr *Frame, st *State, env *Env, cl Clause) (*Term, error) {
	if len(cl.Vars) == 0 {
		return env.Bool(cl.E)
	}
	choices := [][]SV{nil}
	for _, bv := range cl.Vars {
		same := func(t types.Type) bool {
			return normType(TypeName(t)) == normType(bv.Type) || TypeName(t) == x.qualType(bv.Type)
		}
		var vals []SV
		if gt := x.goType(bv.Type); gt != nil { // where there is none
			vals = append(vals, SV{x.c.Zero(gt), gt})
		}
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				t, ok := fr.env[v]
				if !ok || t.T == nil {
					continue
				}
				if same(v.Type()) {
					vals = append(vals, SV{t.T, v.Type()})
				}
				if a, ok := in.(*ssa.Alloc); ok {
					if et := a.Type().Underlying().(*types.Pointer).Elem(); same(et) && structOf(et) == nil && arrayOf(et) == nil {
						vals = append(vals, SV{x.read(st, x.locOf(t.T, et)), et})
					}
				}
			}
		}
		var nx [][]SV
		for _, c := range choices {
			for _, v := range vals {
				nx = append(nx, append(c[:len(c):len(c)], v))
			}
		}
		choices = nx
	}
	var alts []*Term
	for _, c := range choices {
		e := *env
		e.vars = map[string]SV{}
		for k, v := range env.vars {
			e.vars[k] = v
		}
		for i, bv := range cl.Vars {
			e.vars[bv.Name] = c[i]
		}
		t, err := e.Bool(cl.E)
		if err != nil {
			return nil, err
		}
		alts = append(alts, t)
	}
	return x.c.Or(alts...), nil
}

func (x *Exec) atReturn(ct *Contract, fr *Frame, fn *ssa.Function, st, entry *State, vars map[string]SV, res []*Term, nlocks int) {
	if st.dead {
		return
	}
	if !x.feasible(st) {
		return
	}
	x.Returns++
	if os.Getenv("GOCV_SMOKE") != "" { // is the path contradictory? (a dead branch, or an inconsistency)
		if ok, by, _, _ := x.holds(st.pc, x.c.False, 2000, 4); ok {
			fmt.Fprintf(os.Stderr, "VACUOUS %s (%s)\n", ct.Key, by)
		} else {
			fmt.Fprintf(os.Stderr, "LIVE %s\n", ct.Key)
		}
	}
	if len(res) > 0 {
		if t, rs := res[len(res)-1], fn.Signature.Results(); t.sort == x.c.Iface && rs.At(rs.Len()-1).Type().String() == "error" {
			if r := x.sol.Check(append(st.pc[:len(st.pc):len(st.pc)], x.c.Eq(x.c.tag(t), x.c.I(0))), x.c.False, 2000); r != "unsat" {
				x.OkReturns++
			}
		} else {
			x.OkReturns++
		}
	} else {
		x.OkReturns++
	}
	env := &Env{x: x, st: st, old: entry, vars: map[string]SV{}, pkg: x.pkg, ctr: baseCtr}
	if st.locked != nil {
		ls := st.clone()
		ls.heap = st.locked
		env.lock = ls
	}
	if env.lock == nil {
		env.lock = entry
	}
	for k, v := range vars {
		env.vars[k] = v
	}
	for i, r := range ct.Results {
		if i < len(res) {
			env.vars[r] = SV{res[i], fn.Signature.Results().At(i).Type()}
		}
	}
	framed := st
	if len(ct.Effects) > 0 { // ghost assignments take place at the return
		es := st.clone()
		env.st = es
		for _, ef := range ct.Effects {
			v, err := env.Term(ef.E.Args[1])
			if err == nil {
				err = x.assignGhost(es, env, ef.E.Args[0], v.T)
			}
			if err != nil {
				x.specErr(ct, ef, err)
			}
		}
		st = es
	}
	pos := x.p.Pos(fn.Pos())
	for i, cl := range ct.Ensures {
		if cl.Off || x.prop != "" && len(cl.Props) > 0 && !contains(cl.Props, x.prop) {
			continue
		}
		t, err := x.overLocals(fr, st, env, cl)
		if err != nil {
			x.specErr(ct, cl, err)
			continue
		}
		x.prove(st.clone(), t, fmt.Sprintf("%s/ensures:%s", ct.Key, clauseName(cl, i)), "postcondition", cl.Props, pos, cl.Src)
	}
	{
		x.frameCheck(ct, fn, framed, entry, vars, pos)
	}
	if lp := lockProps(ct); len(lp) > 0 {
		x.prove(st.clone(), x.c.BoolT(len(st.locks) == nlocks), ct.Key+"/lock:balanced", "lock", lp, pos, "every lock taken is released")
	}
}

// frameCheck proves that only the locations of the modifies clauses changed.
func (x *Exec) frameCheck(ct *Contract, fn *ssa.Function, st, entry *State, vars map[string]SV, pos string) {
	c := x.c
	env := &Env{x: x, st: entry, old: entry, vars: vars, pkg: x.pkg, ctr: baseCtr}
	var locs []modLoc
	for _, m := range ct.Modifies {
		ls, err := x.modLocs(env, m.E)
		if err != nil {
			x.specErr(ct, m, err)
			return
		}
		locs = append(locs, ls...)
	}
	for _, l := range locs {
		if l.all {
			return
		}
	}
	keys := sortedKeys(st.heap)
	for _, k := range keys {
		if k == epochKey {
			if st.heap[k] != entry.heap[k] {
				x.prove(st.clone(), c.False, ct.Key+"/frame:everything", "frame", nil, pos, "a callee may modify anything")
			}
			continue
		}
		if strings.HasPrefix(k, "V|") || strings.HasPrefix(k, "VO|") || strings.HasPrefix(k, "CN|") || strings.HasPrefix(k, "BT|") || k == "CR|struct{}" {
			continue
		}
		cur, ini := st.heap[k], x.heapTerm(entry, k)
		if b := st.base[k]; b != nil {
			ini = b
		}
		if cur == ini {
			continue
		}
		whole := false
		exp := ini
		var slices []modLoc
		for _, l := range locs {
			if l.key != k {
				continue
			}
			if l.ref == nil {
				whole = true
				break
			}
			if l.lo != nil {
				slices = append(slices, l)
			}
			exp = c.Store(exp, l.ref, c.Select(cur, l.ref))
		}
		if whole {
			continue
		}
		// syntactic peel: drop stores to fresh references
		peeled := x.stripStores(cur, baseCtr)
		var bad []*Term
		okAll := true
		for t := peeled; t != ini; {
			if t.op != "store" {
				okAll = false
				break
			}
			allowed := false
			for _, l := range locs {
				if l.key == k && l.ref == t.args[1] {
					allowed = true
				}
			}
			if !allowed {
				bad = append(bad, t.args[1])
			}
			t = t.args[0]
		}
		goal := c.True
		if !okAll {
			r := c.BoundVar("r", c.Int)
			goal = c.Forall([]*Term{r}, c.Imp(c.App("<", c.Bool, r, c.I(baseCtr)), c.App("=", c.Bool, c.App("select", cur.sort.Val, peeled, r), c.App("select", cur.sort.Val, exp, r))))
		} else {
			var cs []*Term
			for _, r := range bad {
				cs = append(cs, c.Imp(c.Lt(r, c.I(baseCtr)), x.eqAny(c.Select(peeled, r), c.Select(exp, r))))
			}
			goal = c.And(cs...)
		}
		for _, l := range slices {
			a, b := c.Select(cur, l.ref), c.Select(ini, l.ref)
			goal = c.And(goal, c.Eq(c.SubSeq(a, c.I(0), l.lo), c.SubSeq(b, c.I(0), l.lo)), c.Eq(c.SubSeq(a, l.hi, c.Len(a)), c.SubSeq(b, l.hi, c.Len(b))))
		}
		x.prove(st.clone(), goal, ct.Key+"/frame:"+frameName(k), "frame", nil, pos, "only the locations in modifies change ("+k+")")
	}
}

func (x *Exec) eqAny(a, b *Term) *Term {
	if a.sort.Key != nil {
		if a == b {
			return x.c.True
		}
		return x.c.App("=", x.c.Bool, a, b)
	}
	return x.c.Eq(a, b)
}

func frameName(k string) string {
	return strings.ReplaceAll(strings.ReplaceAll(k, "|", "."), " ", "")
}

// useLemma asserts a lemma as a quantified fact; before, if set, is the lemma being proved (only earlier ones may be used).
func (x *Exec) useLemma(st *State, name string, before *Lemma) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(evalErr); ok {
				err = fmt.Errorf("lemma %s: %s", name, e.msg)
				return
			}
			panic(r)
		}
	}()
	c := x.c
	for _, l := range x.specs.Lemmas {
		if l == before {
			break
		}
		if l.Name != name {
			continue
		}
		if l.Trusted {
			x.assumeNote("axiom: " + name)
		} else {
			x.Used["lemma "+name] = true
		}
		env := &Env{x: x, st: st, vars: map[string]SV{}, ctr: baseCtr}
		var bvs []*Term
		var pre, post []*Term
		for _, p := range l.Params {
			s, gt := x.specSort(p.Type)
			v := c.BoundVar(p.Name, s)
			bvs = append(bvs, v)
			env.vars[p.Name] = SV{v, gt}
		}
		for _, r := range l.Requires {
			pre = append(pre, env.bool(r.E))
		}
		for _, r := range l.Ensures {
			post = append(post, env.bool(r.E))
		}
		var pats [][]*Term
		var multi []*Term
		for _, tr := range l.Trigger {
			multi = append(multi, env.eval(tr).T)
		}
		if len(multi) > 0 {
			pats = append(pats, multi)
		}
		c.AssertBG(c.Forall(bvs, c.Imp(c.And(pre...), c.And(post...)), pats...))
		return nil
	}
	return fmt.Errorf("no lemma %s (or it is not an earlier one)", name)
}

// VerifyLemma proves a lemma.
func (x *Exec) VerifyLemma(l *Lemma) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(evalErr); ok {
				x.Errs = append(x.Errs, l.Name+": "+e.msg)
				return
			}
			panic(r)
		}
	}()
	x.root = &Contract{Key: "lemma " + l.Name, Props: l.Props}
	c := x.c
	st := &State{heap: map[string]*Term{}, defers: map[int][]deferEnt{}}
	env := &Env{x: x, st: st, vars: map[string]SV{}, ctr: baseCtr}
	for _, p := range l.Params {
		s, gt := x.specSort(p.Type)
		v := c.Var(p.Name, s)
		if gt != nil {
			x.facts(v, gt)
		}
		env.vars[p.Name] = SV{v, gt}
	}
	for _, r := range l.Requires {
		x.assume(st, env.bool(r.E))
	}
	if l.Induct != "" {
		// induction hypothesis: the lemma for a smaller natural measure, generalised over all parameters
		ie, err := ParseExpr(l.Induct)
		if err != nil {
			evalFail("%v", err)
		}
		m := env.eval(ie).T
		henv := &Env{x: x, st: st, vars: map[string]SV{}, ctr: baseCtr}
		var bvs []*Term
		for _, p := range l.Params {
			s, gt := x.specSort(p.Type)
			v := c.BoundVar(p.Name, s)
			bvs = append(bvs, v)
			henv.vars[p.Name] = SV{v, gt}
		}
		hm := henv.eval(ie).T
		pre := []*Term{c.Le(c.I(0), hm), c.Lt(hm, m)}
		for _, r := range l.Requires {
			pre = append(pre, henv.bool(r.E))
		}
		var post []*Term
		for _, r := range l.Ensures {
			post = append(post, henv.bool(r.E))
		}
		var pats [][]*Term
		var multi []*Term
		for _, tr := range l.Trigger {
			multi = append(multi, henv.eval(tr).T)
		}
		if len(multi) > 0 {
			pats = append(pats, multi)
		}
		x.assume(st, c.Forall(bvs, c.Imp(c.And(pre...), c.And(post...)), pats...))
		x.prove(st, c.Le(c.I(0), m), "lemma "+l.Name+"/measure", "lemma", l.Props, l.Pos, "the induction measure is a natural number")
		// explicit uses: instances of the hypothesis
		for _, u := range l.Uses {
			// use name(args): instantiate
			var as []SV
			for _, a := range u.E.Args {
				as = append(as, env.eval(a))
			}
			if u.E.Name == l.Name {
				ienv := &Env{x: x, st: st, vars: map[string]SV{}, ctr: baseCtr}
				for i, p := range l.Params {
					ienv.vars[p.Name] = SV{as[i].T, env.vars[p.Name].GT}
				}
				im := ienv.eval(ie).T
				ip := []*Term{c.Le(c.I(0), im), c.Lt(im, m)}
				for _, r := range l.Requires {
					ip = append(ip, ienv.bool(r.E))
				}
				var iq []*Term
				for _, r := range l.Ensures {
					iq = append(iq, ienv.bool(r.E))
				}
				x.assume(st, c.Imp(c.And(ip...), c.And(iq...)))
			}
		}
	}
	for _, u := range l.Uses {
		if u.E.Op == "id" || u.E.Name != l.Name {
			if err := x.useLemma(st, u.E.Name, l); err != nil {
				x.Errs = append(x.Errs, err.Error())
			}
		}
		if u.E.Op != "id" && u.E.Name != l.Name {
			x.lemmaAt(st, env, u.E, l)
		}
	}
	for i, e := range l.Ensures {
		x.prove(st.clone(), env.bool(e.E), fmt.Sprintf("lemma %s/%s", l.Name, clauseName(e, i)), "lemma", l.Props, l.Pos, e.Src)
	}
}

// lemmaAt assumes an instance of a lemma stated before the given one.
func (x *Exec) lemmaAt(st *State, env *Env, u *Expr, before *Lemma) {
	for _, l := range x.specs.Lemmas {
		if l == before {
			return
		}
		if l.Name != u.Name || len(u.Args) != len(l.Params) {
			continue
		}
		ienv := &Env{x: x, st: st, vars: map[string]SV{}, ctr: baseCtr}
		for i, p := range l.Params {
			_, gt := x.specSort(p.Type)
			ienv.vars[p.Name] = SV{env.eval(u.Args[i]).T, gt}
		}
		var pre, post []*Term
		for _, r := range l.Requires {
			pre = append(pre, ienv.bool(r.E))
		}
		for _, r := range l.Ensures {
			post = append(post, ienv.bool(r.E))
		}
		x.assume(st, x.c.Imp(x.c.And(pre...), x.c.And(post...)))
	}
}

func sortedStrings(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// panicProps: the properties that suffer when a function panics instead of
// delivering what its contract says.
func panicProps(ct *Contract) []string {
	if len(ct.Panics) > 0 {
		return ct.Panics
	}
	return ct.Props
}

// lockProps: the properties that suffer when a function leaves a lock held.
func lockProps(ct *Contract) []string {
	if len(ct.Races) > 0 {
		return ct.Races
	}
	return ct.Props
}
