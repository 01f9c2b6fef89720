package cv

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Sort is an SMT sort. Sorts are interned by name in a Ctx.
type Sort struct {
	Name string
	Elem *Sort // sequence element
	Key  *Sort // array key
	Val  *Sort // array value
	DT   *Datatype
}

// Datatype is a single-constructor datatype.
type Datatype struct {
	Name   string
	Ctor   string
	Fields []DTField
}

type DTField struct {
	Name string
	Sort *Sort
	Refs bool // holds references
}

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    string
	args  []*Term
	sort  *Sort
	ival  *big.Int // integer literal
	lo    *big.Int
	hi    *big.Int
	born  int // youngest variable inside
	below int // as a reference: known to be < this literal (0 = unknown)
	size  int
	// linear form (op "lin")
	coef []*big.Int
	k    *big.Int
	// quantifiers
	qvars []*Term
	pats  [][]*Term
	bound bool // contains a bound variable
}

func (t *Term) Sort() *Sort { return t.sort }

// Ctx owns the terms of one verification task.
type Ctx struct {
	ctx       *ctxFacts // facts of the path while a goal is simplified
	viewStrip func(v, lo, hi *Term) *Term
	hooks     map[string]func(a []*Term) *Term // smart constructors used when terms are rebuilt
	tab       map[string]*Term
	sorts     map[string]*Sort
	nid       int
	nvar      int
	sortDecl  []string // SMT declarations in order
	funDecl   map[string]string
	decls     []string         // all declarations in order (sorts, functions)
	asserts   []bgAssert       // background axioms and facts
	alens     map[*Term]*Term  // lengths of the arrays allocated here
	adrLen    map[string]int64 // lengths of the arrays behind field addresses
	arrVar    map[string]bool  // heap variables whose content length is arrlen
	ext       map[string]extInfo
	viewName  map[string]bool
	factSeen  map[*Term]bool
	factHook  func(*Term)
	lens      map[*Term]*Term

	Int, Bool, B, Sl, Iface *Sort
	True, False             *Term
	remDone                 bool
	axioms                  map[string]bool
	trusted                 map[string]bool
}

// extInfo describes a havocked heap that agrees with an older one below ctr.
type extInfo struct {
	old *Term
	ctr int
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, sorts: map[string]*Sort{}, funDecl: map[string]string{}, axioms: map[string]bool{}, trusted: map[string]bool{},
		arrVar: map[string]bool{}, ext: map[string]extInfo{}, viewName: map[string]bool{}, factSeen: map[*Term]bool{}, lens: map[*Term]*Term{}, alens: map[*Term]*Term{}, adrLen: map[string]int64{}}
	c.Int = c.mkSort(&Sort{Name: "Int"})
	c.Bool = c.mkSort(&Sort{Name: "Bool"})
	c.True = c.mk(&Term{op: "true", sort: c.Bool})
	c.False = c.mk(&Term{op: "false", sort: c.Bool})
	c.B = c.seqSort("B", c.Int)
	c.Sl = c.dtSort("Sl", []DTField{{"arr", c.Int, true}, {"off", c.Int, false}, {"ln", c.Int, false}, {"cp", c.Int, false}})
	c.Iface = c.dtSort("Iface", []DTField{{"tag", c.Int, false}, {"val", c.Int, true}})
	return c
}

func (c *Ctx) mkSort(s *Sort) *Sort {
	if o, ok := c.sorts[s.Name]; ok {
		return o
	}
	c.sorts[s.Name] = s
	return s
}

func (c *Ctx) declare(s string) {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "(assert") {
			c.asserts = append(c.asserts, bgAssert{s: l})
		} else if l != "" {
			c.decls = append(c.decls, l)
		}
	}
}

// Array returns the sort (Array k v).
func (c *Ctx) Array(k, v *Sort) *Sort {
	return c.mkSort(&Sort{Name: "(Array " + k.Name + " " + v.Name + ")", Key: k, Val: v})
}

func (c *Ctx) dtSort(name string, fs []DTField) *Sort {
	if s, ok := c.sorts[name]; ok {
		return s
	}
	dt := &Datatype{Name: name, Ctor: "mk_" + name, Fields: fs}
	s := &Sort{Name: name, DT: dt}
	c.sorts[name] = s
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", name, dt.Ctor)
	for _, f := range fs {
		fmt.Fprintf(&b, " (%s_%s %s)", name, f.Name, f.Sort.Name)
	}
	b.WriteString("))))")
	c.declare(b.String())
	return s
}

var litMu sync.Mutex

// Seq returns the sequence sort over elem (name derived from elem).
func (c *Ctx) Seq(elem *Sort) *Sort {
	n := "Seq_" + strings.NewReplacer("(", "", ")", "", " ", "_").Replace(elem.Name)
	return c.seqSort(n, elem)
}

func (c *Ctx) seqSort(n string, elem *Sort) *Sort {
	if s, ok := c.sorts[n]; ok {
		return s
	}
	s := &Sort{Name: n, Elem: elem}
	c.sorts[n] = s
	in := "true" // the elements the sort has
	if n == "B" {
		in = "(and (<= 0 e) (<= e 255))"
	}
	r := strings.NewReplacer("{N}", n, "{E}", elem.Name, "{IN}", in)
	c.declare(r.Replace(`(declare-sort {N} 0)
(declare-fun len_{N} ({N}) Int)
(declare-fun nth_{N} ({N} Int) {E})
(declare-fun empty_{N} () {N})
(declare-fun unit_{N} ({E}) {N})
(declare-fun cat_{N} ({N} {N}) {N})
(declare-fun sub_{N} ({N} Int Int) {N})
(declare-fun upd_{N} ({N} Int {E}) {N})
(declare-fun rep_{N} ({E} Int) {N})
(declare-fun eq_{N} ({N} {N}) Bool)
(assert (forall ((s {N})) (! (and (<= 0 (len_{N} s)) (<= (len_{N} s) 1125899906842624)) :pattern ((len_{N} s)))))
(assert (= (len_{N} empty_{N}) 0))
(assert (forall ((s {N})) (! (=> (= (len_{N} s) 0) (= s empty_{N})) :pattern ((len_{N} s)))))
(assert (forall ((e {E})) (! (and (= (len_{N} (unit_{N} e)) 1) (=> {IN} (= (nth_{N} (unit_{N} e) 0) e))) :pattern ((unit_{N} e)))))
(assert (forall ((a {N}) (b {N})) (! (= (len_{N} (cat_{N} a b)) (+ (len_{N} a) (len_{N} b))) :pattern ((cat_{N} a b)))))
(assert (forall ((a {N}) (b {N}) (i Int)) (! (= (nth_{N} (cat_{N} a b) i) (ite (< i (len_{N} a)) (nth_{N} a i) (nth_{N} b (- i (len_{N} a))))) :pattern ((nth_{N} (cat_{N} a b) i)))))
(assert (forall ((s {N}) (lo Int) (hi Int)) (! (=> (and (<= 0 lo) (<= lo hi) (<= hi (len_{N} s))) (= (len_{N} (sub_{N} s lo hi)) (- hi lo))) :pattern ((sub_{N} s lo hi)))))
(assert (forall ((s {N}) (lo Int) (hi Int) (i Int)) (! (=> (and (<= 0 lo) (<= lo hi) (<= hi (len_{N} s)) (<= 0 i) (< i (- hi lo))) (= (nth_{N} (sub_{N} s lo hi) i) (nth_{N} s (+ lo i)))) :pattern ((nth_{N} (sub_{N} s lo hi) i)))))
(assert (forall ((s {N}) (lo Int) (hi Int)) (! (=> (and (= lo 0) (= hi (len_{N} s))) (= (sub_{N} s lo hi) s)) :pattern ((sub_{N} s lo hi)))))
(assert (forall ((s {N}) (i Int) (e {E})) (! (=> (and (<= 0 i) (< i (len_{N} s))) (= (len_{N} (upd_{N} s i e)) (len_{N} s))) :pattern ((upd_{N} s i e)))))
(assert (forall ((s {N}) (i Int) (e {E}) (j Int)) (! (=> (and (<= 0 i) (< i (len_{N} s)) {IN}) (= (nth_{N} (upd_{N} s i e) j) (ite (= i j) e (nth_{N} s j)))) :pattern ((nth_{N} (upd_{N} s i e) j)))))
(assert (forall ((e {E}) (n Int)) (! (=> (and (<= 0 n) (<= n 1125899906842624)) (= (len_{N} (rep_{N} e n)) n)) :pattern ((rep_{N} e n)))))
(assert (forall ((e {E}) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= n 1125899906842624) {IN}) (= (nth_{N} (rep_{N} e n) i) e)) :pattern ((nth_{N} (rep_{N} e n) i)))))
(assert (forall ((a {N}) (b {N})) (! (= (eq_{N} a b) (= a b)) :pattern ((eq_{N} a b)))))
(assert (forall ((a {N}) (b {N})) (! (or (= a b) (not (= (len_{N} a) (len_{N} b))) (exists ((i Int)) (and (<= 0 i) (< i (len_{N} a)) (not (= (nth_{N} a i) (nth_{N} b i)))))) :pattern ((eq_{N} a b)))))`))
	if n != "B" {
		c.declare(r.Replace("(assert (forall ((s {N}) (lo Int) (hi Int) (i Int)) (! (=> (and (<= 0 lo) (<= lo i) (< i hi) (<= hi (len_{N} s))) (= (nth_{N} s i) (nth_{N} (sub_{N} s lo hi) (- i lo)))) :pattern ((sub_{N} s lo hi) (nth_{N} s i)))))"))
	}
	if n == "B" {
		c.declare("(assert (forall ((s B) (i Int)) (! (and (<= 0 (nth_B s i)) (<= (nth_B s i) 255)) :pattern ((nth_B s i)))))")
	}
	return s
}

func big64(n int64) *big.Int { return big.NewInt(n) }

var (
	bigOne  = big64(1)
	bigZero = big64(0)
	maxLen  = new(big.Int).Lsh(bigOne, 47)
)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	if t.ival != nil {
		b.WriteString(t.ival.String())
	}
	for i, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if t.coef != nil {
			b.WriteByte('*')
			b.WriteString(t.coef[i].String())
		}
	}
	if t.k != nil {
		b.WriteByte('+')
		b.WriteString(t.k.String())
	}
	for _, v := range t.qvars {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(v.id))
	}
	if t.sort != nil && t.op == "constarr" {
		b.WriteString(t.sort.Name)
	}
	key := b.String()
	if o, ok := c.tab[key]; ok {
		return o
	}
	c.nid++
	t.id = c.nid
	t.size = 1
	for _, a := range t.args {
		if a.born > t.born {
			t.born = a.born
		}
		t.size += a.size
		if a.bound {
			t.bound = true
		}
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	if t.below == 0 {
		t.below = c.belowOf(t)
	}
	c.tab[key] = t
	return t
}

// belowOf bounds every reference contained in t (0 = unknown).
func (c *Ctx) belowOf(t *Term) int {
	mx := func(ts ...*Term) int {
		m := 1
		for _, a := range ts {
			if a.below == 0 {
				return 0
			}
			m = max(m, a.below)
		}
		return m
	}
	switch t.op {
	case "int":
		if t.ival.IsInt64() && t.ival.Sign() >= 0 && t.ival.Int64() < 1<<40 {
			return int(t.ival.Int64()) + 1
		}
		return 0
	case "select":
		return t.args[0].below
	case "store":
		return mx(t.args[0], t.args[2])
	case "ite":
		return mx(t.args[1], t.args[2])
	case "constarr":
		return mx(t.args[0])
	}
	if t.sort == nil {
		return 0
	}
	n := t.sort.Name
	if t.sort.Elem != nil {
		switch t.op {
		case "empty_" + n:
			return 1
		case "unit_" + n, "rep_" + n, "sub_" + n:
			return t.args[0].below
		case "cat_" + n:
			return mx(t.args...)
		case "upd_" + n:
			return mx(t.args[0], t.args[2])
		}
	}
	if t.sort.DT != nil && t.op == t.sort.DT.Ctor {
		m := 1
		for i, a := range t.args {
			if t.sort.DT.Fields[i].Refs {
				if a.below == 0 {
					return 0
				}
				m = max(m, a.below)
			}
		}
		return m
	}
	if len(t.args) > 0 && t.args[0].sort != nil && t.args[0].sort.Elem != nil && strings.HasPrefix(t.op, "nth_") {
		return t.args[0].below
	}
	if len(t.args) == 1 && t.args[0].sort != nil && t.args[0].sort.DT != nil {
		dn := t.args[0].sort.Name
		for _, f := range t.args[0].sort.DT.Fields {
			if f.Refs && t.op == dn+"_"+f.Name {
				return t.args[0].below
			}
		}
		return 0
	}
	if strings.HasPrefix(t.op, "adr@") {
		return t.args[0].below
	}
	return 0
}

// App builds an uninterpreted or built-in application without simplification.
func (c *Ctx) App(op string, s *Sort, args ...*Term) *Term {
	t := c.mk(&Term{op: op, args: args, sort: s})
	return t
}

// Fun declares (once) and applies an uninterpreted function.
func (c *Ctx) Fun(name string, s *Sort, args ...*Term) *Term {
	if _, ok := c.funDecl[name]; !ok {
		var b strings.Builder
		fmt.Fprintf(&b, "(declare-fun %s (", name)
		for i, a := range args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(a.sort.Name)
		}
		fmt.Fprintf(&b, ") %s)", s.Name)
		c.funDecl[name] = b.String()
		c.declare(b.String())
	}
	return c.App(name, s, args...)
}

// Axiom adds a global axiom once.
func (c *Ctx) Axiom(key, smt string) {
	if c.axioms[key] {
		return
	}
	c.axioms[key] = true
	c.asserts = append(c.asserts, bgAssert{s: "(assert " + smt + ")"})
}

// AssertBG adds a closed background fact.
func (c *Ctx) AssertBG(t *Term) {
	if t.op == "true" || t.bound {
		return
	}
	k := "t" + strconv.Itoa(t.id)
	if c.axioms[k] {
		return
	}
	c.axioms[k] = true
	c.asserts = append(c.asserts, bgAssert{t: t})
}

type bgAssert struct {
	s string
	t *Term
}

// Var creates a fresh variable.
func (c *Ctx) Var(hint string, s *Sort) *Term {
	c.nvar++
	hint = sanitize(hint)
	name := fmt.Sprintf("%s!%d", hint, c.nvar)
	c.declare(fmt.Sprintf("(declare-const %s %s)", name, s.Name))
	t := c.mk(&Term{op: name, sort: s})
	t.born = c.nvar
	return t
}

// BoundVar creates a bound variable for quantifiers.
func (c *Ctx) BoundVar(hint string, s *Sort) *Term {
	c.nvar++
	t := c.mk(&Term{op: fmt.Sprintf("%s?%d", sanitize(hint), c.nvar), sort: s})
	t.bound = true
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 {
		return "v"
	}
	return b.String()
}

func (c *Ctx) I(n int64) *Term { return c.Big(big64(n)) }

func (c *Ctx) Big(n *big.Int) *Term {
	t := c.mk(&Term{op: "int", ival: n, sort: c.Int})
	t.lo, t.hi = n, n
	return t
}

func (c *Ctx) BoolT(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (t *Term) isInt() bool { return t.op == "int" }

// ---- linear arithmetic

type lin struct {
	atoms []*Term
	coef  []*big.Int
	k     *big.Int
}

func toLin(t *Term) lin {
	switch t.op {
	case "int":
		return lin{k: t.ival}
	case "lin":
		return lin{t.args, t.coef, t.k}
	}
	return lin{[]*Term{t}, []*big.Int{bigOne}, bigZero}
}

// solveYoungest turns a = b into v = t for its youngest variable v.
func (c *Ctx) solveYoungest(a, b *Term) (*Term, *Term) {
	l := addLin(toLin(a), toLin(b), big64(-1))
	best := -1
	for i, x := range l.atoms {
		if best < 0 || x.born > l.atoms[best].born {
			best = i
		}
	}
	if best < 0 {
		return nil, nil
	}
	v := l.atoms[best]
	if len(v.args) > 0 || v.bound || v.isInt() || new(big.Int).Abs(l.coef[best]).Cmp(bigOne) != 0 {
		return nil, nil
	}
	for i, x := range l.atoms {
		if i != best && x.born >= v.born {
			return nil, nil
		}
	}
	// coef*v + rest = 0
	rest := addLin(l, lin{[]*Term{v}, []*big.Int{l.coef[best]}, bigZero}, big64(-1))
	return v, c.MulK(c.fromLin(rest), new(big.Int).Neg(l.coef[best]))
}

func (c *Ctx) fromLin(l lin) *Term {
	if len(l.atoms) == 0 {
		return c.Big(l.k)
	}
	if len(l.atoms) == 1 && l.k.Sign() == 0 && l.coef[0].Cmp(bigOne) == 0 {
		return l.atoms[0]
	}
	t := c.mk(&Term{op: "lin", args: l.atoms, coef: l.coef, k: l.k, sort: c.Int})
	if t.lo == nil && t.hi == nil {
		lo, hi := new(big.Int).Set(l.k), new(big.Int).Set(l.k)
		okl, okh := true, true
		for i, a := range l.atoms {
			al, ah := a.lo, a.hi
			if l.coef[i].Sign() < 0 {
				al, ah = ah, al
			}
			if al == nil {
				okl = false
			} else {
				lo.Add(lo, new(big.Int).Mul(al, l.coef[i]))
			}
			if ah == nil {
				okh = false
			} else {
				hi.Add(hi, new(big.Int).Mul(ah, l.coef[i]))
			}
		}
		if okl {
			t.lo = lo
		}
		if okh {
			t.hi = hi
		}
	}
	return t
}

func addLin(a, b lin, f *big.Int) lin {
	m := map[*Term]*big.Int{}
	var atoms []*Term
	for i, x := range a.atoms {
		m[x] = new(big.Int).Set(a.coef[i])
		atoms = append(atoms, x)
	}
	for i, x := range b.atoms {
		v := new(big.Int).Mul(b.coef[i], f)
		if o, ok := m[x]; ok {
			o.Add(o, v)
		} else {
			m[x] = v
			atoms = append(atoms, x)
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	r := lin{k: new(big.Int).Add(a.k, new(big.Int).Mul(b.k, f))}
	for _, x := range atoms {
		if m[x].Sign() != 0 {
			r.atoms = append(r.atoms, x)
			r.coef = append(r.coef, m[x])
		}
	}
	return r
}

func (c *Ctx) Add(a, b *Term) *Term { return c.fromLin(addLin(toLin(a), toLin(b), bigOne)) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.fromLin(addLin(toLin(a), toLin(b), big64(-1))) }
func (c *Ctx) AddK(a *Term, k int64) *Term {
	return c.Add(a, c.I(k))
}
func (c *Ctx) MulK(a *Term, k *big.Int) *Term {
	return c.fromLin(addLin(lin{k: bigZero}, toLin(a), k))
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isInt() {
		return c.MulK(b, a.ival)
	}
	if b.isInt() {
		return c.MulK(a, b.ival)
	}
	t := c.App("*", c.Int, a, b)
	if t.lo == nil && a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		t.lo = new(big.Int).Mul(a.lo, b.lo)
		if a.hi != nil && b.hi != nil {
			t.hi = new(big.Int).Mul(a.hi, b.hi)
		}
	}
	return t
}

// DivK is floor division by a positive constant.
func (c *Ctx) DivK(a *Term, k *big.Int) *Term {
	if k.Cmp(bigOne) == 0 {
		return a
	}
	if a.isInt() {
		q := new(big.Int)
		q.DivMod(a.ival, k, new(big.Int))
		return c.Big(q)
	}
	// divide out exact multiples
	l := toLin(a)
	if a.op == "lin" {
		all := new(big.Int).Mod(l.k, k).Sign() == 0
		for _, x := range l.coef {
			if new(big.Int).Mod(x, k).Sign() != 0 {
				all = false
			}
		}
		if all {
			r := lin{atoms: l.atoms, k: new(big.Int).Div(l.k, k)}
			for _, x := range l.coef {
				r.coef = append(r.coef, new(big.Int).Div(x, k))
			}
			return c.fromLin(r)
		}
	}
	if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(k) < 0 {
		return c.I(0)
	}
	t := c.App("div", c.Int, a, c.Big(k))
	if a.lo != nil {
		t.lo = new(big.Int)
		t.lo.DivMod(a.lo, k, new(big.Int))
	}
	if a.hi != nil {
		t.hi = new(big.Int)
		t.hi.DivMod(a.hi, k, new(big.Int))
	}
	return t
}

// Rem is Go's remainder by a variable divisor; only its meaning for a natural
// dividend and a positive divisor is known to the solver.
func (c *Ctx) Rem(a, b *Term) *Term {
	if b.isInt() && b.ival.Sign() > 0 && a.lo != nil && a.lo.Sign() >= 0 {
		return c.ModK(a, b.ival)
	}
	if !c.remDone {
		c.remDone = true
		x, y := c.BoundVar("a", c.Int), c.BoundVar("b", c.Int)
		r := c.Fun("gorem", c.Int, x, y)
		pos := c.And(c.Lt(c.I(0), y), c.Le(c.I(0), x))
		c.AssertBG(c.Forall([]*Term{x, y}, c.Imp(pos, c.And(c.Le(c.I(0), r), c.Lt(r, y), c.Imp(c.Lt(x, y), c.Eq(r, x)),
			c.Imp(c.And(c.Le(y, x), c.Lt(c.Sub(x, y), y)), c.Eq(r, c.Sub(x, y))))), []*Term{r}))
	}
	return c.Fun("gorem", c.Int, a, b)
}

// ModK is the Euclidean remainder by a positive constant.
func (c *Ctx) ModK(a *Term, k *big.Int) *Term {
	if a.isInt() {
		return c.Big(new(big.Int).Mod(a.ival, k))
	}
	if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(k) < 0 {
		return a
	}
	if c.ctx != nil && c.ge(a, 0) && c.ge(c.Sub(c.Big(k), a), 1) {
		return a
	}
	// drop multiples of k
	l := toLin(a)
	r := lin{k: new(big.Int).Mod(l.k, k)}
	for i, x := range l.atoms {
		m := new(big.Int).Mod(l.coef[i], k)
		if m.Sign() != 0 {
			r.atoms = append(r.atoms, x)
			r.coef = append(r.coef, m)
		}
	}
	b := c.fromLin(r)
	if b.isInt() {
		return c.Big(new(big.Int).Mod(b.ival, k))
	}
	if b.lo != nil && b.hi != nil && b.lo.Sign() >= 0 && b.hi.Cmp(k) < 0 {
		return b
	}
	// keep the original when nothing was dropped, so signs stay readable
	t := c.App("mod", c.Int, b, c.Big(k))
	t.lo = bigZero
	t.hi = new(big.Int).Sub(k, bigOne)
	return t
}

func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(b, a)
	if d.isInt() {
		return c.BoolT(d.ival.Sign() >= 0)
	}
	if c.ge(d, 0) {
		return c.True
	}
	if d.hi != nil && d.hi.Sign() < 0 || c.ctx != nil && c.ge(c.Sub(a, b), 1) {
		return c.False
	}
	return c.App("<=", c.Bool, a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term {
	d := c.Sub(b, a)
	if d.isInt() {
		return c.BoolT(d.ival.Sign() > 0)
	}
	if c.ge(d, 1) {
		return c.True
	}
	if d.hi != nil && d.hi.Sign() <= 0 || c.ctx != nil && c.ge(c.Sub(a, b), 0) {
		return c.False
	}
	return c.App("<", c.Bool, a, b)
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.False
	case "false":
		return c.True
	case "not":
		return a.args[0]
	case "<":
		return c.App("<=", c.Bool, a.args[1], a.args[0])
	case "<=":
		return c.App("<", c.Bool, a.args[1], a.args[0])
	}
	return c.App("not", c.Bool, a)
}

func (c *Ctx) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t.op == "true" || seen[t] {
			continue
		}
		if t.op == "false" {
			return c.False
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return c.True
	case 1:
		return out[0]
	}
	return c.App("and", c.Bool, out...)
}

func (c *Ctx) Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t.op == "false" || seen[t] {
			continue
		}
		if t.op == "true" {
			return c.True
		}
		if seen[c.Not(t)] {
			return c.True
		}
		seen[t] = true
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return c.False
	case 1:
		return out[0]
	}
	return c.App("or", c.Bool, out...)
}

func (c *Ctx) Imp(a, b *Term) *Term {
	if a.op == "true" {
		return b
	}
	if a.op == "false" || b.op == "true" {
		return c.True
	}
	if b.op == "false" {
		return c.Not(a)
	}
	if a == b {
		return c.True
	}
	return c.App("=>", c.Bool, a, b)
}

func (c *Ctx) Iff(a, b *Term) *Term { return c.Eq(a, b) }

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.op == "true" || a == b {
		return a
	}
	if p.op == "false" {
		return b
	}
	if a.op == "true" && b.op == "false" {
		return p
	}
	if a.op == "false" && b.op == "true" {
		return c.Not(p)
	}
	t := c.App("ite", a.sort, p, a, b)
	if a.sort == c.Int && t.lo == nil && t.hi == nil {
		if a.lo != nil && b.lo != nil {
			t.lo = minBig(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = maxBig(a.hi, b.hi)
		}
	}
	return t
}

func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// distinct reports whether a and b are syntactically known to differ.
func (c *Ctx) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.sort == c.Int {
		if strings.HasPrefix(a.op, "adr@") && strings.HasPrefix(b.op, "adr@") {
			if a.op != b.op {
				return true
			}
			for i := range a.args {
				if c.distinct(a.args[i], b.args[i]) {
					return true
				}
			}
			return false
		}
		d := c.Sub(a, b)
		if d.isInt() {
			return d.ival.Sign() != 0
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return true
		}
		if a.isInt() && b.below != 0 && a.ival.IsInt64() && int64(b.below) <= a.ival.Int64() {
			return true
		}
		if c.ctx != nil {
			if c.ge(d, 1) || c.ge(c.Sub(b, a), 1) {
				return true
			}
			if b.below != 0 && c.ge(c.AddK(a, -int64(b.below)), 0) || a.below != 0 && c.ge(c.AddK(b, -int64(a.below)), 0) {
				return true
			}
		}
		if b.isInt() && a.below != 0 && b.ival.IsInt64() && int64(a.below) <= b.ival.Int64() {
			return true
		}
		return false
	}
	if a.sort.DT != nil && a.op == a.sort.DT.Ctor && b.op == a.op {
		for i := range a.args {
			if c.distinct(a.args[i], b.args[i]) {
				return true
			}
		}
		return false
	}
	if a.sort == c.Bool {
		return a == c.Not(b)
	}
	if a.sort.Elem != nil {
		la, lb := c.Len(a), c.Len(b)
		if c.distinct(la, lb) {
			return true
		}
		if la.isInt() && la == lb && la.ival.IsInt64() {
			for i := int64(0); i < la.ival.Int64() && i < 64; i++ {
				if c.distinct(c.Nth(a, c.I(i)), c.Nth(b, c.I(i))) {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a, a.sort.Name, b, b.sort.Name))
	}
	if c.distinct(a, b) {
		return c.False
	}
	if a.sort == c.Bool {
		switch {
		case a.op == "true":
			return b
		case a.op == "false":
			return c.Not(b)
		case b.op == "true":
			return a
		case b.op == "false":
			return c.Not(a)
		}
	}
	if a.sort.DT != nil && a.op == a.sort.DT.Ctor && b.op == a.op {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, c.Eq(a.args[i], b.args[i]))
		}
		return c.And(cs...)
	}
	if a.sort.DT != nil && (a.op == a.sort.DT.Ctor || b.op == a.sort.DT.Ctor) {
		// compare fieldwise so nested constructors simplify
		var cs []*Term
		for i := range a.sort.DT.Fields {
			cs = append(cs, c.Eq(c.Field(a, i), c.Field(b, i)))
		}
		return c.And(cs...)
	}
	if a.sort.Elem != nil {
		if e := c.Empty(a.sort); a == e {
			return c.Eq(c.Len(b), c.I(0))
		} else if b == e {
			return c.Eq(c.Len(a), c.I(0))
		}
		if r := c.eqSeq(a, b); r != nil {
			return r
		}
		if l := c.Len(a); l.isInt() && l == c.Len(b) && l.ival.Cmp(big64(4)) <= 0 && (strings.HasPrefix(a.op, "upd_") || strings.HasPrefix(b.op, "upd_")) {
			var cs []*Term
			for i := int64(0); i < l.ival.Int64(); i++ {
				cs = append(cs, c.Eq(c.Nth(a, c.I(i)), c.Nth(b, c.I(i))))
			}
			return c.And(cs...)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.App("eq_"+a.sort.Name, c.Bool, a, b)
	}
	if a.sort == c.Int && (a.op == "lin" || b.op == "lin") {
		if l := toLin(c.Sub(a, b)); len(l.atoms) > 0 {
			g := new(big.Int)
			for _, k := range l.coef {
				g.GCD(nil, nil, g, new(big.Int).Abs(k))
			}
			if g.Cmp(bigOne) > 0 {
				if new(big.Int).Rem(l.k, g).Sign() != 0 {
					return c.False
				}
				d := lin{atoms: l.atoms, k: new(big.Int).Quo(l.k, g)}
				for _, k := range l.coef {
					d.coef = append(d.coef, new(big.Int).Quo(k, g))
				}
				if len(d.atoms) == 1 { // x = k or -x = -k
					k := new(big.Int).Neg(d.k)
					if d.coef[0].Sign() < 0 {
						k.Neg(k)
					}
					if d.coef[0].CmpAbs(bigOne) == 0 {
						return c.Eq(d.atoms[0], c.Big(k))
					}
				}
				return c.Eq(c.fromLin(d), c.I(0))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.App("=", c.Bool, a, b)
}

func (c *Ctx) flatCat(t *Term) []*Term {
	if t.op == "cat_"+t.sort.Name {
		return append(c.flatCat(t.args[0]), c.flatCat(t.args[1])...)
	}
	return []*Term{t}
}

func (c *Ctx) catAll(s *Sort, ts []*Term) *Term {
	r := c.Empty(s)
	for _, t := range ts {
		r = c.Cat(r, t)
	}
	return r
}

// eqSeq simplifies an equality of concatenations, or returns nil.
func (c *Ctx) eqSeq(a, b *Term) *Term {
	n := a.sort.Name
	if a.op == "unit_"+n && b.op == "unit_"+n {
		return c.Eq(a.args[0], b.args[0])
	}
	if b.op == "unit_"+n {
		a, b = b, a
	}
	if a.op == "unit_"+n && (b.op == "sub_"+n || b.op == "viewS") {
		if l := c.Eq(c.Len(b), c.I(1)); l.op != "false" {
			return c.And(l, c.Eq(c.Nth(b, c.I(0)), a.args[0]))
		}
		return c.False
	}
	if a.op != "cat_"+n && b.op != "cat_"+n {
		return nil
	}
	fa, fb := c.flatCat(a), c.flatCat(b)
	ch := false
	for len(fa) > 0 && len(fb) > 0 && fa[0] == fb[0] {
		fa, fb, ch = fa[1:], fb[1:], true
	}
	for len(fa) > 0 && len(fb) > 0 && fa[len(fa)-1] == fb[len(fb)-1] {
		fa, fb, ch = fa[:len(fa)-1], fb[:len(fb)-1], true
	}
	// split off leading components of equal length
	var cs []*Term
	for len(fa) > 0 && len(fb) > 0 && len(fa)+len(fb) > 2 && c.Len(fa[0]) == c.Len(fb[0]) {
		cs = append(cs, c.Eq(fa[0], fb[0]))
		fa, fb, ch = fa[1:], fb[1:], true
	}
	for len(fa) > 0 && len(fb) > 0 && len(fa)+len(fb) > 2 && c.Len(fa[len(fa)-1]) == c.Len(fb[len(fb)-1]) {
		cs = append(cs, c.Eq(fa[len(fa)-1], fb[len(fb)-1]))
		fa, fb, ch = fa[:len(fa)-1], fb[:len(fb)-1], true
	}
	if !ch {
		return nil
	}
	cs = append(cs, c.Eq(c.catAll(a.sort, fa), c.catAll(a.sort, fb)))
	return c.And(cs...)
}

// ---- datatypes

func (c *Ctx) Cons(s *Sort, args ...*Term) *Term {
	for i, a := range args {
		if a.sort != s.DT.Fields[i].Sort {
			panic(fmt.Sprintf("Cons %s field %s: got %s want %s", s.Name, s.DT.Fields[i].Name, a.sort.Name, s.DT.Fields[i].Sort.Name))
		}
	}
	// eta: mk(sel0(x), sel1(x), ...) = x
	if len(args) > 0 && len(args[0].args) == 1 && args[0].op == s.Name+"_"+s.DT.Fields[0].Name {
		x := args[0].args[0]
		ok := x.sort == s
		for i, a := range args {
			if len(a.args) != 1 || a.args[0] != x || a.op != s.Name+"_"+s.DT.Fields[i].Name {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return c.App(s.DT.Ctor, s, args...)
}

func (c *Ctx) Field(t *Term, i int) *Term {
	dt := t.sort.DT
	if dt == nil {
		panic("Field of non-datatype " + t.sort.Name + " " + t.String())
	}
	if t.op == dt.Ctor {
		return t.args[i]
	}
	if t.op == "ite" {
		return c.Ite(t.args[0], c.Field(t.args[1], i), c.Field(t.args[2], i))
	}
	f := c.App(dt.Name+"_"+dt.Fields[i].Name, dt.Fields[i].Sort, t)
	if dt.Name == "Sl" && f.lo == nil {
		f.lo = bigZero
		if i > 0 {
			f.hi = maxLen
		}
	}
	if f.sort == c.Int && dt.Fields[i].Refs {
		c.fact(f)
	}
	return f
}

func (c *Ctx) Sel(t *Term, name string) *Term {
	for i, f := range t.sort.DT.Fields {
		if f.Name == name {
			return c.Field(t, i)
		}
	}
	panic("no field " + name + " in " + t.sort.Name)
}

// ---- arrays

func (c *Ctx) Select(a, i *Term) *Term {
	x := a
	for {
		if x.op == "store" {
			if x.args[1] == i {
				return x.args[2]
			}
			if c.distinct(x.args[1], i) {
				x = x.args[0]
				continue
			}
		}
		if x.op == "constarr" {
			return x.args[0]
		}
		if e, ok := c.ext[x.op]; ok && len(x.args) == 0 && i.below != 0 && i.below <= e.ctr {
			x = e.old
			continue
		}
		if x.op == "ite" && x.size < 200 {
			return c.Ite(x.args[0], c.Select(x.args[1], i), c.Select(x.args[2], i))
		}
		break
	}
	return c.App("select", a.sort.Val, x, i)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if v.sort != a.sort.Val {
		panic(fmt.Sprintf("Store sort mismatch: %s into %s", v.sort.Name, a.sort.Name))
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op == "store" {
		if a.args[1] == i {
			return c.Store(a.args[0], i, v)
		}
		// canonical order for literal indices to merge repeated writes
		if c.distinct(a.args[1], i) {
			if c.hasStore(a, i) {
				inner := c.Store(a.args[0], i, v)
				return c.App("store", a.sort, inner, a.args[1], a.args[2])
			}
		}
	}
	return c.App("store", a.sort, a, i, v)
}

func (c *Ctx) hasStore(a, i *Term) bool {
	for a.op == "store" {
		if a.args[1] == i {
			return true
		}
		if !c.distinct(a.args[1], i) {
			return false
		}
		a = a.args[0]
	}
	return false
}

func (c *Ctx) ConstArr(s *Sort, v *Term) *Term {
	return c.mk(&Term{op: "constarr", args: []*Term{v}, sort: s})
}

// ---- sequences

func (c *Ctx) Empty(s *Sort) *Term { return c.App("empty_"+s.Name, s) }
func (c *Ctx) Unit(s *Sort, e *Term) *Term {
	return c.App("unit_"+s.Name, s, e)
}
func (c *Ctx) Rep(s *Sort, e, n *Term) *Term {
	if n.isInt() && n.ival.Sign() == 0 {
		return c.Empty(s)
	}
	if n.isInt() && n.ival.Cmp(bigOne) == 0 {
		return c.Unit(s, e)
	}
	return c.App("rep_"+s.Name, s, e, n)
}

func (c *Ctx) Len(s *Term) *Term {
	n := s.sort.Name
	if l, ok := c.lens[s]; ok {
		return l
	}
	switch s.op {
	case "empty_" + n:
		return c.I(0)
	case "unit_" + n:
		return c.I(1)
	case "cat_" + n:
		return c.Add(c.Len(s.args[0]), c.Len(s.args[1]))
	case "upd_" + n:
		return c.Len(s.args[0])
	case "viewS":
		return c.Len(s.args[1])
	case "rep_" + n:
		if s.args[1].lo != nil && s.args[1].lo.Sign() >= 0 {
			return s.args[1]
		}
	case "sub_" + n:
		if c.subOK(s.args[0], s.args[1], s.args[2]) {
			return c.Sub(s.args[2], s.args[1])
		}
	case "ite":
		a, b := c.Len(s.args[1]), c.Len(s.args[2])
		if a == b {
			return a
		}
	}
	if strings.HasPrefix(s.op, "be64") {
		return c.I(8)
	}
	if strings.HasPrefix(s.op, "be32") {
		return c.I(4)
	}
	if l, ok := litLen(s.op); ok {
		return c.I(int64(l))
	}
	if s.op == "select" && len(s.args[0].args) == 0 && c.arrVar[s.args[0].op] {
		return c.ArrLen(s.args[1])
	}
	t := c.App("len_"+n, c.Int, s)
	t.lo, t.hi = bigZero, maxLen
	return t
}

// setLen fixes the length of a fresh sequence variable.
func (c *Ctx) setLen(s, n *Term) { c.lens[s] = n }

// ArrLen is the immutable length of a backing array.
func (c *Ctx) ArrLen(ref *Term) *Term {
	if ref.isInt() && ref.ival.Sign() == 0 {
		return c.I(0)
	}
	if l, ok := c.alens[ref]; ok {
		return l
	}
	if l, ok := c.adrLen[ref.op]; ok {
		return c.I(l)
	}
	t := c.Fun("arrlen", c.Int, ref)
	t.lo, t.hi = bigZero, maxLen
	c.fact(t)
	return t
}

// fact registers the closed term t for its background facts.
func (c *Ctx) fact(t *Term) {
	if t.bound || c.factSeen[t] {
		return
	}
	c.factSeen[t] = true
	if c.factHook != nil {
		c.factHook(t)
	}
}

func (c *Ctx) subOK(s, lo, hi *Term) bool {
	return c.Le(c.I(0), lo) == c.True && c.Le(lo, hi) == c.True && c.Le(hi, c.Len(s)) == c.True
}

func (c *Ctx) Nth(s, i *Term) *Term {
	n := s.sort.Name
	switch s.op {
	case "unit_" + n:
		if i.isInt() && i.ival.Sign() == 0 {
			return s.args[0]
		}
	case "cat_" + n:
		la := c.Len(s.args[0])
		if c.Lt(i, la) == c.True && c.Le(c.I(0), i) == c.True {
			return c.Nth(s.args[0], i)
		}
		if c.Le(la, i) == c.True {
			return c.Nth(s.args[1], c.Sub(i, la))
		}
	case "upd_" + n:
		if s.args[1] == i {
			return s.args[2]
		}
		if c.distinct(s.args[1], i) {
			return c.Nth(s.args[0], i)
		}
	case "rep_" + n:
		if c.Le(c.I(0), i) == c.True && c.Lt(i, s.args[1]) == c.True {
			return s.args[0]
		}
	case "sub_" + n:
		if c.subOK(s.args[0], s.args[1], s.args[2]) && c.Le(c.I(0), i) == c.True && c.Lt(c.Add(s.args[1], i), s.args[2]) == c.True {
			return c.Nth(s.args[0], c.Add(s.args[1], i))
		}
	}
	if s.op == "viewS" && c.Le(c.I(0), i) == c.True && c.Lt(i, c.Len(s.args[1])) == c.True {
		e := c.Nth(s.args[1], i)
		return c.SubSeq(c.Select(s.args[0], c.arr(e)), c.off(e), c.Add(c.off(e), c.ln(e)))
	}
	if v, ok := litByte(s.op, i); ok {
		return c.I(int64(v))
	}
	if s.op == "ite" {
		return c.Ite(s.args[0], c.Nth(s.args[1], i), c.Nth(s.args[2], i))
	}
	t := c.App("nth_"+n, s.sort.Elem, s, i)
	if n == "B" {
		t.lo, t.hi = bigZero, big64(255)
	}
	return t
}

func (c *Ctx) Cat(a, b *Term) *Term {
	if a.sort != b.sort {
		panic("Cat sort mismatch " + a.sort.Name + " " + b.sort.Name)
	}
	n := a.sort.Name
	if a.op == "empty_"+n || c.Len(a) == c.I(0) {
		return b
	}
	if b.op == "empty_"+n || c.Len(b) == c.I(0) {
		return a
	}
	// sub(s,i,j) ++ sub(s,j,k) = sub(s,i,k)
	if a.op == "sub_"+n && b.op == "sub_"+n && a.args[0] == b.args[0] && a.args[2] == b.args[1] &&
		c.subOK(a.args[0], a.args[1], a.args[2]) && c.subOK(b.args[0], b.args[1], b.args[2]) {
		return c.SubSeq(a.args[0], a.args[1], b.args[2])
	}
	// unit(s[i]) ++ sub(s,i+1,k) = sub(s,i,k), and at the other end
	if a.op == "unit_"+n && b.op == "sub_"+n {
		if e := a.args[0]; e.op == "nth_"+n && e.args[0] == b.args[0] && c.AddK(e.args[1], 1) == b.args[1] && c.subOK(b.args[0], e.args[1], b.args[1]) && c.subOK(b.args[0], b.args[1], b.args[2]) {
			return c.SubSeq(b.args[0], e.args[1], b.args[2])
		}
	}
	if b.op == "unit_"+n && a.op == "sub_"+n {
		if e := b.args[0]; e.op == "nth_"+n && e.args[0] == a.args[0] && e.args[1] == a.args[2] && c.subOK(a.args[0], a.args[1], a.args[2]) && c.subOK(a.args[0], a.args[2], c.AddK(a.args[2], 1)) {
			return c.SubSeq(a.args[0], a.args[1], c.AddK(a.args[2], 1))
		}
	}
	// left-nested: a ++ (x ++ y) = (a ++ x) ++ y
	if b.op == "cat_"+n {
		return c.Cat(c.Cat(a, b.args[0]), b.args[1])
	}
	if a.op == "cat_"+n {
		if l := c.Cat(a.args[1], b); l.op != "cat_"+n {
			return c.Cat(a.args[0], l)
		}
	}
	return c.App("cat_"+n, a.sort, a, b)
}

func (c *Ctx) SubSeq(s, lo, hi *Term) *Term {
	n := s.sort.Name
	if lo == hi {
		return c.Empty(s.sort)
	}
	if lo.isInt() && lo.ival.Sign() == 0 && hi == c.Len(s) {
		return s
	}
	switch s.op {
	case "cat_" + n:
		la := c.Len(s.args[0])
		if c.Le(hi, la) == c.True {
			return c.SubSeq(s.args[0], lo, hi)
		}
		if c.Le(la, lo) == c.True {
			return c.SubSeq(s.args[1], c.Sub(lo, la), c.Sub(hi, la))
		}
		if c.Le(lo, la) == c.True && c.Le(la, hi) == c.True && c.Le(c.I(0), lo) == c.True {
			return c.Cat(c.SubSeq(s.args[0], lo, la), c.SubSeq(s.args[1], c.I(0), c.Sub(hi, la)))
		}
	case "sub_" + n:
		ilo, ihi := s.args[1], s.args[2]
		if c.Le(c.I(0), lo) == c.True && c.Le(hi, c.Sub(ihi, ilo)) == c.True && c.subOK(s.args[0], ilo, ihi) {
			return c.SubSeq(s.args[0], c.Add(ilo, lo), c.Add(ilo, hi))
		}
	case "viewS":
		if c.viewStrip != nil {
			if v := c.viewStrip(s, lo, hi); v != nil {
				return c.SubSeq(v, lo, hi)
			}
		}
	case "upd_" + n:
		if c.Lt(s.args[1], lo) == c.True || c.Le(hi, s.args[1]) == c.True {
			return c.SubSeq(s.args[0], lo, hi)
		}
		if i := s.args[1]; c.Le(c.I(0), i) == c.True && c.Lt(i, c.Len(s)) == c.True {
			if i == lo && c.Lt(lo, hi) == c.True {
				return c.Cat(c.Unit(s.sort, s.args[2]), c.SubSeq(s.args[0], c.AddK(lo, 1), hi))
			}
			if c.AddK(i, 1) == hi && c.Le(c.I(0), lo) == c.True && c.Le(lo, i) == c.True {
				return c.Cat(c.SubSeq(s.args[0], lo, i), c.Unit(s.sort, s.args[2]))
			}
		}
	case "rep_" + n:
		if c.Le(c.I(0), lo) == c.True && c.Le(hi, s.args[1]) == c.True {
			return c.Rep(s.sort, s.args[0], c.Sub(hi, lo))
		}
	}
	// split small concrete ranges into units when the content is known
	if lo.isInt() && hi.isInt() {
		d := new(big.Int).Sub(hi.ival, lo.ival)
		if d.IsInt64() && d.Int64() > 0 && d.Int64() <= 16 && s.op == "upd_"+n {
			var r *Term = c.Empty(s.sort)
			for i := int64(0); i < d.Int64(); i++ {
				r = c.Cat(r, c.Unit(s.sort, c.Nth(s, c.Add(lo, c.I(i)))))
			}
			return r
		}
	}
	return c.App("sub_"+n, s.sort, s, lo, hi)
}

func (c *Ctx) Upd(s, i, v *Term) *Term {
	n := s.sort.Name
	if v.sort != s.sort.Elem {
		panic("Upd sort mismatch " + v.sort.Name + " into " + n)
	}
	if s.op == "unit_"+n && i.isInt() && i.ival.Sign() == 0 {
		return c.Unit(s.sort, v)
	}
	if s.op == "upd_"+n && s.args[1] == i {
		return c.Upd(s.args[0], i, v)
	}
	if l := c.Len(s); l.isInt() && i.isInt() && l.ival.IsInt64() && l.ival.Int64() <= 80 && i.ival.Sign() >= 0 && i.ival.Cmp(l.ival) < 0 {
		// replace(s, i) with pieces: keeps contents in cat normal form
		return c.Cat(c.Cat(c.SubSeq(s, c.I(0), i), c.Unit(s.sort, v)), c.SubSeq(s, c.AddK(i, 1), l))
	}
	return c.App("upd_"+n, s.sort, s, i, v)
}

// ---- quantifiers

func (c *Ctx) Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body.op == "true" || body.op == "false" || len(vars) == 0 {
		return body
	}
	return c.quant("forall", vars, body, pats)
}

func (c *Ctx) Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body.op == "true" || body.op == "false" {
		return body
	}
	return c.quant("exists", vars, body, pats)
}

func (c *Ctx) quant(op string, vars []*Term, body *Term, pats [][]*Term) *Term {
	t := c.mk(&Term{op: op, args: []*Term{body}, qvars: vars, pats: pats, sort: c.Bool})
	// bound if it contains outer bound variables
	t.bound = c.freeBound(body, vars)
	return t
}

func (c *Ctx) freeBound(t *Term, vars []*Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term, vs []*Term) bool
	rec = func(t *Term, vs []*Term) bool {
		if !t.bound || seen[t] {
			return false
		}
		seen[t] = true
		if len(t.args) == 0 {
			for _, v := range vs {
				if v == t {
					return false
				}
			}
			return true
		}
		nvs := vs
		if len(t.qvars) > 0 {
			nvs = append(append([]*Term{}, vs...), t.qvars...)
		}
		for _, a := range t.args {
			if rec(a, nvs) {
				return true
			}
		}
		return false
	}
	return rec(t, vars)
}

// Subst replaces variables in t (rebuilding through the simplifying constructors).
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch || c.ctx != nil {
			r = c.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	n := ""
	if t.sort != nil {
		n = t.sort.Name
	}
	if h, ok := c.hooks[t.op]; ok {
		if r := h(a); r != nil {
			return r
		}
	}
	switch t.op {
	case "lin":
		r := c.Big(t.k)
		for i := range a {
			r = c.Add(r, c.MulK(a[i], t.coef[i]))
		}
		return r
	case "*":
		return c.Mul(a[0], a[1])
	case "div":
		if a[1].ival == nil {
			return c.App("div", c.Int, a[0], a[1])
		}
		return c.DivK(a[0], a[1].ival)
	case "mod":
		if a[1].ival == nil {
			return c.App("mod", c.Int, a[0], a[1])
		}
		return c.ModK(a[0], a[1].ival)
	case "<=":
		return c.Le(a[0], a[1])
	case "<":
		return c.Lt(a[0], a[1])
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "=>":
		return c.Imp(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "=":
		return c.Eq(a[0], a[1])
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "forall", "exists":
		return c.quant(t.op, t.qvars, a[0], t.pats)
	case "cat_" + n:
		return c.Cat(a[0], a[1])
	case "sub_" + n:
		return c.SubSeq(a[0], a[1], a[2])
	case "upd_" + n:
		return c.Upd(a[0], a[1], a[2])
	}
	if strings.HasPrefix(t.op, "eq_") && t.sort == c.Bool && a[0].sort.Elem != nil {
		return c.Eq(a[0], a[1])
	}
	if strings.HasPrefix(t.op, "len_") && len(a) == 1 && a[0].sort.Elem != nil {
		return c.Len(a[0])
	}
	if strings.HasPrefix(t.op, "nth_") && len(a) == 2 && a[0].sort.Elem != nil {
		return c.Nth(a[0], a[1])
	}
	if len(a) == 1 && a[0].sort.DT != nil && strings.HasPrefix(t.op, a[0].sort.Name+"_") {
		return c.Sel(a[0], t.op[len(a[0].sort.Name)+1:])
	}
	if t.sort.DT != nil && t.op == t.sort.DT.Ctor {
		return c.Cons(t.sort, a...)
	}
	return c.App(t.op, t.sort, a...)
}

// ---- string literals

var litTab = map[string]string{} // op -> content (shared, guarded by litMu)

func (c *Ctx) Str(s string) *Term {
	if s == "" {
		return c.Empty(c.B)
	}
	name := "lit_" + sanitizeLit(s)
	litMu.Lock()
	litTab[name] = s
	litMu.Unlock()
	if _, ok := c.funDecl[name]; !ok {
		c.funDecl[name] = "lit"
		var b strings.Builder
		fmt.Fprintf(&b, "(declare-const %s B)\n(assert (= (len_B %s) %d))", name, name, len(s))
		for i := 0; i < len(s) && i < 64; i++ {
			fmt.Fprintf(&b, "\n(assert (= (nth_B %s %d) %d))", name, i, s[i])
		}
		c.declare(b.String())
	}
	return c.mk(&Term{op: name, sort: c.B})
}

func sanitizeLit(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' {
			b.WriteByte(ch)
		} else {
			fmt.Fprintf(&b, "_%02x", ch)
		}
	}
	return b.String()
}

func litLen(op string) (int, bool) {
	if !strings.HasPrefix(op, "lit_") {
		return 0, false
	}
	litMu.Lock()
	defer litMu.Unlock()
	s, ok := litTab[op]
	return len(s), ok
}

func litByte(op string, i *Term) (byte, bool) {
	if !strings.HasPrefix(op, "lit_") || !i.isInt() || !i.ival.IsInt64() {
		return 0, false
	}
	litMu.Lock()
	defer litMu.Unlock()
	s, ok := litTab[op]
	if !ok {
		return 0, false
	}
	n := i.ival.Int64()
	if n < 0 || n >= int64(len(s)) {
		return 0, false
	}
	return s[n], true
}

// ---- printing

func (t *Term) String() string {
	var b strings.Builder
	printTerm(&b, t, nil, 0)
	return b.String()
}

func printInt(b *strings.Builder, n *big.Int) {
	if n.Sign() < 0 {
		fmt.Fprintf(b, "(- %s)", new(big.Int).Neg(n))
	} else {
		b.WriteString(n.String())
	}
}

// printTerm prints t; named, when non-nil, maps shared subterms to names.
func printTerm(b *strings.Builder, t *Term, named map[*Term]string, depth int) {
	if named != nil && depth > 0 {
		if n, ok := named[t]; ok {
			b.WriteString(n)
			return
		}
	}
	if named == nil && b.Len() > 6000 {
		b.WriteString("...")
		return
	}
	switch t.op {
	case "int":
		printInt(b, t.ival)
		return
	case "lin":
		b.WriteString("(+")
		for i, a := range t.args {
			b.WriteByte(' ')
			if t.coef[i].Cmp(bigOne) == 0 {
				printTerm(b, a, named, depth+1)
			} else {
				b.WriteString("(* ")
				printInt(b, t.coef[i])
				b.WriteByte(' ')
				printTerm(b, a, named, depth+1)
				b.WriteByte(')')
			}
		}
		b.WriteByte(' ')
		printInt(b, t.k)
		b.WriteByte(')')
		return
	case "constarr":
		fmt.Fprintf(b, "((as const %s) ", t.sort.Name)
		printTerm(b, t.args[0], named, depth+1)
		b.WriteByte(')')
		return
	case "forall", "exists":
		fmt.Fprintf(b, "(%s (", t.op)
		for i, v := range t.qvars {
			if i > 0 {
				b.WriteByte(' ')
			}
			fmt.Fprintf(b, "(%s %s)", v.op, v.sort.Name)
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		printTerm(b, t.args[0], named, depth+1)
		for _, p := range t.pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				printTerm(b, x, named, depth+1)
			}
			b.WriteByte(')')
		}
		if len(t.pats) > 0 {
			b.WriteByte(')')
		}
		b.WriteByte(')')
		return
	}
	if len(t.args) == 0 {
		b.WriteString(t.op)
		return
	}
	b.WriteByte('(')
	b.WriteString(t.op)
	for _, a := range t.args {
		b.WriteByte(' ')
		printTerm(b, a, named, depth+1)
	}
	b.WriteByte(')')
}
