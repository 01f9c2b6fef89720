package cv

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Expr is a specification expression.
type Expr struct {
	Op   string
	Name string
	Args []*Expr
	Num  *big.Int
	Vars []BVar
	Pats [][]*Expr
}

type BVar struct{ Name, Type string }

// Clause is one labelled specification clause.
type Clause struct {
	Label string
	Props []string
	Vars  []BVar // template variables of loop candidates
	E     *Expr
	Src   string
	Pos   string
	Extra []string
	Off   bool // not proved and not assumed in this run
}

// Contract is the specification of one function.
type Contract struct {
	Key       string
	Pkg       string
	Recv      string
	Params    []string
	Results   []string
	Props     []string
	Requires  []Clause
	Ensures   []Clause
	Modifies  []Clause
	Allocates []string
	Invs      []Clause
	Steps     []Clause
	Allocs    []Clause // bounds on the size of every make, append and conversion (template variable: bytes)
	Effects   []Clause // ghost assignments applied at call sites: E = lhs, Extra E2 in Args
	Applies   []Clause
	Asserts   []Clause
	Events    []Clause
	Panics    []string // properties under which run-time panics are obligations
	Races     []string // properties under which lock discipline is an obligation
	Trusted   bool     // assumed, never verified (interfaces, external code)
	NoVerify  bool     // used only at calls as an inlining hint
	Inline    bool     // verified as a root but inlined at calls
	Iface     bool
	Pure      bool
	Closure   bool // verify anonymous function N of Key
	AnyExit   bool
	Opts      map[string]string
	Pos       string
}

// Def is a specification function.
type Def struct {
	Name     string
	Params   []BVar
	Ret      string
	Rec      bool
	Ghost    bool
	Uninterp bool
	Body     *Expr
	Pos      string
}

type Lemma struct {
	Name     string
	Params   []BVar
	Props    []string
	Requires []Clause
	Ensures  []Clause
	Induct   string
	Trigger  []*Expr
	Auto     bool
	Uses     []Clause
	Trusted  bool
	Pos      string
}

type LockSpec struct {
	Type   string // pkg.Type
	Mu     string // field path
	Guards []string
	All    []string // pkg.Type.field: fields of every object of another type
	Frozen []string
	Inv    []Clause
	Evol   []Clause // what every holder of the lock keeps, with old() for when it was acquired
	Recv   string
	Cond   bool // the field is a *sync.Cond: the lock is its L
}

// Specs is the set of parsed contract files.
type Specs struct {
	Funcs   map[string]*Contract
	Order   []string
	Defs    map[string]*Def
	Lemmas  []*Lemma
	Locks   []*LockSpec
	NonNil  map[string]bool // "pkg.Type.field"
	Between map[string][2]int64
	Immut   map[string]bool
	Inplace []string // goroutines that are run in place
	Axioms  []Clause
	Files   []string
}

type tok struct {
	k string // id num str op eof
	s string
}

func lex(src string) ([]tok, error) {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "::", ":=", "++", "&&", "||", "==", "!=", "<=", ">="}
	for i < len(src) {
		ch := src[i]
		switch {
		case ch == ' ' || ch == '\t' || ch == '\n':
			i++
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F') {
				j++
			}
			out = append(out, tok{"num", src[i:j]})
			i = j
		case ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] >= '0' && src[j] <= '9' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z') {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
		case ch == '"':
			j := i + 1
			var b strings.Builder
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' && j+1 < len(src) {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					case 'x':
						var v int
						fmt.Sscanf(src[j+1:j+3], "%02x", &v)
						b.WriteByte(byte(v))
						j += 2
					default:
						b.WriteByte(src[j])
					}
				} else {
					b.WriteByte(src[j])
				}
				j++
			}
			out = append(out, tok{"str", b.String()})
			i = j + 1
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				out = append(out, tok{"op", string(ch)})
				i++
			}
		}
	}
	return append(out, tok{"eof", ""}), nil
}

type parser struct {
	t []tok
	i int
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	return p.t[p.i].s == s && (p.t[p.i].k == "op" || p.t[p.i].k == "id")
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("expected %q, got %q", s, p.peek().s))
	}
}

// ParseExpr parses a specification expression.
func ParseExpr(src string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in %q", r, src)
		}
	}()
	ts, err := lex(src)
	if err != nil {
		return nil, err
	}
	p := &parser{t: ts}
	e = p.expr()
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("trailing %q in %q", p.peek().s, src)
	}
	return e, nil
}

func (p *parser) typ() string {
	var b strings.Builder
	depth := 0
	for {
		t := p.peek()
		if t.k == "eof" {
			break
		}
		if depth == 0 && (t.s == "," || t.s == "::" || t.s == ")" || t.s == "=" || t.s == "{") {
			break
		}
		if t.s == "[" || t.s == "(" || t.s == "<" {
			depth++
		}
		if t.s == "]" || t.s == ")" || t.s == ">" {
			depth--
		}
		b.WriteString(t.s)
		p.i++
		if t.s == "chan" {
			b.WriteString(" ")
		}
		if (t.s == "struct" || t.s == "interface") && p.is("{") && p.i+1 < len(p.t) && p.t[p.i+1].s == "}" {
			b.WriteString("{}")
			p.i += 2
		}
	}
	return b.String()
}

func (p *parser) bvars() []BVar {
	var vs []BVar
	for {
		n := p.next()
		if n.k != "id" {
			panic("bound variable name expected, got " + n.s)
		}
		vs = append(vs, BVar{n.s, p.typ()})
		if !p.accept(",") {
			break
		}
	}
	for i := len(vs) - 2; i >= 0; i-- {
		if vs[i].Type == "" {
			vs[i].Type = vs[i+1].Type
		}
	}
	return vs
}

func (p *parser) expr() *Expr {
	if p.is("forall") || p.is("exists") {
		op := p.next().s
		e := &Expr{Op: op, Vars: p.bvars()}
		p.expect("::")
		for p.accept("{") {
			var pt []*Expr
			for {
				pt = append(pt, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.Pats = append(e.Pats, pt)
		}
		e.Args = []*Expr{p.expr()}
		return e
	}
	if p.is("let") {
		p.next()
		n := p.next().s
		p.expect("=")
		v := p.expr()
		p.expect("::")
		return &Expr{Op: "let", Name: n, Args: []*Expr{v, p.expr()}}
	}
	return p.tern()
}

func (p *parser) tern() *Expr {
	c := p.iff()
	if p.accept("?") {
		a := p.expr()
		p.expect(":")
		b := p.expr()
		return &Expr{Op: "ite", Args: []*Expr{c, a, b}}
	}
	return c
}

func (p *parser) iff() *Expr {
	l := p.imp()
	for p.accept("<==>") {
		l = &Expr{Op: "<==>", Args: []*Expr{l, p.imp()}}
	}
	return l
}

func (p *parser) imp() *Expr {
	l := p.or()
	if p.accept("==>") {
		var r *Expr
		if p.is("forall") || p.is("exists") || p.is("let") {
			r = p.expr()
		} else {
			r = p.imp()
		}
		return &Expr{Op: "==>", Args: []*Expr{l, r}}
	}
	return l
}

func (p *parser) or() *Expr {
	l := p.and()
	for p.accept("||") {
		l = &Expr{Op: "||", Args: []*Expr{l, p.and()}}
	}
	return l
}

func (p *parser) and() *Expr {
	l := p.cmp()
	for p.accept("&&") {
		var r *Expr
		if p.is("forall") || p.is("exists") || p.is("let") {
			r = p.expr()
		} else {
			r = p.cmp()
		}
		l = &Expr{Op: "&&", Args: []*Expr{l, r}}
	}
	return l
}

func (p *parser) cmp() *Expr {
	l := p.cat()
	var conj *Expr
	for {
		t := p.peek()
		switch t.s {
		case "==", "!=", "<", "<=", ">", ">=", "in":
			if t.k == "str" {
				break
			}
			p.i++
			r := p.cat()
			e := &Expr{Op: t.s, Args: []*Expr{l, r}}
			if conj == nil {
				conj = e
			} else {
				conj = &Expr{Op: "&&", Args: []*Expr{conj, e}}
			}
			l = r
			continue
		}
		break
	}
	if conj != nil {
		return conj
	}
	return l
}

func (p *parser) cat() *Expr {
	l := p.add()
	for p.accept("++") {
		l = &Expr{Op: "++", Args: []*Expr{l, p.add()}}
	}
	return l
}

func (p *parser) add() *Expr {
	l := p.mul()
	for p.is("+") || p.is("-") {
		o := p.next().s
		l = &Expr{Op: o, Args: []*Expr{l, p.mul()}}
	}
	return l
}

func (p *parser) mul() *Expr {
	l := p.unary()
	for p.is("*") || p.is("/") || p.is("%") {
		o := p.next().s
		l = &Expr{Op: o, Args: []*Expr{l, p.unary()}}
	}
	return l
}

func (p *parser) unary() *Expr {
	if p.accept("!") {
		return &Expr{Op: "!", Args: []*Expr{p.unary()}}
	}
	if p.accept("-") {
		return &Expr{Op: "neg", Args: []*Expr{p.unary()}}
	}
	if p.accept("*") {
		return &Expr{Op: "deref", Args: []*Expr{p.unary()}}
	}
	if p.accept("&") {
		return &Expr{Op: "addr", Args: []*Expr{p.unary()}}
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.accept("."):
			e = &Expr{Op: "sel", Name: p.next().s, Args: []*Expr{e}}
		case p.accept("["):
			var lo, hi *Expr
			if !p.is(":") {
				lo = p.expr()
			}
			if p.accept(":") {
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, lo, hi}}
			} else {
				p.expect("]")
				e = &Expr{Op: "idx", Args: []*Expr{e, lo}}
			}
		case p.is("(") && e.Op == "id":
			p.next()
			c := &Expr{Op: "call", Name: e.Name}
			for !p.is(")") {
				c.Args = append(c.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "num":
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			panic("bad number " + t.s)
		}
		return &Expr{Op: "int", Num: n}
	case "str":
		return &Expr{Op: "str", Name: t.s}
	case "id":
		return &Expr{Op: "id", Name: t.s}
	}
	if t.s == "(" {
		e := p.expr()
		p.expect(")")
		return e
	}
	panic("unexpected " + t.s)
}

// ---- files

var clauseKW = map[string]bool{"prop": true, "requires": true, "ensures": true, "modifies": true, "allocates": true, "allocs": true,
	"invariant": true, "step": true, "effect": true, "apply": true, "panics": true, "races": true, "trusted": true, "inline": true,
	"noverify": true, "pure": true, "induct": true, "guards": true, "guardsall": true, "frozen": true, "evolves": true, "assert": true, "trigger": true, "auto": true, "use": true, "opt": true, "event": true}
var topKW = map[string]bool{"package": true, "func": true, "iface": true, "def": true, "rec": true, "lemma": true, "ghost": true,
	"lock": true, "nonnil": true, "between": true, "immutable": true, "inplace": true, "closure": true, "uninterp": true, "axiom": true}

var labelRE = regexp.MustCompile(`^\[([^\]]*)\]\s*`)
var propRE = regexp.MustCompile(`^[A-Z][0-9]{2,3}$`)

// ParseSpecs reads every .gcv file of a directory.
func ParseSpecs(dir string) (*Specs, error) {
	sp := &Specs{Funcs: map[string]*Contract{}, Defs: map[string]*Def{}, NonNil: map[string]bool{}, Between: map[string][2]int64{}, Immut: map[string]bool{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gcv"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := sp.parseFile(f); err != nil {
			return nil, err
		}
		sp.Files = append(sp.Files, filepath.Base(f))
	}
	return sp, nil
}

func (sp *Specs) parseFile(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type item struct {
		kw, body, pos string
	}
	var items []item
	for n, line := range strings.Split(string(data), "\n") {
		if i := strings.Index(line, "//"); i >= 0 && !strings.Contains(line[:i], "\"") {
			line = line[:i]
		} else if strings.HasPrefix(strings.TrimSpace(line), "//") {
			continue
		}
		tr := strings.TrimSpace(line)
		if tr == "" {
			continue
		}
		w := tr
		if i := strings.IndexAny(tr, " \t("); i >= 0 {
			w = tr[:i]
		}
		w = strings.TrimSuffix(w, ":")
		indented := line[0] == ' ' || line[0] == '\t'
		if !indented && topKW[w] || indented && clauseKW[w] {
			items = append(items, item{w, strings.TrimSpace(tr[len(w):]), fmt.Sprintf("%s:%d", filepath.Base(file), n+1)})
			continue
		}
		if len(items) == 0 {
			return fmt.Errorf("%s:%d: unexpected %q", file, n+1, tr)
		}
		items[len(items)-1].body += " " + tr
	}
	pkg := ""
	var cur *Contract
	var lem *Lemma
	var lk *LockSpec
	for _, it := range items {
		fail := func(err error) error { return fmt.Errorf("%s: %s: %v", it.pos, it.kw, err) }
		if topKW[it.kw] {
			cur, lem, lk = nil, nil, nil
		}
		switch it.kw {
		case "package":
			pkg = it.body
		case "func", "iface", "closure":
			c, err := parseHeader(pkg, it.body, it.kw)
			if err != nil {
				return fail(err)
			}
			c.Pos = it.pos
			if sp.Funcs[c.Key] != nil {
				return fail(fmt.Errorf("duplicate contract %s", c.Key))
			}
			sp.Funcs[c.Key] = c
			sp.Order = append(sp.Order, c.Key)
			cur = c
		case "def", "rec", "ghost", "uninterp":
			d, err := parseDef(it.kw, it.body)
			if err != nil {
				return fail(err)
			}
			d.Pos = it.pos
			if sp.Defs[d.Name] != nil {
				return fail(fmt.Errorf("duplicate definition %s", d.Name))
			}
			sp.Defs[d.Name] = d
		case "lemma":
			d, err := parseDef("lemma", it.body)
			if err != nil {
				return fail(err)
			}
			lem = &Lemma{Name: d.Name, Params: d.Params, Pos: it.pos}
			sp.Lemmas = append(sp.Lemmas, lem)
		case "lock":
			// lock recv pkgType.mu [cond]; guards a, b
			f := strings.Fields(it.body)
			if len(f) != 2 && !(len(f) == 3 && f[2] == "cond") {
				return fail(fmt.Errorf("want: lock recv Type.mu"))
			}
			i := strings.Index(f[1], ".")
			lk = &LockSpec{Recv: f[0], Type: pkg + "." + f[1][:i], Mu: f[1][i+1:], Cond: len(f) == 3}
			sp.Locks = append(sp.Locks, lk)
		case "nonnil":
			for _, s := range strings.Split(it.body, ",") {
				sp.NonNil[pkg+"."+strings.TrimSpace(s)] = true
			}
		case "between":
			f := strings.Fields(it.body)
			if len(f) != 3 {
				return fail(fmt.Errorf("want: between Type.field lo hi"))
			}
			lo, err := strconv.ParseInt(f[1], 10, 64)
			if err != nil {
				return fail(err)
			}
			hi, err := strconv.ParseInt(f[2], 10, 64)
			if err != nil {
				return fail(err)
			}
			sp.Between[pkg+"."+f[0]] = [2]int64{lo, hi}
		case "immutable":
			for _, s := range strings.Split(it.body, ",") {
				sp.Immut[pkg+"."+strings.TrimSpace(s)] = true
			}
		case "inplace":
			sp.Inplace = append(sp.Inplace, strings.Fields(it.body)...)
		case "axiom":
			cl, err := parseClause(it.body, it.pos)
			if err != nil {
				return fail(err)
			}
			sp.Axioms = append(sp.Axioms, cl)
		default:
			if lk != nil {
				switch it.kw {
				case "guards":
					for _, s := range strings.Split(it.body, ",") {
						lk.Guards = append(lk.Guards, strings.TrimSpace(s))
					}
				case "guardsall":
					for _, s := range strings.Split(it.body, ",") {
						lk.All = append(lk.All, pkg+"."+strings.TrimSpace(s))
					}
				case "frozen": // guarded slices whose elements never change once stored
					lk.Frozen = append(lk.Frozen, strings.Split(strings.ReplaceAll(it.body, " ", ""), ",")...)
				case "invariant":
					cl, err := parseClause(it.body, it.pos)
					if err != nil {
						return fail(err)
					}
					lk.Inv = append(lk.Inv, cl)
				case "evolves":
					cl, err := parseClause(it.body, it.pos)
					if err != nil {
						return fail(err)
					}
					lk.Evol = append(lk.Evol, cl)
				}
				continue
			}
			if lem != nil {
				switch it.kw {
				case "prop":
					lem.Props = strings.Fields(it.body)
				case "induct":
					lem.Induct = it.body
				case "auto":
					lem.Auto = true
				case "trusted":
					lem.Trusted = true
				case "trigger":
					p := strings.Split(it.body, ";")
					for _, s := range p {
						e, err := ParseExpr(s)
						if err != nil {
							return fail(err)
						}
						lem.Trigger = append(lem.Trigger, e)
					}
				case "use":
					e, err := ParseExpr(it.body)
					if err != nil {
						return fail(err)
					}
					lem.Uses = append(lem.Uses, Clause{E: e, Src: it.body, Pos: it.pos})
				case "requires", "ensures":
					cl, err := parseClause(it.body, it.pos)
					if err != nil {
						return fail(err)
					}
					if it.kw == "requires" {
						lem.Requires = append(lem.Requires, cl)
					} else {
						lem.Ensures = append(lem.Ensures, cl)
					}
				}
				continue
			}
			if cur == nil {
				return fail(fmt.Errorf("clause outside a contract"))
			}
			if err := cur.addClause(it.kw, it.body, it.pos); err != nil {
				return fail(err)
			}
		}
	}
	return nil
}

func (c *Contract) addClause(kw, body, pos string) error {
	switch kw {
	case "prop":
		c.Props = append(c.Props, strings.Fields(body)...)
		return nil
	case "panics":
		c.Panics = append(c.Panics, strings.Fields(body)...)
		return nil
	case "races":
		c.Races = append(c.Races, strings.Fields(body)...)
		return nil
	case "trusted":
		c.Trusted = true
		return nil
	case "inline":
		c.Inline = true
		return nil
	case "noverify":
		c.NoVerify = true
		return nil
	case "pure":
		c.Pure = true
		return nil
	case "opt":
		f := strings.Fields(body)
		if len(f) == 1 {
			f = append(f, "1")
		}
		if c.Opts == nil {
			c.Opts = map[string]string{}
		}
		c.Opts[f[0]] = f[1]
		return nil
	case "allocates":
		for _, s := range strings.Split(body, ",") {
			c.Allocates = append(c.Allocates, strings.TrimSpace(s))
		}
		return nil
	case "modifies":
		for _, s := range splitTop(body) {
			s = strings.TrimSpace(s)
			if s == "" || s == "nothing" {
				continue
			}
			if s == "*" {
				c.Modifies = append(c.Modifies, Clause{E: &Expr{Op: "all"}, Src: s, Pos: pos})
				continue
			}
			e, err := ParseExpr(s)
			if err != nil {
				return err
			}
			c.Modifies = append(c.Modifies, Clause{E: e, Src: s, Pos: pos})
		}
		return nil
	case "effect":
		i := strings.Index(body, ":=")
		if i < 0 {
			return fmt.Errorf("effect needs :=")
		}
		l, err := ParseExpr(body[:i])
		if err != nil {
			return err
		}
		r, err := ParseExpr(body[i+2:])
		if err != nil {
			return err
		}
		c.Effects = append(c.Effects, Clause{E: &Expr{Op: "assign", Args: []*Expr{l, r}}, Src: body, Pos: pos})
		return nil
	}
	cl, err := parseClause(body, pos)
	if err != nil {
		return err
	}
	if len(cl.Props) == 0 {
		cl.Props = nil
	}
	switch kw {
	case "requires":
		c.Requires = append(c.Requires, cl)
	case "ensures":
		c.Ensures = append(c.Ensures, cl)
	case "invariant":
		c.Invs = append(c.Invs, cl)
	case "allocs":
		if len(cl.Vars) != 1 {
			return fmt.Errorf("allocs needs one variable: for n int :: condition")
		}
		c.Allocs = append(c.Allocs, cl)
	case "step":
		c.Steps = append(c.Steps, cl)
	case "apply":
		c.Applies = append(c.Applies, cl)
	case "assert":
		c.Asserts = append(c.Asserts, cl)
	case "event":
		c.Events = append(c.Events, cl)
	default:
		return fmt.Errorf("unknown clause %s", kw)
	}
	return nil
}

func parseClause(body, pos string) (Clause, error) {
	cl := Clause{Pos: pos}
	if m := labelRE.FindStringSubmatch(body); m != nil {
		lab := []string{}
		for _, w := range strings.Fields(m[1]) {
			if propRE.MatchString(w) {
				cl.Props = append(cl.Props, w)
			} else {
				lab = append(lab, w)
			}
		}
		cl.Label = strings.Join(lab, " ")
		body = body[len(m[0]):]
	}
	cl.Src = body
	if strings.HasPrefix(body, "for ") {
		ts, err := lex(body[4:])
		if err != nil {
			return cl, err
		}
		p := &parser{t: ts}
		var perr error
		func() {
			defer func() {
				if r := recover(); r != nil {
					perr = fmt.Errorf("%v", r)
				}
			}()
			cl.Vars = p.bvars()
			p.expect("::")
			cl.E = p.expr()
			if p.peek().k != "eof" {
				panic("trailing " + p.peek().s)
			}
		}()
		return cl, perr
	}
	e, err := ParseExpr(body)
	cl.E = e
	return cl, err
}

var headRE = regexp.MustCompile(`^(?:\(\s*(\w+)\s+(\*?[\w.]+)\s*\)\s*)?([\w$]+)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*$`)

func splitNames(s string) []string {
	var out []string
	for _, f := range strings.Split(s, ",") {
		f = strings.TrimSpace(f)
		if f == "" {
			continue
		}
		out = append(out, strings.Fields(f)[0])
	}
	return out
}

func parseHeader(pkg, body, kw string) (*Contract, error) {
	m := headRE.FindStringSubmatch(body)
	if m == nil {
		return nil, fmt.Errorf("bad header %q", body)
	}
	c := &Contract{Pkg: pkg, Recv: m[1], Params: splitNames(m[4]), Results: splitNames(m[5])}
	if m[2] != "" {
		star := ""
		tn := m[2]
		if tn[0] == '*' {
			star, tn = "*", tn[1:]
		}
		if !strings.Contains(tn, ".") {
			tn = pkg + "." + tn
		}
		c.Key = "(" + star + tn + ")." + m[3]
	} else {
		c.Key = pkg + "." + m[3]
	}
	if kw == "iface" {
		c.Iface = true
		c.Trusted = true
	}
	if kw == "closure" {
		c.Closure = true
		c.Recv = "" // captured variables are named like in the source; they are cells
	}
	return c, nil
}

// splitTop splits at the commas outside brackets.
func splitTop(body string) []string {
	var parts []string
	depth, start := 0, 0
	for i, r := range body {
		switch r {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		case ',':
			if depth == 0 {
				parts = append(parts, body[start:i])
				start = i + 1
			}
		}
	}
	return append(parts, body[start:])
}

var defRE = regexp.MustCompile(`^(\w+)\s*\(([^)]*)\)\s*([^=]*?)\s*(?:=\s*(.*))?$`)

func parseDef(kw, body string) (*Def, error) {
	// find the parameter list
	i := strings.Index(body, "(")
	if i < 0 {
		return nil, fmt.Errorf("bad definition %q", body)
	}
	depth, j := 0, i
	for ; j < len(body); j++ {
		if body[j] == '(' {
			depth++
		}
		if body[j] == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	d := &Def{Name: strings.TrimSpace(body[:i]), Rec: kw == "rec", Ghost: kw == "ghost", Uninterp: kw == "uninterp"}
	ps := strings.TrimSpace(body[i+1 : j])
	if ps != "" {
		for _, f := range splitTop(ps) {
			w := strings.Fields(strings.TrimSpace(f))
			v := BVar{Name: w[0]}
			if len(w) > 1 {
				v.Type = strings.Join(w[1:], "")
			}
			d.Params = append(d.Params, v)
		}
		for k := len(d.Params) - 2; k >= 0; k-- {
			if d.Params[k].Type == "" {
				d.Params[k].Type = d.Params[k+1].Type
			}
		}
	}
	rest := strings.TrimSpace(body[j+1:])
	if k := strings.Index(rest, "="); k >= 0 && kw != "ghost" && kw != "uninterp" {
		d.Ret = strings.TrimSpace(rest[:k])
		e, err := ParseExpr(rest[k+1:])
		if err != nil {
			return nil, err
		}
		d.Body = e
	} else {
		d.Ret = rest
	}
	return d, nil
}
