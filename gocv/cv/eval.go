package cv

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is a specification value: a term with an optional Go type.
type SV struct {
	T  *Term
	GT types.Type
}

// Env is the evaluation environment of a specification expression.
type Env struct {
	x        *Exec
	st       *State
	old      *State
	lock     *State
	pre      *State
	vars     map[string]SV
	pkg      *ssa.Package
	fuel     int
	ctr      int // allocation counter for fresh()
	sub      map[string]*Def
	fromCall bool // a callee's clause, seen from its caller
}

func (e *Env) with(name string, v SV) *Env {
	n := *e
	n.vars = make(map[string]SV, len(e.vars)+1)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	n.vars[name] = v
	return &n
}

func (e *Env) at(st *State) *Env {
	n := *e
	n.st = st
	return &n
}

func (e *Env) chanArg(v SV) SV {
	if v.GT != nil {
		if _, ok := v.GT.Underlying().(*types.Chan); ok {
			return v
		}
	}
	evalFail("not a channel")
	return v
}

type evalErr struct{ msg string }

func evalFail(f string, a ...any) { panic(evalErr{fmt.Sprintf(f, a...)}) }

// Eval evaluates a specification expression.
func (e *Env) Eval(x *Expr) SV { return e.eval(x) }

// Bool evaluates to a boolean term; errors are returned.
func (e *Env) Bool(x *Expr) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(evalErr); ok {
				err = fmt.Errorf("%s", ee.msg)
				return
			}
			panic(r)
		}
	}()
	v := e.eval(x)
	if v.T.sort != e.x.c.Bool {
		return nil, fmt.Errorf("not a boolean: %s", v.T.sort.Name)
	}
	return v.T, nil
}

// Term evaluates to any term.
func (e *Env) Term(x *Expr) (v SV, err error) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(evalErr); ok {
				err = fmt.Errorf("%s", ee.msg)
				return
			}
			panic(r)
		}
	}()
	return e.eval(x), nil
}

// specSort resolves a type name in a definition to a sort and a Go type.
func (x *Exec) specSort(name string) (*Sort, types.Type) {
	c := x.c
	switch name {
	case "int", "Int", "ref":
		return c.Int, nil
	case "bool", "Bool":
		return c.Bool, types.Typ[types.Bool]
	case "bytes", "B":
		return c.B, nil
	case "string":
		return c.B, types.Typ[types.String]
	case "seqb", "Seq_B":
		return c.Seq(c.B), nil
	case "seqi":
		return c.Seq(c.Int), nil
	case "slice", "Sl":
		return c.Sl, nil
	case "seqsl":
		return c.Seq(c.Sl), nil
	case "iface", "Iface":
		return c.Iface, nil
	case "[]byte":
		return c.Sl, types.NewSlice(types.Typ[types.Byte])
	case "error":
		return c.Iface, types.Universe.Lookup("error").Type()
	}
	if strings.HasPrefix(name, "arr(") { // arr(k,v)
		p := strings.SplitN(name[4:len(name)-1], ",", 2)
		k, _ := x.specSort(strings.TrimSpace(p[0]))
		v, _ := x.specSort(strings.TrimSpace(p[1]))
		return c.Array(k, v), nil
	}
	if strings.HasPrefix(name, "seq(") {
		k, _ := x.specSort(name[4 : len(name)-1])
		if k == c.Bool || k == c.Int {
			return c.Seq(k), nil
		}
		return c.Seq(k), nil
	}
	if t := x.goType(name); t != nil {
		return c.SortOf(t), t
	}
	evalFail("unknown type %q", name)
	return nil, nil
}

// goType resolves a Go type written in a contract.
func (x *Exec) goType(name string) types.Type {
	if strings.HasPrefix(name, "*") {
		if t := x.goType(name[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	if strings.HasPrefix(name, "[]") {
		if t := x.goType(name[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if strings.HasPrefix(name, "chan ") {
		if t := x.goType(name[5:]); t != nil {
			return types.NewChan(types.SendRecv, t)
		}
		return nil
	}
	if strings.HasPrefix(name, "map[") {
		i := strings.Index(name, "]")
		k, v := x.goType(name[4:i]), x.goType(name[i+1:])
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
		return nil
	}
	for _, b := range types.Typ {
		if b.Name() == name {
			return b
		}
	}
	switch name {
	case "byte":
		return types.Typ[types.Byte]
	case "error":
		return types.Universe.Lookup("error").Type()
	case "any":
		return types.Universe.Lookup("any").Type()
	case "struct{}":
		return types.NewStruct(nil, nil)
	}
	if i := strings.LastIndex(name, "."); i >= 0 {
		for _, sp := range x.p.Prog.AllPackages() {
			if sp.Pkg.Name() == name[:i] || sp.Pkg.Path() == name[:i] {
				if o := sp.Pkg.Scope().Lookup(name[i+1:]); o != nil {
					if tn, ok := o.(*types.TypeName); ok {
						return tn.Type()
					}
				}
			}
		}
		return nil
	}
	for _, sp := range x.pkgOrder() {
		if o := sp.Pkg.Scope().Lookup(name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	}
	return nil
}

func (x *Exec) pkgOrder() []*ssa.Package {
	var out []*ssa.Package
	if x.pkg != nil {
		out = append(out, x.pkg)
	}
	for _, k := range sortedKeys(x.p.Pkgs) {
		if x.p.Pkgs[k] != x.pkg {
			out = append(out, x.p.Pkgs[k])
		}
	}
	return out
}

func (e *Env) constVal(v constant.Value, t types.Type) SV {
	c := e.x.c
	switch v.Kind() {
	case constant.Int:
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return SV{c.Big(n), t}
	case constant.Bool:
		return SV{c.BoolT(constant.BoolVal(v)), t}
	case constant.String:
		return SV{c.Str(constant.StringVal(v)), t}
	}
	evalFail("unsupported constant %s", v)
	return SV{}
}

func (e *Env) lookupPkg(sp *ssa.Package, name string) (SV, bool) {
	o := sp.Pkg.Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Const:
		return e.constVal(o.Val(), o.Type()), true
	case *types.Var:
		g := sp.Var(name)
		if g == nil {
			return SV{}, false
		}
		return SV{e.x.readGlobal(e.st, g), o.Type()}, true
	}
	return SV{}, false
}

func (e *Env) id(name string) (SV, bool) {
	if v, ok := e.vars[name]; ok {
		return v, true
	}
	switch name {
	case "true":
		return SV{e.x.c.True, types.Typ[types.Bool]}, true
	case "false":
		return SV{e.x.c.False, types.Typ[types.Bool]}, true
	case "nil":
		return SV{nil, types.Typ[types.UntypedNil]}, true
	}
	if d, ok := e.x.specs.Defs[name]; ok && len(d.Params) == 0 && !d.Ghost {
		return e.callDef(d, nil), true
	}
	if e.pkg != nil {
		if v, ok := e.lookupPkg(e.pkg, name); ok {
			return v, true
		}
	}
	return SV{}, false
}

func deref(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

// loc evaluates an lvalue expression.
func (e *Env) loc(x *Expr) (Loc, bool) {
	switch x.Op {
	case "deref":
		v := e.eval(x.Args[0])
		if el, ok := deref(v.GT); ok {
			return e.x.locOf(v.T, el), true
		}
	case "sel":
		if x.Args[0].Op == "id" {
			if _, ok := e.id(x.Args[0].Name); !ok {
				return Loc{}, false
			}
		}
		var base Loc
		var bt types.Type
		ok := false
		if v, err := e.Term(x.Args[0]); err == nil && v.GT != nil {
			if el, isp := deref(v.GT); isp {
				base, bt, ok = e.x.locOf(v.T, el), el, true
			}
		}
		if !ok {
			if l, lok := e.loc(x.Args[0]); lok {
				base, bt, ok = l, l.typ, true
			}
		}
		if !ok {
			return Loc{}, false
		}
		return e.selLoc(base, bt, x.Name)
	case "idx":
		v := e.eval(x.Args[0])
		if v.GT != nil {
			if s := sliceOf(v.GT); s != nil {
				i := e.eval(x.Args[1])
				return e.x.elemLoc(e.x.c.arr(v.T), e.x.c.Add(e.x.c.off(v.T), i.T), s.Elem()), true
			}
		}
	}
	return Loc{}, false
}

func (e *Env) selLoc(base Loc, bt types.Type, name string) (Loc, bool) {
	path, ok := fieldPath(bt, name)
	if !ok {
		return Loc{}, false
	}
	l := base
	for _, i := range path {
		if el, isp := deref(l.typ); isp {
			l = e.x.locOf(e.x.read(e.st, l), el)
		}
		l = e.x.fieldLoc(l, i)
	}
	return l, true
}

func fieldPath(t types.Type, name string) ([]int, bool) {
	if el, ok := deref(t); ok {
		t = el
	}
	var search func(t types.Type, depth int) []int
	search = func(t types.Type, depth int) []int {
		if el, ok := deref(t); ok {
			t = el
		}
		st, _ := t.Underlying().(*types.Struct)
		if st == nil {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return []int{i}
			}
		}
		if depth == 0 {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				if r := search(st.Field(i).Type(), depth-1); r != nil {
					return append([]int{i}, r...)
				}
			}
		}
		return nil
	}
	r := search(t, 4)
	return r, r != nil
}

func (e *Env) eval(x *Expr) SV {
	c := e.x.c
	boolT := types.Typ[types.Bool]
	switch x.Op {
	case "int":
		return SV{c.Big(x.Num), nil}
	case "str":
		return SV{c.Str(x.Name), types.Typ[types.String]}
	case "id":
		if v, ok := e.id(x.Name); ok {
			return v
		}
		evalFail("unknown name %q", x.Name)
	case "sel":
		if x.Args[0].Op == "id" {
			if _, ok := e.id(x.Args[0].Name); !ok {
				for _, sp := range e.x.p.Prog.AllPackages() {
					if sp.Pkg.Name() == x.Args[0].Name {
						if v, ok := e.lookupPkg(sp, x.Name); ok {
							return v
						}
					}
				}
				evalFail("unknown name %q", x.Args[0].Name)
			}
		}
		v := e.eval(x.Args[0])
		if v.GT == nil {
			// datatype projections on raw terms
			if v.T.sort.DT != nil {
				return SV{c.Sel(v.T, x.Name), nil}
			}
			evalFail("selection .%s on an untyped value", x.Name)
		}
		if _, ok := deref(v.GT); ok {
			if l, ok := e.loc(x); ok {
				return SV{e.x.read(e.st, l), l.typ}
			}
			evalFail("no field %s in %s", x.Name, v.GT)
		}
		path, ok := fieldPath(v.GT, x.Name)
		if !ok {
			evalFail("no field %s in %s", x.Name, v.GT)
		}
		t, T := v.GT, v.T
		for _, i := range path {
			if el, isp := deref(t); isp {
				T = e.x.read(e.st, e.x.locOf(T, el))
				t = el
			}
			T = c.Field(T, i)
			t = structOf(t).Field(i).Type()
			e.x.facts(T, t)
		}
		return SV{T, t}
	case "deref":
		if l, ok := e.loc(x); ok {
			return SV{e.x.read(e.st, l), l.typ}
		}
		evalFail("cannot dereference")
	case "addr":
		if l, ok := e.loc(x.Args[0]); ok {
			return SV{l.ptr, types.NewPointer(l.typ)}
		}
		evalFail("cannot take address")
	case "idx":
		v := e.eval(x.Args[0])
		i := e.eval(x.Args[1])
		if v.GT != nil {
			if s := sliceOf(v.GT); s != nil {
				r := c.Nth(e.x.seqOf(e.st, v.T, s.Elem()), i.T)
				e.x.facts(r, s.Elem())
				return SV{r, s.Elem()}
			}
			if m, ok := v.GT.Underlying().(*types.Map); ok {
				_, mv := e.x.mapKeys(m)
				r := c.Select(c.Select(e.x.heapTerm(e.st, mv), v.T), i.T)
				e.x.facts(r, m.Elem())
				return SV{r, m.Elem()}
			}
			if a := arrayOf(v.GT); a != nil {
				return SV{c.Nth(v.T, i.T), a.Elem()}
			}
			if ch, ok := v.GT.Underlying().(*types.Chan); ok && v.T.sort.Elem != nil {
				r := c.Nth(v.T, i.T)
				e.x.facts(r, ch.Elem())
				return SV{r, ch.Elem()}
			}
		}
		if v.T.sort.Elem != nil {
			return SV{c.Nth(v.T, i.T), nil}
		}
		if v.T.sort.Key != nil {
			return SV{c.Select(v.T, i.T), nil}
		}
		evalFail("cannot index %s", v.T.sort.Name)
	case "slice":
		v := e.eval(x.Args[0])
		lo := c.I(0)
		if x.Args[1] != nil {
			lo = e.eval(x.Args[1]).T
		}
		if v.T.sort == c.Sl {
			s := v.GT
			hi := c.ln(v.T)
			if x.Args[2] != nil {
				hi = e.eval(x.Args[2]).T
			}
			_ = s
			return SV{c.Cons(c.Sl, c.arr(v.T), c.Add(c.off(v.T), lo), c.Sub(hi, lo), c.Sub(c.cp(v.T), lo)), v.GT}
		}
		hi := c.Len(v.T)
		if x.Args[2] != nil {
			hi = e.eval(x.Args[2]).T
		}
		return SV{c.SubSeq(v.T, lo, hi), v.GT}
	case "!":
		return SV{c.Not(e.bool(x.Args[0])), boolT}
	case "neg":
		return SV{c.Sub(c.I(0), e.eval(x.Args[0]).T), nil}
	case "&&":
		a := e.bool(x.Args[0])
		if a.op == "false" {
			return SV{c.False, boolT}
		}
		return SV{c.And(a, e.bool(x.Args[1])), boolT}
	case "||":
		return SV{c.Or(e.bool(x.Args[0]), e.bool(x.Args[1])), boolT}
	case "==>":
		a := e.bool(x.Args[0])
		if a.op == "false" {
			return SV{c.True, boolT}
		}
		return SV{c.Imp(a, e.bool(x.Args[1])), boolT}
	case "<==>":
		return SV{c.Eq(e.bool(x.Args[0]), e.bool(x.Args[1])), boolT}
	case "==", "!=":
		a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
		r := e.equal(a, b)
		if x.Op == "!=" {
			r = c.Not(r)
		}
		return SV{r, boolT}
	case "<", "<=", ">", ">=":
		a, b := e.eval(x.Args[0]).T, e.eval(x.Args[1]).T
		if a == nil || b == nil || a.sort != c.Int || b.sort != c.Int {
			evalFail("comparison of non-integers")
		}
		switch x.Op {
		case "<":
			return SV{c.Lt(a, b), boolT}
		case "<=":
			return SV{c.Le(a, b), boolT}
		case ">":
			return SV{c.Lt(b, a), boolT}
		}
		return SV{c.Le(b, a), boolT}
	case "+", "-", "*":
		a, b := e.eval(x.Args[0]).T, e.eval(x.Args[1]).T
		if a.sort != c.Int || b.sort != c.Int {
			evalFail("arithmetic on non-integers")
		}
		switch x.Op {
		case "+":
			return SV{c.Add(a, b), nil}
		case "-":
			return SV{c.Sub(a, b), nil}
		}
		return SV{c.Mul(a, b), nil}
	case "/", "%":
		a, b := e.eval(x.Args[0]).T, e.eval(x.Args[1]).T
		if b.isInt() && b.ival.Sign() > 0 {
			if x.Op == "/" {
				return SV{c.DivK(a, b.ival), nil}
			}
			return SV{c.ModK(a, b.ival), nil}
		}
		if x.Op == "/" {
			return SV{c.App("div", c.Int, a, b), nil}
		}
		return SV{c.Rem(a, b), nil}
	case "++":
		a, b := e.seqVal(e.eval(x.Args[0])), e.seqVal(e.eval(x.Args[1]))
		if a.sort != b.sort {
			evalFail("++ of %s and %s", a.sort.Name, b.sort.Name)
		}
		return SV{c.Cat(a, b), nil}
	case "in":
		k := e.eval(x.Args[0])
		m := e.eval(x.Args[1])
		return SV{e.mapHas(m, k.T), boolT}
	case "ite":
		p := e.bool(x.Args[0])
		if p.op == "true" {
			return e.eval(x.Args[1])
		}
		if p.op == "false" {
			return e.eval(x.Args[2])
		}
		a, b := e.eval(x.Args[1]), e.eval(x.Args[2])
		switch p.op {
		case "<":
			b.T = c.noMod(b.T, p.args[1], p.args[0])
		case "<=":
			a.T = c.noMod(a.T, p.args[0], p.args[1])
		}
		return SV{c.Ite(p, a.T, b.T), a.GT}
	case "let":
		v := e.eval(x.Args[0])
		return e.with(x.Name, v).eval(x.Args[1])
	case "forall", "exists":
		n := e
		var vs []*Term
		for _, b := range x.Vars {
			s, gt := e.x.specSort(b.Type)
			v := c.BoundVar(b.Name, s)
			if gt != nil && isRef(gt) {
				v.below = 1 << 39
			}
			vs = append(vs, v)
			n = n.with(b.Name, SV{v, gt})
		}
		body := n.bool(x.Args[0])
		var pats [][]*Term
		for _, p := range x.Pats {
			var pt []*Term
			for _, pe := range p {
				pt = append(pt, n.eval(pe).T)
			}
			pats = append(pats, pt)
		}
		if x.Op == "forall" {
			return SV{c.Forall(vs, body, pats...), boolT}
		}
		return SV{c.Exists(vs, body, pats...), boolT}
	case "call":
		return e.call(x)
	}
	evalFail("cannot evaluate %s", x.Op)
	return SV{}
}

func (e *Env) bool(x *Expr) *Term {
	v := e.eval(x)
	if v.T == nil || v.T.sort != e.x.c.Bool {
		evalFail("boolean expected")
	}
	return v.T
}

func (e *Env) mapHas(m SV, k *Term) *Term {
	c := e.x.c
	if m.GT != nil {
		if mt, ok := m.GT.Underlying().(*types.Map); ok {
			md, _ := e.x.mapKeys(mt)
			return c.Select(c.Select(e.x.heapTerm(e.st, md), m.T), k)
		}
	}
	if m.T.sort.Key != nil {
		return c.Select(m.T, k)
	}
	evalFail("'in' on %s", m.T.sort.Name)
	return nil
}

// seqVal coerces a byte slice to its content.
func (e *Env) seqVal(v SV) *Term {
	if v.T.sort == e.x.c.Sl && v.GT != nil {
		if s := sliceOf(v.GT); s != nil {
			return e.x.seqOf(e.st, v.T, s.Elem())
		}
	}
	return v.T
}

func (e *Env) equal(a, b SV) *Term {
	c := e.x.c
	isNil := func(v SV) bool { return v.T == nil }
	if isNil(a) && isNil(b) {
		return c.True
	}
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		switch a.T.sort {
		case c.Iface:
			return c.Eq(c.tag(a.T), c.I(0))
		case c.Sl:
			return c.Eq(c.arr(a.T), c.I(0))
		case c.Int:
			return c.Eq(a.T, c.I(0))
		}
		evalFail("nil comparison of %s", a.T.sort.Name)
	}
	if a.T.sort != b.T.sort {
		a.T, b.T = e.seqVal(a), e.seqVal(b)
	}
	if a.T.sort != b.T.sort {
		evalFail("== of %s and %s", a.T.sort.Name, b.T.sort.Name)
	}
	return c.Eq(a.T, b.T)
}

func (e *Env) refOf(v SV) *Term {
	c := e.x.c
	if v.T == nil {
		return c.I(0)
	}
	switch v.T.sort {
	case c.Iface:
		return c.val(v.T)
	case c.Sl:
		return c.arr(v.T)
	case c.Int:
		return v.T
	}
	evalFail("no reference in %s", v.T.sort.Name)
	return nil
}

func (e *Env) call(x *Expr) SV {
	c := e.x.c
	boolT := types.Typ[types.Bool]
	arg := func(i int) SV {
		if i >= len(x.Args) {
			evalFail("%s: missing argument", x.Name)
		}
		return e.eval(x.Args[i])
	}
	strArg := func(i int) string {
		if i >= len(x.Args) || x.Args[i].Op != "str" {
			evalFail("%s: string argument expected", x.Name)
		}
		return x.Args[i].Name
	}
	if d, ok := e.x.specs.Defs[x.Name]; ok {
		if d.Ghost {
			k := e.x.ghostKey(d)
			return SV{c.Select(e.x.heapTerm(e.st, k), e.refOf(arg(0))), e.x.ghostGT(d)}
		}
		var args []SV
		for i := range x.Args {
			args = append(args, e.eval(x.Args[i]))
		}
		return e.callDef(d, args)
	}
	switch x.Name {
	case "old":
		if e.old == nil {
			evalFail("old() is not available here")
		}
		return e.at(e.old).eval(x.Args[0])
	case "locked":
		if e.lock == nil {
			evalFail("locked() is not available here")
		}
		return e.at(e.lock).eval(x.Args[0])
	case "pre":
		if e.pre == nil {
			evalFail("pre() is not available here")
		}
		return e.at(e.pre).eval(x.Args[0])
	case "len":
		v := arg(0)
		if v.T.sort == c.Sl {
			return SV{c.ln(v.T), nil}
		}
		if v.T.sort.Elem != nil {
			return SV{c.Len(v.T), nil}
		}
		if v.GT != nil {
			if m, ok := v.GT.Underlying().(*types.Map); ok {
				md, _ := e.x.mapKeys(m)
				return SV{e.x.mapLen(c.Select(e.x.heapTerm(e.st, md), v.T)), nil}
			}
		}
		if v.T.sort.Key != nil {
			return SV{e.x.mapLen(v.T), nil}
		}
		evalFail("len of %s", v.T.sort.Name)
	case "cap":
		if v := arg(0); v.GT != nil {
			if _, ok := v.GT.Underlying().(*types.Chan); ok {
				return SV{c.Select(e.x.heapTerm(e.st, e.x.key("CN|cap", c.Int, false, nil)), v.T), nil}
			}
		}
		return SV{c.cp(arg(0).T), nil}
	case "bytes":
		v := arg(0)
		if v.T.sort == c.Sl {
			return SV{e.x.seqOf(e.st, v.T, types.Typ[types.Byte]), nil}
		}
		return SV{v.T, nil}
	case "view":
		v := arg(0)
		if v.T.sort == c.Sl {
			bs := types.NewSlice(types.Typ[types.Byte])
			eb := e.x.heapTerm(e.st, e.x.elemKey(types.Typ[types.Byte]))
			return SV{e.x.viewOf(eb, e.x.seqOf(e.st, v.T, bs)), nil}
		}
		eb := e.x.heapTerm(e.st, e.x.elemKey(types.Typ[types.Byte]))
		return SV{e.x.viewOf(eb, v.T), nil}
	case "flat":
		return SV{e.x.flat(e.seqVal(arg(0))), nil}
	case "seq":
		v := arg(0)
		if v.T.sort == c.Sl && v.GT != nil {
			return SV{e.x.seqOf(e.st, v.T, sliceOf(v.GT).Elem()), nil}
		}
		return SV{v.T, nil}
	case "whole": // the whole array a slice is part of
		v := arg(0)
		if v.GT == nil || sliceOf(v.GT) == nil {
			evalFail("whole: slice expected")
		}
		return SV{c.Select(e.x.heapTerm(e.st, e.x.elemKey(sliceOf(v.GT).Elem())), c.arr(v.T)), nil}
	case "ref":
		return SV{e.refOf(arg(0)), nil}
	case "arr":
		return SV{c.arr(arg(0).T), nil}
	case "off":
		return SV{c.off(arg(0).T), nil}
	case "tag":
		return SV{c.tag(arg(0).T), nil}
	case "val":
		return SV{c.val(arg(0).T), nil}
	case "istype":
		gt := e.x.goType(strArg(1))
		if gt == nil {
			evalFail("unknown type %s", strArg(1))
		}
		return SV{c.Eq(c.tag(arg(0).T), e.x.typeID(gt)), boolT}
	case "as":
		gt := e.x.goType(strArg(1))
		if gt == nil {
			evalFail("unknown type %s", strArg(1))
		}
		v := arg(0)
		if v.T.sort == c.Iface {
			return SV{e.x.unbox(c.val(v.T), gt), gt}
		}
		return SV{v.T, gt}
	case "mkiface":
		gt := e.x.goType(strArg(1))
		return SV{e.x.mkIface(arg(0).T, gt), nil}
	case "be64":
		return SV{e.x.be(64, arg(0).T), nil}
	case "be32":
		return SV{e.x.be(32, arg(0).T), nil}
	case "u64":
		return SV{e.x.ube(64, arg(0).T), nil}
	case "u32":
		return SV{e.x.ube(32, arg(0).T), nil}
	case "byte":
		return SV{c.Unit(c.B, c.ModK(arg(0).T, big64(256))), nil}
	case "unit":
		v := arg(0)
		return SV{c.Unit(c.Seq(v.T.sort), v.T), nil}
	case "rep":
		v := arg(0)
		if v.T.sort == c.Int {
			return SV{c.Rep(c.B, c.ModK(v.T, big64(256)), arg(1).T), nil}
		}
		return SV{c.Rep(c.Seq(v.T.sort), v.T, arg(1).T), nil}
	case "empty":
		if len(x.Args) == 1 {
			s, _ := e.x.specSort(strArg(0))
			return SV{c.Empty(s), nil}
		}
		return SV{c.Empty(c.B), nil}
	case "has":
		m := arg(0)
		return SV{e.mapHas(m, arg(1).T), boolT}
	case "mdom", "mval":
		m := arg(0)
		mt, ok := m.GT.Underlying().(*types.Map)
		if !ok {
			evalFail("%s of a non-map", x.Name)
		}
		md, mv := e.x.mapKeys(mt)
		if x.Name == "mval" {
			md = mv
		}
		return SV{c.Select(e.x.heapTerm(e.st, md), m.T), nil}
	case "upd":
		a := arg(0).T
		if a.sort.Elem != nil {
			return SV{c.Upd(a, arg(1).T, arg(2).T), nil}
		}
		return SV{c.Store(a, arg(1).T, arg(2).T), nil}
	case "emptyset":
		s, _ := e.x.specSort(strArg(0))
		return SV{c.ConstArr(c.Array(s, c.Bool), c.False), nil}
	case "fld": // heap array of a field: fld("zmq4.Conn.topics")
		n := strArg(0)
		i := strings.LastIndex(n, ".")
		gt := e.x.goType(n[:i])
		if gt == nil {
			evalFail("unknown type in %s", n)
		}
		path, ok := fieldPath(gt, n[i+1:])
		if !ok {
			evalFail("unknown field %s", n)
		}
		l := e.x.locOf(c.I(0), gt)
		for _, p := range path {
			l = e.x.fieldLoc(l, p)
		}
		return SV{e.x.heapTerm(e.st, e.x.leafKey(l)), nil}
	case "heapE":
		gt := e.x.goType(strArg(0))
		return SV{e.x.heapTerm(e.st, e.x.elemKey(gt)), nil}
	case "heapC":
		gt := e.x.goType(strArg(0))
		return SV{e.x.heapTerm(e.st, e.x.cellKey(gt)), nil}
	case "heapMD", "heapMV":
		gt := e.x.goType(strArg(0)).Underlying().(*types.Map)
		md, mv := e.x.mapKeys(gt)
		if x.Name == "heapMV" {
			md = mv
		}
		return SV{e.x.heapTerm(e.st, md), nil}
	case "heapG":
		d := e.x.specs.Defs[strArg(0)]
		if d == nil {
			evalFail("no ghost %s", strArg(0))
		}
		return SV{e.x.heapTerm(e.st, e.x.ghostKey(d)), nil}
	case "fresh":
		v := arg(0)
		return SV{c.Le(c.I(int64(e.ctr)), e.refOf(v)), boolT}
	case "idx": // first position of a byte, or -1
		return SV{e.x.indexByte(arg(0).T, arg(1).T), types.Typ[types.Int]}
	case "allocated": // everything allocated from here on differs from it
		return SV{c.Lt(e.refOf(arg(0)), c.I(int64(e.x.ctr))), boolT}
	case "chlog":
		v := e.chanArg(arg(0))
		ct := v.GT.Underlying().(*types.Chan)
		return SV{c.Select(e.x.heapTerm(e.st, e.x.chanKey(ct.Elem())), v.T), v.GT}
	case "rcvd":
		v := e.chanArg(arg(0))
		ct := v.GT.Underlying().(*types.Chan)
		return SV{c.Select(e.x.heapTerm(e.st, e.x.rcvdKey(ct.Elem())), v.T), v.GT}
	case "closed":
		v := e.chanArg(arg(0))
		return SV{c.Select(e.x.heapTerm(e.st, e.x.closedKey(v.GT)), v.T), boolT}
	case "title", "lower", "upper", "trimspace":
		return SV{e.x.strFun(x.Name, arg(0).T), types.Typ[types.String]}
	case "errIs":
		return SV{e.x.errIs(arg(0).T, arg(1).T), boolT}
	case "prefix":
		a, b := e.seqVal(arg(0)), e.seqVal(arg(1))
		return SV{e.x.isPrefix(a, b), boolT}
	case "json": // the JSON encoding of the struct a pointer points to
		v := arg(0)
		if v.GT == nil {
			evalFail("json: typed argument expected")
		}
		if v.T.sort != c.Iface {
			v = SV{e.x.mkIface(v.T, v.GT), v.GT}
		}
		t, ok := e.x.jsonOf(e.st, v.T)
		if !ok {
			evalFail("json: struct expected")
		}
		return SV{t, types.Typ[types.String]}
	case "jsonok": // the data decodes to a struct of the type
		gt := e.x.goType(strArg(0))
		if gt == nil {
			evalFail("unknown type %s", strArg(0))
		}
		return SV{e.x.jsonOK(TypeName(gt), e.seqVal(arg(1))), boolT}
	case "jsonfield": // a field's value in the data, zero when absent
		gt := e.x.goType(strArg(0))
		var s *types.Struct
		if gt != nil {
			s = structOf(gt)
		}
		if s == nil {
			evalFail("unknown type %s", strArg(0))
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != strArg(1) {
				continue
			}
			has, val, kind := e.x.jsonField(TypeName(gt), s.Field(i), e.seqVal(arg(2)))
			switch kind {
			case 1:
				return SV{c.Ite(has, val, c.Zero(s.Field(i).Type())), s.Field(i).Type()}
			case 2:
				return SV{c.Ite(has, val, c.Empty(c.B)), types.Typ[types.String]}
			}
		}
		evalFail("jsonfield: no such field")
	case "spawned", "called":
		return SV{e.spawned(x), boolT}
	case "ended": // the cancellation of a context was observed
		var alts []*Term
		for _, ev := range e.st.events {
			switch ev.Kind {
			case "ctxdone":
				alts = append(alts, c.True)
			case "ctxerr":
				alts = append(alts, c.Not(c.Eq(c.tag(ev.Args[1]), c.I(0))))
			}
		}
		return SV{c.Or(alts...), boolT}
	case "released": // as it was when the lock released last was acquired
		if e.st.rel == nil {
			evalFail("released: no lock was released")
		}
		return e.at(&State{heap: e.st.rel}).eval(x.Args[0])
	case "spawnedAny":
		key := strArg(0)
		for _, ev := range e.st.events {
			if ev.Kind == "go" && ev.Key == key {
				return SV{c.True, boolT}
			}
		}
		return SV{c.False, boolT}
	case "visited":
		// visited set of the innermost map range
		if e.st.visited == "" {
			evalFail("no map range here")
		}
		return SV{c.Select(e.x.heapTerm(e.st, e.st.visited), c.I(1)), nil}
	case "order": // keys in the order of the innermost map range
		if e.st.visited == "" {
			evalFail("no map range here")
		}
		return SV{c.Select(e.x.heapTerm(e.st, "VO|"+e.st.visited[2:]), c.I(1)), nil}
	case "held", "rheld":
		l, ok := e.loc(x.Args[0])
		if !ok {
			evalFail("held: lvalue expected")
		}
		for _, h := range e.st.locks {
			if h.mu == l.ptr && (h.mode == 'W' || x.Name == "rheld") {
				return SV{c.True, boolT}
			}
		}
		return SV{c.False, boolT}
	case "nolocks":
		return SV{c.BoolT(len(e.st.locks) == 0), boolT}
	case "unbox":
		gt := e.x.goType(strArg(1))
		return SV{e.x.unbox(arg(0).T, gt), gt}
	case "typed":
		gt := e.x.goType(strArg(1))
		if gt == nil {
			evalFail("unknown type %s", strArg(1))
		}
		return SV{arg(0).T, gt}
	case "globalref":
		return SV{e.x.globalRefByName(e.pkg, strArg(0)), nil}
	}
	// uninterpreted function declared by name ending in '_'
	evalFail("unknown function %q", x.Name)
	return SV{}
}

// wraps says whether a function literal calls the named function.
func (x *Exec) wraps(lit, key string) bool {
	fn := x.p.Funcs[lit]
	if fn == nil || fn.Parent() == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && FuncKey(f) == key {
					return true
				}
			}
		}
	}
	return false
}

func (e *Env) spawned(x *Expr) *Term {
	c := e.x.c
	if e.fromCall { // what the callee started is not recorded here
		return c.Var("spawned", c.Bool)
	}
	if x.Args[0].Op != "str" {
		evalFail("spawned: key expected")
	}
	key := x.Args[0].Name
	var args []*Term
	for _, a := range x.Args[1:] {
		if a.Op == "id" && a.Name == "any" {
			args = append(args, nil)
			continue
		}
		v := e.eval(a)
		args = append(args, v.T)
	}
	kind := map[string]string{"spawned": "go", "called": "call"}[x.Name]
	if strings.Contains(key, "zmq4.") && e.x.p.Funcs[key] == nil && (e.x.specs.Funcs[key] == nil || !e.x.specs.Funcs[key].Iface) {
		evalFail("%s: there is no %s", x.Name, key)
	}
	var alts []*Term
	for _, ev := range e.st.events {
		if ev.Kind == kind && kind == "go" && ev.Key != key && e.x.wraps(ev.Key, key) {
			return c.True
		}
		if ev.Kind != kind || ev.Key != key {
			continue
		}
		if len(args) > len(ev.Args) {
			continue
		}
		var eqs []*Term
		ok := true
		for i, a := range args {
			if a == nil {
				continue
			}
			if a.sort != ev.Args[i].sort {
				ok = false
				break
			}
			eqs = append(eqs, c.Eq(a, ev.Args[i]))
		}
		if ok {
			alts = append(alts, c.And(eqs...))
		}
	}
	return c.Or(alts...)
}

func (x *Exec) ghostKey(d *Def) string {
	s, gt := x.specSort(d.Ret)
	return x.key("G|"+d.Name, s, gt != nil && hasRefs(gt), nil)
}

func (x *Exec) ghostGT(d *Def) types.Type {
	_, gt := x.specSort(d.Ret)
	return gt
}

func (x *Exec) mapLen(dom *Term) *Term {
	c := x.c
	if dom.op == "constarr" && dom.args[0].op == "false" {
		return c.I(0)
	}
	n := sanitize(dom.sort.Name)
	t := c.Fun("card_"+n, c.Int, dom)
	t.lo = bigZero
	t.hi = maxLen
	c.Axiom("card_"+n, fmt.Sprintf("(forall ((d %s)) (! (<= 0 (card_%s d)) :pattern ((card_%s d))))", dom.sort.Name, n, n))
	c.Axiom("card0_"+n, fmt.Sprintf("(forall ((d %s) (k %s)) (! (=> (select d k) (< 0 (card_%s d))) :pattern ((card_%s d) (select d k))))", dom.sort.Name, dom.sort.Key.Name, n, n))
	c.Axiom("cardS_"+n, fmt.Sprintf("(forall ((d %s) (k %s)) (! (= (card_%s (store d k true)) (ite (select d k) (card_%s d) (+ 1 (card_%s d)))) :pattern ((card_%s (store d k true)))))", dom.sort.Name, dom.sort.Key.Name, n, n, n, n))
	c.Axiom("cardD_"+n, fmt.Sprintf("(forall ((d %s) (k %s)) (! (= (card_%s (store d k false)) (ite (select d k) (- (card_%s d) 1) (card_%s d))) :pattern ((card_%s (store d k false)))))", dom.sort.Name, dom.sort.Key.Name, n, n, n, n))
	return t
}

// be is the big-endian encoding of n in bits/8 bytes.
func (x *Exec) be(bits int, n *Term) *Term {
	c := x.c
	if n.isInt() {
		r := c.Empty(c.B)
		for i := bits/8 - 1; i >= 0; i-- {
			b := new(big.Int).Rsh(n.ival, uint(8*i))
			b.And(b, big64(255))
			r = c.Cat(r, c.Unit(c.B, c.Big(b)))
		}
		return r
	}
	f := fmt.Sprintf("be%d", bits)
	if n.op == fmt.Sprintf("ube%d", bits) && c.Len(n.args[0]) == c.I(int64(bits/8)) {
		return n.args[0]
	}
	t := c.Fun(f, c.B, n)
	x.beAxioms(bits)
	return t
}

// ube decodes bits/8 bytes.
func (x *Exec) ube(bits int, s *Term) *Term {
	c := x.c
	f := fmt.Sprintf("ube%d", bits)
	if s.op == fmt.Sprintf("be%d", bits) {
		n := s.args[0]
		if n.lo != nil && n.lo.Sign() >= 0 && n.hi != nil && n.hi.Cmp(pow2(uint(bits))) < 0 {
			return n
		}
	}
	all := true
	v := new(big.Int)
	for i := 0; i < bits/8; i++ {
		b := c.Nth(s, c.I(int64(i)))
		if !b.isInt() {
			all = false
			break
		}
		v.Lsh(v, 8).Or(v, b.ival)
	}
	if all {
		return c.Big(v)
	}
	t := c.Fun(f, c.Int, s)
	if t.lo == nil {
		t.lo, t.hi = bigZero, new(big.Int).Sub(pow2(uint(bits)), bigOne)
	}
	x.beAxioms(bits)
	return t
}

func (x *Exec) beAxioms(bits int) {
	c := x.c
	k := bits / 8
	b, u := fmt.Sprintf("be%d", bits), fmt.Sprintf("ube%d", bits)
	if c.axioms["ax_"+b] {
		return
	}
	c.axioms["ax_"+b] = true
	v := c.Var("bv", c.B)
	n := c.Var("bn", c.Int)
	c.Fun(b, c.B, n)
	c.Fun(u, c.Int, v)
	lim := pow2(uint(bits))
	c.AxiomRaw(fmt.Sprintf("(forall ((n Int)) (! (and (= (len_B (%s n)) %d) (=> (and (<= 0 n) (< n %s)) (= (%s (%s n)) n))) :pattern ((%s n))))", b, k, lim, u, b, b))
	c.AxiomRaw(fmt.Sprintf("(forall ((s B)) (! (and (<= 0 (%s s)) (< (%s s) %s) (=> (= (len_B s) %d) (= (%s (%s s)) s))) :pattern ((%s s))))", u, u, lim, k, b, u, u))
	// bytes of the encoding
	for i := 0; i < k; i++ {
		d := pow2(uint(8 * (k - 1 - i)))
		c.AxiomRaw(fmt.Sprintf("(forall ((n Int)) (! (=> (and (<= 0 n) (< n %s)) (= (nth_B (%s n) %d) (mod (div n %s) 256))) :pattern ((nth_B (%s n) %d))))", lim, b, i, d, b, i))
	}
}

// strFun applies an uninterpreted string function with memoised facts.
func (x *Exec) strFun(name string, s *Term) *Term {
	c := x.c
	if n, ok := litTabGet(s.op); ok {
		switch name {
		case "lower":
			return c.Str(strings.ToLower(n))
		case "upper":
			return c.Str(strings.ToUpper(n))
		case "trimspace":
			return c.Str(strings.TrimSpace(n))
		case "title":
			if isASCII(n) && !strings.ContainsAny(n, " \t") {
				return c.Str(asciiTitle(n))
			}
		}
	}
	if name == "title" && s.op == "fn_title" {
		return s // idempotent (assumed of the library)
	}
	t := c.Fun("fn_"+name, c.B, s)
	if name == "title" {
		c.Axiom("title_idem", "(forall ((s B)) (! (= (fn_title (fn_title s)) (fn_title s)) :pattern ((fn_title (fn_title s)))))")
	}
	return t
}

func litTabGet(op string) (string, bool) {
	if !strings.HasPrefix(op, "lit_") {
		return "", false
	}
	litMu.Lock()
	defer litMu.Unlock()
	s, ok := litTab[op]
	return s, ok
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

// asciiTitle mirrors cases.Title(language.Und) on a word of ASCII letters, digits and hyphens.
func asciiTitle(s string) string {
	b := []byte(strings.ToLower(s))
	start := true
	for i := range b {
		isL := b[i] >= 'a' && b[i] <= 'z'
		isD := b[i] >= '0' && b[i] <= '9'
		if start && isL {
			b[i] -= 32
		}
		start = !isL && !isD
	}
	return string(b)
}

func (x *Exec) errIs(a, b *Term) *Term {
	c := x.c
	if a == b {
		return c.True
	}
	t := c.Fun("errIs", c.Bool, a, b)
	c.Axiom("errIs_refl", "(forall ((a Iface)) (! (errIs a a) :pattern ((errIs a a))))")
	return t
}

// isPrefix: a is a prefix of b.
func (x *Exec) isPrefix(a, b *Term) *Term {
	c := x.c
	if a == b || c.Len(a) == c.I(0) {
		return c.True
	}
	fa, fb := c.flatCat(a), c.flatCat(b)
	for len(fa) > 0 && len(fb) > 0 && fa[0] == fb[0] {
		fa, fb = fa[1:], fb[1:]
	}
	if len(fa) == 0 {
		return c.True
	}
	ra, rb := c.catAll(a.sort, fa), c.catAll(b.sort, fb)
	// sub(s,0,k) of the remaining head
	if ra.op == "sub_"+ra.sort.Name && ra.args[0] == rb && ra.args[1] == c.I(0) && c.subOK(ra.args[0], ra.args[1], ra.args[2]) {
		return c.True
	}
	n := a.sort.Name
	c.Fun("pfx_"+n, c.Bool, ra, rb)
	c.Axiom("pfx_"+n, strings.ReplaceAll("(forall ((a {N}) (b {N})) (! (= (pfx_{N} a b) (and (<= (len_{N} a) (len_{N} b)) (eq_{N} a (sub_{N} b 0 (len_{N} a))))) :pattern ((pfx_{N} a b))))", "{N}", n))
	c.Axiom("pfxT_"+n, strings.ReplaceAll("(forall ((a {N}) (b {N}) (d {N})) (! (=> (and (pfx_{N} a b) (pfx_{N} b d)) (pfx_{N} a d)) :pattern ((pfx_{N} a b) (pfx_{N} b d))))", "{N}", n))
	c.Axiom("pfxC_"+n, strings.ReplaceAll("(forall ((a {N}) (b {N}) (d {N})) (! (=> (pfx_{N} (cat_{N} a b) d) (pfx_{N} a d)) :pattern ((pfx_{N} (cat_{N} a b) d))))", "{N}", n))
	return c.App("pfx_"+n, c.Bool, ra, rb)
}

// callDef expands a macro, or applies a recursive or uninterpreted function.
func (e *Env) callDef(d *Def, args []SV) SV {
	c := e.x.c
	if len(args) != len(d.Params) {
		evalFail("%s: %d arguments expected", d.Name, len(d.Params))
	}
	coerce := func(i int) SV {
		a := args[i]
		if d.Params[i].Type == "" {
			return a
		}
		s, gt := e.x.specSort(d.Params[i].Type)
		if a.T == nil {
			if gt == nil {
				evalFail("%s: nil argument", d.Name)
			}
			return SV{c.Zero(gt), gt}
		}
		if a.T.sort != s {
			a = SV{e.seqVal(a), nil}
		}
		if a.T.sort != s {
			evalFail("%s: argument %s has sort %s, want %s", d.Name, d.Params[i].Name, a.T.sort.Name, s.Name)
		}
		if gt == nil {
			gt = a.GT
		}
		return SV{a.T, gt}
	}
	if d.Uninterp {
		var ts []*Term
		for i := range args {
			ts = append(ts, coerce(i).T)
		}
		s, gt := e.x.specSort(d.Ret)
		return SV{c.Fun("u_"+d.Name, s, ts...), gt}
	}
	if !d.Rec {
		n := *e
		n.vars = map[string]SV{}
		for i, p := range d.Params {
			n.vars[p.Name] = coerce(i)
		}
		n.fuel = e.fuel + 1
		if n.fuel > 200 {
			evalFail("%s: definition too deep", d.Name)
		}
		v := n.eval(d.Body)
		return v
	}
	var ts []*Term
	for i := range args {
		ts = append(ts, coerce(i).T)
	}
	return e.x.recApp(d, ts, e)
}

// recApp applies a recursive function, unfolding when its guard is decided.
func (x *Exec) recApp(d *Def, ts []*Term, e *Env) SV {
	c := x.c
	s, gt := x.specSort(d.Ret)
	if d.Body.Op == "ite" && x.recDepth < 70 {
		n := &Env{x: x, st: e.st, vars: map[string]SV{}, pkg: e.pkg}
		for i, p := range d.Params {
			_, pgt := x.specSort(p.Type)
			n.vars[p.Name] = SV{ts[i], pgt}
		}
		g := n.bool(d.Body.Args[0])
		if g.op == "true" || g.op == "false" {
			x.recDepth++
			defer func() { x.recDepth-- }()
			if g.op == "true" {
				return SV{n.eval(d.Body.Args[1]).T, gt}
			}
			return SV{n.eval(d.Body.Args[2]).T, gt}
		}
	}
	name := "r_" + d.Name
	t := c.Fun(name, s, ts...)
	if c.hooks[name] == nil {
		c.hooks[name] = func(a []*Term) *Term {
			return x.recApp(d, a, &Env{x: x, st: &State{heap: map[string]*Term{}}, pkg: x.pkg}).T
		}
	}
	if !c.axioms["def_"+name] {
		c.axioms["def_"+name] = true
		n := &Env{x: x, st: e.st, vars: map[string]SV{}, pkg: e.pkg}
		var vs []*Term
		for _, p := range d.Params {
			ps, pgt := x.specSort(p.Type)
			v := c.BoundVar(p.Name, ps)
			vs = append(vs, v)
			n.vars[p.Name] = SV{v, pgt}
		}
		x.recDepth += 1000 // no eager unfolding inside
		body := n.eval(d.Body).T
		x.recDepth -= 1000
		lhs := c.App(name, s, vs...)
		// fuel: occurrences in the body use name0
		body0 := x.renameFun(body, name, name+"0")
		c.Fun(name+"0", s, ts...)
		lhs0 := c.App(name+"0", s, vs...)
		c.asserts = append(c.asserts, bgAssert{s: "(assert (forall " + quantBody(vs, c.App("=", c.Bool, lhs, body0), lhs) + "))"},
			bgAssert{s: "(assert (forall " + quantBody(vs, c.App("=", c.Bool, lhs, lhs0), lhs) + "))"})
	}
	return SV{t, gt}
}

func quantBody(vs []*Term, body, pat *Term) string {
	var b strings.Builder
	b.WriteString("(")
	for _, v := range vs {
		fmt.Fprintf(&b, "(%s %s)", v.op, v.sort.Name)
	}
	b.WriteString(") (! ")
	m := map[*Term]string{}
	printTerm(&b, body, m, 0)
	b.WriteString(" :pattern (")
	printTerm(&b, pat, m, 0)
	b.WriteString("))")
	return b.String()
}

func (x *Exec) renameFun(t *Term, from, to string) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if t.op == from {
			r = x.c.Fun(to, t.sort, args...)
		} else if ch {
			r = x.c.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// noMod drops the reduction of x to a byte where 0 <= x <= hi <= 255.
func (c *Ctx) noMod(t, x, hi *Term) *Term {
	if hi.isInt() && hi.ival.Cmp(big64(255)) <= 0 && x.lo != nil && x.lo.Sign() >= 0 {
		if m := c.ModK(x, big64(256)); m != x {
			return c.Subst(t, map[*Term]*Term{m: x})
		}
	}
	return t
}
