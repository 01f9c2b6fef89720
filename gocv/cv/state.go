package cv

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const baseCtr = 1000000

// Val is a symbolic Go value.
type Val struct {
	T   *Term
	Tup []*Term
}

type lockEnt struct {
	mu   *Term
	mode byte // 'W' or 'R'
	spec *LockSpec
	obj  *Term
	heap map[string]*Term // when it was acquired
}

// Event is a recorded observable action on a path.
type Event struct {
	Kind string // "go", "call"
	Key  string
	Args []*Term
	Typs []types.Type
	Fn   *Term
}

type deferEnt struct {
	call *ssa.CallCommon
	args []*Term
	fn   *Term
	pos  ssa.Instruction
}

// State is a symbolic state on one path.
type State struct {
	heap    map[string]*Term
	pc      []*Term
	locks   []lockEnt
	defers  map[int][]deferEnt
	events  []Event
	inplace bool             // a goroutine was run in place
	base    map[string]*Term // what the frame condition compares with, where it is not the entry heap
	locked  map[string]*Term // heap snapshot at the last lock acquisition
	lockN   int              // which acquisition that was
	rel     map[string]*Term // heap at the acquisition (or loop head) of the lock released last
	dead    bool
	visited string // ghost key of the innermost map range
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], locks: s.locks[:len(s.locks):len(s.locks)], events: s.events[:len(s.events):len(s.events)], locked: s.locked, lockN: s.lockN, rel: s.rel, base: s.base, inplace: s.inplace, visited: s.visited}
	n.heap = make(map[string]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.defers = make(map[int][]deferEnt, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	return n
}

type keyInfo struct {
	sort *Sort // array sort
	refs bool
	typ  types.Type // Go type of one entry (nil for ghosts)
}

type addrInfo struct {
	elem  bool
	key   string     // root type name, or E key
	rootT types.Type // root object type, or element type
	path  []int
	typ   types.Type // type at the address
}

// Loc is a decoded address.
type Loc struct {
	addrInfo
	base *Term
	idx  *Term
	ptr  *Term
}

func pathStr(t types.Type, path []int) string {
	var ns []string
	for _, i := range path {
		st := t.Underlying().(*types.Struct)
		n := st.Field(i).Name()
		if n == "_" {
			n = fmt.Sprintf("_%d", i)
		}
		ns = append(ns, n)
		t = st.Field(i).Type()
	}
	return strings.Join(ns, ".")
}

// heapTerm returns the current heap for key, creating the initial one.
func (x *Exec) heapTerm(st *State, key string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	return x.heapIn(st.heap, key)
}

// epochKey stands in a heap for the last call that may have changed everything: a key first
// mentioned after that call holds a value of its own, not the one it had on entry.
const epochKey = "!epoch"
const lockedKey = "!locked"

type epoch struct {
	ctr, born int
	vars      map[string]*Term
}

// heapIn is heapTerm for a heap map.
func (x *Exec) heapIn(heap map[string]*Term, key string) *Term {
	if t, ok := heap[key]; ok {
		return t
	}
	e, ok := heap[epochKey]
	if !ok || x.immut(key) || epochFree(key) {
		return x.initHeap(key)
	}
	ep := x.epochs[e.ival.Int64()]
	t, ok := ep.vars[key]
	if !ok {
		t = x.heapVar(key, "ep", ep.ctr)
		t.born = ep.born
		ep.vars[key] = t
	}
	return t
}

func epochFree(k string) bool {
	return strings.HasPrefix(k, "V|") || strings.HasPrefix(k, "VO|") || strings.HasPrefix(k, "CN|")
}

// newEpoch forgets the whole heap.
func (x *Exec) newEpoch(st *State, ctr0, ctr1 int) {
	for _, k := range sortedKeys(x.keys) {
		if epochFree(k) {
			continue
		}
		if x.immut(k) {
			x.growKey(st, k, ctr0, ctr1)
			continue
		}
		st.heap[k] = x.heapVar(k, "hv", ctr1)
	}
	st.heap[epochKey] = x.c.I(int64(len(x.epochs)))
	x.epochs = append(x.epochs, &epoch{ctr: ctr1, born: x.c.nvar, vars: map[string]*Term{}})
}

func (x *Exec) initHeap(key string) *Term {
	if t, ok := x.init[key]; ok {
		return t
	}
	ki := x.keys[key]
	if ki == nil {
		panic("unknown heap key " + key)
	}
	t := x.heapVar(key, "H", baseCtr)
	t.born = 0 // whenever it is first mentioned, it stands for the entry state
	x.init[key] = t
	return t
}

// heapVar makes a fresh heap variable whose references are below ctr.
func (x *Exec) heapVar(key, hint string, ctr int) *Term {
	ki := x.keys[key]
	t := x.c.Var(hint+"_"+key, ki.sort)
	if ki.refs {
		t.below = ctr
	}
	if strings.HasPrefix(key, "E|") {
		x.c.arrVar[t.op] = true
		n := ki.sort.Val.Name
		x.c.AxiomRaw(fmt.Sprintf("(forall ((r Int)) (! (= (len_%s (select %s r)) (arrlen r)) :pattern ((select %s r))))", n, t.op, t.op))
	}
	return t
}

func (x *Exec) key(key string, val *Sort, refs bool, t types.Type) string {
	if _, ok := x.keys[key]; !ok {
		x.keys[key] = &keyInfo{sort: x.c.Array(x.c.Int, val), refs: refs, typ: t}
		if strings.HasPrefix(key, "E|") {
			x.c.Fun("arrlen", x.c.Int, x.c.I(0))
			x.c.Axiom("arrlen", "(forall ((r Int)) (! (<= 0 (arrlen r)) :pattern ((arrlen r))))")
		}
	}
	return key
}

func normType(s string) string { return strings.ReplaceAll(s, "uint8", "byte") }

func (x *Exec) elemKey(elem types.Type) string {
	refs := hasRefs(elem)
	return x.key("E|"+normType(TypeName(elem)), x.c.SeqOf(elem), refs, elem)
}

func (x *Exec) cellKey(t types.Type) string {
	return x.key("C|"+normType(TypeName(t)), x.c.SortOf(t), hasRefs(t), t)
}

func (x *Exec) fieldKey(root types.Type, path []int, t types.Type) string {
	return x.key("F|"+TypeName(root)+"|"+pathStr(root, path), x.c.SortOf(t), hasRefs(t), t)
}

func (x *Exec) mapKeys(m *types.Map) (dom, val string) {
	n := normType(TypeName(m.Key())) + "|" + normType(TypeName(m.Elem()))
	ks, vs := x.c.SortOf(m.Key()), x.c.SortOf(m.Elem())
	dom = x.key("MD|"+n, x.c.Array(ks, x.c.Bool), false, nil)
	val = x.key("MV|"+n, x.c.Array(ks, vs), hasRefs(m.Elem()), nil)
	return
}

func (x *Exec) chanKey(t types.Type) string {
	s := x.c.Seq(x.c.SortOf(t))
	if isByte(t) {
		s = x.c.B
	}
	return x.key("CS|"+normType(TypeName(t)), s, hasRefs(t), nil)
}

func (x *Exec) rcvdKey(t types.Type) string {
	s := x.c.Seq(x.c.SortOf(t))
	if isByte(t) {
		s = x.c.B
	}
	return x.key("CR|"+normType(TypeName(t)), s, hasRefs(t), nil)
}

func (x *Exec) closedKey(t types.Type) string {
	return x.key("CC|"+TypeName(t.Underlying().(*types.Chan).Elem()), x.c.Bool, false, nil)
}
func (x *Exec) outKey() string { return x.key("G|out", x.c.B, false, nil) }

// takenKey: a slice of the buffer's memory may be around.
func (x *Exec) takenKey() string { return x.key("BT|taken", x.c.Bool, false, nil) }

// bufMutate forgets the contents of slices that may alias a buffer about to change.
// Only buffers allocated in the function under verification are tracked.
func (x *Exec) bufMutate(st *State, ptr *Term) {
	k := x.takenKey()
	if ptr.op != "int" || st.heap[k] == nil {
		return
	}
	if x.c.Select(x.heapTerm(st, k), ptr) == x.c.False {
		return
	}
	ek := x.elemKey(types.Typ[types.Byte])
	h := x.heapTerm(st, ek)
	nv := x.heapVar(ek, "bm", x.ctr)
	ctr := int(ptr.ival.Int64())
	x.c.ext[nv.op] = extInfo{old: h, ctr: ctr}
	x.extAxiom(nv, h, ctr)
	st.heap[ek] = nv
}

// ---- addresses

func (x *Exec) mkAddr(ai addrInfo, base, idx *Term) *Term {
	desc := fmt.Sprintf("%v|%s|%v", ai.elem, ai.key, ai.path)
	op, ok := x.addrID[desc]
	if !ok {
		op = fmt.Sprintf("adr@%d", len(x.addrID)+1)
		x.addrID[desc] = op
		a := ai
		x.addrs[op] = &a
		n := len(x.addrID)
		if t, ok := ai.typ.Underlying().(*types.Array); ok {
			x.c.adrLen[op] = t.Len()
		}
		x.c.Fun("akind", x.c.Int, x.c.I(0))
		if ai.elem {
			x.c.Fun(op, x.c.Int, x.c.I(0), x.c.I(0))
			x.c.decls = append(x.c.decls, fmt.Sprintf("(declare-fun %s_a (Int) Int)", op), fmt.Sprintf("(declare-fun %s_i (Int) Int)", op))
			x.c.AxiomRaw(fmt.Sprintf("(forall ((b Int) (i Int)) (! (and (< (%s b i) 0) (= (akind (%s b i)) %d) (= (%s_a (%s b i)) b) (= (%s_i (%s b i)) i)) :pattern ((%s b i))))", op, op, n, op, op, op, op, op))
		} else {
			x.c.Fun(op, x.c.Int, x.c.I(0))
			x.c.decls = append(x.c.decls, fmt.Sprintf("(declare-fun %s_a (Int) Int)", op))
			x.c.AxiomRaw(fmt.Sprintf("(forall ((b Int)) (! (and (< (%s b) 0) (= (akind (%s b)) %d) (= (%s_a (%s b)) b)) :pattern ((%s b))))", op, op, n, op, op, op))
		}
	}
	var t *Term
	if ai.elem {
		t = x.c.App(op, x.c.Int, base, idx)
	} else {
		t = x.c.App(op, x.c.Int, base)
	}
	if t.hi == nil {
		t.hi = big64(-1)
	}
	return t
}

// locOf decodes a pointer term to a location of type t.
func (x *Exec) locOf(ptr *Term, t types.Type) Loc {
	t = types.Unalias(t)
	if ai, ok := x.addrs[ptr.op]; ok {
		l := Loc{addrInfo: *ai, base: ptr.args[0], ptr: ptr}
		if ai.elem {
			l.idx = ptr.args[1]
		}
		return l
	}
	return Loc{addrInfo: addrInfo{key: TypeName(t), rootT: t, typ: t}, base: ptr, ptr: ptr}
}

func (x *Exec) fieldLoc(l Loc, i int) Loc {
	st := l.typ.Underlying().(*types.Struct) // fields of external structs are cells of their own
	n := Loc{addrInfo: addrInfo{elem: l.elem, key: l.key, rootT: l.rootT, path: append(l.path[:len(l.path):len(l.path)], i), typ: st.Field(i).Type()}, base: l.base, idx: l.idx}
	n.ptr = x.mkAddr(n.addrInfo, n.base, n.idx)
	return n
}

// arrRef is the backing-array reference of an array-typed location.
func (x *Exec) arrRef(l Loc) *Term { return l.ptr }

func (x *Exec) elemLoc(arr, idx *Term, elem types.Type) Loc {
	n := Loc{addrInfo: addrInfo{elem: true, key: x.elemKey(elem), rootT: elem, typ: elem}, base: arr, idx: idx}
	n.ptr = x.mkAddr(n.addrInfo, arr, idx)
	return n
}

func (x *Exec) leafKey(l Loc) string {
	if len(l.path) == 0 {
		return x.cellKey(l.typ)
	}
	return x.fieldKey(l.rootT, l.path, l.typ)
}

// read loads the value at l.
func (x *Exec) read(st *State, l Loc) *Term {
	c := x.c
	if l.elem {
		h := x.heapTerm(st, l.key)
		v := c.Nth(c.Select(h, l.base), l.idx)
		x.facts(v, l.rootT)
		t := l.rootT
		for _, i := range l.path {
			v = c.Field(v, i)
			t = structOf(t).Field(i).Type()
		}
		x.facts(v, t)
		return v
	}
	if s := structOf(l.typ); s != nil {
		if s.NumFields() == 0 {
			return c.Zero(l.typ)
		}
		var args []*Term
		for i := 0; i < s.NumFields(); i++ {
			args = append(args, x.read(st, x.fieldLoc(l, i)))
		}
		return c.Cons(c.SortOf(l.typ), args...)
	}
	if a := arrayOf(l.typ); a != nil && !isOpaque(l.typ) {
		k := x.elemKey(a.Elem())
		v := c.Select(x.heapTerm(st, k), x.arrRef(l))
		x.facts(v, l.typ)
		if v.op == "select" {
			c.AssertBG(c.App("=", c.Bool, c.ArrLen(x.arrRef(l)), c.I(a.Len())))
		}
		return v
	}
	k := x.leafKey(l)
	v := c.Select(x.heapTerm(st, k), l.base)
	x.facts(v, l.typ)
	if strings.HasPrefix(k, "F|") && (v.op == "select" || len(v.args) == 0 && strings.HasPrefix(v.op, "lk!")) {
		if t := x.typeInv(k, v); t != nil && !v.bound {
			c.AssertBG(t)
		}
	}
	return v
}

// typeInv is what a field declared nonnil or between promises of its value v.
func (x *Exec) typeInv(k string, v *Term) *Term {
	c := x.c
	nn := strings.Replace(k[2:], "|", ".", 1)
	if x.specs.NonNil[nn] {
		switch v.sort {
		case c.Iface:
			return c.App("not", c.Bool, c.App("=", c.Bool, c.tag(v), c.I(0)))
		case c.Int:
			return c.App("not", c.Bool, c.App("=", c.Bool, v, c.I(0)))
		}
	}
	if r, ok := x.specs.Between[nn]; ok && v.sort == c.Int {
		return c.App("and", c.Bool, c.App("<=", c.Bool, c.I(r[0]), v), c.App("<=", c.Bool, v, c.I(r[1])))
	}
	return nil
}

// storeCheck: a value stored in a field declared nonnil or between keeps the promise.
func (x *Exec) storeCheck(st *State, l Loc, v *Term) {
	c := x.c
	if l.elem || structOf(l.typ) != nil || arrayOf(l.typ) != nil {
		return
	}
	k := x.leafKey(l)
	if !strings.HasPrefix(k, "F|") {
		return
	}
	nn := strings.Replace(k[2:], "|", ".", 1)
	var goal *Term
	if x.specs.NonNil[nn] {
		switch v.sort {
		case c.Iface:
			goal = c.Not(c.Eq(c.tag(v), c.I(0)))
		case c.Int:
			goal = c.Not(c.Eq(v, c.I(0)))
		}
	} else if r, ok := x.specs.Between[nn]; ok && v.sort == c.Int {
		goal = c.And(c.Le(c.I(r[0]), v), c.Le(v, c.I(r[1])))
	}
	if goal != nil && !st.dead {
		x.prove(st, goal, x.root.Key+"/typeinv:"+nn, "typeinv", nil, "", nn+" keeps its declared range")
	}
}

// write stores v at l.
func (x *Exec) write(st *State, l Loc, v *Term) {
	c := x.c
	if l.elem {
		h := x.heapTerm(st, l.key)
		s := c.Select(h, l.base)
		nv := v
		if len(l.path) > 0 {
			nv = x.updPath(c.Nth(s, l.idx), l.path, v)
		}
		st.heap[l.key] = c.Store(h, l.base, c.Upd(s, l.idx, nv))
		return
	}
	if s := structOf(l.typ); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			x.write(st, x.fieldLoc(l, i), c.Field(v, i))
		}
		return
	}
	if a := arrayOf(l.typ); a != nil && !isOpaque(l.typ) {
		k := x.elemKey(a.Elem())
		st.heap[k] = c.Store(x.heapTerm(st, k), x.arrRef(l), v)
		return
	}
	k := x.leafKey(l)
	st.heap[k] = c.Store(x.heapTerm(st, k), l.base, v)
	if TypeName(l.typ) == "bytes.Buffer" {
		if l.ptr.op == "int" {
			tk := x.takenKey()
			st.heap[tk] = c.Store(x.heapTerm(st, tk), l.ptr, c.False)
		}
		ok := x.outKey()
		st.heap[ok] = c.Store(x.heapTerm(st, ok), l.ptr, c.Empty(c.B))
	}
}

func (x *Exec) updPath(v *Term, path []int, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	c := x.c
	args := make([]*Term, len(v.sort.DT.Fields))
	for i := range args {
		args[i] = c.Field(v, i)
	}
	args[path[0]] = x.updPath(args[path[0]], path[1:], nv)
	return c.Cons(v.sort, args...)
}

// facts asserts the background type facts of an opaque closed term.
func (x *Exec) facts(v *Term, t types.Type) {
	if v.bound || v.op == "int" || x.factDone[v] {
		return
	}
	x.factDone[v] = true
	var fs []*Term
	x.c.TypeFacts(v, t, &fs)
	for _, f := range fs {
		x.c.AssertBG(f)
	}
	if v.sort == x.c.Int && isRef(t) {
		x.c.fact(v)
	}
	if isIface(t) {
		x.c.fact(x.c.val(v))
	}
}

// refFact is called for reference-valued terms.
func (x *Exec) refFact(t *Term) {
	if strings.HasPrefix(t.op, "arrlen") {
		return
	}
	if t.below > 0 && t.op != "int" && !strings.HasPrefix(t.op, "adr@") {
		x.c.AssertBG(x.c.App("<", x.c.Bool, t, x.c.I(int64(t.below))))
	}
}

// fresh allocates a new reference literal.
func (x *Exec) fresh() *Term {
	x.ctr++
	return x.c.I(int64(x.ctr - 1))
}

// bump reserves references for allocations done by unseen code.
func (x *Exec) bump() int {
	x.ctr += 1000
	return x.ctr
}

// alloc allocates a zeroed object of type t.
func (x *Exec) alloc(st *State, t types.Type) *Term {
	r := x.fresh()
	l := x.locOf(r, t)
	if a := arrayOf(t); a != nil && !isOpaque(t) {
		x.c.AssertBG(x.c.App("=", x.c.Bool, x.c.Fun("arrlen", x.c.Int, r), x.c.I(a.Len())))
		x.c.alens[r] = x.c.I(a.Len())
	}
	x.zero(st, l)
	return r
}

func (x *Exec) zero(st *State, l Loc) {
	if s := structOf(l.typ); s != nil && !l.elem {
		for i := 0; i < s.NumFields(); i++ {
			x.zero(st, x.fieldLoc(l, i))
		}
		return
	}
	x.write(st, l, x.c.Zero(l.typ))
	if TypeName(l.typ) == "sync.Once" && l.ptr != nil {
		x.gSet(st, "once", x.c.Bool, l.ptr, x.c.False)
	}
}

// havocVal makes an unconstrained value of type t.
func (x *Exec) havocVal(hint string, t types.Type) *Term {
	if tp, ok := t.(*types.Tuple); ok {
		_ = tp
		panic("havocVal of tuple")
	}
	if s := structOf(t); s != nil && s.NumFields() == 0 {
		return x.c.Zero(t)
	}
	v := x.c.VarOf(hint, t, x.ctr)
	x.facts(v, t)
	return v
}

// ---- boxes

func (x *Exec) typeID(t types.Type) *Term {
	t = types.Unalias(t)
	n := strings.ReplaceAll(strings.ReplaceAll(normType(types.TypeString(t, nil)), "interface {}", "any"), "interface{}", "any")
	id, ok := x.tags[n]
	if !ok {
		id = int64(len(x.tags) + 1)
		x.tags[n] = id
		x.tagT[id] = t
	}
	return x.c.I(id)
}

func (x *Exec) mkIface(v *Term, t types.Type) *Term {
	if isIface(t) {
		return v
	}
	return x.c.Cons(x.c.Iface, x.typeID(t), x.box(v, t))
}

func (x *Exec) box(v *Term, t types.Type) *Term {
	if isRef(t) {
		return v
	}
	n := v.sort.Name
	f := "box_" + sanitize(n)
	if v.op == "unbox_"+sanitize(n) {
		return v.args[0]
	}
	b := x.c.Fun(f, x.c.Int, v)
	if b.hi == nil {
		b.hi = big64(-1)
	}
	if _, ok := x.c.funDecl["unbox_"+sanitize(n)]; !ok {
		x.c.Fun("unbox_"+sanitize(n), v.sort, b)
		x.c.AxiomRaw(fmt.Sprintf("(forall ((v %s)) (! (and (< (%s v) 0) (= (unbox_%s (%s v)) v)) :pattern ((%s v))))", n, f, sanitize(n), f, f))
	}
	return b
}

func (x *Exec) unbox(i *Term, t types.Type) *Term {
	if isRef(t) {
		return i
	}
	s := x.c.SortOf(t)
	if i.op == "box_"+sanitize(s.Name) {
		return i.args[0]
	}
	x.box(x.c.Zero(t), t) // declare
	v := x.c.Fun("unbox_"+sanitize(s.Name), s, i)
	x.facts(v, t)
	return v
}

// AxiomRaw adds a background assertion given as text.
func (c *Ctx) AxiomRaw(smt string) { c.Axiom(smt, smt) }

// seqOf is the content of a slice.
func (x *Exec) seqOf(st *State, s *Term, elem types.Type) *Term {
	c := x.c
	if s.sort != c.Sl {
		panic("seqOf " + s.sort.Name)
	}
	k := x.elemKey(elem)
	a, o, l := c.arr(s), c.off(s), c.ln(s)
	if l.isInt() && l.ival.Sign() == 0 {
		return c.Empty(c.SeqOf(elem))
	}
	h := x.heapTerm(st, k)
	if a.op == "ite" && a.size < 60 { // keep it simple: no merge of states
	}
	return c.SubSeq(c.Select(h, a), o, c.Add(o, l))
}

// viewOf maps a sequence of byte slices to the sequence of their contents.
func (x *Exec) viewOf(eb, s *Term) *Term {
	c := x.c
	n := s.sort.Name
	sb := c.Seq(c.B)
	bytesOf := func(e *Term) *Term {
		return c.SubSeq(c.Select(eb, c.arr(e)), c.off(e), c.Add(c.off(e), c.ln(e)))
	}
	switch s.op {
	case "empty_" + n:
		return c.Empty(sb)
	case "unit_" + n:
		return c.Unit(sb, bytesOf(s.args[0]))
	case "cat_" + n:
		return c.Cat(x.viewOf(eb, s.args[0]), x.viewOf(eb, s.args[1]))
	case "sub_" + n:
		if c.subOK(s.args[0], s.args[1], s.args[2]) || true {
			return c.SubSeq(x.viewOf(eb, s.args[0]), s.args[1], s.args[2])
		}
	case "upd_" + n:
		return c.Upd(x.viewOf(eb, s.args[0]), s.args[1], bytesOf(s.args[2]))
	case "rep_" + n:
		return c.Rep(sb, bytesOf(s.args[0]), s.args[1])
	case "ite":
		return c.Ite(s.args[0], x.viewOf(eb, s.args[1]), x.viewOf(eb, s.args[2]))
	}
	// strip stores to arrays younger than everything in s
	h := eb
	if s.below != 0 {
		for {
			if h.op == "store" && x.youngRef(h.args[1], s.below) {
				h = h.args[0]
				continue
			}
			if e, ok := c.ext[h.op]; ok && len(h.args) == 0 && s.below <= e.ctr {
				h = e.old
				continue
			}
			if h.op == "store" {
				// look below an irrelevant store hidden under a relevant one: rebuild
				in := h.args[0]
				st := x.stripStores(in, s.below)
				if st != in {
					h = c.Store(st, h.args[1], h.args[2])
				}
			}
			break
		}
	}
	c.Fun("viewS", sb, h, s)
	c.Axiom("viewS", "(forall ((h (Array Int B)) (s Seq_Sl)) (! (= (len_Seq_B (viewS h s)) (len_Seq_Sl s)) :pattern ((viewS h s))))")
	c.Axiom("viewS2", "(forall ((h (Array Int B)) (s Seq_Sl) (i Int)) (! (=> (and (<= 0 i) (< i (len_Seq_Sl s))) (= (nth_Seq_B (viewS h s) i) (let ((e (nth_Seq_Sl s i))) (sub_B (select h (Sl_arr e)) (Sl_off e) (+ (Sl_off e) (Sl_ln e)))))) :pattern ((nth_Seq_B (viewS h s) i))))")
	return c.App("viewS", sb, h, s)
}

// noArr says that no element of a sequence of slices lies in array r.
func (x *Exec) noArr(s, r *Term) *Term {
	c := x.c
	n := s.sort.Name
	switch s.op {
	case "empty_" + n:
		return c.True
	case "unit_" + n:
		return c.Not(c.Eq(c.arr(s.args[0]), r))
	case "cat_" + n:
		return c.And(x.noArr(s.args[0], r), x.noArr(s.args[1], r))
	}
	if s.below != 0 && x.youngRef(r, s.below) {
		return c.True
	}
	c.Fun("noarr", c.Bool, s, r)
	c.Axiom("noarr", "(forall ((s Seq_Sl) (r Int) (i Int)) (! (=> (and (noarr s r) (<= 0 i) (< i (len_Seq_Sl s))) (not (= (Sl_arr (nth_Seq_Sl s i)) r))) :pattern ((noarr s r) (nth_Seq_Sl s i))))")
	c.Axiom("noarr2", "(forall ((s Seq_Sl) (r Int)) (! (or (noarr s r) (exists ((i Int)) (and (<= 0 i) (< i (len_Seq_Sl s)) (= (Sl_arr (nth_Seq_Sl s i)) r)))) :pattern ((noarr s r))))")
	return c.App("noarr", c.Bool, s, r)
}

// viewStrip drops stores to arrays that hold no element of s[lo:hi].
func (x *Exec) viewStrip(v, lo, hi *Term) *Term {
	c := x.c
	if c.ctx == nil || len(c.ctx.noarr) == 0 {
		return nil
	}
	var rs []*Term
	for _, f := range c.ctx.noarr {
		q := f[0]
		if q == v.args[1] {
			rs = append(rs, f[1])
		} else if strings.HasPrefix(q.op, "sub_") && q.args[0] == v.args[1] && c.Le(q.args[1], lo) == c.True && c.Le(hi, q.args[2]) == c.True {
			rs = append(rs, f[1])
		}
	}
	if len(rs) == 0 {
		return nil
	}
	var strip func(h *Term) *Term
	strip = func(h *Term) *Term {
		if h.op != "store" {
			return h
		}
		in := strip(h.args[0])
		for _, r := range rs {
			if r == h.args[1] {
				return in
			}
		}
		if in != h.args[0] {
			return c.Store(in, h.args[1], h.args[2])
		}
		return h
	}
	if h := strip(v.args[0]); h != v.args[0] {
		return x.viewOf(h, v.args[1])
	}
	return nil
}

// youngRef says that reference r is known not to be below the given mark.
func (x *Exec) youngRef(r *Term, below int) bool {
	if strings.HasPrefix(r.op, "adr@") {
		r = r.args[0]
	}
	if r.isInt() {
		return r.ival.Cmp(big.NewInt(int64(below))) >= 0
	}
	return x.c.ctx != nil && x.c.Le(x.c.I(int64(below)), r) == x.c.True
}

func (x *Exec) stripStores(h *Term, below int) *Term {
	c := x.c
	for {
		if h.op == "store" {
			if x.youngRef(h.args[1], below) {
				h = h.args[0]
				continue
			}
			in := x.stripStores(h.args[0], below)
			if in != h.args[0] {
				return c.Store(in, h.args[1], h.args[2])
			}
			return h
		}
		if e, ok := c.ext[h.op]; ok && len(h.args) == 0 && below <= e.ctr {
			h = e.old
			continue
		}
		return h
	}
}
