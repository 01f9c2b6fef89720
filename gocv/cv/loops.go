package cv

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	liveIn []ssa.Value
	fields []*ssa.FieldAddr // slice-typed fields of live-in structures
}

type loopCtx struct {
	info  *loopInfo
	probe bool
	back  func(st *State, phis []*Term)
	exits int
}

// loopOf returns the natural loop headed by b, or nil.
func (x *Exec) loopOf(fn *ssa.Function, b *ssa.BasicBlock) *loopInfo {
	if li, ok := x.loopMemo[b]; ok {
		return li
	}
	var li *loopInfo
	for _, p := range b.Preds {
		if !b.Dominates(p) {
			continue
		}
		if li == nil {
			li = &loopInfo{header: b, blocks: map[*ssa.BasicBlock]bool{b: true}}
		}
		work := []*ssa.BasicBlock{p}
		for len(work) > 0 {
			w := work[len(work)-1]
			work = work[:len(work)-1]
			if li.blocks[w] {
				continue
			}
			li.blocks[w] = true
			work = append(work, w.Preds...)
		}
	}
	if li != nil {
		seen := map[ssa.Value]bool{}
		for _, blk := range fn.Blocks {
			if !li.blocks[blk] {
				continue
			}
			for _, in := range blk.Instrs {
				for _, op := range in.Operands(nil) {
					v := *op
					if v == nil || seen[v] {
						continue
					}
					switch d := v.(type) {
					case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
						continue
					case ssa.Instruction:
						if li.blocks[d.Block()] {
							continue
						}
					}
					if _, ok := v.Type().(*types.Tuple); ok {
						continue
					}
					seen[v] = true
					li.liveIn = append(li.liveIn, v)
				}
			}
		}
	}
	if li == nil {
		x.loopMemo[b] = nil
		return nil
	}
	live := map[ssa.Value]bool{}
	for _, v := range li.liveIn {
		live[v] = true
	}
	type fk struct {
		x ssa.Value
		f int
	}
	dup := map[fk]bool{}
	for _, b := range fn.Blocks {
		if !li.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok || !live[fa.X] || dup[fk{fa.X, fa.Field}] {
				continue
			}
			if _, ok := fa.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice); ok {
				dup[fk{fa.X, fa.Field}] = true
				li.fields = append(li.fields, fa)
			}
		}
	}
	x.loopMemo[b] = li
	return li
}

// modInfo describes how a loop changes one heap.
type modInfo struct {
	refs  []*Term
	level int // 0: none; otherwise references >= level may change
	full  bool
}

type pseudo struct { // a value a candidate may talk about
	name string
	typ  types.Type
	get  func(st *State, phis []*Term) *Term
	mut  bool
}

type cand struct {
	name string
	eval func(st *State, phis []*Term, iter *Term) *Term
}

func (m *modInfo) addRef(r *Term) bool {
	for _, o := range m.refs {
		if o == r {
			return false
		}
	}
	m.refs = append(m.refs, r)
	return true
}

func (m *modInfo) addLevel(l int) bool {
	if m.level == 0 || l < m.level {
		m.level = l
		return true
	}
	return false
}

func (m *modInfo) addFull() bool {
	if m.full {
		return false
	}
	m.full = true
	return true
}

// diffHeap accumulates into mi how cur differs from base.
func (x *Exec) diffHeap(st *State, key string, cur, base *Term, mi *modInfo, entryVar, entryCtr int) bool {
	grew := false
	if mi.full {
		return false
	}
	var walk func(t *Term, depth int)
	classify := func(idx *Term) {
		r := idx
		for strings.HasPrefix(r.op, "adr@") {
			r = r.args[0]
		}
		if r.isInt() && r.ival.IsInt64() && r.ival.Int64() >= int64(entryCtr) {
			grew = mi.addLevel(entryCtr) || grew
			return
		}
		if idx.born <= entryVar {
			grew = mi.addRef(idx) || grew
			return
		}
		if mi.level != 0 && mi.level >= entryCtr || mi.level == 0 {
			if ok, _, _, _ := x.holds(st.pc, x.c.Le(x.c.I(int64(entryCtr)), r), 500, 0); ok {
				grew = mi.addLevel(entryCtr) || grew
				return
			}
		}
		if ok, _, _, _ := x.holds(st.pc, x.c.Le(x.c.I(baseCtr), r), 500, 0); ok {
			grew = mi.addLevel(baseCtr) || grew
			return
		}
		if os.Getenv("GOCV_LOOP") != "" {
			fmt.Fprintf(os.Stderr, "FULL %s idx %s\n", key, idx)
			for _, p := range st.pc {
				fmt.Fprintf(os.Stderr, "     %s\n", p)
			}
		}
		grew = mi.addFull() || grew
	}
	below := map[*Term]bool{} // what base is a store over (stores collapse)
	for t := base; t.op == "store"; {
		t = t.args[0]
		below[t] = true
	}
	walk = func(t *Term, depth int) {
		for t != base && !mi.full {
			if below[t] {
				for b := base; b != t; b = b.args[0] {
					classify(b.args[1])
				}
				return
			}
			switch {
			case t.op == "store":
				classify(t.args[1])
				t = t.args[0]
			case t.op == "ite" && depth < 6:
				walk(t.args[1], depth+1)
				walk(t.args[2], depth+1)
				return
			default:
				e, ok := x.c.ext[t.op]
				if !ok || len(t.args) != 0 || t.born <= entryVar {
					grew = mi.addFull() || grew
					return
				}
				switch {
				case e.ctr >= entryCtr:
					grew = mi.addLevel(entryCtr) || grew
				case e.ctr >= baseCtr:
					grew = mi.addLevel(e.ctr) || grew
				default:
					grew = mi.addFull() || grew
					return
				}
				t = e.old
			}
		}
	}
	walk(cur, 0)
	return grew
}

// havocLoop forgets everything the loop changes.
func (x *Exec) havocLoop(st0 *State, mods map[string]*modInfo, pv []*ssa.Phi) (*State, []*Term, *Term) {
	c := x.c
	st := st0.clone()
	ctr0 := x.ctr
	x.bump()
	if mods[epochKey] != nil {
		x.newEpoch(st, ctr0, x.ctr)
	}
	for _, k := range sortedKeys(mods) {
		if k == epochKey || k == lockedKey {
			continue
		}
		mi := mods[k]
		h0 := x.heapTerm(st0, k)
		ki := x.keys[k]
		if mi.full && x.immut(k) {
			x.growKey(st, k, ctr0, x.ctr)
			continue
		}
		if mi.full {
			st.heap[k] = x.heapVar(k, "lp", x.ctr)
			continue
		}
		h := h0
		if mi.level > 0 {
			nv := x.heapVar(k, "lx", x.ctr)
			c.ext[nv.op] = extInfo{old: h0, ctr: mi.level}
			x.extAxiom(nv, h0, mi.level)
			h = nv
		}
		for _, r := range mi.refs {
			v := c.Var("lv", ki.sort.Val)
			if ki.refs {
				v.below = x.ctr
			}
			if strings.HasPrefix(k, "E|") {
				x.lenIs(v, c.ArrLen(r))
			} else if ki.typ != nil {
				x.facts(v, ki.typ)
			}
			h = c.Store(h, r, v)
		}
		st.heap[k] = h
	}
	if mods[lockedKey] != nil { // a lock is taken in the loop: another snapshot for locked()
		snap := make(map[string]*Term, len(st.heap))
		for k, v := range st.heap {
			snap[k] = v
		}
		for k, v := range st.heap {
			if k != epochKey && (mods[k] != nil || mods[epochKey] != nil || st0.locked[k] != st0.heap[k]) {
				_ = v
				snap[k] = nil
			}
		}
		for _, k := range sortedKeys(snap) {
			if snap[k] == nil {
				snap[k] = x.heapVar(k, "ls", x.ctr)
			}
		}
		st.locked = snap
	}
	var phis []*Term
	for _, p := range pv {
		phis = append(phis, x.havocVal("phi_"+p.Comment, p.Type()))
	}
	iter := c.Var("iter", c.Int)
	iter.lo, iter.hi = bigZero, pow2(62)
	c.AssertBG(c.App("<=", c.Bool, c.I(0), iter))
	return st, phis, iter
}

// pool lists the values loop candidates range over.
func (x *Exec) loopPool(fr *Frame, li *loopInfo, pv []*ssa.Phi, mods map[string]*modInfo) []pseudo {
	var pool []pseudo
	for i, p := range pv {
		i := i
		pool = append(pool, pseudo{name: "phi:" + p.Name(), typ: p.Type(), mut: true, get: func(_ *State, ph []*Term) *Term { return ph[i] }})
	}
	for _, k := range sortedKeys(mods) {
		mi := mods[k]
		ki := x.keys[k]
		if ki == nil || ki.typ == nil || strings.HasPrefix(k, "E|") || mi.full {
			continue
		}
		k := k
		for _, r := range mi.refs {
			r := r
			pool = append(pool, pseudo{name: fmt.Sprintf("cell:%s:%d", k, r.id), typ: ki.typ, mut: true, get: func(st *State, _ []*Term) *Term {
				v := x.c.Select(x.heapTerm(st, k), r)
				x.facts(v, ki.typ)
				return v
			}})
		}
	}
	for _, fa := range li.fields {
		b, ok := fr.env[fa.X]
		if !ok || b.T == nil {
			continue
		}
		l := x.fieldLoc(x.locOf(b.T, fa.X.Type().Underlying().(*types.Pointer).Elem()), fa.Field)
		ft := fa.Type().Underlying().(*types.Pointer).Elem()
		pool = append(pool, pseudo{name: "at:" + fa.Name(), typ: ft, get: func(st *State, _ []*Term) *Term {
			v := x.read(st, l)
			x.facts(v, ft)
			return v
		}})
	}
	for _, v := range li.liveIn {
		if rg, ok := v.(*ssa.Range); ok { // the map being ranged over
			v = rg.X
		}
		if t, ok := fr.env[v]; ok && t.T != nil {
			tt := t.T
			pool = append(pool, pseudo{name: "in:" + v.Name(), typ: v.Type(), get: func(*State, []*Term) *Term { return tt }})
		}
	}
	return pool
}

func (x *Exec) autoCands(fr *Frame, st0 *State, init []*Term, pool []pseudo, mods map[string]*modInfo, entryCtr int, limits map[string][]*Term) []cand {
	c := x.c
	var out []cand
	add := func(n string, f func(v, iter *Term, st *State) *Term, p pseudo) {
		out = append(out, cand{name: "auto:" + n + ":" + p.name, eval: func(st *State, ph []*Term, iter *Term) *Term { return f(p.get(st, ph), iter, st) }})
	}
	for _, p := range pool {
		if !p.mut {
			continue
		}
		v0 := p.get(st0, init)
		s := v0.sort
		add("same", func(v, _ *Term, _ *State) *Term { return c.Eq(v, v0) }, p)
		switch {
		case s == c.Int && !isRef(p.typ) && !isOpaque(p.typ):
			add("up", func(v, it *Term, _ *State) *Term { return c.Eq(v, c.Add(v0, it)) }, p)
			add("down", func(v, it *Term, _ *State) *Term { return c.Eq(v, c.Sub(v0, it)) }, p)
			add("ge", func(v, _ *Term, _ *State) *Term { return c.Le(v0, v) }, p)
			add("le", func(v, _ *Term, _ *State) *Term { return c.Le(v, v0) }, p)
			add("nonneg", func(v, _ *Term, _ *State) *Term { return c.Le(c.I(0), v) }, p)
			for j, l := range limits[p.name] {
				l := l
				for d := int64(-1); d <= 1; d++ {
					d := d
					add(fmt.Sprintf("lim%d/%d:%d", j, l.id, d), func(v, _ *Term, _ *State) *Term { return c.Le(v, c.AddK(l, d)) }, p)
					add(fmt.Sprintf("low%d/%d:%d", j, l.id, d), func(v, _ *Term, _ *State) *Term { return c.Le(c.AddK(l, d), v) }, p)
				}
			}
		case s == c.Sl:
			add("len+", func(v, it *Term, _ *State) *Term { return c.Eq(c.ln(v), c.Add(c.ln(v0), it)) }, p)
			add("len-", func(v, it *Term, _ *State) *Term { return c.Eq(c.ln(v), c.Sub(c.ln(v0), it)) }, p)
			add("len=", func(v, it *Term, _ *State) *Term { return c.Eq(c.ln(v), c.ln(v0)) }, p)
			add("len<=", func(v, it *Term, _ *State) *Term { return c.Le(c.ln(v), c.Add(c.ln(v0), it)) }, p)
			add("own", func(v, it *Term, _ *State) *Term {
				return c.Or(c.Eq(c.cp(v), c.I(0)), c.Le(c.I(int64(entryCtr)), c.arr(v)))
			}, p)
			add("ownfn", func(v, it *Term, _ *State) *Term {
				return c.Or(c.Eq(c.cp(v), c.I(0)), c.Le(c.I(baseCtr), c.arr(v)))
			}, p)
			add("arr", func(v, it *Term, _ *State) *Term { return c.Eq(c.arr(v), c.arr(v0)) }, p)
			add("off+", func(v, it *Term, _ *State) *Term { return c.Eq(c.off(v), c.Add(c.off(v0), it)) }, p)
			add("off=", func(v, it *Term, _ *State) *Term { return c.Eq(c.off(v), c.off(v0)) }, p)
			add("offcap", func(v, it *Term, _ *State) *Term {
				return c.Eq(c.Add(c.off(v), c.cp(v)), c.Add(c.off(v0), c.cp(v0)))
			}, p)
			add("offln", func(v, it *Term, _ *State) *Term {
				return c.Eq(c.Add(c.off(v), c.ln(v)), c.Add(c.off(v0), c.ln(v0)))
			}, p)
			add("nonnil", func(v, it *Term, _ *State) *Term { return c.Not(c.Eq(c.arr(v), c.I(0))) }, p)
		case s == c.Iface:
			add("nil", func(v, _ *Term, _ *State) *Term { return c.Eq(c.tag(v), c.I(0)) }, p)
			add("nonnil", func(v, _ *Term, _ *State) *Term { return c.Not(c.Eq(c.tag(v), c.I(0))) }, p)
		case s == c.Int && isRef(p.typ):
			add("nonnil", func(v, _ *Term, _ *State) *Term { return c.Not(c.Eq(v, c.I(0))) }, p)
			add("ownfn", func(v, _ *Term, _ *State) *Term { return c.Le(c.I(baseCtr), v) }, p)
		case s == c.Bool:
			add("true", func(v, _ *Term, _ *State) *Term { return v }, p)
			add("false", func(v, _ *Term, _ *State) *Term { return c.Not(v) }, p)
		}
	}
	for _, k := range sortedKeys(mods) {
		mi := mods[k]
		k := k
		ki := x.keys[k]
		if ki == nil {
			continue
		}
		switch {
		case k == "G|out":
			for _, r := range mi.refs {
				r := r
				o0 := c.Select(x.heapTerm(st0, k), r)
				out = append(out, cand{name: fmt.Sprintf("auto:outprefix:%d", r.id), eval: func(st *State, _ []*Term, _ *Term) *Term {
					return x.isPrefix(o0, c.Select(x.heapTerm(st, k), r))
				}})
			}
		case strings.HasPrefix(k, "E|"):
			for _, r := range mi.refs {
				r := r
				v0 := c.Select(x.heapTerm(st0, k), r)
				if ki.typ != nil && TypeName(ki.typ) == "byte" || k == x.elemKey(types.Typ[types.Byte]) {
					// slices of slices do not alias the arrays the loop writes
					for _, p := range pool {
						sl, ok := p.typ.Underlying().(*types.Slice)
						if !ok {
							continue
						}
						el, ok := sl.Elem().Underlying().(*types.Slice)
						if !ok {
							continue
						}
						if bt, ok := el.Elem().Underlying().(*types.Basic); !ok || bt.Kind() != types.Byte {
							continue
						}
						p := p
						out = append(out, cand{name: fmt.Sprintf("auto:noarr:%d:%s", r.id, p.name), eval: func(st *State, ph []*Term, _ *Term) *Term {
							return x.noArr(x.seqOf(st, p.get(st, ph), sl.Elem()), r)
						}})
					}
				}
				out = append(out, cand{name: fmt.Sprintf("auto:esame:%s:%d", k, r.id), eval: func(st *State, _ []*Term, _ *Term) *Term {
					return c.Eq(c.Select(x.heapTerm(st, k), r), v0)
				}})
			}
		case strings.HasPrefix(k, "G|") || strings.HasPrefix(k, "CC|") || strings.HasPrefix(k, "CS|") || strings.HasPrefix(k, "CR|"):
			for _, r := range mi.refs {
				r := r
				v0 := c.Select(x.heapTerm(st0, k), r)
				out = append(out, cand{name: fmt.Sprintf("auto:gsame:%s:%d", k, r.id), eval: func(st *State, _ []*Term, _ *Term) *Term {
					v := c.Select(x.heapTerm(st, k), r)
					if v.sort.Key != nil {
						return x.eqAny(v, v0)
					}
					return c.Eq(v, v0)
				}})
				if v0.sort == c.Int {
					out = append(out, cand{name: fmt.Sprintf("auto:gge:%s:%d", k, r.id), eval: func(st *State, _ []*Term, _ *Term) *Term {
						return c.Le(v0, c.Select(x.heapTerm(st, k), r))
					}})
				}
			}
		case strings.HasPrefix(k, "V|"):
			// visited keys belong to some map's domain: candidates over map-typed pool values
			for _, p := range pool {
				mt, ok := p.typ.Underlying().(*types.Map)
				if !ok || c.SortOf(mt.Key()) != ki.sort.Val.Key {
					continue
				}
				md, _ := x.mapKeys(mt)
				p := p
				out = append(out, cand{name: "auto:visdom:" + k + ":" + p.name, eval: func(st *State, ph []*Term, _ *Term) *Term {
					vis := c.Select(x.heapTerm(st, k), c.I(1))
					dom := c.Select(x.heapTerm(st, md), p.get(st, ph))
					b := c.BoundVar("k", ki.sort.Val.Key)
					return c.Forall([]*Term{b}, c.Imp(c.Select(vis, b), c.Select(dom, b)), []*Term{c.App("select", c.Bool, vis, b)})
				}})
			}
		}
	}
	return out
}

// specCands instantiates the invariants of the contracts that apply to the loop.
// pre(e) is the value of e when the loop was entered.
func (x *Exec) specCands(fr *Frame, st0 *State, pool []pseudo) []cand {
	var out []cand
	type src struct {
		ct   *Contract
		vars map[string]SV
		old  *State
	}
	var srcs []src
	if x.rootEnv != nil {
		srcs = append(srcs, src{x.root, x.rootEnv.vars, x.rootEnv.old})
	}
	for f := fr; f != nil && !f.isRoot; f = f.caller {
		key := FuncKey(f.fn)
		ct := x.specs.Funcs[key]
		if ct == nil || ct.Closure || len(ct.Invs) == 0 || ct == x.root {
			continue
		}
		vars := map[string]SV{}
		ps := f.fn.Params
		i := 0
		if ct.Recv != "" && len(ps) > 0 {
			vars[ct.Recv] = SV{f.env[ps[0]].T, ps[0].Type()}
			i = 1
		}
		for j, n := range ct.Params {
			if i+j < len(ps) {
				vars[n] = SV{f.env[ps[i+j]].T, ps[i+j].Type()}
			}
		}
		srcs = append(srcs, src{ct, vars, nil})
	}
	for _, s := range srcs {
		for n, iv := range s.ct.Invs {
			iv := iv
			s := s
			var insts [][]pseudo
			insts = append(insts, nil)
			for _, bv := range iv.Vars {
				var nx [][]pseudo
				for _, in := range insts {
					for _, p := range pool {
						if normType(TypeName(p.typ)) == normType(bv.Type) || TypeName(p.typ) == x.qualType(bv.Type) {
							nx = append(nx, append(in[:len(in):len(in)], p))
						}
					}
				}
				insts = nx
			}
			if len(insts) > 300 {
				insts = insts[:300]
			}
			for _, in := range insts {
				in := in
				nm := fmt.Sprintf("spec:%s:%d", s.ct.Key, n)
				for _, p := range in {
					nm += ":" + p.name
				}
				out = append(out, cand{name: nm, eval: func(st *State, ph []*Term, iter *Term) *Term {
					env := &Env{x: x, st: st, old: x.rootEnv.old, pre: st0, vars: map[string]SV{}, pkg: x.pkg, ctr: baseCtr}
					if st.locked != nil {
						ls := st.clone()
						ls.heap = st.locked
						env.lock = ls
					}
					for k, v := range s.vars {
						env.vars[k] = v
					}
					env.vars["iter"] = SV{iter, nil}
					for i, bv := range iv.Vars {
						env.vars[bv.Name] = SV{in[i].get(st, ph), in[i].typ}
					}
					t, err := env.Bool(iv.E)
					if err != nil {
						if os.Getenv("GOCV_CAND") != "" {
							fmt.Fprintf(os.Stderr, "EVAL %s: %v\n", nm, err)
						}
						if len(iv.Vars) == 0 {
							x.specErr(s.ct, iv, err)
						}
						return nil
					}
					return t
				}})
			}
		}
	}
	return out
}

func (x *Exec) qualType(t string) string {
	if gt := x.goType(t); gt != nil {
		return TypeName(gt)
	}
	return t
}

func (x *Exec) collectLimits(pc []*Term, from int, pool []pseudo, st *State, phis []*Term, entryVar int, limits map[string][]*Term) bool {
	c := x.c
	grew := false
	var visit func(t *Term)
	visit = func(t *Term) {
		switch t.op {
		case "and", "or", "not", "=>":
			for _, a := range t.args {
				visit(a)
			}
			return
		case "<", "<=", "=":
			if t.args[0].sort != c.Int {
				return
			}
			d := c.Sub(t.args[1], t.args[0])
			l := toLin(d)
			for _, p := range pool {
				if !p.mut {
					continue
				}
				v := p.get(st, phis)
				if v.sort != c.Int {
					continue
				}
				for i, a := range l.atoms {
					if a != v {
						continue
					}
					var r *Term
					if l.coef[i].Cmp(bigOne) == 0 { // v + R >= 0: v >= -R
						r = c.Sub(c.I(0), c.Sub(d, v))
					} else if l.coef[i].Cmp(big.NewInt(-1)) == 0 {
						r = c.Add(d, v)
					} else {
						continue
					}
					if r.born > entryVar {
						continue
					}
					dup := false
					for _, o := range limits[p.name] {
						if k := c.Sub(o, r); k.isInt() && k.ival.CmpAbs(bigOne) <= 0 {
							dup = true
						}
					}
					if !dup && len(limits[p.name]) < 5 {
						limits[p.name] = append(limits[p.name], r)
						grew = true
					}
				}
			}
		}
	}
	for i := from; i < len(pc); i++ {
		visit(pc[i])
	}
	return grew
}

// enterLoop summarises the loop and continues behind it.
func (x *Exec) enterLoop(fr *Frame, st0 *State, li *loopInfo, pv []*ssa.Phi, init []*Term) {
	c := x.c
	entryVar, entryCtr := c.nvar, x.ctr
	marks := x.ctrMarks
	x.ctrMarks = append([]int{entryCtr}, marks...)
	if len(marks) == 0 {
		x.ctrMarks = append(x.ctrMarks, baseCtr)
	}
	defer func() { x.ctrMarks = marks }()
	mods := map[string]*modInfo{}
	limits := map[string][]*Term{}
	dropped := map[string]bool{}
	established := map[string]bool{}
	h := li.header
	setPhis := func(ph []*Term) {
		for i, p := range pv {
			fr.set(p, ph[i])
		}
	}
	evalC := func(cd cand, st *State, ph []*Term, it *Term) (t *Term) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(evalErr); ok {
					if os.Getenv("GOCV_CAND") != "" && (strings.HasPrefix(cd.name, "spec") || strings.Contains(cd.name, os.Getenv("GOCV_CAND"))) {
						fmt.Fprintf(os.Stderr, "EVAL %s: %v\n", cd.name, r)
					}
					t = nil
					return
				}
				panic(r)
			}
		}()
		return cd.eval(st, ph, it)
	}
	var live []cand
	prep := func() (*State, []*Term, *Term) {
		hs, ph, it := x.havocLoop(st0, mods, pv)
		x.keepLocals(fr, hs, st0.heap, li)
		if x.root.Opts["releases"] != "" { // a lock held here may have been acquired in the iteration before
			hs.locks = append([]lockEnt{}, hs.locks...)
			for i := range hs.locks {
				hs.locks[i].heap = hs.clone().heap
			}
		}
		pool := x.loopPool(fr, li, pv, mods)
		all := append(x.autoCands(fr, st0, init, pool, mods, entryCtr, limits), x.specCands(fr, st0, pool)...)
		live = live[:0]
		for _, cd := range all {
			if dropped[cd.name] {
				continue
			}
			if !established[cd.name] {
				t := evalC(cd, st0, init, c.I(0))
				ok := t != nil
				if ok {
					ok, _, _, _ = x.holds(st0.pc, t, probeMS*x.slow(), 0)
				}
				if !ok {
					if os.Getenv("GOCV_CAND") != "" && (strings.HasPrefix(cd.name, "spec") || strings.Contains(cd.name, os.Getenv("GOCV_CAND"))) {
						fmt.Fprintf(os.Stderr, "CAND %s does not hold on entry: %s\n", cd.name, t)
					}
					dropped[cd.name] = true
					continue
				}
				established[cd.name] = true
			}
			live = append(live, cd)
		}
		for _, cd := range live {
			if t := evalC(cd, hs, ph, it); t != nil {
				x.assume(hs, t)
			}
		}
		return hs, ph, it
	}
	for round := 0; ; round++ {
		if round > 40 {
			panic(abortErr{"loop analysis of " + FuncKey(fr.fn) + " does not converge"})
		}
		hs, ph, it := prep()
		if hs.dead {
			break
		}
		base := make(map[string]*Term, len(hs.heap))
		for k, v := range hs.heap {
			base[k] = v
		}
		grew := false
		failed := map[string]bool{}
		npc := len(hs.pc)
		pool := x.loopPool(fr, li, pv, mods)
		lc := &loopCtx{info: li, probe: true}
		lc.back = func(st *State, bph []*Term) {
			if x.collectLimits(st.pc, npc, pool, hs, ph, entryVar, limits) {
				grew = true
			}
			for _, k := range sortedKeys(st.heap) {
				if k == epochKey {
					if st.heap[k] != base[k] && mods[k] == nil {
						mods[k] = &modInfo{full: true}
						grew = true
					}
					continue
				}
				b, ok := base[k]
				if !ok {
					b = x.heapTerm(hs, k)
				}
				if st.heap[k] == b {
					continue
				}
				mi := mods[k]
				if mi == nil {
					mi = &modInfo{}
					mods[k] = mi
				}
				if x.diffHeap(st, k, st.heap[k], b, mi, entryVar, entryCtr) {
					grew = true
				}
			}
			if st.lockN != hs.lockN && mods[lockedKey] == nil {
				mods[lockedKey] = &modInfo{full: true}
				grew = true
			}
			if grew {
				return
			}
			for _, cd := range live {
				if failed[cd.name] {
					continue
				}
				t := evalC(cd, st, bph, c.AddK(it, 1))
				ok := t != nil
				if ok {
					var by string
					var fpc []*Term
					var fg *Term
					ok, by, fpc, fg = x.holds(st.pc, t, probeMS*x.slow(), 0)
					if !ok && os.Getenv("GOCV_CAND") != "" && (strings.HasPrefix(cd.name, "spec") || strings.Contains(cd.name, os.Getenv("GOCV_CAND"))) {
						fmt.Fprintf(os.Stderr, "CAND %s fails to be preserved: %s\n", cd.name, x.describe(fpc, fg, by))
					}
				}
				if !ok {
					failed[cd.name] = true
				}
			}
		}
		x.quiet++
		fr.active[h] = lc
		setPhis(ph)
		x.run(fr, hs.clone(), h, len(pv))
		delete(fr.active, h)
		x.quiet--
		if grew {
			continue
		}
		if len(failed) > 0 {
			for n := range failed {
				dropped[n] = true
			}
			continue
		}
		break
	}
	// final pass: obligations are generated and the exits continue
	hs, ph, it := prep()
	if hs.dead {
		return
	}
	pre := hs.clone()
	iterCtr := x.ctr // fresh() in a step means allocated in the iteration
	lc := &loopCtx{info: li}
	lc.back = func(st *State, bph []*Term) {
		if x.quiet > 0 {
			return
		}
		if lp := lockProps(x.root); len(lp) > 0 {
			x.prove(st.clone(), c.BoolT(len(st.locks) == len(pre.locks)), x.root.Key+"/lock:loop-balanced", "lock", lp, "?", "locks balance in the loop")
		}
		if fr.fn != x.rootFn || len(x.root.Steps) == 0 {
			return
		}
		env := &Env{x: x, st: st, old: x.rootEnv.old, pre: pre, vars: map[string]SV{}, pkg: x.pkg, ctr: iterCtr}
		for k, v := range x.rootEnv.vars {
			env.vars[k] = v
		}
		env.vars["iter"] = SV{it, nil}
		if st.locked != nil {
			env.lock = st.clone()
			env.lock.heap = st.locked
		}
		for i, cl := range x.root.Steps {
			t, err := env.Bool(cl.E)
			if err != nil {
				x.specErr(x.root, cl, err)
				continue
			}
			x.prove(st.clone(), t, fmt.Sprintf("%s/step:%s", x.root.Key, clauseName(cl, i)), "loop step", cl.Props, "?", cl.Src)
		}
		x.Returns++
	}
	fr.active[h] = lc
	setPhis(ph)
	x.run(fr, hs, h, len(pv))
	delete(fr.active, h)
}
