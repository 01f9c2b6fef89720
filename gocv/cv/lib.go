package cv

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// libModel is the assumed contract of a function outside the repository.
type libModel func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term))

var libModels = map[string]libModel{}

func reg(m libModel, names ...string) {
	for _, n := range names {
		libModels[n] = m
	}
}

// regT registers a model whose use is reported as an assumption.
func regT(note string, m libModel, names ...string) {
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		x.assumeNote("library model: " + note)
		m(x, ci, st, args, k)
	}, names...)
}

func nop(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
	k(st, x.havocResults("r", ci.sig))
}

func (x *Exec) gKey(name string, s *Sort) string { return x.key("G|"+name, s, false, nil) }

func (x *Exec) gGet(st *State, name string, s *Sort, ref *Term) *Term {
	return x.c.Select(x.heapTerm(st, x.gKey(name, s)), ref)
}
func (x *Exec) gSet(st *State, name string, s *Sort, ref, v *Term) {
	k := x.gKey(name, s)
	st.heap[k] = x.c.Store(x.heapTerm(st, k), ref, v)
}

var errorType = types.Universe.Lookup("error").Type()

// newErr is a fresh error value, different from every other one.
func (x *Exec) newErr(kind string) *Term {
	return x.c.Cons(x.c.Iface, x.typeIDName(kind), x.fresh())
}

// someErr is an arbitrary non-nil error.
func (x *Exec) someErr(st *State) *Term {
	e := x.havocVal("err", errorType)
	x.assume(st, x.c.Not(x.c.Eq(x.c.tag(e), x.c.I(0))))
	return e
}

// stream facts: 0 <= pos <= len(in)
func (x *Exec) inPos(st *State, ref *Term) (in, pos *Term) {
	c := x.c
	in = x.gGet(st, "in", c.B, ref)
	pos = x.gGet(st, "pos", c.Int, ref)
	x.assume(st, c.Le(c.I(0), pos))
	x.assume(st, c.Le(pos, c.Len(in)))
	return
}

// fillSlice overwrites slice s with content (whose length is the slice's).
func (x *Exec) fillSlice(st *State, s, content *Term) {
	c := x.c
	k := x.elemKey(types.Typ[types.Byte])
	h := x.heapTerm(st, k)
	old := c.Select(h, c.arr(s))
	o, e := c.off(s), c.Add(c.off(s), c.ln(s))
	st.heap[k] = c.Store(h, c.arr(s), c.Cat(c.Cat(c.SubSeq(old, c.I(0), o), content), c.SubSeq(old, e, c.Len(old))))
}

// readInto models a read of n bytes (n <= len(buf)) from ref's stream; the rest of buf is scratch.
func (x *Exec) readInto(st *State, ref, buf, n *Term) {
	c := x.c
	in, pos := x.inPos(st, ref)
	end := c.Add(pos, n)
	x.assume(st, c.Le(end, c.Len(in)))
	data := c.SubSeq(in, pos, end)
	if n != c.ln(buf) {
		junk := c.Var("junk", c.B)
		x.lenIs(junk, c.Sub(c.ln(buf), n))
		data = c.Cat(data, junk)
	}
	x.fillSlice(st, buf, data)
	x.gSet(st, "pos", c.Int, ref, end)
}

func (x *Exec) setIOErr(st *State, ref *Term) {
	x.gSet(st, "ioerr", x.c.Bool, ref, x.c.True)
}

// outAppend appends bs to the bytes written to ref.
func (x *Exec) outAppend(st *State, ref, bs *Term) {
	x.bufMutate(st, ref)
	k := x.outKey()
	h := x.heapTerm(st, k)
	st.heap[k] = x.c.Store(h, ref, x.c.Cat(x.c.Select(h, ref), bs))
}

// flat is the concatenation of a sequence of byte strings.
func (x *Exec) flat(s *Term) *Term {
	c := x.c
	n := s.sort.Name
	switch s.op {
	case "empty_" + n:
		return c.Empty(c.B)
	case "unit_" + n:
		return s.args[0]
	case "cat_" + n:
		return c.Cat(x.flat(s.args[0]), x.flat(s.args[1]))
	}
	t := c.Fun("flat", c.B, s)
	c.Axiom("flatC", "(forall ((a Seq_B) (b Seq_B)) (! (= (flat (cat_Seq_B a b)) (cat_B (flat a) (flat b))) :pattern ((flat (cat_Seq_B a b)))))")
	c.Axiom("flat0", "(forall ((s Seq_B)) (! (=> (= (len_Seq_B s) 0) (= (len_B (flat s)) 0)) :pattern ((flat s))))")
	return t
}

// isTerm: write to w.  Forks into success and failure.
func (x *Exec) writeModel(st *State, ref, data *Term, k func(*State, *Term, *Term)) {
	c := x.c
	ok := st.clone()
	x.outAppend(ok, ref, data)
	ctr := x.ctr
	k(ok, c.Len(data), c.NilIface())
	if x.ctr < ctr {
		x.ctr = ctr
	}
	bad := st
	n := c.Var("wn", c.Int)
	n.lo = bigZero
	c.AssertBG(c.App("<=", c.Bool, c.I(0), n))
	x.assume(bad, c.Le(c.I(0), n))
	x.assume(bad, c.Le(n, c.Len(data)))
	x.outAppend(bad, ref, c.SubSeq(data, c.I(0), n))
	e := x.someErr(bad)
	x.setIOErr(bad, ref)
	if bad.dead {
		return
	}
	k(bad, n, e)
}

func (x *Exec) bytesOf(st *State, s *Term) *Term {
	if s.sort == x.c.B {
		return s
	}
	return x.seqOf(st, s, types.Typ[types.Byte])
}

// callClosure calls a function value in place.
func (x *Exec) callClosure(fr *Frame, st *State, f *Term, in ssa.Instruction, sig *types.Signature, args []*Term, k func(*State, []*Term)) {
	if f.isInt() {
		if cl, ok := x.closures[f.ival.Int64()]; ok {
			x.callFn(fr, st, cl.fn, cl.binds, args, in, k)
			return
		}
	}
	x.unknownCall(fr, st, "function value", sig, args, k)
}

// anyArgs returns the interface values of a variadic ...any argument when its length is known.
func (x *Exec) anyArgs(st *State, s *Term) ([]*Term, bool) {
	c := x.c
	n := c.ln(s)
	if !n.isInt() {
		return nil, false
	}
	et := types.NewInterfaceType(nil, nil)
	seq := x.seqOf(st, s, et)
	var out []*Term
	for i := int64(0); i < n.ival.Int64(); i++ {
		out = append(out, c.Nth(seq, c.I(i)))
	}
	return out, true
}

func (x *Exec) constTag(t *Term) (types.Type, bool) {
	tg := x.c.tag(t)
	if !tg.isInt() {
		return nil, false
	}
	gt, ok := x.tagT[tg.ival.Int64()]
	return gt, ok
}

// sprintf renders simple formats exactly, anything else as an unknown string.
func (x *Exec) sprintf(st *State, format *Term, args *Term) *Term {
	c := x.c
	unknown := func() *Term { return x.havocVal("fmt", types.Typ[types.String]) }
	f, ok := litTabGet(format.op)
	if !ok {
		if format.op == "empty_B" {
			return format
		}
		return unknown()
	}
	as, ok := x.anyArgs(st, args)
	if !ok {
		return unknown()
	}
	res := c.Empty(c.B)
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			res = c.Cat(res, c.Str(f[i:]))
			break
		}
		if j > 0 {
			res = c.Cat(res, c.Str(f[i:i+j]))
		}
		i += j + 1
		if i >= len(f) {
			return unknown()
		}
		v := f[i]
		i++
		if v == '%' {
			res = c.Cat(res, c.Str("%"))
			continue
		}
		if ai >= len(as) {
			return unknown()
		}
		a := as[ai]
		ai++
		gt, ok := x.constTag(a)
		if !ok {
			return unknown()
		}
		_, hasStr := gt.(*types.Named)
		switch {
		case (v == 's' || v == 'v') && isString(gt) && !hasStr:
			res = c.Cat(res, x.unbox(c.val(a), gt))
		case (v == 'd' || v == 'v') && !hasStr && c.SortOf(gt) == c.Int && !isRef(gt) && !isOpaque(gt):
			n := x.unbox(c.val(a), gt)
			if n.isInt() {
				res = c.Cat(res, c.Str(n.ival.String()))
			} else {
				res = c.Cat(res, c.Fun("u_itoa", c.B, n))
			}
		default:
			// %q, %x, named types: an unknown but fixed rendering
			res = c.Cat(res, c.Fun("fmt_"+sanitize(string(v)), c.B, c.tag(a), c.val(a)))
		}
	}
	return res
}

// jsonFields says which fields encoding/json transfers.
func jsonFields(s *types.Struct) []bool {
	name := map[string]int{}
	names := make([]string, s.NumFields())
	moved := make([]bool, s.NumFields())
	for i := range names {
		f := s.Field(i)
		if !f.Exported() || f.Embedded() {
			continue
		}
		tag, rest, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
		if tag == "-" && rest == "" && !strings.HasSuffix(reflect.StructTag(s.Tag(i)).Get("json"), ",") {
			continue
		}
		if tag == "" {
			tag = f.Name()
		}
		names[i] = tag
		moved[i] = true
		name[strings.ToLower(tag)]++
	}
	for i := range moved {
		moved[i] = moved[i] && name[strings.ToLower(names[i])] == 1
	}
	return moved
}

// jsonKind: 1 for a string or an integer, 2 for bytes, 0 for anything else.
func (x *Exec) jsonKind(t types.Type) int {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return 2
		}
		return 0
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsString|types.IsInteger|types.IsBoolean) != 0 {
		return 1
	}
	return 0
}

func (x *Exec) jsonOK(tn string, data *Term) *Term {
	return x.c.Fun("jsonok_"+sanitize(tn), x.c.Bool, data)
}

// jsonField: whether the data has the field, and its value there.
func (x *Exec) jsonField(tn string, f *types.Var, data *Term) (has, val *Term, kind int) {
	c := x.c
	n := sanitize(tn) + "_" + f.Name()
	has = c.Fun("jsonhas_"+n, c.Bool, data)
	kind = x.jsonKind(f.Type())
	switch kind {
	case 1:
		val = c.Fun("jsonval_"+n, c.SortOf(f.Type()), data)
		x.facts(val, f.Type())
	case 2:
		val = c.Fun("jsonval_"+n, c.B, data)
	}
	return
}

// jsonOf is the encoding of a struct or of what a pointer to one points to.
func (x *Exec) jsonOf(st *State, v *Term) (*Term, bool) {
	c := x.c
	t, ok := x.constTag(v)
	if !ok {
		return nil, false
	}
	var sv *Term
	if p, isP := t.Underlying().(*types.Pointer); isP {
		t = p.Elem()
		if structOf(t) == nil {
			return nil, false
		}
		sv = x.read(st, x.locOf(c.val(v), t))
	} else if structOf(t) != nil {
		sv = x.unbox(c.val(v), t)
	} else {
		return nil, false
	}
	s := structOf(t)
	name := "json_" + sanitize(TypeName(t))
	var as []*Term
	for i, m := range jsonFields(s) {
		if !m {
			continue
		}
		fv := c.Field(sv, i)
		switch x.jsonKind(s.Field(i).Type()) {
		case 0:
			return nil, false
		case 1:
			as = append(as, fv)
		case 2:
			as = append(as, x.bytesOf(st, fv))
		}
		name += "_" + s.Field(i).Name()
	}
	return c.Fun(name, c.B, as...), true
}

func init() {
	// ---- io
	regT("io.ReadFull delivers the next bytes of the stream in order, or an error after a prefix of them", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		r, buf := args[0], args[1]
		ref := c.val(r)
		if tg := c.tag(r); tg.isInt() && x.tagT[tg.ival.Int64()] == nil && false {
			return
		}
		ok := st.clone()
		x.readInto(ok, ref, buf, c.ln(buf))
		if x.feasible(ok) {
			k(ok, []*Term{c.ln(buf), c.NilIface()})
		}
		n := c.Var("rn", c.Int)
		n.lo = bigZero
		c.AssertBG(c.App("<=", c.Bool, c.I(0), n))
		x.assume(st, c.Le(c.I(0), n))
		x.assume(st, c.Lt(n, c.ln(buf)))
		x.readInto(st, ref, buf, n)
		e := x.someErr(st)
		x.setIOErr(st, ref)
		if x.feasible(st) {
			k(st, []*Term{n, e})
		}
	}, "io.ReadFull")
	read := func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		ref, buf := c.val(args[0]), args[1]
		n := c.Var("rn", c.Int)
		n.lo = bigZero
		c.AssertBG(c.App("<=", c.Bool, c.I(0), n))
		x.assume(st, c.Le(c.I(0), n))
		x.assume(st, c.Le(n, c.ln(buf)))
		x.readInto(st, ref, buf, n)
		e := x.havocVal("err", errorType)
		k(st, []*Term{n, e})
	}
	regT("Read delivers a prefix of the remaining stream", read, "(net.Conn).Read", "(io.Reader).Read")
	write := func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		data := x.bytesOf(st, args[1])
		x.writeModel(st, x.c.val(args[0]), data, func(st *State, n, e *Term) { k(st, []*Term{n, e}) })
	}
	regT("Write appends all of its argument on success and a prefix of it on error, and does not retain it", write, "(net.Conn).Write", "(io.Writer).Write")
	regT("net.Buffers.WriteTo writes the buffers in order; a prefix on error", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		bt := ci.fn.Signature.Recv().Type().(*types.Pointer).Elem()
		l := x.locOf(args[0], bt)
		bufs := x.read(st, l)
		eb := x.heapTerm(st, x.elemKey(types.Typ[types.Byte]))
		v := x.viewOf(eb, x.seqOf(st, bufs, types.NewSlice(types.Typ[types.Byte])))
		data := x.flat(v)
		x.writeModel(st, c.val(args[1]), data, func(st *State, n, e *Term) {
			x.write(st, l, x.havocVal("bufs", bt))
			k(st, []*Term{n, e})
		})
	}, "(*net.Buffers).WriteTo")

	// ---- bytes.Buffer: out[ptr] is the content
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		content := c.Select(x.heapTerm(st, x.outKey()), args[0])
		if args[0].op == "int" {
			tk := x.takenKey()
			st.heap[tk] = c.Store(x.heapTerm(st, tk), args[0], c.True)
		}
		k(st, []*Term{x.newSlice(st, content, types.Typ[types.Byte])})
	}, "(*bytes.Buffer).Bytes")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.c.Select(x.heapTerm(st, x.outKey()), args[0])})
	}, "(*bytes.Buffer).String")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.c.Len(x.c.Select(x.heapTerm(st, x.outKey()), args[0]))})
	}, "(*bytes.Buffer).Len")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) { k(st, nil) }, "(*bytes.Buffer).Grow")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		x.bufMutate(st, args[0])
		kk := x.outKey()
		st.heap[kk] = x.c.Store(x.heapTerm(st, kk), args[0], x.c.Empty(x.c.B))
		k(st, nil)
	}, "(*bytes.Buffer).Reset")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		data := x.bytesOf(st, args[1])
		x.outAppend(st, args[0], data)
		k(st, []*Term{x.c.Len(data), x.c.NilIface()})
	}, "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		x.outAppend(st, args[0], x.c.Unit(x.c.B, args[1]))
		k(st, []*Term{x.c.NilIface()})
	}, "(*bytes.Buffer).WriteByte")
	// strings.Builder alike
	for _, m := range []string{"String", "Len", "Reset", "Write", "WriteString", "WriteByte", "Grow"} {
		libModels["(*strings.Builder)."+m] = libModels["(*bytes.Buffer)."+m]
	}
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.c.Eq(x.bytesOf(st, args[0]), x.bytesOf(st, args[1]))})
	}, "bytes.Equal")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.isPrefix(x.bytesOf(st, args[1]), x.bytesOf(st, args[0]))})
	}, "bytes.HasPrefix", "strings.HasPrefix")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.indexByte(x.bytesOf(st, args[0]), args[1])})
	}, "bytes.IndexByte", "strings.IndexByte")

	// ---- encoding/binary
	for _, bits := range []int{16, 32, 64} {
		bits := bits
		n := int64(bits / 8)
		reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
			c := x.c
			s, v := args[len(args)-2], args[len(args)-1]
			x.panicCheck(ci.fr, st, c.Le(c.I(n), c.ln(s)), "index-out-of-range", ci.in)
			if st.dead {
				return
			}
			sub := c.Cons(c.Sl, c.arr(s), c.off(s), c.I(n), c.cp(s))
			x.fillSlice(st, sub, x.be(bits, v))
			k(st, nil)
		}, fmt.Sprintf("(encoding/binary.bigEndian).PutUint%d", bits))
		reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
			c := x.c
			s := args[len(args)-1]
			x.panicCheck(ci.fr, st, c.Le(c.I(n), c.ln(s)), "index-out-of-range", ci.in)
			if st.dead {
				return
			}
			b := x.bytesOf(st, s)
			k(st, []*Term{x.ube(bits, c.SubSeq(b, c.I(0), c.I(n)))})
		}, fmt.Sprintf("(encoding/binary.bigEndian).Uint%d", bits))
		reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
			c := x.c
			s, v := args[len(args)-2], args[len(args)-1]
			k(st, []*Term{x.newSlice(st, c.Cat(x.bytesOf(st, s), x.be(bits, v)), types.Typ[types.Byte])})
		}, fmt.Sprintf("(encoding/binary.bigEndian).AppendUint%d", bits))
	}

	// ---- errors, fmt
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.newErr("errorString")})
	}, "errors.New")
	regT("log.New returns a fresh logger", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.fresh()})
	}, "log.New")
	regT("fmt.Errorf returns a new non-nil error wrapping its %w operands", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		e := x.newErr("wrapError")
		if f, ok := litTabGet(args[0].op); ok && strings.Contains(f, "%w") {
			if as, ok := x.anyArgs(st, args[1]); ok {
				// the operand of %w
				n := 0
				for i := 0; i+1 < len(f); i++ {
					if f[i] != '%' {
						continue
					}
					if f[i+1] == '%' {
						i++
						continue
					}
					if f[i+1] == 'w' && n < len(as) {
						w := as[n]
						b := c.BoundVar("t", c.Iface)
						lhs := x.errIs(e, b)
						c.AssertBG(c.Forall([]*Term{b}, c.Eq(lhs, c.Or(c.Eq(b, e), x.errIs(w, b))), []*Term{lhs}))
						break
					}
					n++
				}
			}
		}
		k(st, []*Term{e})
	}, "fmt.Errorf")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.sprintf(st, args[0], args[1])})
	}, "fmt.Sprintf")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		if args[0].isInt() {
			k(st, []*Term{x.c.Str(args[0].ival.String())})
			return
		}
		k(st, []*Term{x.c.Fun("u_itoa", x.c.B, args[0])})
	}, "strconv.Itoa")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		// output to w is an unknown text appended
		s := x.sprintf(st, args[1], args[2])
		x.outAppend(st, x.c.val(args[0]), s)
		k(st, []*Term{x.c.Len(s), x.c.NilIface()})
	}, "fmt.Fprintf")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.errIs(args[0], args[1])})
	}, "errors.Is")
	regT("errors.As leaves the target unconstrained", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		ok := c.Var("as", c.Bool)
		if t, found := x.constTag(args[1]); found {
			if p, isP := t.Underlying().(*types.Pointer); isP {
				l := x.locOf(c.val(args[1]), p.Elem())
				v := x.havocVal("as", p.Elem())
				if isIface(p.Elem()) {
					x.assume(st, c.Eq(ok, c.Not(c.Eq(c.tag(v), c.I(0)))))
					v = c.Ite(ok, v, x.read(st, l))
				}
				x.write(st, l, v)
			}
		}
		k(st, []*Term{ok})
	}, "errors.As")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.havocVal("msg", types.Typ[types.String])})
	}, "(error).Error")
	reg(nop, "(*log.Logger).Printf", "(*log.Logger).Println", "log.Printf", "log.Println")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		st.dead = true // the process ends
	}, "log.Fatalf", "log.Fatal", "os.Exit")

	// ---- sync
	lockM := func(mode byte) libModel {
		return func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
			x.lock(ci.fr, st, args[0], mode, ci.in)
			if !st.dead {
				k(st, nil)
			}
		}
	}
	unlockM := func(mode byte) libModel {
		return func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
			x.unlock(ci.fr, st, args[0], mode, ci.in)
			if !st.dead {
				k(st, nil)
			}
		}
	}
	reg(lockM('W'), "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(unlockM('W'), "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg(lockM('R'), "(*sync.RWMutex).RLock")
	reg(unlockM('R'), "(*sync.RWMutex).RUnlock")
	locker := func(inner libModel) libModel {
		return func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
			if mu := x.condLock(ci.fr, st, args[0], true); mu != nil {
				inner(x, ci, st, []*Term{mu}, k)
				return
			}
			x.assumeNote("a sync.Locker that is not the lock of a declared condition variable is not tracked")
			k(st, nil)
		}
	}
	reg(locker(lockM('W')), "(sync.Locker).Lock")
	reg(locker(unlockM('W')), "(sync.Locker).Unlock")
	reg(nop, "(*sync.Cond).Broadcast", "(*sync.Cond).Signal")
	regT("sync.Cond.Wait returns with the lock held and the guarded state arbitrary", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		// release and re-acquire the held lock: the guarded state is arbitrary again
		n := len(st.locks)
		if mu := x.condLock(ci.fr, st, args[0], false); mu != nil {
			for n > 0 && st.locks[n-1].mu != mu {
				n--
			}
		}
		if n > 0 {
			h := st.locks[n-1]
			x.unlock(ci.fr, st, h.mu, h.mode, ci.in)
			x.lock(ci.fr, st, h.mu, h.mode, ci.in)
		}
		if !st.dead {
			k(st, nil)
		}
	}, "(*sync.Cond).Wait")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.fresh()})
	}, "sync.NewCond")
	reg(nop, "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait")
	regT("sync.Once.Do runs its function at most once", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		done := x.gGet(st, "once", c.Bool, args[0])
		a := st.clone()
		x.assume(a, done)
		if x.feasible(a) {
			k(a, nil)
		}
		x.assume(st, c.Not(done))
		if !x.feasible(st) {
			return
		}
		x.gSet(st, "once", c.Bool, args[0], c.True)
		x.callClosure(ci.fr, st, args[1], ci.in, types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, func(st *State, _ []*Term) { k(st, nil) })
	}, "(*sync.Once).Do")

	// ---- atomics: sequentially consistent cells (opaque struct = one integer)
	for _, tn := range []string{"Int64", "Uint64", "Int32", "Uint32", "Bool"} {
		tn := tn
		base := "(*sync/atomic." + tn + ")."
		cell := func(x *Exec, ci *CallInfo, p *Term) Loc {
			return x.locOf(p, ci.fn.Signature.Recv().Type().(*types.Pointer).Elem())
		}
		reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
			v := x.read(st, cell(x, ci, args[0]))
			if tn == "Bool" {
				v = x.c.Not(x.c.Eq(v, x.c.I(0)))
			} else {
				delete(x.factDone, v)
				x.facts(v, ci.sig.Results().At(0).Type())
			}
			k(st, []*Term{v})
		}, base+"Load")
		reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
			v := args[1]
			if tn == "Bool" {
				v = x.c.Ite(v, x.c.I(1), x.c.I(0))
			}
			x.write(st, cell(x, ci, args[0]), v)
			k(st, nil)
		}, base+"Store")
		reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
			l := cell(x, ci, args[0])
			rt := ci.sig.Results().At(0).Type()
			o := x.read(st, l)
			delete(x.factDone, o) // seen as an opaque struct so far
			x.facts(o, rt)
			v := x.wrap(st, x.c.Add(o, args[1]), rt)
			x.write(st, l, v)
			k(st, []*Term{v})
		}, base+"Add")
		reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
			c := x.c
			l := cell(x, ci, args[0])
			conv := func(t *Term) *Term {
				if tn == "Bool" {
					return c.Ite(t, c.I(1), c.I(0))
				}
				return t
			}
			ok := c.Eq(x.read(st, l), conv(args[1]))
			x.write(st, l, c.Ite(ok, conv(args[2]), x.read(st, l)))
			k(st, []*Term{ok})
		}, base+"CompareAndSwap")
	}
	atom := func(f func(x *Exec, st *State, l Loc, t types.Type, args []*Term) []*Term) libModel {
		return func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
			t := ci.sig.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
			k(st, f(x, st, x.locOf(args[0], t), t, args))
		}
	}
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		reg(atom(func(x *Exec, st *State, l Loc, t types.Type, args []*Term) []*Term { return []*Term{x.read(st, l)} }), "sync/atomic.Load"+w)
		reg(atom(func(x *Exec, st *State, l Loc, t types.Type, args []*Term) []*Term {
			x.storeCheck(st, l, args[1])
			x.write(st, l, args[1])
			return nil
		}), "sync/atomic.Store"+w)
		reg(atom(func(x *Exec, st *State, l Loc, t types.Type, args []*Term) []*Term {
			v := x.wrap(st, x.c.Add(x.read(st, l), args[1]), t)
			x.storeCheck(st, l, v)
			x.write(st, l, v)
			return []*Term{v}
		}), "sync/atomic.Add"+w)
		reg(atom(func(x *Exec, st *State, l Loc, t types.Type, args []*Term) []*Term {
			o := x.read(st, l)
			ok := x.c.Eq(o, args[1])
			x.storeCheck(st, l, x.c.Ite(ok, args[2], o))
			x.write(st, l, x.c.Ite(ok, args[2], o))
			return []*Term{ok}
		}), "sync/atomic.CompareAndSwap"+w)
		reg(atom(func(x *Exec, st *State, l Loc, t types.Type, args []*Term) []*Term {
			o := x.read(st, l)
			x.storeCheck(st, l, args[1])
			x.write(st, l, args[1])
			return []*Term{o}
		}), "sync/atomic.Swap"+w)
	}

	// ---- context, time
	doneOf := func(x *Exec, ctx *Term) *Term {
		c := x.c
		d := c.Fun("ctxDone", c.Int, ctx)
		c.Axiom("ctxDone", "(forall ((a Iface)) (! (< 0 (ctxDone a)) :pattern ((ctxDone a))))")
		if d.lo == nil {
			d.lo = bigOne
		}
		return d
	}
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{doneOf(x, args[0])})
	}, "(context.Context).Done")
	regT("context.Context.Err is arbitrary before Done and non-nil after Done was observed", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		e := x.havocVal("ctxerr", errorType)
		// the error is non-nil: every call in the repository follows a receive from Done
		for _, ev := range st.events {
			if ev.Kind == "ctxdone" && ev.Args[0] == args[0] {
				x.assume(st, c.Not(c.Eq(c.tag(e), c.I(0))))
				break
			}
		}
		st.events = append(st.events, Event{Kind: "ctxerr", Args: []*Term{args[0], e}})
		k(st, []*Term{e})
	}, "(context.Context).Err")
	newCtx := func(x *Exec) *Term { return x.c.Cons(x.c.Iface, x.typeIDName("cancelCtx"), x.fresh()) }
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.c.Cons(x.c.Iface, x.typeIDName("backgroundCtx"), x.c.I(1000))})
	}, "context.Background", "context.TODO")
	regT("context.WithCancel/WithTimeout return a fresh context and a cancel function", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		cn := x.fresh()
		x.cancels[cn] = true
		ctx := newCtx(x)
		k(st, []*Term{ctx, cn})
	}, "context.WithCancel", "context.WithTimeout", "context.WithDeadline")
	reg(nop, "time.Now", "(time.Time).UnixNano", "(time.Time).IsZero", "time.Until", "(time.Time).Add", "time.Since", "(*time.Timer).Stop", "(*time.Timer).Reset", "(time.Time).After", "(time.Time).Before", "(time.Time).Sub")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) { k(st, nil) }, "time.Sleep")
	regT("time.AfterFunc's function runs on its own goroutine (not interleaved)", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.fresh()})
	}, "time.AfterFunc", "time.NewTimer")

	// ---- errgroup: each function runs, in place, in the order of the Go calls
	egErr := func(x *Exec, st *State, g *Term) *Term {
		return x.gGet(st, "egerr", x.c.Iface, g)
	}
	goM := func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", errorType)), false)
		g := args[0]
		x.callClosure(ci.fr, st, args[1], ci.in, sig, nil, func(st *State, res []*Term) {
			c := x.c
			cur := egErr(x, st, g)
			nv := c.Ite(c.Eq(c.tag(cur), c.I(0)), res[0], cur)
			x.gSet(st, "egerr", c.Iface, g, nv)
			k(st, nil)
		})
	}
	regT("x/sync errgroup runs every function passed to Go exactly once and Wait returns a first non-nil error (run in place, not interleaved)", goM, "(*golang.org/x/sync/errgroup.Group).Go")
	regT("x/sync errgroup.TryGo runs its function or reports false", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		no := st.clone()
		k(no, []*Term{x.c.False})
		goM(x, ci, st, args, func(st *State, _ []*Term) { k(st, []*Term{x.c.True}) })
	}, "(*golang.org/x/sync/errgroup.Group).TryGo")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{egErr(x, st, args[0])})
	}, "(*golang.org/x/sync/errgroup.Group).Wait")
	reg(nop, "(*golang.org/x/sync/errgroup.Group).SetLimit")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		g := x.fresh()
		x.gSet(st, "egerr", x.c.Iface, g, x.c.NilIface())
		k(st, []*Term{g, newCtx(x)})
	}, "golang.org/x/sync/errgroup.WithContext")

	// ---- strings
	regT("cases.Title(NoLower).String is a fixed idempotent function", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.strFun("title", args[1])})
	}, "(golang.org/x/text/cases.Caser).String")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.c.I(5)})
	}, "golang.org/x/text/cases.Title")
	strM := func(name string) libModel {
		return func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
			k(st, []*Term{x.strFun(name, args[0])})
		}
	}
	reg(strM("lower"), "strings.ToLower")
	reg(strM("upper"), "strings.ToUpper")
	reg(strM("trimspace"), "strings.TrimSpace")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		s, p := args[0], args[1]
		k(st, []*Term{c.Ite(x.isPrefix(p, s), c.SubSeq(s, c.Len(p), c.Len(s)), s)})
	}, "strings.TrimPrefix")
	regT("strings.Index is a fixed function of its arguments", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.c.Fun("u_index", x.c.Int, args[0], args[1])})
	}, "strings.Index")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		k(st, []*Term{c.Le(c.I(0), c.Fun("u_index", c.Int, args[0], args[1]))})
	}, "strings.Contains")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		i := c.Fun("u_index", c.Int, args[0], args[1])
		has := c.Le(c.I(0), i)
		k(st, []*Term{c.Ite(has, c.SubSeq(args[0], c.I(0), i), args[0]), c.Ite(has, c.SubSeq(args[0], c.Add(i, c.Len(args[1])), c.Len(args[0])), c.Empty(c.B)), has})
	}, "strings.Cut")
	regT("strings.Split(s, sep) is a fixed function of its arguments", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		sb := c.Seq(c.B)
		t := c.Fun("u_split", sb, args[0], args[1])
		c.Axiom("split1", "(forall ((s B) (t B)) (! (<= 1 (len_Seq_B (u_split s t))) :pattern ((u_split s t))))")
		k(st, []*Term{x.newSlice(st, t, types.Typ[types.String])})
	}, "strings.Split")
	regT("sort.Strings permutes its argument in place", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		key := x.elemKey(types.Typ[types.String])
		h := x.heapTerm(st, key)
		s := args[0]
		old := c.Select(h, c.arr(s))
		cont := x.seqOf(st, s, types.Typ[types.String])
		nv := c.Fun("u_sorted", cont.sort, cont)
		x.lenIs(nv, c.ln(s))
		c.Axiom("sorted_len", "(forall ((s Seq_B)) (! (= (len_Seq_B (u_sorted s)) (len_Seq_B s)) :pattern ((u_sorted s))))")
		o, e := c.off(s), c.Add(c.off(s), c.ln(s))
		st.heap[key] = c.Store(h, c.arr(s), c.Cat(c.Cat(c.SubSeq(old, c.I(0), o), nv), c.SubSeq(old, e, c.Len(old))))
		k(st, nil)
	}, "sort.Strings")
	regT("hex encoding and decoding are inverse", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.hexEnc(x.bytesOf(st, args[0]))})
	}, "encoding/hex.EncodeToString")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		x.hexEnc(args[0])
		okT := c.Fun("u_ishex", c.Bool, args[0])
		good := st.clone()
		x.assume(good, okT)
		if x.feasible(good) {
			k(good, []*Term{x.newSlice(good, c.Fun("u_hexdec", c.B, args[0]), types.Typ[types.Byte]), c.NilIface()})
		}
		x.assume(st, c.Not(okT))
		if x.feasible(st) {
			part := x.havocVal("hexpart", types.NewSlice(types.Typ[types.Byte]))
			k(st, []*Term{part, x.newErr("hexError")})
		}
	}, "encoding/hex.DecodeString")
	regT("json.Marshal is a function of the exported fields of its argument, or fails", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		v, known := x.jsonOf(st, args[0])
		if !known {
			x.bump()
			v = c.Fun("u_json", c.B, c.tag(args[0]), c.val(args[0]), c.I(int64(x.ctr)))
		}
		ok := st.clone()
		k(ok, []*Term{x.newSlice(ok, v, types.Typ[types.Byte]), c.NilIface()})
		k(st, []*Term{c.NilSlice(), x.someErr(st)})
	}, "encoding/json.Marshal")
	regT("json.Unmarshal succeeds or fails depending on its input only, and sets exactly the exported fields the input has, each to a value the input determines", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		data := x.bytesOf(st, args[0])
		t, found := x.constTag(args[1])
		var p *types.Pointer
		if found {
			p, found = t.Underlying().(*types.Pointer)
		}
		if !found {
			k(st, []*Term{x.havocVal("jsonerr", errorType)})
			return
		}
		loc := x.locOf(c.val(args[1]), p.Elem())
		good := x.jsonOK(TypeName(p.Elem()), data)
		bad := st.clone()
		x.assume(bad, c.Not(good))
		if x.feasible(bad) {
			x.bump()
			x.write(bad, loc, x.havocVal("json", p.Elem()))
			k(bad, []*Term{x.someErr(bad)})
		}
		x.assume(st, good)
		if !x.feasible(st) {
			return
		}
		x.bump()
		old := x.read(st, loc)
		x.write(st, loc, x.havocVal("json", p.Elem()))
		if s := structOf(p.Elem()); s != nil {
			moved := jsonFields(s)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				fl := x.fieldLoc(loc, i)
				if !moved[i] {
					x.write(st, fl, c.Field(old, i))
					continue
				}
				has, val, kind := x.jsonField(TypeName(p.Elem()), f, data)
				switch kind {
				case 1:
					x.write(st, fl, c.Ite(has, val, c.Field(old, i)))
				case 2:
					with := x.newSlice(st, val, types.Typ[types.Byte])
					x.write(st, fl, c.Ite(has, with, c.Field(old, i)))
				}
			}
		}
		k(st, []*Term{c.NilIface()})
	}, "encoding/json.Unmarshal")
	regT("crypto/rand.Read fills its argument with arbitrary bytes", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		x.havocSlice(st, args[0], types.Typ[types.Byte])
		bad := st.clone()
		k(st, []*Term{x.c.ln(args[0]), x.c.NilIface()})
		k(bad, []*Term{x.havocVal("rn", types.Typ[types.Int]), x.someErr(bad)})
	}, "crypto/rand.Read")

	// ---- container/list: ghost "list" maps the list to its sequence of elements
	listOf := func(x *Exec, st *State, l *Term) *Term {
		return x.c.Select(x.heapTerm(st, x.listKey()), l)
	}
	setList := func(x *Exec, st *State, l, v *Term) {
		k := x.listKey()
		st.heap[k] = x.c.Store(x.heapTerm(st, k), l, v)
	}
	regT("container/list behaves as a sequence of elements", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		r := x.fresh()
		setList(x, st, r, x.c.Empty(x.c.Seq(x.c.Int)))
		k(st, []*Term{r})
	}, "container/list.New")
	valLoc := func(x *Exec, ci *CallInfo, el *Term) Loc {
		var et types.Type
		if t, ok := ci.sig.Results().At(0).Type().Underlying().(*types.Pointer); ok {
			et = t.Elem()
		} else {
			et = ci.sig.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
		}
		u := et.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "Value" {
				return x.fieldLoc(x.locOf(el, et), i)
			}
		}
		return Loc{}
	}
	push := func(back bool) libModel {
		return func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
			c := x.c
			s := listOf(x, st, args[0])
			el := x.fresh()
			x.write(st, valLoc(x, ci, el), args[1])
			if back {
				setList(x, st, args[0], c.Cat(s, c.Unit(s.sort, el)))
			} else {
				setList(x, st, args[0], c.Cat(c.Unit(s.sort, el), s))
			}
			k(st, []*Term{el})
		}
	}
	reg(push(true), "(*container/list.List).PushBack")
	reg(push(false), "(*container/list.List).PushFront")
	end := func(back bool) libModel {
		return func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
			c := x.c
			s := listOf(x, st, args[0])
			n := c.Len(s)
			e := st.clone()
			x.assume(e, c.Eq(n, c.I(0)))
			if x.feasible(e) {
				k(e, []*Term{c.I(0)})
			}
			x.assume(st, c.Lt(c.I(0), n))
			if !x.feasible(st) {
				return
			}
			i := c.I(0)
			if back {
				i = c.AddK(n, -1)
			}
			el := c.Nth(s, i)
			x.assume(st, c.Lt(c.I(0), el))
			k(st, []*Term{el})
		}
	}
	reg(end(false), "(*container/list.List).Front")
	reg(end(true), "(*container/list.List).Back")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		k(st, []*Term{x.c.Len(listOf(x, st, args[0]))})
	}, "(*container/list.List).Len")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		setList(x, st, args[0], x.c.Empty(x.c.Seq(x.c.Int)))
		k(st, []*Term{args[0]})
	}, "(*container/list.List).Init")
	regT("list.Remove is called with the first or the last element", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		s := listOf(x, st, args[0])
		el := args[1]
		n := c.Len(s)
		x.panicCheck(ci.fr, st, c.Not(c.Eq(el, c.I(0))), "nil-dereference", ci.in)
		if st.dead {
			return
		}
		if ok, _, _, _ := x.holds(st.pc, c.And(c.Lt(c.I(0), n), c.Eq(el, c.Nth(s, c.I(0)))), 1500, 0); ok {
			setList(x, st, args[0], c.SubSeq(s, c.I(1), n))
		} else if ok, _, _, _ := x.holds(st.pc, c.And(c.Lt(c.I(0), n), c.Eq(el, c.Nth(s, c.AddK(n, -1)))), 1500, 0); ok {
			setList(x, st, args[0], c.SubSeq(s, c.I(0), c.AddK(n, -1)))
		} else {
			setList(x, st, args[0], c.Var("list", s.sort))
		}
		k(st, []*Term{x.read(st, valLoc(x, ci, el))})
	}, "(*container/list.List).Remove")

	// ---- net, os
	regT("net listeners, dialers and os functions: results unconstrained", nop, "net.Listen", "os.Remove", "net.JoinHostPort", "(net.Listener).Accept", "(net.Listener).Addr",
		"(net.Addr).String", "(net.Addr).Network", "(net.Conn).LocalAddr", "(net.Conn).RemoteAddr", "(net.Error).Timeout", "(net.Conn).SetDeadline", "(net.Conn).SetReadDeadline", "(net.Conn).SetWriteDeadline")
	regT("net.SplitHostPort is a fixed function of its argument", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		h, p := c.Fun("u_shost", c.B, args[0]), c.Fun("u_sport", c.B, args[0])
		okT := c.Fun("u_shpok", c.Bool, args[0])
		good := st.clone()
		x.assume(good, okT)
		if x.feasible(good) {
			k(good, []*Term{h, p, c.NilIface()})
		}
		x.assume(st, c.Not(okT))
		if x.feasible(st) {
			k(st, []*Term{c.Empty(c.B), c.Empty(c.B), x.newErr("addrError")})
		}
	}, "net.SplitHostPort")
	reg(func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		c := x.c
		k(st, []*Term{c.Fun("u_joinhp", c.B, args[0], args[1])})
	}, "net.JoinHostPort")
	regT("net.Conn.Close marks the connection closed (ghost rwclosed)", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		x.gSet(st, "rwclosed", x.c.Bool, x.c.val(args[0]), x.c.True)
		k(st, []*Term{x.havocVal("cerr", errorType)})
	}, "(net.Conn).Close")
	regT("net.Listener.Close marks the listener closed (ghost lclosed)", func(x *Exec, ci *CallInfo, st *State, args []*Term, k func(*State, []*Term)) {
		x.gSet(st, "lclosed", x.c.Bool, x.c.val(args[0]), x.c.True)
		k(st, []*Term{x.c.Var("closeerr", x.c.Iface)})
	}, "(net.Listener).Close")
}

func (x *Exec) hexEnc(s *Term) *Term {
	c := x.c
	t := c.Fun("u_hexenc", c.B, s)
	c.Fun("u_hexdec", c.B, s)
	c.Fun("u_ishex", c.Bool, s)
	c.Axiom("hex", "(forall ((s B)) (! (and (u_ishex (u_hexenc s)) (= (u_hexdec (u_hexenc s)) s) (= (len_B (u_hexenc s)) (* 2 (len_B s)))) :pattern ((u_hexenc s))))")
	return t
}

// indexByte is the index of the first b in s, or -1.
func (x *Exec) indexByte(s, b *Term) *Term {
	c := x.c
	if !b.isInt() {
		t := c.Fun("u_idx", c.Int, s, b)
		c.Axiom("idx", "(forall ((s B) (b Int)) (! (and (<= (- 1) (u_idx s b)) (< (u_idx s b) (len_B s))) :pattern ((u_idx s b))))")
		return t
	}
	// known prefix bytes first
	t := c.Fun("u_idx", c.Int, s, b)
	if t.lo == nil {
		t.lo = big.NewInt(-1)
		t.hi = maxLen
	}
	c.Axiom("idx", "(forall ((s B) (b Int)) (! (and (<= (- 1) (u_idx s b)) (< (u_idx s b) (len_B s))) :pattern ((u_idx s b))))")
	c.Axiom("idx2", "(forall ((s B) (b Int)) (! (=> (<= 0 (u_idx s b)) (= (nth_B s (u_idx s b)) b)) :pattern ((u_idx s b))))")
	c.Axiom("idx4", "(forall ((s B) (lo Int) (hi Int) (b Int) (j Int)) (! (=> (and (<= 0 lo) (<= lo j) (< j hi) (<= hi (len_B s)) (= (nth_B s j) b)) (and (<= 0 (u_idx (sub_B s lo hi) b)) (<= (u_idx (sub_B s lo hi) b) (- j lo)))) :pattern ((u_idx (sub_B s lo hi) b) (nth_B s j))))")
	c.Axiom("idx3", "(forall ((s B) (b Int) (i Int)) (! (=> (and (<= 0 i) (< i (len_B s)) (= (nth_B s i) b)) (and (<= 0 (u_idx s b)) (<= (u_idx s b) i))) :pattern ((u_idx s b) (nth_B s i))))")
	return t
}

func (x *Exec) listKey() string { return x.key("G|list", x.c.Seq(x.c.Int), true, nil) }

// condLock is the declared lock of a condition variable that is a field: the
// argument is the condition variable, or its Locker.
func (x *Exec) condLock(fr *Frame, st *State, arg *Term, locker bool) *Term {
	for _, ls := range x.specs.Locks {
		if !ls.Cond {
			continue
		}
		var vals []ssa.Value
		for v := range fr.env {
			if el, ok := deref(v.Type()); ok && TypeName(el) == ls.Type {
				vals = append(vals, v)
			}
		}
		sort.Slice(vals, func(i, j int) bool { return vals[i].Name() < vals[j].Name() })
		for _, v := range vals {
			el, _ := deref(v.Type())
			path, ok := fieldPath(el, ls.Mu)
			if !ok || fr.env[v].T == nil {
				continue
			}
			l := x.locOf(fr.env[v].T, el)
			for _, i := range path {
				l = x.fieldLoc(l, i)
			}
			ct, ok := deref(l.typ)
			if !ok {
				continue
			}
			cv := x.read(st, l)
			if locker {
				lp, ok := fieldPath(ct, "L")
				if !ok {
					continue
				}
				cv = x.read(st, x.fieldLoc(x.locOf(cv, ct), lp[0]))
			}
			if cv == arg {
				return l.ptr
			}
		}
	}
	return nil
}
