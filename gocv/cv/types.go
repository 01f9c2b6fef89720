package cv

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

func isRepoNamed(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modulePath)
}

// opaque: external struct types are modelled as one opaque integer.
func isOpaque(t types.Type) bool {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if _, st := n.Underlying().(*types.Struct); !st {
		return false
	}
	return !isRepoNamed(t)
}

func structOf(t types.Type) *types.Struct {
	if isOpaque(t) {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func arrayOf(t types.Type) *types.Array {
	a, _ := t.Underlying().(*types.Array)
	return a
}

func sliceOf(t types.Type) *types.Slice {
	a, _ := t.Underlying().(*types.Slice)
	return a
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// intRange returns bounds for integer types.
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	var bits uint
	signed := b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	case types.UntypedInt, types.UntypedRune:
		return nil, nil, false
	default:
		bits = 64
	}
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), bigOne), true
	}
	return bigZero, new(big.Int).Sub(pow2(bits), bigOne), true
}

// isRef: the Int-sorted value of t is a reference.
func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// SortOf maps a Go type to a sort.
func (c *Ctx) SortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	if isOpaque(t) {
		return c.Int
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.Bool
		case u.Info()&types.IsString != 0:
			return c.B
		}
		return c.Int
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return c.Int
	case *types.Interface:
		return c.Iface
	case *types.Slice:
		return c.Sl
	case *types.Array:
		return c.SeqOf(u.Elem())
	case *types.Struct:
		name := "S_" + sanitize(TypeName(t))
		if s, ok := c.sorts[name]; ok {
			return s
		}
		var fs []DTField
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			fs = append(fs, DTField{fmt.Sprintf("%s%d", sanitize(u.Field(i).Name()), i), c.SortOf(ft), hasRefs(ft)})
		}
		if len(fs) == 0 {
			fs = []DTField{{"unit", c.Int, false}}
		}
		return c.dtSort(name, fs)
	}
	return c.Int
}

// SeqOf is the sequence sort for elements of Go type t.
func (c *Ctx) SeqOf(t types.Type) *Sort {
	if isByte(t) {
		return c.B
	}
	return c.Seq(c.SortOf(t))
}

func hasRefs(t types.Type) bool {
	t = types.Unalias(t)
	if isOpaque(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs(u.Elem())
	}
	return true
}

// Zero is the zero value of t.
func (c *Ctx) Zero(t types.Type) *Term {
	t = types.Unalias(t)
	if isOpaque(t) {
		return c.I(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.False
		case u.Info()&types.IsString != 0:
			return c.Empty(c.B)
		}
		return c.I(0)
	case *types.Interface:
		return c.NilIface()
	case *types.Slice:
		return c.NilSlice()
	case *types.Array:
		return c.Rep(c.SeqOf(u.Elem()), c.Zero(u.Elem()), c.I(u.Len()))
	case *types.Struct:
		s := c.SortOf(t)
		if u.NumFields() == 0 {
			return c.Cons(s, c.I(0))
		}
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, c.Zero(u.Field(i).Type()))
		}
		return c.Cons(s, args...)
	}
	return c.I(0)
}

func (c *Ctx) NilIface() *Term { return c.Cons(c.Iface, c.I(0), c.I(0)) }
func (c *Ctx) NilSlice() *Term { return c.Cons(c.Sl, c.I(0), c.I(0), c.I(0), c.I(0)) }

// slice parts
func (c *Ctx) arr(s *Term) *Term { return c.Field(s, 0) }
func (c *Ctx) off(s *Term) *Term { return c.Field(s, 1) }
func (c *Ctx) ln(s *Term) *Term  { return c.Field(s, 2) }
func (c *Ctx) cp(s *Term) *Term  { return c.Field(s, 3) }
func (c *Ctx) tag(i *Term) *Term { return c.Field(i, 0) }
func (c *Ctx) val(i *Term) *Term { return c.Field(i, 1) }

// VarOf creates a fresh variable of Go type t with references below ctr.
func (c *Ctx) VarOf(hint string, t types.Type, ctr int) *Term {
	s := c.SortOf(t)
	v := c.Var(hint, s)
	if hasRefs(t) && s != c.Int || isRef(t) {
		v.below = ctr
	}
	return v
}

// TypeFacts lists facts true of any value v of Go type t.
func (c *Ctx) TypeFacts(v *Term, t types.Type, out *[]*Term) {
	t = types.Unalias(t)
	if isOpaque(t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok {
			*out = append(*out, c.App("<=", c.Bool, c.Big(lo), v), c.App("<=", c.Bool, v, c.Big(hi)))
			if v.op != "int" && v.op != "lin" {
				if v.lo == nil {
					v.lo = lo
				}
				if v.hi == nil {
					v.hi = hi
				}
			}
		}
	case *types.Slice:
		a, o, l, p := c.arr(v), c.off(v), c.ln(v), c.cp(v)
		z := c.I(0)
		*out = append(*out,
			c.App("<=", c.Bool, z, o), c.App("<=", c.Bool, z, l), c.App("<=", c.Bool, l, p),
			c.App("<=", c.Bool, c.Add(o, p), c.ArrLen(a)), c.App("<=", c.Bool, c.ArrLen(a), c.Big(maxElems(u.Elem(), maxLen))),
			c.Imp(c.Eq(a, z), c.And(c.Eq(p, z), c.Eq(o, z))))
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			c.TypeFacts(c.Field(v, i), u.Field(i).Type(), out)
		}
	case *types.Array:
		*out = append(*out, c.App("=", c.Bool, c.App("len_"+v.sort.Name, c.Int, v), c.I(u.Len())))
	case *types.Interface:
		*out = append(*out, c.App("<=", c.Bool, c.I(0), c.tag(v)), c.Imp(c.Eq(c.tag(v), c.I(0)), c.Eq(c.val(v), c.I(0))))
	}
}

// maxElems is how many elements of type t fit into n bytes.
func maxElems(t types.Type, n *big.Int) *big.Int {
	if isOpaque(t) {
		return n
	}
	if k := gcSizes.Sizeof(t); k > 1 {
		return new(big.Int).Quo(n, big.NewInt(k))
	}
	return n
}
