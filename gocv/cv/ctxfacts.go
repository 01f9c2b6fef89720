package cv

import (
	"math/big"
)

// Linear facts used by the simplifier: an entry d means d >= 0.
type ctxFacts struct {
	all  []*Term
	byA  map[*Term][]*Term // facts mentioning an atom
	seen map[*Term]bool
	memo map[geKey]bool

	noarr [][2]*Term // sequence, array
}

type geKey struct {
	d     *Term
	depth int
}

func (c *Ctx) addFact(d *Term) {
	if c.ctx.seen[d] || d.isInt() {
		return
	}
	c.ctx.seen[d] = true
	clear(c.ctx.memo)
	c.ctx.all = append(c.ctx.all, d)
	for _, a := range toLin(d).atoms {
		c.ctx.byA[a] = append(c.ctx.byA[a], d)
	}
}

// deepBool simplifies the parts of a formula under the parts that guard them.
func (c *Ctx) deepBool(t *Term) *Term {
	if !hasSeq(t) {
		return t
	}
	under := func(g []*Term, t *Term) *Term {
		if !hasSeq(t) {
			return t
		}
		old := c.ctx
		n := &ctxFacts{all: append([]*Term(nil), old.all...), byA: make(map[*Term][]*Term, len(old.byA)), seen: make(map[*Term]bool, len(old.seen)), memo: map[geKey]bool{}, noarr: old.noarr}
		for k, v := range old.byA {
			n.byA[k] = v[:len(v):len(v)]
		}
		for k := range old.seen {
			n.seen[k] = true
		}
		c.ctx = n
		for _, a := range g {
			for _, p := range flatAnd(a) {
				switch p.op {
				case "<=":
					c.addFact(c.Sub(p.args[1], p.args[0]))
				case "<":
					c.addFact(c.AddK(c.Sub(p.args[1], p.args[0]), -1))
				case "=":
					if p.args[0].sort == c.Int {
						d := c.Sub(p.args[1], p.args[0])
						c.addFact(d)
						c.addFact(c.Sub(c.I(0), d))
					}
				}
			}
		}
		r := t
		if len(n.all) != len(old.all) {
			r = c.Subst(t, nil)
		}
		r = c.deepBool(r)
		c.ctx = old
		return r
	}
	switch t.op {
	case "and":
		var g []*Term
		for _, a := range t.args {
			g = append(g, under(g, a))
		}
		return c.And(g...)
	case "or":
		var g, out []*Term
		for _, a := range t.args {
			n := under(g, a)
			out = append(out, n)
			g = append(g, c.Not(n))
		}
		return c.Or(out...)
	case "=>":
		a := c.deepBool(t.args[0])
		return c.Imp(a, under([]*Term{a}, t.args[1]))
	case "not":
		return c.Not(c.deepBool(t.args[0]))
	case "=":
		if t.args[0].sort == c.Bool {
			return c.Eq(c.deepBool(t.args[0]), c.deepBool(t.args[1]))
		}
	}
	return t
}

// enterCtx makes the arithmetic literals of pc available to the simplifier.
func (c *Ctx) enterCtx(pc []*Term) {
	c.ctx = &ctxFacts{byA: map[*Term][]*Term{}, seen: map[*Term]bool{}, memo: map[geKey]bool{}}
	var lit func(p *Term)
	var ors []*Term
	lit = func(p *Term) {
		switch p.op {
		case "and":
			for _, a := range p.args {
				lit(a)
			}
		case "<=":
			c.addFact(c.Sub(p.args[1], p.args[0]))
		case "<":
			c.addFact(c.AddK(c.Sub(p.args[1], p.args[0]), -1))
		case "=":
			if p.args[0].sort == c.Int {
				d := c.Sub(p.args[1], p.args[0])
				c.addFact(d)
				c.addFact(c.Sub(c.I(0), d))
			}
		case "noarr":
			c.ctx.noarr = append(c.ctx.noarr, [2]*Term{p.args[0], p.args[1]})
		case "or":
			ors = append(ors, p)
		}
	}
	for _, p := range pc {
		lit(p)
	}
	for round := 0; round < 2 && len(ors) > 0; round++ {
		todo := ors
		ors = nil
		for _, o := range todo {
			var open []*Term
			for _, d := range o.args {
				r := d
				switch d.op {
				case "<=":
					r = c.Le(d.args[0], d.args[1])
				case "<":
					r = c.Lt(d.args[0], d.args[1])
				case "=":
					if d.args[0].sort == c.Int {
						r = c.Eq(d.args[0], d.args[1])
					}
				}
				if r.op == "true" {
					open = nil
					break
				}
				if r.op != "false" {
					open = append(open, d)
				}
			}
			if len(open) == 1 {
				lit(open[0])
			} else if len(open) > 1 {
				ors = append(ors, o)
			}
		}
	}
}

func (c *Ctx) leaveCtx() { c.ctx = nil }

// ge0 tries to show d >= 0 from intervals, the shape of slices and the context facts.
func (c *Ctx) ge0(d *Term, depth int) bool {
	if d.lo != nil && d.lo.Sign() >= 0 {
		return true
	}
	if d.isInt() || depth == 0 {
		return false
	}
	if c.ctx != nil {
		k := geKey{d, depth}
		if r, ok := c.ctx.memo[k]; ok {
			return r
		}
		r := c.ge1(d, depth)
		c.ctx.memo[k] = r
		return r
	}
	return c.ge1(d, depth)
}

func (c *Ctx) ge1(d *Term, depth int) bool {
	l := toLin(d)
	if len(l.atoms) > 6 {
		return false
	}
	pos := func(t *Term) bool {
		for i, a := range l.atoms {
			if a == t {
				return l.coef[i].Sign() > 0
			}
		}
		return false
	}
	for i, a := range l.atoms {
		neg := l.coef[i].Sign() < 0
		if neg && len(a.args) == 1 && a.args[0].sort == c.Sl {
			s := a.args[0]
			switch a.op {
			case "Sl_ln":
				if cp := c.cp(s); pos(cp) && c.ge0(c.Sub(d, c.Sub(cp, a)), depth-1) {
					return true
				}
				fallthrough
			case "Sl_cp", "Sl_off":
				if al := c.ArrLen(c.arr(s)); pos(al) {
					m := a
					if a.op == "Sl_off" { // prefer to cancel off together with ln or cp
						m = c.Add(a, c.ln(s))
						if pos2(l, c.cp(s)) {
							m = c.Add(a, c.cp(s))
						}
					} else {
						m = c.Add(a, c.off(s))
					}
					if c.ge0(c.Sub(d, c.Sub(al, m)), depth-1) {
						return true
					}
					if c.ge0(c.Sub(d, c.Sub(al, a)), depth-1) {
						return true
					}
				}
			}
		}
	}
	if c.ctx == nil {
		return false
	}
	tried := map[*Term]bool{}
	for i, a := range l.atoms {
		for _, f := range c.ctx.byA[a] {
			if tried[f] {
				continue
			}
			fl := toLin(f)
			same := false
			for j, b := range fl.atoms {
				if b == a && fl.coef[j].Sign() == l.coef[i].Sign() && fl.coef[j].CmpAbs(l.coef[i]) <= 0 {
					same = true
				}
			}
			if !same {
				continue
			}
			tried[f] = true
			if c.ge0(c.Sub(d, f), depth-1) {
				return true
			}
		}
	}
	return false
}

func pos2(l lin, t *Term) bool {
	for i, a := range l.atoms {
		if a == t {
			return l.coef[i].Sign() < 0
		}
	}
	return false
}

func (c *Ctx) ge(d *Term, k int64) bool {
	if k != 0 {
		d = c.AddK(d, -k)
	}
	dep := 2
	if c.ctx != nil {
		dep = 3
	} else if !hasSlAtom(d) {
		dep = 0
	}
	return c.ge0(d, dep)
}

func hasSlAtom(d *Term) bool {
	l := toLin(d)
	for i, a := range l.atoms {
		if l.coef[i].Sign() < 0 && (a.op == "Sl_ln" || a.op == "Sl_cp" || a.op == "Sl_off") {
			return true
		}
	}
	return false
}

var _ = big.NewInt
