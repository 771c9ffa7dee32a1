package main

import (
	"fmt"
	"strings"
)

// Queries that only add and compare 64-bit values with known ranges that cannot
// overflow are handed to the solver as integer arithmetic, which it decides an
// order of magnitude faster than the equivalent bit-vector query.

type ival struct{ lo, hi int64 }

const liaMax = int64(1) << 62

type liaConv struct {
	rng   map[*Term]ival
	memoI map[*Term]ival
	names map[*Term]string
	sb    strings.Builder
	atoms []*Term
	n     int
	ok    bool
}

func isAtom(t *Term) bool { return t.op == OVar || t.op == OApp }

func (c *liaConv) bound(cs []*Term) {
	get := func(t *Term) ival {
		if r, ok := c.rng[t]; ok {
			return r
		}
		if t.w() < 64 {
			return ival{0, int64(mask(t.w()))}
		}
		return ival{-1 << 63, 1<<63 - 1}
	}
	for _, q := range cs {
		if q.op != OSle && q.op != OSlt && q.op != OUle && q.op != OUlt {
			continue
		}
		a, b := q.args[0], q.args[1]
		if a.sort.K != KBV || a.w() != 64 {
			continue
		}
		strict := int64(0)
		if q.op == OSlt || q.op == OUlt {
			strict = 1
		}
		uns := q.op == OUle || q.op == OUlt
		if isAtom(a) && b.isConst() {
			k := int64(b.val)
			if uns && k < 0 {
				continue
			}
			r := get(a)
			if uns && r.lo < 0 {
				r.lo = 0
			}
			if k-strict < r.hi {
				r.hi = k - strict
			}
			c.rng[a] = r
		} else if a.isConst() && isAtom(b) && !uns {
			k := int64(a.val)
			r := get(b)
			if k+strict > r.lo {
				r.lo = k + strict
			}
			c.rng[b] = r
		}
	}
}

func (c *liaConv) interval(t *Term) ival {
	if r, ok := c.memoI[t]; ok {
		return r
	}
	r := c.interval1(t)
	if c.ok && !isAtom(t) && t.op != OConst && (r.lo < -liaMax || r.hi > liaMax) {
		c.ok = false
	}
	c.memoI[t] = r
	return r
}

func (c *liaConv) interval1(t *Term) ival {
	bad := func() ival { c.ok = false; return ival{} }
	if t.sort.K != KBV {
		return bad()
	}
	switch t.op {
	case OConst:
		if t.w() == 64 {
			return ival{int64(t.val), int64(t.val)}
		}
		return bad()
	case OVar, OApp:
		if r, ok := c.rng[t]; ok {
			return r
		}
		if t.w() == 64 {
			return ival{-1 << 63, 1<<63 - 1}
		}
		return bad()
	case OZext:
		a := t.args[0]
		if isAtom(a) && t.w() == 64 && a.w() < 63 {
			return ival{0, int64(mask(a.w()))}
		}
		return bad()
	case OAdd:
		lo, hi := 0.0, 0.0
		s := ival{}
		for _, a := range t.args {
			r := c.interval(a)
			if !c.ok {
				return bad()
			}
			lo += float64(r.lo)
			hi += float64(r.hi)
			if lo < -4e18 || hi > 4e18 {
				return bad()
			}
			s.lo += r.lo
			s.hi += r.hi
		}
		return s
	case OMul:
		if len(t.args) != 2 {
			return bad()
		}
		a, b := t.args[0], t.args[1]
		if b.isConst() {
			a, b = b, a
		}
		if !a.isConst() || t.w() != 64 {
			return bad()
		}
		k := int64(a.val)
		r := c.interval(b)
		if !c.ok {
			return bad()
		}
		for _, e := range []int64{r.lo, r.hi} {
			if f := float64(k) * float64(e); f > 4e18 || f < -4e18 {
				return bad()
			}
		}
		x, y := k*r.lo, k*r.hi
		if x > y {
			x, y = y, x
		}
		return ival{x, y}
	case OIte:
		a, b := c.interval(t.args[1]), c.interval(t.args[2])
		if b.lo < a.lo {
			a.lo = b.lo
		}
		if b.hi > a.hi {
			a.hi = b.hi
		}
		return a
	}
	return bad()
}

func intSMT(v int64) string {
	if v < 0 {
		if v == -1<<63 {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -v)
	}
	return fmt.Sprint(v)
}

func (c *liaConv) ref(t *Term) string {
	if n, ok := c.names[t]; ok {
		return n
	}
	if !c.ok {
		return ""
	}
	var s string
	sort := "Bool"
	if t.sort.K == KBV {
		sort = "Int"
		c.interval(t)
		if !c.ok {
			return ""
		}
	} else if t.sort.K != KBool {
		c.ok = false
		return ""
	}
	list := func(op string) string {
		o := "(" + op
		for _, a := range t.args {
			o += " " + c.ref(a)
		}
		return o + ")"
	}
	switch t.op {
	case OConst:
		if sort == "Bool" {
			return constSMT(t)
		}
		return intSMT(int64(t.val))
	case OVar, OApp:
		n := atomName(t)
		fmt.Fprintf(&c.sb, "(declare-const %s %s)\n", n, sort)
		if sort == "Int" {
			r := c.interval(t)
			fmt.Fprintf(&c.sb, "(assert (and (<= %s %s) (<= %s %s)))\n", intSMT(r.lo), n, n, intSMT(r.hi))
		}
		c.atoms = append(c.atoms, t)
		c.names[t] = n
		return n
	case OZext:
		a := t.args[0]
		n := atomName(a)
		if _, ok := c.names[a]; !ok {
			fmt.Fprintf(&c.sb, "(declare-const %s Int)\n(assert (and (<= 0 %s) (<= %s %d)))\n", n, n, n, mask(a.w()))
			c.atoms = append(c.atoms, a)
			c.names[a] = n
		}
		c.names[t] = n
		return n
	case ONot:
		s = list("not")
	case OAnd:
		s = list("and")
	case OOr:
		s = list("or")
	case OEq:
		s = list("=")
	case OIte:
		s = list("ite")
	case OAdd:
		s = list("+")
	case OMul:
		s = list("*")
	case OSle, OSlt, OUle, OUlt:
		for _, a := range t.args {
			r := c.interval(a)
			if (t.op == OUle || t.op == OUlt) && r.lo < 0 {
				c.ok = false
			}
		}
		if !c.ok {
			return ""
		}
		if t.op == OSle || t.op == OUle {
			s = list("<=")
		} else {
			s = list("<")
		}
	default:
		c.ok = false
		return ""
	}
	if !c.ok {
		return ""
	}
	c.n++
	n := fmt.Sprintf("l%d", c.n)
	fmt.Fprintf(&c.sb, "(define-fun %s () %s %s)\n", n, sort, s)
	c.names[t] = n
	return n
}

// liaScript returns the integer form of the query, if it has one. Equality-only
// queries over unbounded atoms gain nothing and are left to bit-vectors.
func liaScript(cs []*Term) (string, []*Term, []string, bool) {
	c := &liaConv{rng: map[*Term]ival{}, memoI: map[*Term]ival{}, names: map[*Term]string{}, ok: true}
	c.bound(cs)
	if len(c.rng) == 0 {
		return "", nil, nil, false
	}
	for _, r := range c.rng {
		if r.lo > r.hi {
			return "", nil, nil, false
		}
	}
	for _, t := range cs {
		n := c.ref(t)
		if !c.ok {
			return "", nil, nil, false
		}
		fmt.Fprintf(&c.sb, "(assert %s)\n", n)
	}
	var names []string
	for _, a := range c.atoms {
		names = append(names, atomName(a))
	}
	return "(set-logic QF_LIA)\n" + c.sb.String(), c.atoms, names, true
}
