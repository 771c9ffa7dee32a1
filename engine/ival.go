package main

import (
	"fmt"
	"math"
)

// Float mode "ival": a float computed from symbolic integers is an unknown value
// within exact bounds. The bounds of a result are the results at the bounds of
// the operands, because IEEE operations and conversions round monotonically. A
// converted integer is a fresh solver variable within the converted bounds. In
// addition every integer entering a float computation is explored at exactly
// its two ends, where everything is computed concretely.

type fival struct {
	lo, hi float64
	nan    bool // may also be NaN
}

var ftop = fival{math.Inf(-1), math.Inf(1), true}

func (m *M) fiv(t *Term) fival {
	if t.op == OConst {
		f := math.Float64frombits(t.val)
		if math.IsNaN(f) {
			return ftop
		}
		return fival{lo: f, hi: f}
	}
	if v, ok := m.fivs[t]; ok {
		return v
	}
	return ftop
}

func (m *M) fivNew(name string, v fival, args ...*Term) *Term {
	t := m.tm.App(name, sFP, args...)
	if _, ok := m.fivs[t]; !ok {
		m.fivs[t] = v
	}
	return t
}

func hull(fs ...float64) fival {
	r := fival{lo: math.Inf(1), hi: math.Inf(-1)}
	for _, f := range fs {
		if math.IsNaN(f) {
			return ftop
		}
		r.lo = math.Min(r.lo, f)
		r.hi = math.Max(r.hi, f)
	}
	return r
}

func (m *M) ivalOp(op Op, ts ...*Term) Value {
	a := m.fiv(ts[0])
	var r fival
	switch op {
	case OFAdd:
		b := m.fiv(ts[1])
		r = hull(a.lo+b.lo, a.hi+b.hi)
	case OFSub:
		b := m.fiv(ts[1])
		r = hull(a.lo-b.hi, a.hi-b.lo)
	case OFMul:
		b := m.fiv(ts[1])
		r = hull(a.lo*b.lo, a.lo*b.hi, a.hi*b.lo, a.hi*b.hi)
		if (math.IsInf(a.lo, 0) || math.IsInf(a.hi, 0)) && b.lo <= 0 && b.hi >= 0 || (math.IsInf(b.lo, 0) || math.IsInf(b.hi, 0)) && a.lo <= 0 && a.hi >= 0 {
			r = ftop
		}
	case OFDiv:
		b := m.fiv(ts[1])
		if b.lo <= 0 && b.hi >= 0 || math.IsInf(b.lo, 0) || math.IsInf(b.hi, 0) {
			// the bounds say nothing around zero and between infinities
			r = ftop
		} else {
			r = hull(a.lo/b.lo, a.lo/b.hi, a.hi/b.lo, a.hi/b.hi)
		}
	case OFSqrt:
		r = hull(math.Sqrt(a.lo), math.Sqrt(a.hi))
	case OFNeg:
		r = fival{lo: -a.hi, hi: -a.lo}
	case OFAbs:
		r = hull(math.Abs(a.lo), math.Abs(a.hi))
		if a.lo < 0 && a.hi > 0 {
			r.lo = 0
		}
	case OFCeil:
		r = hull(math.Ceil(a.lo), math.Ceil(a.hi))
	case OFFloor:
		r = hull(math.Floor(a.lo), math.Floor(a.hi))
	case OFTrunc:
		r = hull(math.Trunc(a.lo), math.Trunc(a.hi))
	default:
		r = ftop
	}
	for _, t := range ts {
		if m.fiv(t).nan {
			r.nan = true
		}
	}
	return m.fivNew(fmt.Sprintf("f%d", op), r, ts...)
}

// ivalMono applies a function taken to be monotone.
func (m *M) ivalMono(name string, f func(float64) float64, t *Term) Value {
	a := m.fiv(t)
	lo, hi := f(a.lo), f(a.hi)
	r := fival{lo: lo, hi: hi, nan: a.nan}
	if math.IsNaN(lo) || math.IsNaN(hi) {
		r = ftop
	}
	return m.fivNew("f_"+name, r, t)
}

// intRange bounds the unsigned value of t from its shape and the path condition.
func (m *M) intRange(t *Term) (uint64, uint64) {
	lo, hi := uint64(0), mask(t.w())
	switch t.op {
	case OConst:
		return t.val, t.val
	case OZext:
		return m.intRange(t.args[0])
	case OExtract:
		a := t.args[0]
		if int(t.val>>8) == a.w()-1 {
			l, h := m.intRange(a)
			k := t.val & 255
			return l >> k, h >> k
		}
	case OConcat:
		if a := t.args[0]; a.isConst() && a.val == 0 && len(t.args) == 2 {
			return m.intRange(t.args[1])
		}
	case OLshr:
		if t.args[1].isConst() && t.args[1].val < 64 {
			l, h := m.intRange(t.args[0])
			return l >> t.args[1].val, h >> t.args[1].val
		}
	case OAdd:
		l, h := uint64(0), uint64(0)
		for _, a := range t.args {
			al, ah := m.intRange(a)
			if h+ah < h || h+ah > mask(t.w()) {
				return lo, hi
			}
			l, h = l+al, h+ah
		}
		lo, hi = l, h
	}
	for _, c := range m.pc {
		if len(c.args) != 2 {
			continue
		}
		a, b := c.args[0], c.args[1]
		s := uint64(0)
		if c.op == OUlt || c.op == OSlt {
			s = 1
		}
		switch c.op {
		case OUle, OUlt:
			if a == t && b.isConst() && b.val-s < hi && b.val >= s {
				hi = b.val - s
			}
			if b == t && a.isConst() && a.val+s > lo {
				lo = a.val + s
			}
		case OSle, OSlt:
			if t.w() != 64 {
				continue
			}
			if a == t && b.isConst() && int64(lo) >= 0 && int64(hi) >= 0 && b.val-s < hi {
				hi = b.val - s
			}
			if b == t && a.isConst() && int64(a.val) >= 0 {
				if a.val+s > lo {
					lo = a.val + s
				}
				if hi > 1<<63-1 {
					hi = 1<<63 - 1
				}
			}
		case OEq:
			if a == t && b.isConst() {
				return b.val, b.val
			}
			if b == t && a.isConst() {
				return a.val, a.val
			}
		}
	}
	if lo > hi {
		return 0, mask(t.w())
	}
	return lo, hi
}

// ivalFrom converts an integer to a float.
func (m *M) ivalFrom(t *Term, signed bool) Value {
	lo, hi := m.intRange(t)
	if signed && hi > 1<<63-1 {
		return m.fivNew("i2f", fival{lo: -(1 << 63), hi: 1 << 63}, t)
	}
	if lo == hi {
		return float64(lo)
	}
	c := 0
	if k, ok := m.stepOf[t]; ok && m.stepEnd[t] == [2]uint64{lo, hi} {
		c = int(k)
	} else {
		if e := m.x.h.Params["ends"]; e == 0 || m.floatEnds < e {
			m.floatEnds++
			c = m.choose(3)
		}
		m.stepOf[t] = uint64(c)
		switch c {
		case 1:
			m.assume(m.norm(m.tm.Eq(t, m.tm.BV(lo, t.w()))))
		case 2:
			m.assume(m.norm(m.tm.Eq(t, m.tm.BV(hi, t.w()))))
		}
		m.stepEnd[t] = [2]uint64{lo, hi}
	}
	switch c {
	case 1:
		return float64(m.stepEnd[t][0])
	case 2:
		return float64(m.stepEnd[t][1])
	}
	return m.fivNew(fmt.Sprintf("u2f_%x_%x", lo, hi), fival{lo: float64(lo), hi: float64(hi)}, t)
}

// ivalTo converts a float to an integer.
func (m *M) ivalTo(t *Term, w int, signed bool) Value {
	if r, ok := m.f2iOf[t]; ok && r.w() == w {
		return r
	}
	v := m.fiv(t)
	m.nextID++
	r := m.tm.Var(fmt.Sprintf("ival%d", m.nextID), sBV(w))
	m.f2iOf[t] = r
	lo, hi := math.Trunc(v.lo), math.Trunc(v.hi)
	if v.nan {
		lo, hi = math.Inf(-1), math.Inf(1)
	}
	if lo >= 0 && hi < 1<<63 && w == 64 {
		m.assume(m.norm(m.tm.And(m.tm.Ule(m.tm.BV(uint64(lo), 64), r), m.tm.Ule(r, m.tm.BV(uint64(hi), 64)))))
	} else if lo >= -(1<<63) && hi < 1<<63 && w == 64 {
		m.assume(m.norm(m.tm.And(m.tm.Sle(m.tm.BV(uint64(int64(lo)), 64), r), m.tm.Sle(r, m.tm.BV(uint64(int64(hi)), 64)))))
	}
	return r
}

// ivalCmp decides a comparison, splitting and narrowing where it is open.
func (m *M) ivalCmp(op Op, x, y *Term) Value {
	a, b := m.fiv(x), m.fiv(y)
	yes, no := false, false
	switch op {
	case OFLt:
		yes, no = a.hi < b.lo, a.lo >= b.hi
	case OFLe:
		yes, no = a.hi <= b.lo, a.lo > b.hi
	case OFEq:
		no = a.hi < b.lo || b.hi < a.lo
	}
	if a.nan || b.nan {
		yes = false
	}
	if yes || no {
		return yes
	}
	key := m.tm.App(fmt.Sprintf("fc%d", op), sFP, x, y)
	if v, ok := m.stepOf[key]; ok {
		return v == 1
	}
	v := m.choose(2)
	m.stepOf[key] = uint64(v)
	narrow := func(t *Term, lo, hi float64) {
		if t.op == OConst {
			return
		}
		f := m.fiv(t)
		if v == 0 && (a.nan || b.nan) {
			return // may be false because of a NaN
		}
		f.nan = false
		f.lo, f.hi = math.Max(f.lo, lo), math.Min(f.hi, hi)
		if f.lo > f.hi {
			m.stop("infeasible", "float interval")
		}
		m.fivs[t] = f
	}
	down := func(f float64) float64 { return math.Nextafter(f, math.Inf(-1)) }
	up := func(f float64) float64 { return math.Nextafter(f, math.Inf(1)) }
	inf := math.Inf(1)
	switch {
	case op == OFLt && v == 1:
		narrow(x, -inf, down(b.hi))
		narrow(y, up(a.lo), inf)
	case op == OFLt:
		narrow(x, b.lo, inf)
		narrow(y, -inf, a.hi)
	case op == OFLe && v == 1:
		narrow(x, -inf, b.hi)
		narrow(y, a.lo, inf)
	case op == OFLe:
		narrow(x, up(b.lo), inf)
		narrow(y, -inf, down(a.hi))
	case op == OFEq && v == 1:
		narrow(x, b.lo, b.hi)
		narrow(y, a.lo, a.hi)
	}
	return v == 1
}
