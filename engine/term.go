package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// Terms are hash-consed SMT terms over booleans, bit-vectors of width <= 64,
// IEEE doubles and (for a few harnesses) mathematical integers and reals. The
// constructors simplify; all simplifications are validity preserving.

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KFP
	KReal
)

type Sort struct {
	K Kind
	W uint8
}

var (
	sBool = Sort{KBool, 0}
	sFP   = Sort{KFP, 64}
	sReal = Sort{KReal, 0}
)

func sBV(w int) Sort { return Sort{KBV, uint8(w)} }

func (s Sort) smt() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case KFP:
		return "(_ FloatingPoint 11 53)"
	case KReal:
		return "Real"
	}
	panic("sort")
}

type Op uint8

const (
	OConst Op = iota
	OVar
	OApp
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OXor
	OBNot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract
	OZext
	OSext
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFSqrt
	OFNeg
	OFAbs
	OFCeil
	OFFloor
	OFTrunc
	OFLt
	OFLe
	OFEq
	OU2F
	OS2F
	OF2U
	OF2S
	OFBits
	// reals
	ORConst
	ORAdd
	ORMul
	ORLe
	ORLt
	ORToInt // to_real of floor: (to_real (to_int x))
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor",
	OXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult",
	OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFSqrt: "fp.sqrt RNE",
	OFNeg: "fp.neg", OFAbs: "fp.abs", OFCeil: "fp.roundToIntegral RTP", OFFloor: "fp.roundToIntegral RTN",
	OFTrunc: "fp.roundToIntegral RTZ", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq",
	OU2F: "(_ to_fp_unsigned 11 53) RNE", OS2F: "(_ to_fp 11 53) RNE", OF2U: "(_ fp.to_ubv 64) RTZ", OF2S: "(_ fp.to_sbv 64) RTZ",
	OFBits: "(_ to_fp 11 53)", ORAdd: "+", ORMul: "*", ORLe: "<=", ORLt: "<",
}

type THash [2]uint64

type Term struct {
	op   Op
	sort Sort
	args []*Term
	val  uint64 // constant value; extract: hi<<8|lo
	name string // variable or application name
	rat  *big.Rat
	h    THash
	size int
	syms []*Term // atoms (OVar, OApp) below, sorted by hash; nil until computed
	symd bool
}

// TM is a term manager: one per path.
type TM struct {
	tab    map[THash]*Term
	tt, ff *Term
	// lits holds the facts of the current path: term hash -> truth value.
	lits map[THash]bool
	// ideal hash functions: equality of XORs of applications is decided by pairing
	ideal map[string]bool
	// known native outputs of ideal functions: (fname,value) -> args
	known map[string]map[uint64][]*Term
}

func newTM() *TM {
	m := &TM{tab: make(map[THash]*Term, 256), lits: map[THash]bool{}, ideal: map[string]bool{}, known: map[string]map[uint64][]*Term{}}
	m.tt = m.mk(&Term{op: OConst, sort: sBool, val: 1})
	m.ff = m.mk(&Term{op: OConst, sort: sBool, val: 0})
	return m
}

func mix(h, x uint64) uint64 {
	hi, lo := bits.Mul64(h^x^0x9E3779B97F4A7C15, 0xD6E8FEB86659FD93)
	return bits.RotateLeft64(hi^lo, 29) + 0x165667B19E3779F9
}

func hashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return mix(h, uint64(len(s)))
}

func (m *TM) mk(t *Term) *Term {
	a, b := uint64(t.op)*0x1234567+uint64(t.sort.K)<<8+uint64(t.sort.W), uint64(t.op)+77
	a = mix(a, t.val)
	b = mix(b+uint64(t.sort.W)<<20, t.val^0xabcdef)
	if t.name != "" {
		a = hashStr(a, t.name)
		b = hashStr(b, t.name)
	}
	if t.rat != nil {
		s := t.rat.String()
		a = hashStr(a, s)
		b = hashStr(b, s)
	}
	sz := 1
	for _, x := range t.args {
		a = mix(a, x.h[0])
		b = mix(b, x.h[1])
		sz += x.size
	}
	t.h = THash{a, b}
	if o, ok := m.tab[t.h]; ok {
		return o
	}
	if sz > 1<<20 {
		sz = 1 << 20
	}
	t.size = sz
	m.tab[t.h] = t
	return t
}

func less(a, b *Term) bool {
	if a.h[0] != b.h[0] {
		return a.h[0] < b.h[0]
	}
	return a.h[1] < b.h[1]
}

func sortTerms(a []*Term) { sort.Slice(a, func(i, j int) bool { return less(a[i], a[j]) }) }

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func sext(v uint64, w int) int64 {
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) w() int        { return int(t.sort.W) }

func (m *TM) Bool(b bool) *Term {
	if b {
		return m.tt
	}
	return m.ff
}
func (m *TM) BV(v uint64, w int) *Term {
	return m.mk(&Term{op: OConst, sort: sBV(w), val: v & mask(w)})
}
func (m *TM) FP(f float64) *Term {
	return m.mk(&Term{op: OConst, sort: sFP, val: math.Float64bits(f)})
}
func (m *TM) Var(name string, s Sort) *Term { return m.mk(&Term{op: OVar, sort: s, name: name}) }
func (m *TM) App(name string, s Sort, args ...*Term) *Term {
	return m.mk(&Term{op: OApp, sort: s, name: name, args: args})
}

func (m *TM) lookup(t *Term) (bool, bool) {
	if v, ok := m.lits[t.h]; ok {
		return v, true
	}
	return false, false
}

// assume records t as a fact, splitting conjunctions.
func (m *TM) learn(t *Term, v bool) {
	m.lits[t.h] = v
	switch {
	case t.op == ONot:
		m.learn(t.args[0], !v)
	case t.op == OAnd && v:
		for _, a := range t.args {
			m.learn(a, true)
		}
	case t.op == OOr && !v:
		for _, a := range t.args {
			m.learn(a, false)
		}
	case t.op == OUlt && v, t.op == OSlt && v:
		// a<b  =>  a!=b, a<=b
		e := m.rawEq(t.args[0], t.args[1])
		if e != nil {
			m.lits[e.h] = false
		}
		le := OUle
		if t.op == OSlt {
			le = OSle
		}
		m.lits[m.mk(&Term{op: le, sort: sBool, args: []*Term{t.args[0], t.args[1]}}).h] = true
	}
}

// rawEq builds the canonical equality atom of two terms (nil when it folds).
func (m *TM) rawEq(a, b *Term) *Term {
	t := m.Eq(a, b)
	if t.op == OEq {
		return t
	}
	return nil
}

func (m *TM) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return m.Bool(a.val == 0)
	case ONot:
		return a.args[0]
	case OUlt:
		return m.Ule(a.args[1], a.args[0])
	case OUle:
		return m.Ult(a.args[1], a.args[0])
	case OSlt:
		return m.Sle(a.args[1], a.args[0])
	case OSle:
		return m.Slt(a.args[1], a.args[0])
	}
	if v, ok := m.lookup(a); ok {
		return m.Bool(!v)
	}
	return m.mk(&Term{op: ONot, sort: sBool, args: []*Term{a}})
}

func (m *TM) nary(op Op, args []*Term) *Term {
	// And: unit tt, zero ff
	unit, zero := m.tt, m.ff
	if op == OOr {
		unit, zero = m.ff, m.tt
	}
	var out []*Term
	seen := map[THash]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.op == op {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if v, ok := m.lookup(t); ok {
			t = m.Bool(v)
		}
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if seen[t.h] {
			return true
		}
		if n := m.Not(t); seen[n.h] {
			return false
		}
		seen[t.h] = true
		out = append(out, t)
		return true
	}
	for _, a := range args {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sortTerms(out)
	t := m.mk(&Term{op: op, sort: sBool, args: out})
	if v, ok := m.lookup(t); ok {
		return m.Bool(v)
	}
	return t
}

func (m *TM) And(a ...*Term) *Term { return m.nary(OAnd, a) }
func (m *TM) Or(a ...*Term) *Term  { return m.nary(OOr, a) }
func (m *TM) Implies(a, b *Term) *Term {
	return m.Or(m.Not(a), b)
}

func (m *TM) Ite(c, a, b *Term) *Term {
	if v, ok := m.lookup(c); ok {
		c = m.Bool(v)
	}
	if c == m.tt {
		return a
	}
	if c == m.ff {
		return b
	}
	if a == b {
		return a
	}
	if a.sort.K == KBool {
		return m.And(m.Or(m.Not(c), a), m.Or(c, b))
	}
	if c.op == ONot {
		return m.Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return m.mk(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

// linear normal form -------------------------------------------------------

func (m *TM) Add(ts ...*Term) *Term {
	w := ts[0].w()
	var k uint64
	coef := map[THash]uint64{}
	tm := map[THash]*Term{}
	var order []THash
	var add func(t *Term, c uint64)
	add = func(t *Term, c uint64) {
		switch {
		case t.op == OConst:
			k += c * t.val
		case t.op == OAdd:
			for _, x := range t.args {
				add(x, c)
			}
		case t.op == OMul && t.args[0].op == OConst:
			add(t.args[1], c*t.args[0].val)
		default:
			if _, ok := tm[t.h]; !ok {
				tm[t.h] = t
				order = append(order, t.h)
			}
			coef[t.h] += c
		}
	}
	for _, t := range ts {
		add(t, 1)
	}
	var out []*Term
	for _, h := range order {
		c := coef[h] & mask(w)
		if c == 0 {
			continue
		}
		if c == 1 {
			out = append(out, tm[h])
		} else {
			out = append(out, m.mk(&Term{op: OMul, sort: sBV(w), args: []*Term{m.BV(c, w), tm[h]}}))
		}
	}
	k &= mask(w)
	if len(out) == 0 {
		return m.BV(k, w)
	}
	sortTerms(out)
	if k != 0 {
		out = append(out, m.BV(k, w))
	}
	if len(out) == 1 {
		return out[0]
	}
	return m.mk(&Term{op: OAdd, sort: sBV(w), args: out})
}

func (m *TM) Neg(a *Term) *Term    { return m.Mul(m.BV(^uint64(0), a.w()), a) }
func (m *TM) Sub(a, b *Term) *Term { return m.Add(a, m.Neg(b)) }

func (m *TM) Mul(a, b *Term) *Term {
	w := a.w()
	if b.op == OConst {
		a, b = b, a
	}
	if a.op == OConst {
		if b.op == OConst {
			return m.BV(a.val*b.val, w)
		}
		switch a.val {
		case 0:
			return a
		case 1:
			return b
		}
		if b.op == OMul && b.args[0].op == OConst {
			return m.Mul(m.BV(a.val*b.args[0].val, w), b.args[1])
		}
		if b.op == OAdd {
			var xs []*Term
			for _, x := range b.args {
				xs = append(xs, m.Mul(a, x))
			}
			return m.Add(xs...)
		}
		return m.mk(&Term{op: OMul, sort: a.sort, args: []*Term{a, b}})
	}
	if less(b, a) {
		a, b = b, a
	}
	return m.mk(&Term{op: OMul, sort: a.sort, args: []*Term{a, b}})
}

func (m *TM) bin(op Op, a, b *Term) *Term {
	w := a.w()
	if a.op == OConst && b.op == OConst {
		if v, ok := evalBin(op, a.val, b.val, w); ok {
			return m.BV(v, w)
		}
	}
	switch op {
	case OUDiv, OSDiv:
		if b.op == OConst && b.val == 1 {
			return a
		}
	case OURem:
		if b.op == OConst && b.val == 1 {
			return m.BV(0, w)
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			// low mask -> zext(extract)
			if b.val&(b.val+1) == 0 {
				k := bits.Len64(b.val)
				return m.Zext(m.Extract(a, k-1, 0), w)
			}
		} else if less(b, a) {
			a, b = b, a
		}
		if a == b {
			return a
		}
	case OBOr:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		} else if less(b, a) {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if t := m.orConcat(a, b); t != nil {
			return t
		}
	case OShl, OLshr, OAshr:
		if b.op == OConst {
			s := int(b.val)
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) {
				if op != OAshr {
					return m.BV(0, w)
				}
				s = w - 1
			}
			switch op {
			case OShl:
				return m.Concat(m.Extract(a, w-1-s, 0), m.BV(0, s))
			case OLshr:
				return m.Zext(m.Extract(a, w-1, s), w)
			case OAshr:
				return m.Sext(m.Extract(a, w-1, s), w)
			}
		}
	}
	return m.mk(&Term{op: op, sort: a.sort, args: []*Term{a, b}})
}

// orConcat merges disjoint bit ranges: x|y where one is zero wherever the other is not.
func (m *TM) orConcat(a, b *Term) *Term {
	pa, pb := m.pieces(a), m.pieces(b)
	if pa == nil || pb == nil {
		return nil
	}
	// split both to common boundaries
	cuts := map[int]bool{}
	for _, ps := range [][]piece{pa, pb} {
		for _, p := range ps {
			cuts[p.lo] = true
		}
	}
	var cs []int
	for c := range cuts {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	cs = append(cs, a.w())
	get := func(ps []piece, lo, hi int) *Term {
		for _, p := range ps {
			if p.lo <= lo && hi < p.lo+p.t.w() {
				return m.Extract(p.t, hi-p.lo, lo-p.lo)
			}
		}
		return nil
	}
	var out *Term
	for i := 0; i+1 < len(cs); i++ {
		x, y := get(pa, cs[i], cs[i+1]-1), get(pb, cs[i], cs[i+1]-1)
		if x == nil || y == nil {
			return nil
		}
		var r *Term
		switch {
		case x.op == OConst && x.val == 0:
			r = y
		case y.op == OConst && y.val == 0:
			r = x
		case x.op == OConst && y.op == OConst:
			r = m.BV(x.val|y.val, x.w())
		default:
			return nil
		}
		if out == nil {
			out = r
		} else {
			out = m.Concat(r, out)
		}
	}
	return out
}

type piece struct {
	lo int
	t  *Term
}

func (m *TM) pieces(a *Term) []piece {
	switch a.op {
	case OConst:
		return []piece{{0, a}}
	case OZext:
		return []piece{{0, a.args[0]}, {a.args[0].w(), m.BV(0, a.w()-a.args[0].w())}}
	case OConcat:
		var ps []piece
		lo := 0
		for i := len(a.args) - 1; i >= 0; i-- {
			x := a.args[i]
			ps = append(ps, piece{lo, x})
			lo += x.w()
		}
		return ps
	}
	return nil
}

func evalBin(op Op, a, b uint64, w int) (uint64, bool) {
	mk := mask(w)
	switch op {
	case OAdd:
		return (a + b) & mk, true
	case OMul:
		return (a * b) & mk, true
	case OUDiv:
		if b == 0 {
			return mk, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x >= 0 {
				return mk, true
			}
			return 1, true
		}
		if y == -1 {
			return uint64(-x) & mk, true
		}
		return uint64(x/y) & mk, true
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & mk, true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & mk, true
	case OLshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & mk, true
	}
	return 0, false
}

// xor normal form
func (m *TM) Xor(ts ...*Term) *Term {
	w := ts[0].w()
	var k uint64
	cnt := map[THash]*Term{}
	var add func(t *Term)
	add = func(t *Term) {
		switch t.op {
		case OConst:
			k ^= t.val
		case OXor:
			for _, x := range t.args {
				add(x)
			}
		case OBNot:
			k ^= mask(w)
			add(t.args[0])
		default:
			if _, ok := cnt[t.h]; ok {
				delete(cnt, t.h)
			} else {
				cnt[t.h] = t
			}
		}
	}
	for _, t := range ts {
		add(t)
	}
	if len(cnt) == 0 {
		return m.BV(k, w)
	}
	out := make([]*Term, 0, len(cnt)+1)
	for _, t := range cnt {
		out = append(out, t)
	}
	sortTerms(out)
	if k != 0 {
		out = append(out, m.BV(k, w))
	}
	if len(out) == 1 {
		return out[0]
	}
	// all concats/zexts with identical splits: push xor inside
	return m.mk(&Term{op: OXor, sort: sBV(w), args: out})
}

func (m *TM) BNot(a *Term) *Term { return m.Xor(a, m.BV(^uint64(0), a.w())) }

func (m *TM) Concat(ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == OConcat {
			for _, x := range t.args {
				add(x)
			}
			return
		}
		if t.op == OZext {
			add(m.BV(0, t.w()-t.args[0].w()))
			add(t.args[0])
			return
		}
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.op == OConst && t.op == OConst {
				out[n-1] = m.BV(l.val<<uint(t.w())|t.val, l.w()+t.w())
				return
			}
			if l.op == OExtract && t.op == OExtract && l.args[0] == t.args[0] && int(l.val&255) == int(t.val>>8)+1 {
				out[n-1] = m.Extract(l.args[0], int(l.val>>8), int(t.val&255))
				return
			}
			if l.op == OXor && t.op == OXor && len(l.args) == len(t.args) {
				if x := m.concatXor(l, t); x != nil {
					out[n-1] = x
					return
				}
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, t := range out {
		w += t.w()
	}
	if out[0].op == OConst && out[0].val == 0 {
		rest := m.Concat(out[1:]...)
		return m.mk(&Term{op: OZext, sort: sBV(w), args: []*Term{rest}})
	}
	return m.mk(&Term{op: OConcat, sort: sBV(w), args: out})
}

// concatXor merges xor(ext(a,hi1,lo1), ext(b,hi1,lo1),..) ++ xor(ext(a,lo1-1,lo2),...)
func (m *TM) concatXor(l, t *Term) *Term {
	var out []*Term
	var k1, k2 *Term
	used := make([]bool, len(t.args))
	n := 0
	for _, x := range t.args {
		if x.op == OConst {
			k2 = x
		}
	}
	for _, x := range l.args {
		if x.op == OConst {
			k1 = x
			continue
		}
		if x.op != OExtract {
			return nil
		}
		found := false
		for j, y := range t.args {
			if !used[j] && y.op == OExtract && y.args[0] == x.args[0] && int(x.val&255) == int(y.val>>8)+1 {
				used[j] = true
				found = true
				out = append(out, m.Extract(x.args[0], int(x.val>>8), int(y.val&255)))
				break
			}
		}
		if !found {
			return nil
		}
		n++
	}
	if (k1 == nil) != (k2 == nil) {
		return nil
	}
	if k1 != nil {
		out = append(out, m.Concat(k1, k2))
	}
	return m.Xor(out...)
}

func (m *TM) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.w() {
		return a
	}
	switch a.op {
	case OConst:
		return m.BV(a.val>>uint(lo), w)
	case OExtract:
		l2 := int(a.val & 255)
		return m.Extract(a.args[0], hi+l2, lo+l2)
	case OZext:
		iw := a.args[0].w()
		if lo >= iw {
			return m.BV(0, w)
		}
		if hi < iw {
			return m.Extract(a.args[0], hi, lo)
		}
		return m.Zext(m.Extract(a.args[0], iw-1, lo), w)
	case OSext:
		iw := a.args[0].w()
		if hi < iw {
			return m.Extract(a.args[0], hi, lo)
		}
	case OConcat:
		pos := 0
		var out []*Term
		for i := len(a.args) - 1; i >= 0; i-- {
			x := a.args[i]
			l, h := pos, pos+x.w()-1
			pos += x.w()
			if h < lo || l > hi {
				continue
			}
			el, eh := 0, x.w()-1
			if lo > l {
				el = lo - l
			}
			if hi < h {
				eh = hi - l
			}
			out = append([]*Term{m.Extract(x, eh, el)}, out...)
		}
		return m.Concat(out...)
	case OXor:
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, m.Extract(x, hi, lo))
		}
		return m.Xor(xs...)
	case OBAnd, OBOr:
		return m.bin(a.op, m.Extract(a.args[0], hi, lo), m.Extract(a.args[1], hi, lo))
	case OIte:
		return m.Ite(a.args[0], m.Extract(a.args[1], hi, lo), m.Extract(a.args[2], hi, lo))
	case OAdd, OMul:
		if lo == 0 {
			var xs []*Term
			for _, x := range a.args {
				xs = append(xs, m.Extract(x, hi, 0))
			}
			if a.op == OAdd {
				return m.Add(xs...)
			}
			return m.Mul(xs[0], xs[1])
		}
	}
	return m.mk(&Term{op: OExtract, sort: sBV(w), args: []*Term{a}, val: uint64(hi)<<8 | uint64(lo)})
}

func (m *TM) Zext(a *Term, w int) *Term {
	if a.w() == w {
		return a
	}
	if a.op == OConst {
		return m.BV(a.val, w)
	}
	if a.op == OZext {
		a = a.args[0]
	}
	return m.mk(&Term{op: OZext, sort: sBV(w), args: []*Term{a}})
}

func (m *TM) Sext(a *Term, w int) *Term {
	if a.w() == w {
		return a
	}
	if a.op == OConst {
		return m.BV(uint64(sext(a.val, a.w())), w)
	}
	if a.op == OZext {
		return m.Zext(a.args[0], w)
	}
	return m.mk(&Term{op: OSext, sort: sBV(w), args: []*Term{a}})
}

func (m *TM) isIdealAtom(t *Term) bool {
	return t.op == OApp && m.ideal[t.name]
}

// idealTrunc recognises extract(31,0,ideal app): an ideal hash truncated to 32 bits.
func (m *TM) idealTrunc(t *Term) *Term {
	if t.op == OExtract && t.val == 31<<8 && m.isIdealAtom(t.args[0]) {
		return t.args[0]
	}
	return nil
}

// pairing decides whether the XOR of ideal-hash values is zero: exactly when
// the values cancel in pairs.
func (m *TM) pairing(atoms []*Term) *Term {
	if len(atoms) == 0 {
		return m.tt
	}
	if len(atoms)%2 == 1 {
		return m.ff
	}
	if len(atoms) > 10 {
		// too many matchings: only exact cancellation is considered (sound only
		// for the ideal-hash assumption with distinct arguments)
		panic(unsupported("pairing of more than 10 ideal hashes"))
	}
	a := atoms[0]
	var alts []*Term
	for i := 1; i < len(atoms); i++ {
		b := atoms[i]
		if a.name != b.name || len(a.args) != len(b.args) {
			continue
		}
		e := m.eqArgs(a.args, b.args)
		if e == m.ff {
			continue
		}
		rest := make([]*Term, 0, len(atoms)-2)
		rest = append(rest, atoms[1:i]...)
		rest = append(rest, atoms[i+1:]...)
		alts = append(alts, m.And(e, m.pairing(rest)))
	}
	return m.Or(alts...)
}

func (m *TM) eqArgs(a, b []*Term) *Term {
	var es []*Term
	for i := range a {
		e := m.Eq(a[i], b[i])
		if e == m.ff {
			return m.ff
		}
		es = append(es, e)
	}
	return m.And(es...)
}

func (m *TM) Eq(a, b *Term) *Term {
	if a == b {
		if a.sort.K == KFP {
			// structural equality of float terms (used for values, not fp.eq)
			return m.tt
		}
		return m.tt
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %v %v", a.sort, b.sort))
	}
	if a.op == OConst && b.op == OConst {
		return m.Bool(a.val == b.val)
	}
	if a.sort.K == KBool {
		if a.op == OConst {
			a, b = b, a
		}
		if b == m.tt {
			return a
		}
		if b == m.ff {
			return m.Not(a)
		}
		return m.And(m.Or(m.Not(a), b), m.Or(a, m.Not(b)))
	}
	if a.sort.K == KBV {
		if a.op == OConst {
			a, b = b, a
		}
		// ideal hashes
		if ta := m.idealTrunc(a); ta != nil {
			if tb := m.idealTrunc(b); tb != nil && ta.name == tb.name && len(ta.args) == len(tb.args) {
				return m.eqArgs(ta.args, tb.args)
			}
			if b.op == OConst {
				return m.knownEq(ta, b.val, true)
			}
		}
		if a.op == OXor || b.op == OXor || m.isIdealAtom(a) {
			x := m.Xor(a, b)
			ats := []*Term{x}
			if x.op == OXor {
				ats = x.args
			}
			k := uint64(0)
			all := true
			var at []*Term
			for _, t := range ats {
				if t.op == OConst {
					k = t.val
				} else if m.isIdealAtom(t) {
					at = append(at, t)
				} else {
					all = false
				}
			}
			if x.op == OConst {
				return m.Bool(x.val == 0)
			}
			if all {
				if k == 0 {
					return m.pairing(at)
				}
				if len(at) == 1 {
					return m.knownEq(at[0], k, false)
				}
				return m.pairingK(at, k)
			}
			if x.op == OXor {
				// canonical: two atoms -> Eq(a1,a2); otherwise Eq(x,0)
				if len(x.args) == 2 {
					a, b = x.args[0], x.args[1]
				} else {
					a, b = x, m.BV(0, a.w())
				}
			} else {
				a, b = x, m.BV(0, a.w())
			}
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			switch a.op {
			case OZext:
				iw := a.args[0].w()
				if b.val>>uint(iw) != 0 {
					return m.ff
				}
				return m.Eq(a.args[0], m.BV(b.val, iw))
			case OSext:
				iw := a.args[0].w()
				if uint64(sext(b.val&mask(iw), iw))&mask(a.w()) != b.val {
					return m.ff
				}
				return m.Eq(a.args[0], m.BV(b.val, iw))
			case OConcat:
				lo := 0
				var es []*Term
				for i := len(a.args) - 1; i >= 0; i-- {
					x := a.args[i]
					es = append(es, m.Eq(x, m.BV(b.val>>uint(lo), x.w())))
					lo += x.w()
				}
				return m.And(es...)
			case OAdd:
				l := a.args[len(a.args)-1]
				if l.op == OConst {
					return m.Eq(m.Add(a.args[:len(a.args)-1]...), m.BV(b.val-l.val, a.w()))
				}
			case OMul:
				if a.args[0].op == OConst && a.args[0].val&1 == 1 {
					// odd multiplier: invert
					inv := a.args[0].val
					for i := 0; i < 6; i++ {
						inv *= 2 - a.args[0].val*inv
					}
					return m.Eq(a.args[1], m.BV(b.val*inv, a.w()))
				}
			case OIte:
				if a.args[1].op == OConst || a.args[2].op == OConst {
					return m.Ite(a.args[0], m.Eq(a.args[1], b), m.Eq(a.args[2], b))
				}
			}
		} else {
			if a.op == OZext && b.op == OZext && a.args[0].w() == b.args[0].w() {
				return m.Eq(a.args[0], b.args[0])
			}
			if a.op == OSext && b.op == OSext && a.args[0].w() == b.args[0].w() {
				return m.Eq(a.args[0], b.args[0])
			}
			if a.op == OAdd || b.op == OAdd {
				d := m.Sub(a, b)
				if d.op == OConst {
					return m.Bool(d.val == 0)
				}
			}
			if a.op == OConcat && b.op == OConcat && len(a.args) == len(b.args) {
				same := true
				for i := range a.args {
					if a.args[i].w() != b.args[i].w() {
						same = false
					}
				}
				if same {
					return m.eqArgs(a.args, b.args)
				}
			}
		}
	}
	if less(b, a) {
		a, b = b, a
	}
	t := m.mk(&Term{op: OEq, sort: sBool, args: []*Term{a, b}})
	if v, ok := m.lookup(t); ok {
		return m.Bool(v)
	}
	return t
}

// knownEq: an ideal hash application equals a constant exactly when the constant
// is the natively computed hash of equal arguments (or a recorded value).
func (m *TM) knownEq(app *Term, k uint64, trunc bool) *Term {
	for _, c := range m.knownList(app.name) {
		v := c.val
		if trunc {
			v &= 0xffffffff
		}
		if v == k && len(c.args) == len(app.args) {
			return m.eqArgs(app.args, c.args)
		}
	}
	return m.ff
}

type knownVal struct {
	val  uint64
	args []*Term
}

func (m *TM) knownList(name string) []knownVal {
	var ks []uint64
	for v := range m.known[name] {
		ks = append(ks, v)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var out []knownVal
	for _, v := range ks {
		out = append(out, knownVal{v, m.known[name][v]})
	}
	return out
}

func (m *TM) addKnown(name string, v uint64, args []*Term) {
	if m.known[name] == nil {
		m.known[name] = map[uint64][]*Term{}
	}
	m.known[name][v] = args
}

// pairingK: XOR of several ideal atoms against a constant. Without knowing which
// natively computed hashes are folded in the constant no exact answer exists.
func (m *TM) pairingK(at []*Term, k uint64) *Term {
	panic(unsupported("xor of symbolic and concrete ideal hashes"))
}

func (m *TM) cmp(op Op, a, b *Term) *Term {
	w := a.w()
	if a.op == OConst && b.op == OConst {
		var r bool
		switch op {
		case OUlt:
			r = a.val < b.val
		case OUle:
			r = a.val <= b.val
		case OSlt:
			r = sext(a.val, w) < sext(b.val, w)
		case OSle:
			r = sext(a.val, w) <= sext(b.val, w)
		}
		return m.Bool(r)
	}
	if a == b {
		return m.Bool(op == OUle || op == OSle)
	}
	switch op {
	case OUlt:
		if b.op == OConst && b.val == 0 {
			return m.ff
		}
		if b.op == OConst && b.val == 1 {
			return m.Eq(a, m.BV(0, w))
		}
		if a.op == OConst && a.val == mask(w) {
			return m.ff
		}
		if a.op == OConst && a.val == 0 {
			return m.Not(m.Eq(b, a))
		}
		if b.op == OConst {
			return m.cmp(OUle, a, m.BV(b.val-1, w))
		}
		if a.op == OConst {
			return m.cmp(OUle, m.BV(a.val+1, w), b)
		}
	case OUle:
		if a.op == OConst && a.val == 0 || b.op == OConst && b.val == mask(w) {
			return m.tt
		}
		if b.op == OConst && b.val == 0 {
			return m.Eq(a, b)
		}
		if a.op == OConst && a.val == mask(w) {
			return m.Eq(a, b)
		}
		if a.op == OZext && b.op == OConst {
			iw := a.args[0].w()
			if b.val >= mask(iw) {
				return m.tt
			}
			return m.cmp(op, a.args[0], m.BV(b.val, iw))
		}
		if b.op == OZext && a.op == OConst {
			iw := b.args[0].w()
			if a.val > mask(iw) {
				return m.ff
			}
			return m.cmp(op, m.BV(a.val, iw), b.args[0])
		}
	case OSlt, OSle:
		// zero extended operands are non-negative: same as unsigned
		na := a.op == OConst && sext(a.val, w) >= 0 || a.op == OZext
		nb := b.op == OConst && sext(b.val, w) >= 0 || b.op == OZext
		if na && nb {
			if op == OSlt {
				return m.cmp(OUlt, a, b)
			}
			return m.cmp(OUle, a, b)
		}
		if a.op == OConst && sext(a.val, w) < 0 && b.op == OZext {
			return m.tt
		}
		if b.op == OConst && sext(b.val, w) < 0 && a.op == OZext {
			return m.ff
		}
		if op == OSlt {
			if b.op == OConst && sext(b.val, w) != -1<<uint(w-1) {
				return m.cmp(OSle, a, m.BV(b.val-1, w))
			}
			if a.op == OConst && sext(a.val, w) != 1<<uint(w-1)-1 {
				return m.cmp(OSle, m.BV(a.val+1, w), b)
			}
		}
	}
	t := m.mk(&Term{op: op, sort: sBool, args: []*Term{a, b}})
	if v, ok := m.lookup(t); ok {
		return m.Bool(v)
	}
	// look up the complementary form b<a / b<=a
	var c *Term
	switch op {
	case OUlt:
		c = m.mk(&Term{op: OUle, sort: sBool, args: []*Term{b, a}})
	case OUle:
		c = m.mk(&Term{op: OUlt, sort: sBool, args: []*Term{b, a}})
	case OSlt:
		c = m.mk(&Term{op: OSle, sort: sBool, args: []*Term{b, a}})
	case OSle:
		c = m.mk(&Term{op: OSlt, sort: sBool, args: []*Term{b, a}})
	}
	if v, ok := m.lookup(c); ok {
		return m.Bool(!v)
	}
	return t
}

func (m *TM) Ult(a, b *Term) *Term { return m.cmp(OUlt, a, b) }
func (m *TM) Ule(a, b *Term) *Term { return m.cmp(OUle, a, b) }
func (m *TM) Slt(a, b *Term) *Term { return m.cmp(OSlt, a, b) }
func (m *TM) Sle(a, b *Term) *Term { return m.cmp(OSle, a, b) }

// floats

func (m *TM) F(op Op, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if a.op != OConst {
			all = false
		}
	}
	s := sFP
	switch op {
	case OFLt, OFLe, OFEq:
		s = sBool
	case OF2U, OF2S:
		s = sBV(64)
	}
	if all {
		if v, ok := evalF(op, args); ok {
			if s.K == KBool {
				return m.Bool(v != 0)
			}
			return m.mk(&Term{op: OConst, sort: s, val: v})
		}
	}
	t := m.mk(&Term{op: op, sort: s, args: args})
	if s.K == KBool {
		if v, ok := m.lookup(t); ok {
			return m.Bool(v)
		}
	}
	return t
}

func evalF(op Op, args []*Term) (uint64, bool) {
	f := func(i int) float64 { return math.Float64frombits(args[i].val) }
	fb := math.Float64bits
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case OFAdd:
		return fb(f(0) + f(1)), true
	case OFSub:
		return fb(f(0) - f(1)), true
	case OFMul:
		return fb(f(0) * f(1)), true
	case OFDiv:
		return fb(f(0) / f(1)), true
	case OFSqrt:
		return fb(math.Sqrt(f(0))), true
	case OFNeg:
		return fb(-f(0)), true
	case OFAbs:
		return fb(math.Abs(f(0))), true
	case OFCeil:
		return fb(math.Ceil(f(0))), true
	case OFFloor:
		return fb(math.Floor(f(0))), true
	case OFTrunc:
		return fb(math.Trunc(f(0))), true
	case OFLt:
		return b2u(f(0) < f(1)), true
	case OFLe:
		return b2u(f(0) <= f(1)), true
	case OFEq:
		return b2u(f(0) == f(1)), true
	case OU2F:
		return fb(float64(args[0].val)), true
	case OS2F:
		return fb(float64(sext(args[0].val, args[0].w()))), true
	case OF2U:
		return uint64(f(0)), true
	case OF2S:
		return uint64(int64(f(0))), true
	case OFBits:
		return args[0].val, true
	}
	return 0, false
}

// reals -------------------------------------------------------------------

func (m *TM) Rat(r *big.Rat) *Term { return m.mk(&Term{op: ORConst, sort: sReal, rat: r}) }

func (m *TM) RAdd(a ...*Term) *Term {
	k := new(big.Rat)
	var out []*Term
	for _, x := range a {
		if x.op == ORConst {
			k.Add(k, x.rat)
		} else if x.op == ORAdd {
			for _, y := range x.args {
				if y.op == ORConst {
					k.Add(k, y.rat)
				} else {
					out = append(out, y)
				}
			}
		} else {
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return m.Rat(k)
	}
	if k.Sign() != 0 {
		out = append(out, m.Rat(k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return m.mk(&Term{op: ORAdd, sort: sReal, args: out})
}

func (m *TM) RMul(a, b *Term) *Term {
	if b.op == ORConst {
		a, b = b, a
	}
	if a.op == ORConst {
		if b.op == ORConst {
			return m.Rat(new(big.Rat).Mul(a.rat, b.rat))
		}
		if a.rat.Sign() == 0 {
			return a
		}
		if a.rat.Cmp(big.NewRat(1, 1)) == 0 {
			return b
		}
	}
	return m.mk(&Term{op: ORMul, sort: sReal, args: []*Term{a, b}})
}

func (m *TM) RCmp(op Op, a, b *Term) *Term {
	if a.op == ORConst && b.op == ORConst {
		c := a.rat.Cmp(b.rat)
		return m.Bool(c < 0 || op == ORLe && c == 0)
	}
	t := m.mk(&Term{op: op, sort: sBool, args: []*Term{a, b}})
	if v, ok := m.lookup(t); ok {
		return m.Bool(v)
	}
	return t
}

// symbols of a term ---------------------------------------------------------

func (t *Term) symbols() []*Term {
	if t.symd {
		return t.syms
	}
	t.symd = true
	if t.op == OVar || t.op == OApp {
		t.syms = []*Term{t}
		return t.syms
	}
	if len(t.args) == 1 {
		t.syms = t.args[0].symbols()
		return t.syms
	}
	set := map[*Term]bool{}
	for _, a := range t.args {
		for _, s := range a.symbols() {
			set[s] = true
		}
	}
	if len(set) == 0 {
		return nil
	}
	out := make([]*Term, 0, len(set))
	for s := range set {
		out = append(out, s)
	}
	sortTerms(out)
	t.syms = out
	return out
}

// evaluation under a model ----------------------------------------------------

type Model map[THash]uint64

// eval returns the value of t under mdl; atoms without value are 0. ok is false
// when the term cannot be evaluated (reals).
func eval(t *Term, mdl Model, memo map[*Term]uint64) (uint64, bool) {
	if t.op == OConst {
		return t.val, true
	}
	if v, ok := memo[t]; ok {
		return v, true
	}
	var r uint64
	switch t.op {
	case OVar, OApp:
		r = mdl[t.h]
	case ONot:
		v, ok := eval(t.args[0], mdl, memo)
		if !ok {
			return 0, false
		}
		r = 1 - v
	case OAnd, OOr:
		r = 1
		if t.op == OOr {
			r = 0
		}
		for _, a := range t.args {
			v, ok := eval(a, mdl, memo)
			if !ok {
				return 0, false
			}
			if t.op == OAnd && v == 0 {
				r = 0
				break
			}
			if t.op == OOr && v != 0 {
				r = 1
				break
			}
		}
	case OIte:
		c, ok := eval(t.args[0], mdl, memo)
		if !ok {
			return 0, false
		}
		var v uint64
		if c != 0 {
			v, ok = eval(t.args[1], mdl, memo)
		} else {
			v, ok = eval(t.args[2], mdl, memo)
		}
		if !ok {
			return 0, false
		}
		r = v
	default:
		if t.sort.K == KReal || t.op >= ORConst {
			return 0, false
		}
		vs := make([]uint64, len(t.args))
		for i, a := range t.args {
			v, ok := eval(a, mdl, memo)
			if !ok {
				return 0, false
			}
			vs[i] = v
		}
		w := int(t.sort.W)
		switch t.op {
		case OEq:
			if vs[0] == vs[1] {
				r = 1
			}
		case OUlt:
			r = b2u(vs[0] < vs[1])
		case OUle:
			r = b2u(vs[0] <= vs[1])
		case OSlt:
			aw := t.args[0].w()
			r = b2u(sext(vs[0], aw) < sext(vs[1], aw))
		case OSle:
			aw := t.args[0].w()
			r = b2u(sext(vs[0], aw) <= sext(vs[1], aw))
		case OAdd, OXor, OMul:
			r = vs[0]
			for _, v := range vs[1:] {
				r, _ = evalBin(t.op, r, v, w)
			}
		case OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OShl, OLshr, OAshr:
			r, _ = evalBin(t.op, vs[0], vs[1], w)
		case OBNot:
			r = ^vs[0] & mask(w)
		case OConcat:
			for i, v := range vs {
				r = r<<uint(t.args[i].w()) | v
			}
		case OExtract:
			r = vs[0] >> (t.val & 255) & mask(w)
		case OZext:
			r = vs[0]
		case OSext:
			r = uint64(sext(vs[0], t.args[0].w())) & mask(w)
		default:
			as := make([]*Term, len(vs))
			for i := range vs {
				as[i] = &Term{op: OConst, sort: t.args[i].sort, val: vs[i]}
			}
			v, ok := evalF(t.op, as)
			if !ok {
				return 0, false
			}
			r = v
		}
	}
	memo[t] = r
	return r, true
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// SMT-LIB printing ------------------------------------------------------------

type printer struct {
	sb    strings.Builder
	names map[*Term]string
	decl  map[*Term]bool
	n     int
}

func atomName(t *Term) string { return fmt.Sprintf("a%016x%08x", t.h[0], t.h[1]>>32) }

func constSMT(t *Term) string {
	switch t.sort.K {
	case KBool:
		if t.val != 0 {
			return "true"
		}
		return "false"
	case KBV:
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort.W)
	case KFP:
		v := t.val
		return fmt.Sprintf("(fp #b%d #b%011b #b%052b)", v>>63, (v>>52)&0x7ff, v&(1<<52-1))
	}
	panic("const")
}

func ratSMT(r *big.Rat) string {
	n := new(big.Int).Abs(r.Num())
	s := n.String() + ".0"
	if !r.IsInt() {
		s = "(/ " + s + " " + r.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return s
}

// ref emits definitions for t as needed and returns its name.
func (p *printer) ref(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	var s string
	switch t.op {
	case OConst:
		return constSMT(t)
	case ORConst:
		return ratSMT(t.rat)
	case OVar, OApp:
		s = atomName(t)
		fmt.Fprintf(&p.sb, "(declare-const %s %s)\n", s, t.sort.smt())
		p.names[t] = s
		return s
	case OExtract:
		s = fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&255, p.ref(t.args[0]))
	case OZext:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", t.w()-t.args[0].w(), p.ref(t.args[0]))
	case OSext:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.w()-t.args[0].w(), p.ref(t.args[0]))
	case ORToInt:
		s = fmt.Sprintf("(to_real (to_int %s))", p.ref(t.args[0]))
	case OAdd, OXor, OMul, OConcat:
		// left fold for solvers that only take binary operators
		s = p.ref(t.args[0])
		for _, a := range t.args[1:] {
			s = "(" + opNames[t.op] + " " + s + " " + p.ref(a) + ")"
		}
	default:
		var b strings.Builder
		b.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			b.WriteString(" " + p.ref(a))
		}
		b.WriteString(")")
		s = b.String()
	}
	if t.size > 6 {
		p.n++
		n := fmt.Sprintf("t%d", p.n)
		fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, t.sort.smt(), s)
		s = n
		p.names[t] = s
	}
	return s
}

func (t *Term) String() string {
	var f func(t *Term, d int) string
	f = func(t *Term, d int) string {
		switch t.op {
		case OConst:
			if t.sort.K == KFP {
				return fmt.Sprint(math.Float64frombits(t.val))
			}
			return fmt.Sprint(t.val)
		case ORConst:
			return t.rat.String()
		case OVar:
			return t.name
		}
		if d > 6 {
			return "..."
		}
		n := opNames[t.op]
		switch t.op {
		case OApp:
			n = t.name
		case OExtract:
			n = fmt.Sprintf("ext[%d:%d]", t.val>>8, t.val&255)
		case OZext:
			n = "zext"
		case OSext:
			n = "sext"
		}
		var as []string
		for _, a := range t.args {
			as = append(as, f(a, d+1))
		}
		return n + "(" + strings.Join(as, ",") + ")"
	}
	return f(t, 0)
}
