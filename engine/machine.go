package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// M executes one path.
type M struct {
	w    *Worker
	x    *Explorer
	tm   *TM
	pc   []*Term
	mdl  Model
	memo map[*Term]uint64
	mok  bool // mdl satisfies pc

	prefix []uint64
	trace  []uint64
	pos    int

	steps    int64
	maxSteps int64

	inputs  []Input
	obs     []string
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool

	apps map[string][]*Term // applications by function name, for congruence

	// scheduler
	cur    *G
	gs     []*G
	ready  []*G
	nG     int
	dead   bool
	now    *Value // virtual clock (ns)
	timers []*Timer

	files            map[string][]Value // by vnd.File
	fds              map[*Value]*fileDesc
	pools            map[*Value][]Value
	pathErr          *pathEnd
	asserts, reached int
	mapOrder         bool
	depth            int
	wgs, mus         map[*Value]int
	nextID           int
	checkedAsserts   map[string]int
	stepOf           map[*Term]uint64
	fixed            map[*Term]bool // inputs and hashes given values by fixMul
	stepBase         map[*Term]int64
	stepEnd          map[*Term][2]uint64
	fivs             map[*Term]fival
	floatEnds        int64
	f2iOf            map[*Term]*Term
}

// Input is one nondeterministic value of the harness, in program order.
type Input struct {
	Kind string
	T    *Term  // symbolic value
	V    uint64 // concrete value (choices)
	N    uint64 // parameter of the kind
}

type pathEnd struct {
	kind string // ok, infeasible, violation, unsupported, nonterm, unknown
	msg  string
}

type abort struct{ e pathEnd }

type targetPanic struct {
	v  Value // Iface
	rt bool
	st string
}

func (m *M) stop(kind, f string, a ...any) {
	panic(abort{pathEnd{kind, fmt.Sprintf(f, a...)}})
}

// conversions ---------------------------------------------------------------

func (m *M) term(v Value, w int) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case uint64:
		return m.tm.BV(x, w)
	case bool:
		return m.tm.Bool(x)
	}
	panic(unsupported("term of %T", v))
}

func (m *M) bterm(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case bool:
		return m.tm.Bool(x)
	}
	panic(unsupported("bool term of %T", v))
}

func (m *M) fterm(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case float64:
		return m.tm.FP(x)
	}
	panic(unsupported("float term of %T", v))
}

func (m *M) norm(t *Term) Value {
	if t.op == OConst {
		switch t.sort.K {
		case KBool:
			return t.val != 0
		case KBV:
			return t.val
		case KFP:
			return math.Float64frombits(t.val)
		}
	}
	return t
}

func (m *M) scalarEq(t types.Type, a, b Value) Value {
	switch x := a.(type) {
	case uint64:
		if y, ok := b.(uint64); ok {
			return x == y
		}
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
	}
	w, _ := intInfo(t)
	return m.norm(m.tm.Eq(m.term(a, w), m.term(b, w)))
}

// path facts ------------------------------------------------------------------

func (m *M) addFact(t *Term) {
	if t.op == OAnd {
		for _, a := range t.args {
			m.addFact(a)
		}
		return
	}
	if t.op == OConst {
		return
	}
	m.pc = append(m.pc, t)
	m.tm.learn(t, true)
}

func (m *M) evalModel(t *Term) (bool, bool) {
	if !m.mok {
		return false, false
	}
	v, ok := eval(t, m.mdl, m.memo)
	return v != 0, ok
}

func (m *M) setModel(delta Model) {
	n := make(Model, len(m.mdl)+len(delta))
	for k, v := range m.mdl {
		n[k] = v
	}
	for k, v := range delta {
		n[k] = v
	}
	m.mdl = n
	m.memo = map[*Term]uint64{}
}

// query decides pc and t.
func (m *M) query(t *Term) (Result, Model) {
	if t.op == OConst {
		if t.val == 0 {
			return Unsat, nil
		}
		return Sat, m.mdl
	}
	cs := sliceFor(m.pc, t)
	if !m.mok {
		cs = append(append([]*Term{}, m.pc...), t)
	}
	res, d := m.w.solver.Check(cs)
	if res != Sat {
		return res, nil
	}
	n := make(Model, len(m.mdl)+len(d))
	if m.mok {
		for k, v := range m.mdl {
			n[k] = v
		}
	}
	for k, v := range d {
		n[k] = v
	}
	return Sat, n
}

// branch decides a condition, forking when both outcomes are possible.
func (m *M) branch(v Value) bool {
	switch b := v.(type) {
	case bool:
		return b
	case *Term:
		return m.branchTerm(b)
	}
	panic(unsupported("branch on %T", v))
}

func (m *M) branchTerm(t *Term) bool {
	if t.op == OConst {
		return t.val != 0
	}
	if r, ok := m.tm.lookup(t); ok {
		return r
	}
	nt := m.tm.Not(t)
	if r, ok := m.tm.lookup(nt); ok {
		return !r
	}
	if nt.op == OConst {
		return nt.val == 0
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		if d != 0 {
			m.addFact(t)
			return true
		}
		m.addFact(nt)
		return false
	}
	m.x.onDecision(m)
	side, ok := m.evalModel(t)
	if ok {
		// the model's side is feasible; ask about the other one
		other := nt
		if !side {
			other = t
		}
		atomic.AddInt64(&m.x.st.ModelHits, 1)
		res, mdl := m.query(other)
		d := b2u(side)
		if res != Unsat {
			if res == Unknown {
				m.x.noteUnknown("branch")
				mdl = nil
			}
			m.x.push(m, 1-d, mdl)
		}
		m.trace = append(m.trace, d)
		m.pos++
		m.prefixGrow(d)
		if side {
			m.addFact(t)
		} else {
			m.addFact(nt)
		}
		return side
	}
	r1, m1 := m.query(t)
	r0, m0 := m.query(nt)
	if r1 == Unknown || r0 == Unknown {
		m.x.noteUnknown("branch")
	}
	if r1 == Unsat && r0 == Unsat {
		m.stop("infeasible", "both branches infeasible")
	}
	take := r1 != Unsat
	if take && r0 != Unsat {
		if r0 == Unknown {
			m0 = nil
		}
		m.x.push(m, 0, m0)
	}
	d := b2u(take)
	m.trace = append(m.trace, d)
	m.pos++
	m.prefixGrow(d)
	var nm Model
	var rr Result
	if take {
		nm, rr = m1, r1
		m.addFact(t)
	} else {
		nm, rr = m0, r0
		m.addFact(nt)
	}
	if rr == Sat {
		m.mdl = nm
		m.mok = true
		m.memo = map[*Term]uint64{}
	} else {
		m.mok = false
	}
	return take
}

func (m *M) prefixGrow(d uint64) {
	// pos tracks len(trace); prefix is only consulted while pos < len(prefix)
}

// choose forks n ways without a solver: every alternative is possible.
func (m *M) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		return int(d)
	}
	m.x.onDecision(m)
	for i := n - 1; i >= 1; i-- {
		var md Model
		if m.mok {
			md = m.mdl
		}
		m.x.push(m, uint64(i), md)
	}
	m.trace = append(m.trace, 0)
	m.pos++
	return 0
}

// concretize forks over all feasible values of t.
func (m *M) concretize(t *Term, limit int) uint64 {
	if t.op == OConst {
		return t.val
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		m.addFact(m.tm.Eq(t, m.tm.BV(d, t.w())))
		return d
	}
	m.x.onDecision(m)
	type alt struct {
		v   uint64
		mdl Model
	}
	var alts []alt
	if !m.mok {
		res, d := m.w.solver.Check(m.pc)
		if res == Unsat {
			m.stop("infeasible", "concretize")
		}
		if res == Unknown {
			m.x.noteUnknown("concretize")
			m.stop("unknown", "concretize")
		}
		m.mdl, m.mok, m.memo = d, true, map[*Term]uint64{}
	}
	if m.mok {
		if v, ok := eval(t, m.mdl, m.memo); ok {
			alts = append(alts, alt{v, m.mdl})
		}
	}
	for {
		cs := []*Term{m.tm.tt}
		for _, a := range alts {
			cs = append(cs, m.tm.Not(m.tm.Eq(t, m.tm.BV(a.v, t.w()))))
		}
		q := m.tm.And(cs...)
		res, mdl := m.query(q)
		if res == Unsat {
			break
		}
		if res == Unknown {
			m.x.noteUnknown("concretize")
			break
		}
		v, ok := eval(t, mdl, map[*Term]uint64{})
		if !ok {
			m.stop("unsupported", "concretize eval")
		}
		alts = append(alts, alt{v, mdl})
		if len(alts) > limit {
			m.x.noteCut(fmt.Sprintf("more than %d values for a concretised term %s", limit, t))
			break
		}
	}
	for i := len(alts) - 1; i >= 1; i-- {
		m.x.push(m, alts[i].v, alts[i].mdl)
	}
	v := alts[0].v
	m.trace = append(m.trace, v)
	m.pos++
	m.mdl = alts[0].mdl
	m.mok = true
	m.memo = map[*Term]uint64{}
	m.addFact(m.tm.Eq(t, m.tm.BV(v, t.w())))
	return v
}

func (m *M) concInt(v Value, signed bool, w int) int64 {
	switch x := v.(type) {
	case uint64:
		if signed {
			return sext(x, w)
		}
		return int64(x)
	case *Term:
		r := m.concretize(x, m.x.concLimit)
		if signed {
			return sext(r, w)
		}
		return int64(r)
	}
	panic(unsupported("integer %T", v))
}

// assume restricts the path.
func (m *M) assume(v Value) {
	switch b := v.(type) {
	case bool:
		if !b {
			m.stop("infeasible", "assume")
		}
		return
	case *Term:
		if b.op == OConst {
			if b.val == 0 {
				m.stop("infeasible", "assume")
			}
			return
		}
		if r, ok := m.tm.lookup(b); ok {
			if !r {
				m.stop("infeasible", "assume")
			}
			return
		}
		if m.pos < len(m.prefix) {
			m.addFact(b)
			return
		}
		if r, ok := m.evalModel(b); ok && r {
			m.addFact(b)
			return
		}
		res, mdl := m.query(b)
		switch res {
		case Unsat:
			m.stop("infeasible", "assume")
		case Unknown:
			m.x.noteUnknown("assume")
			m.mok = false
		default:
			m.mdl, m.mok = mdl, true
			m.memo = map[*Term]uint64{}
		}
		m.addFact(b)
		return
	}
	panic(unsupported("assume %T", v))
}

// assert discharges an obligation.
func (m *M) assert(v Value, msg string) {
	m.asserts++
	inPrefix := m.pos < len(m.prefix)
	switch b := v.(type) {
	case bool:
		if !inPrefix {
			atomic.AddInt64(&m.x.st2.obligations, 1)
		}
		if !b {
			m.violation("assertion failed: " + msg)
		}
		return
	case *Term:
		nb := m.tm.Not(b)
		if nb.op == OConst {
			if !inPrefix {
				atomic.AddInt64(&m.x.st2.obligations, 1)
			}
			if nb.val != 0 {
				m.violation("assertion failed: " + msg)
			}
			return
		}
		if inPrefix {
			m.addFact(b)
			return
		}
		if r, ok := m.tm.lookup(b); ok {
			atomic.AddInt64(&m.x.st2.obligations, 1)
			if !r {
				m.violation("assertion failed: " + msg)
			}
			return
		}
		if r, ok := m.evalModel(nb); ok && r {
			m.violation("assertion failed: " + msg)
		}
		res, mdl := m.query(nb)
		switch res {
		case Unsat:
			atomic.AddInt64(&m.x.st2.obligations, 1)
			atomic.AddInt64(&m.x.st2.solverObligations, 1)
		case Sat:
			m.mdl, m.mok = mdl, true
			m.memo = map[*Term]uint64{}
			m.addFact(nb)
			m.violation("assertion failed: " + msg)
		case Unknown:
			m.x.noteUnknown("assert")
		}
		m.addFact(b)
		return
	}
	panic(unsupported("assert %T", v))
}

func (m *M) violation(msg string) {
	panic(abort{pathEnd{"violation", msg}})
}

func (m *M) rtPanic(msg string) {
	panic(&targetPanic{v: Iface{types.Typ[types.String], "runtime error: " + msg}, rt: true})
}

// fresh inputs -----------------------------------------------------------------

func (m *M) input(kind string, s Sort, n uint64) *Term {
	name := fmt.Sprintf("in%d_%s", len(m.inputs), kind)
	t := m.tm.Var(name, s)
	m.inputs = append(m.inputs, Input{Kind: kind, T: t, N: n})
	return t
}

func (m *M) inputRange(kind string, lo, hi int64) Value {
	if lo == hi {
		m.inputs = append(m.inputs, Input{Kind: kind, V: uint64(lo)})
		return uint64(lo)
	}
	// use the narrowest width
	span := uint64(hi - lo)
	w := 1
	for w < 64 && span > mask(w) {
		w++
	}
	name := fmt.Sprintf("in%d_%s", len(m.inputs), kind)
	x := m.tm.Var(name, sBV(w))
	var v *Term
	if w == 64 {
		v = x
		m.inputs = append(m.inputs, Input{Kind: kind, T: v})
		m.assume(m.norm(m.tm.And(m.tm.Sle(m.tm.BV(uint64(lo), 64), v), m.tm.Sle(v, m.tm.BV(uint64(hi), 64)))))
		return m.norm(v)
	}
	v = m.tm.Add(m.tm.Zext(x, 64), m.tm.BV(uint64(lo), 64))
	m.inputs = append(m.inputs, Input{Kind: kind, T: v})
	if span != mask(w) {
		m.assume(m.norm(m.tm.Ule(x, m.tm.BV(span, w))))
	}
	return m.norm(v)
}

// app builds an uninterpreted application with congruence constraints.
func (m *M) app(name string, s Sort, args ...*Term) *Term {
	for _, a := range m.apps[name] {
		if len(a.args) == len(args) {
			same := true
			for i := range args {
				if a.args[i] != args[i] {
					same = false
					break
				}
			}
			if same {
				return a
			}
		}
	}
	t := m.tm.App(name, s, args...)
	for _, a := range m.apps[name] {
		if len(a.args) != len(args) {
			continue
		}
		e := m.tm.eqArgs(a.args, args)
		if e == m.tm.ff {
			continue
		}
		if e == m.tm.tt {
			return a
		}
		if m.tm.ideal[name] {
			if strings.HasPrefix(name, "blake") || strings.HasPrefix(name, "siphash") {
				// only ever compared with each other, which Eq decides by the arguments
				continue
			}
			// values equal iff arguments equal: Eq simplifies to the arguments, but
			// the solver must know about the atoms themselves when they are used
			// in other operations
			raw := m.tm.mk(&Term{op: OEq, sort: sBool, args: []*Term{a, t}})
			m.addAxiom(m.tm.And(m.tm.Or(m.tm.Not(e), raw), m.tm.Or(e, m.tm.Not(raw))))
			continue
		}
		m.addAxiom(m.tm.Implies(e, m.tm.Eq(a, t)))
	}
	m.apps[name] = append(m.apps[name], t)
	return t
}

// addAxiom adds a constraint that is valid by construction. The current model
// is repaired when it does not satisfy it.
func (m *M) addAxiom(t *Term) {
	if t.op == OConst {
		if t.val == 0 {
			m.stop("infeasible", "axiom")
		}
		return
	}
	if m.mok && m.pos >= len(m.prefix) {
		if r, ok := eval(t, m.mdl, m.memo); !ok || r == 0 {
			res, mdl := m.query(t)
			switch res {
			case Sat:
				m.mdl = mdl
				m.memo = map[*Term]uint64{}
			case Unsat:
				m.stop("infeasible", "axiom")
			default:
				m.mok = false
			}
		}
	}
	m.addFact(t)
}

// explorer ---------------------------------------------------------------------

type item struct {
	prefix []uint64
	mdl    Model
}

type Violation struct {
	Harness string
	Msg     string
	Kind    string
	Inputs  []ReplayVal
	Trace   []uint64
	Obs     []string
	Apps    []AppVal
	Ns      []uint64
}

type ReplayVal struct {
	Kind string `json:"k"`
	V    uint64 `json:"v"`
	Free bool   `json:"f,omitempty"` // may be randomised when searching natively
}

type harnessStats struct {
	obligations, solverObligations int64
	paths, okPaths, infeasible     int64
	decisions, instrs              int64
	nonterm, unsupported, unknown  int64
}

func (m *M) replayVals() []ReplayVal {
	var out []ReplayVal
	for _, in := range m.inputs {
		rv := ReplayVal{Kind: in.Kind, V: in.V}
		if in.T != nil {
			v, ok := eval(in.T, m.mdl, m.memo)
			if !ok {
				v = 0
			}
			rv.V = v
			rv.Free = in.Kind == "u64" || in.Kind == "byte" || in.Kind == "f64"
		}
		out = append(out, rv)
	}
	return out
}

func (m *M) inputNs() []uint64 {
	var out []uint64
	for _, in := range m.inputs {
		out = append(out, in.N)
	}
	return out
}

func (x *Explorer) runPath(w *Worker, it item) {
	m := &M{
		w: w, x: x, tm: newTM(), prefix: it.prefix, mdl: it.mdl, mok: it.mdl != nil,
		memo: map[*Term]uint64{}, maxSteps: x.h.MaxSteps, globals: map[*ssa.Global]*Value{},
		inited: map[*ssa.Package]bool{}, apps: map[string][]*Term{}, pools: map[*Value][]Value{},
		stepOf: map[*Term]uint64{}, fixed: map[*Term]bool{}, stepBase: map[*Term]int64{}, stepEnd: map[*Term][2]uint64{}, fivs: map[*Term]fival{}, f2iOf: map[*Term]*Term{}, checkedAsserts: map[string]int{}, wgs: map[*Value]int{}, mus: map[*Value]int{},
	}
	if m.mdl == nil && len(it.prefix) == 0 {
		m.mdl = Model{}
		m.mok = true
	}
	for _, f := range x.h.Ideal {
		m.tm.ideal[f] = true
	}
	end := m.runMain(x.fn)
	x.finish(m, end)
}

func (m *M) runMain(fn *ssa.Function) (end pathEnd) {
	g := m.newG()
	m.cur = g
	defer func() {
		m.killAll()
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				end = m.classify(r)
			}
		}()
		m.call(nil, fn, nil, nil)
		end = pathEnd{"ok", ""}
	}()
	if m.pathErr != nil {
		end = *m.pathErr
	}
	return end
}

func (m *M) classify(r any) pathEnd {
	switch e := r.(type) {
	case abort:
		return e.e
	case unsupportedErr:
		return pathEnd{"unsupported", e.msg}
	case *targetPanic:
		return pathEnd{"violation", "panic: " + showVal(e.v, 0) + e.st}
	default:
		if m.x.debug {
			panic(r)
		}
		return pathEnd{"unsupported", fmt.Sprintf("engine error: %v %s", r, shortStack())}
	}
}

func (x *Explorer) timeUp() bool { return time.Now().After(x.deadline) }

func trimPath(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}
