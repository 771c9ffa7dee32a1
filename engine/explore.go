package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness is one symbolic entry point with its bounds.
type Harness struct {
	Fn       string           `json:"fn"`
	Pkg      string           `json:"pkg"` // directory below the module root
	Ideal    []string         `json:"ideal,omitempty"`
	UFMul    bool             `json:"ufmul,omitempty"`
	Floats   string           `json:"floats,omitempty"`
	StepHi   int64            `json:"step_hi,omitempty"`
	Sched    bool             `json:"sched,omitempty"`
	MaxSteps int64            `json:"max_steps,omitempty"`
	Conc     int              `json:"conc,omitempty"`
	Params   map[string]int64 `json:"params,omitempty"`
	Budget   float64          `json:"budget_s,omitempty"`
	SolverMs int              `json:"solver_ms,omitempty"`
	Bounds   string           `json:"bounds,omitempty"`
	Tier     string           `json:"tier,omitempty"` // "", quick, thorough
	NoSearch bool             `json:"no_search,omitempty"`
	Search   bool             `json:"search,omitempty"`
	Expect   []string         `json:"expect,omitempty"` // labels that must be reachable
	Must     []string         `json:"must,omitempty"`   // labels whose absence is a violation (confirmed natively)
}

// Worker runs paths one after another with its own solver process.
type Worker struct {
	id      int
	p       *Prog
	solver  *Solver
	ext     map[*ssa.Global]*Value
	extInit map[*ssa.Package]bool
}

func (w *Worker) touch(fi *fnInfo) { atomic.AddInt64(&fi.calls, 1) }

type Explorer struct {
	h         *Harness
	fn        *ssa.Function
	p         *Prog
	st        *Stats
	st2       harnessStats
	debug     bool
	deadline  time.Time
	concLimit int

	mu       sync.Mutex
	cond     *sync.Cond
	stack    []item
	busy     int
	stopped  bool
	timedOut bool

	viol     []Violation
	violN    map[string]int
	degen    []Violation // violations with unlikely hash values
	degenN   map[string]int
	unsup    map[string]int
	unk      map[string]int
	cuts     map[string]int
	labels   map[string]int64
	samples  []string
	okModels []Violation
	maxDepth int
	elapsed  time.Duration
}

func newExplorer(p *Prog, h *Harness, fn *ssa.Function, st *Stats) *Explorer {
	x := &Explorer{h: h, fn: fn, p: p, st: st, violN: map[string]int{}, degenN: map[string]int{}, unsup: map[string]int{},
		unk: map[string]int{}, cuts: map[string]int{}, labels: map[string]int64{}, concLimit: 64}
	if h.Conc > 0 {
		x.concLimit = h.Conc
	}
	if h.MaxSteps == 0 {
		h.MaxSteps = 3000000
	}
	x.cond = sync.NewCond(&x.mu)
	x.debug = os.Getenv("VENGINE_DEBUG") != ""
	return x
}

func (x *Explorer) push(m *M, alt uint64, mdl Model) {
	pre := make([]uint64, len(m.trace)+1)
	copy(pre, m.trace)
	pre[len(m.trace)] = alt
	x.mu.Lock()
	x.stack = append(x.stack, item{prefix: pre, mdl: mdl})
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) onDecision(m *M) {
	atomic.AddInt64(&x.st2.decisions, 1)
	if x.timeUp() {
		m.stop("timeup", "time")
	}
}

func (x *Explorer) noteUnknown(what string) {
	x.mu.Lock()
	x.unk[what]++
	x.mu.Unlock()
}

func (x *Explorer) noteCut(what string) {
	x.mu.Lock()
	x.cuts[what]++
	x.mu.Unlock()
}

func (x *Explorer) label(l string) {
	x.mu.Lock()
	x.labels[l]++
	x.mu.Unlock()
}

const violPerMsg = 3
const violTotal = 12

func (x *Explorer) finish(m *M, end pathEnd) {
	atomic.AddInt64(&x.st2.paths, 1)
	atomic.AddInt64(&x.st2.instrs, m.steps)
	switch end.kind {
	case "ok":
		atomic.AddInt64(&x.st2.okPaths, 1)
		x.mu.Lock()
		if len(m.trace) > x.maxDepth {
			x.maxDepth = len(m.trace)
		}
		if len(x.samples) < 3 && m.mok {
			x.samples = append(x.samples, sampleOf(m))
		}
		// keep a spread of models for native validation: powers of two
		if n := x.st2.okPaths; m.mok && n&(n-1) == 0 && len(x.okModels) < 8 {
			m.fixMul()
			m.genericHashes()
			x.okModels = append(x.okModels, Violation{Harness: x.h.Fn, Inputs: m.replayVals(), Apps: m.appVals(), Ns: m.inputNs()})
		}
		x.mu.Unlock()
	case "infeasible":
		atomic.AddInt64(&x.st2.infeasible, 1)
	case "timeup":
		x.mu.Lock()
		x.timedOut = true
		x.mu.Unlock()
	case "unknown":
		atomic.AddInt64(&x.st2.unknown, 1)
	case "unsupported":
		atomic.AddInt64(&x.st2.unsupported, 1)
		x.mu.Lock()
		x.unsup[end.msg]++
		x.mu.Unlock()
	case "violation", "nonterm":
		if end.kind == "nonterm" {
			atomic.AddInt64(&x.st2.nonterm, 1)
		}
		key := violKey(end.msg)
		x.mu.Lock()
		skip := x.violN[key] >= violPerMsg
		x.mu.Unlock()
		if skip {
			return
		}
		if !m.mok {
			res, d := m.w.solver.Check(m.pc)
			if res == Unsat {
				atomic.AddInt64(&x.st2.infeasible, 1)
				return
			}
			if res == Unknown {
				x.noteUnknown("violation model")
				return
			}
			m.mdl, m.mok, m.memo = d, true, map[*Term]uint64{}
		}
		natural := m.fixMul()
		m.genericHashes()
		v := Violation{Harness: x.h.Fn, Msg: end.msg, Kind: end.kind, Inputs: m.replayVals(), Trace: m.trace, Apps: m.appVals(), Ns: m.inputNs()}
		x.mu.Lock()
		if !natural {
			// its hash values are not ones of an ideal hash: look for a better one
			if x.degenN[key] < violPerMsg {
				x.degen = append(x.degen, v)
			}
			x.degenN[key]++
			x.mu.Unlock()
			return
		}
		x.violN[key]++
		x.viol = append(x.viol, v)
		if len(x.viol) >= violTotal {
			x.stopped = true
		}
		x.mu.Unlock()
	}
}

func violKey(msg string) string {
	if len(msg) > 60 {
		msg = msg[:60]
	}
	return msg
}

func sampleOf(m *M) string {
	s := ""
	for i, v := range m.replayVals() {
		if i > 14 {
			s += " ..."
			break
		}
		s += fmt.Sprintf("%s=%d ", v.Kind, v.V)
	}
	return fmt.Sprintf("path of %d decisions and %d assertions; model %s", len(m.trace), m.asserts, s)
}

// genericHashes replaces the values of ideal hashes in the model by well-mixed
// ones wherever the path condition allows: the model's own values may collide
// under XOR, which ideal hashes do not.
func (m *M) genericHashes() {
	for salt := uint64(1); salt <= 12; salt++ {
		alt := Model{}
		for k, v := range m.mdl {
			alt[k] = v
		}
		for _, n := range sortedKeys(m.apps) {
			if !m.tm.ideal[n] {
				continue
			}
			for _, a := range m.apps[n] {
				if m.fixed[a] {
					continue
				}
				h := hashStr(salt*0x9E3779B97F4A7C15, n)
				for _, x := range a.args {
					v, _ := eval(x, m.mdl, m.memo)
					h = mix(h, v)
				}
				h = mix(h, salt)
				alt[a.h] = h & mask(a.w())
			}
		}
		memo := map[*Term]uint64{}
		ok := true
		for _, c := range m.pc {
			if v, k := eval(c, alt, memo); !k || v == 0 {
				ok = false
				break
			}
		}
		if ok {
			m.mdl, m.memo = alt, memo
			return
		}
	}
}

func isHashApp(t *Term) bool { return t.op == OApp && strings.HasPrefix(t.name, "h:") }

// fixMul gives an input or an ideal hash that is used only as the operand of
// abstracted multiplications the value that yields the product chosen by the
// solver.
func (m *M) fixMul() (natural bool) {
	natural = true
	used := map[*Term]bool{}
	var prods []*Term
	for _, c := range m.pc {
		for _, s := range c.symbols() {
			if !used[s] && s.op == OApp && strings.HasPrefix(s.name, "mul") {
				prods = append(prods, s)
			}
			used[s] = true
		}
	}
	// prefer products that ideal hashes can have: different ones, none of them 0,
	// of odd multipliers
	var extra []*Term
	for i, a := range prods {
		if len(a.args) == 2 {
			for _, r := range a.args {
				if r.op == OVar {
					extra = append(extra, m.tm.Eq(m.tm.Extract(r, 0, 0), m.tm.BV(1, 1)))
				}
			}
		}
		if !isHashApp(a.args[0]) && !(len(a.args) == 2 && isHashApp(a.args[1])) {
			continue
		}
		extra = append(extra, m.tm.Not(m.tm.Eq(a, m.tm.BV(0, 64))))
		for _, b := range prods[:i] {
			if a.name == b.name {
				extra = append(extra, m.tm.Not(m.tm.Eq(a, b)))
			}
		}
	}
	if len(extra) > 0 {
		if res, d := m.w.solver.Check(append(append([]*Term{}, m.pc...), extra...)); res == Sat {
			m.mdl, m.mok, m.memo = d, true, map[*Term]uint64{}
		} else {
			natural = false
		}
	}
	set := func(t *Term, v uint64) {
		alt := Model{}
		for k, v := range m.mdl {
			alt[k] = v
		}
		alt[t.h] = v
		m.mdl, m.memo = alt, map[*Term]uint64{}
	}
	free := func(x *Term) bool {
		return !used[x] && (x.op == OVar || x.op == OApp && strings.HasPrefix(x.name, "h:"))
	}
	fix := func(x, a *Term, k uint64) {
		inv := uint64(1)
		for i := 0; i < 6; i++ {
			inv *= 2 - k*inv
		}
		if v, ok := eval(a, m.mdl, m.memo); ok {
			if x.op == OApp && v == 0 {
				return // 0 is no value of an ideal hash: it is the XOR of nothing
			}
			set(x, v*inv)
			used[x] = true
			m.fixed[x] = true
		}
	}
	for _, n := range sortedKeys(m.apps) {
		if strings.HasPrefix(n, "mul") {
			prods = append(prods, m.apps[n]...)
		}
	}
	for _, a := range prods {
		var k uint64
		if c, _ := fmt.Sscanf(a.name, "mul_%x", &k); c == 1 && k&1 != 0 && free(a.args[0]) {
			fix(a.args[0], a, k)
			continue
		}
		if a.name != "mul2" {
			continue
		}
		x, r := a.args[0], a.args[1]
		if x.op == OVar && r.op != OVar {
			x, r = r, x
		}
		k, ok := eval(r, m.mdl, m.memo)
		if !ok || !free(x) {
			continue
		}
		if k&1 == 0 {
			if used[r] || r.op != OVar {
				continue
			}
			k |= 1
			set(r, k)
		}
		m.fixed[r] = true
		fix(x, a, k)
	}
	return natural
}

type AppVal struct {
	Name string   `json:"name"`
	Args []uint64 `json:"args"`
	V    uint64   `json:"v"`
}

func (m *M) appVals() []AppVal {
	var out []AppVal
	for _, n := range sortedKeys(m.apps) {
		if len(n) < 2 || n[:2] != "h:" {
			continue
		}
		for _, a := range m.apps[n] {
			av := AppVal{Name: n[2:]}
			ok := true
			for _, x := range a.args {
				v, k := eval(x, m.mdl, m.memo)
				ok = ok && k
				av.Args = append(av.Args, v)
			}
			v, k := eval(a, m.mdl, m.memo)
			av.V = v
			if ok && k {
				out = append(out, av)
			}
		}
	}
	return out
}

func (x *Explorer) run(nw int, cache *QueryCache, prog string) {
	t0 := time.Now()
	budget := x.h.Budget
	if budget == 0 {
		budget = 60
	}
	x.deadline = t0.Add(time.Duration(budget * float64(time.Second)))
	x.stack = []item{{}}
	tmo := x.h.SolverMs
	if tmo == 0 {
		tmo = 20000
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &Worker{id: i, p: x.p, solver: newSolver(prog, tmo, x.st, cache), ext: map[*ssa.Global]*Value{}, extInit: map[*ssa.Package]bool{}}
			defer w.solver.close()
			for {
				x.mu.Lock()
				for len(x.stack) == 0 && x.busy > 0 && !x.stopped {
					x.cond.Wait()
				}
				if x.stopped || len(x.stack) == 0 {
					x.mu.Unlock()
					x.cond.Broadcast()
					return
				}
				it := x.stack[len(x.stack)-1]
				x.stack[len(x.stack)-1] = item{}
				x.stack = x.stack[:len(x.stack)-1]
				x.busy++
				x.mu.Unlock()
				if x.timeUp() {
					x.mu.Lock()
					x.timedOut = true
					x.stopped = true
				} else {
					x.runPath(w, it)
					x.mu.Lock()
				}
				x.busy--
				if x.timedOut {
					x.stopped = true
				}
				x.mu.Unlock()
				x.cond.Broadcast()
			}
		}(i)
	}
	wg.Wait()
	x.elapsed = time.Since(t0)
}

func (x *Explorer) exhausted() bool {
	return !x.timedOut && len(x.unsup) == 0 && len(x.unk) == 0 && len(x.cuts) == 0 && (len(x.viol) < violTotal)
}

// Prog helpers -------------------------------------------------------------------

type mkey struct {
	t  types.Type
	id string
}

func (p *Prog) mcache(t types.Type, id string) (*ssa.Function, bool) {
	v, ok := p.methods.Load(mkey{t, id})
	if !ok {
		return nil, false
	}
	return v.(*ssa.Function), true
}

func (p *Prog) mstore(t types.Type, id string, fn *ssa.Function) { p.methods.Store(mkey{t, id}, fn) }

type ikey struct {
	t  types.Type
	it *types.Interface
}

func (p *Prog) implements(t types.Type, it *types.Interface) bool {
	k := ikey{t, it}
	if v, ok := p.impls.Load(k); ok {
		return v.(bool)
	}
	p.mmu.Lock()
	r := types.Implements(t, it)
	p.mmu.Unlock()
	p.impls.Store(k, r)
	return r
}

// encoded lists the repository functions executed symbolically so far.
func (p *Prog) encoded() map[string]int64 {
	out := map[string]int64{}
	p.fns.Range(func(k, v any) bool {
		fi := v.(*fnInfo)
		if c := atomic.LoadInt64(&fi.calls); c > 0 && fi.repo && !isHarness(p, fi.fn) {
			out[fi.key] += c
		}
		return true
	})
	return out
}

func isHarness(p *Prog, fn *ssa.Function) bool {
	pos := p.prog.Fset.Position(fn.Pos())
	b := trimPath(pos.Filename)
	return len(b) > 3 && b[:3] == "zz_" || pos.Filename == ""
}

func topKeys(m map[string]int, n int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] || m[ks[i]] == m[ks[j]] && ks[i] < ks[j] })
	if len(ks) > n {
		ks = ks[:n]
	}
	for i, k := range ks {
		ks[i] = fmt.Sprintf("%s (%d)", k, m[k])
	}
	return ks
}
