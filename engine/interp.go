package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

func shortStack() string {
	ls := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "/verif/engine/") {
			out = append(out, trimPath(strings.Fields(l)[0]))
		}
	}
	if len(out) > 8 {
		out = out[2:8]
	}
	return strings.Join(out, " < ")
}

type opKind uint8

const (
	oNone opKind = iota
	oSlot
	oConst
	oGlobal
)

type opnd struct {
	k    opKind
	slot int
	c    Value
	g    *ssa.Global
}

type cins struct {
	ins ssa.Instruction
	dst int
	ops []opnd
}

type cblock struct {
	phis []cins // phi: ops are the edges
	ins  []cins
	b    *ssa.BasicBlock
}

type fnInfo struct {
	fn       *ssa.Function
	n        int
	blocks   []cblock
	hasDefer bool
	count    int64 // executed instructions (statistics)
	calls    int64
	intr     intrinsic
	key      string
	repo     bool
}

type frame struct {
	m         *M
	fi        *fnInfo
	regs      []Value
	block     int
	prev      *ssa.BasicBlock
	caller    *frame
	defers    []deferred
	result    Value
	panicking bool
	pan       *targetPanic
	abortv    any
	done      bool
}

type deferred struct {
	fn   Value
	args []Value
	ins  ssa.CallInstruction
}

type Prog struct {
	prog    *ssa.Program
	fns     sync.Map // *ssa.Function -> *fnInfo
	methods sync.Map // methodKey -> *ssa.Function
	mod     string
	vnd     string
	pkgs    map[string]*ssa.Package
	impls   sync.Map
	extMu   sync.Mutex
	mmu     sync.Mutex
	root    string
	overlay map[string]string
}

func (p *Prog) info(fn *ssa.Function) *fnInfo {
	if v, ok := p.fns.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := p.compile(fn)
	v, _ := p.fns.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

func fnPkgPath(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if ob := f.Object(); ob != nil && ob.Pkg() != nil {
		return ob.Pkg().Path()
	}
	return ""
}

func fnKey(fn *ssa.Function) string {
	f := fn
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func (p *Prog) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, key: fnKey(fn)}
	pp := fnPkgPath(fn)
	fi.repo = strings.HasPrefix(pp, p.mod) && pp != p.vnd
	fi.intr = lookupIntrinsic(p, fn, fi.key)
	slot := map[ssa.Value]int{}
	n := 0
	for _, x := range fn.Params {
		slot[x] = n
		n++
	}
	for _, x := range fn.FreeVars {
		slot[x] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				slot[v] = n
				n++
			}
		}
	}
	fi.n = n
	mkop := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{}
		case *ssa.Const:
			return opnd{k: oConst, c: safeConst(x)}
		case *ssa.Global:
			return opnd{k: oGlobal, g: x}
		case *ssa.Function:
			return opnd{k: oConst, c: x}
		case *ssa.Builtin:
			return opnd{k: oConst, c: x}
		}
		s, ok := slot[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %v in %v", v, fn))
		}
		return opnd{k: oSlot, slot: s}
	}
	for _, b := range fn.Blocks {
		cb := cblock{b: b}
		for _, in := range b.Instrs {
			c := cins{ins: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = slot[v]
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				for _, e := range x.Edges {
					c.ops = append(c.ops, mkop(e))
				}
				cb.phis = append(cb.phis, c)
				continue
			case *ssa.Slice:
				c.ops = []opnd{mkop(x.X), mkopN(mkop, x.Low), mkopN(mkop, x.High), mkopN(mkop, x.Max)}
			case *ssa.Defer:
				fi.hasDefer = true
				c.ops = callOps(mkop, &x.Call)
			case *ssa.Go:
				c.ops = callOps(mkop, &x.Call)
			case *ssa.Call:
				c.ops = callOps(mkop, &x.Call)
			case *ssa.Select:
				for _, st := range x.States {
					c.ops = append(c.ops, mkop(st.Chan), mkopN(mkop, st.Send))
				}
			default:
				for _, o := range in.Operands(nil) {
					if *o == nil {
						c.ops = append(c.ops, opnd{})
					} else {
						c.ops = append(c.ops, mkop(*o))
					}
				}
			}
			cb.ins = append(cb.ins, c)
		}
		fi.blocks = append(fi.blocks, cb)
	}
	return fi
}

func safeConst(x *ssa.Const) (v Value) {
	defer func() {
		if r := recover(); r != nil {
			v = nil
		}
	}()
	return constVal(x)
}

func mkopN(f func(ssa.Value) opnd, v ssa.Value) opnd {
	if v == nil {
		return opnd{}
	}
	return f(v)
}

func callOps(mk func(ssa.Value) opnd, c *ssa.CallCommon) []opnd {
	ops := []opnd{mk(c.Value)}
	for _, a := range c.Args {
		ops = append(ops, mk(a))
	}
	return ops
}

func (fr *frame) get(o *opnd) Value {
	switch o.k {
	case oSlot:
		return fr.regs[o.slot]
	case oConst:
		return o.c
	case oGlobal:
		return Ptr{c: fr.m.global(o.g)}
	}
	return nil
}

// global returns the cell of g, initialising its package lazily. Globals of
// packages outside the repository are treated as constant tables and shared by
// all paths of a worker.
func (m *M) global(g *ssa.Global) *Value {
	if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), m.w.p.mod) && g.Pkg.Pkg.Path() != "encoding/gob" {
		m.w.p.extMu.Lock()
		c, ok := m.w.ext[g]
		if !ok {
			v := zero(g.Type().(*types.Pointer).Elem())
			c = &v
			m.w.ext[g] = c
		}
		m.w.p.extMu.Unlock()
		if !m.w.extInit[g.Pkg] {
			m.w.extInit[g.Pkg] = true
			m.runInit(g.Pkg)
		}
		return c
	}
	c, ok := m.globals[g]
	if !ok {
		v := zero(g.Type().(*types.Pointer).Elem())
		c = &v
		m.globals[g] = c
	}
	if g.Pkg != nil && !m.inited[g.Pkg] {
		m.inited[g.Pkg] = true
		m.runInit(g.Pkg)
	}
	return c
}

func (m *M) runInit(p *ssa.Package) {
	f := p.Func("init")
	if f == nil || skipInit[p.Pkg.Path()] {
		return
	}
	save := m.steps
	m.call(nil, f, nil, nil)
	m.steps = save
}

func (m *M) call(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := m.w.p.info(fn)
	if fi.intr != nil {
		return fi.intr(m, caller, fn, args)
	}
	// package initialisers of other packages run lazily
	if fn.Name() == "init" && fn.Synthetic == "package initializer" && caller != nil {
		return nil
	}
	if fn.Blocks == nil {
		panic(unsupported("no body for %s", fn.String()))
	}
	m.depth++
	if m.depth > 2000 {
		m.stop("nonterm", "call depth exceeded in %s", fn)
	}
	fr := &frame{m: m, fi: fi, regs: make([]Value, fi.n), caller: caller}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	if fi.repo {
		m.w.touch(fi)
	}
	d := m.depth
	if fi.hasDefer || fn.Recover != nil {
		for {
			fr.runProtected()
			m.depth = d
			if fr.done {
				break
			}
		}
	} else {
		fr.loop()
	}
	m.depth = d - 1
	return fr.result
}

func (fr *frame) runProtected() {
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r) // engine aborts are invisible to the target
		}
		fr.panicking = true
		fr.pan = tp
		fr.runDefers()
		if fr.panicking {
			fr.done = true // keep unwinding
			panic(fr.pan)
		}
		// recovered
		rec := fr.fi.fn.Recover
		if rec == nil {
			res := fr.fi.fn.Signature.Results()
			fr.result = zeroResults(res)
			fr.done = true
			return
		}
		fr.prev = nil
		fr.block = rec.Index
	}()
	fr.loop()
}

func zeroResults(t *types.Tuple) Value {
	switch t.Len() {
	case 0:
		return nil
	case 1:
		return zero(t.At(0).Type())
	}
	return zero(t)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, is := r.(*targetPanic)
				if !is {
					panic(r)
				}
				fr.panicking = true
				fr.pan = tp
			}()
			fr.m.callValue(fr, d.fn, d.args, d.ins)
			ok = true
		}()
	}
}

func (m *M) callValue(caller *frame, fv Value, args []Value, ins ssa.CallInstruction) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			m.rtPanic("invalid memory address or nil pointer dereference (nil func)")
		}
		return m.call(caller, f, args, nil)
	case *Closure:
		return m.call(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return m.builtin(caller, f, args, ins)
	case NativeFn:
		return f(m, args)
	}
	panic(unsupported("call of %T", fv))
}

type NativeFn func(m *M, args []Value) Value

type methodKey struct {
	t  string
	id string
}

func (p *Prog) method(t types.Type, meth *types.Func) *ssa.Function {
	id := meth.Id()
	if fn, ok := p.mcache(t, id); ok {
		return fn
	}
	p.mmu.Lock()
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(meth.Pkg(), meth.Name())
	p.mmu.Unlock()
	if sel == nil {
		return nil
	}
	fn := p.prog.MethodValue(sel)
	p.mstore(t, id, fn)
	return fn
}

// prepareCall resolves the callee and arguments of a call instruction.
func (fr *frame) prepareCall(c *ssa.CallCommon, ops []opnd) (Value, []Value) {
	v := fr.get(&ops[0])
	args := make([]Value, 0, len(ops))
	if c.IsInvoke() {
		recv := v.(Iface)
		if recv.t == nil {
			fr.m.rtPanic("invalid memory address or nil pointer dereference (nil interface method call)")
		}
		if nm, ok := recv.v.(NativeObj); ok {
			name := c.Method.Name()
			return NativeFn(func(m *M, a []Value) Value { return nm.Call(m, name, a) }), fr.getArgs(ops[1:], args)
		}
		fn := fr.m.w.p.method(recv.t, c.Method)
		if fn == nil {
			panic(unsupported("no method %v on %v", c.Method, recv.t))
		}
		args = append(args, recv.v)
		return fn, fr.getArgs(ops[1:], args)
	}
	return v, fr.getArgs(ops[1:], args)
}

func (fr *frame) getArgs(ops []opnd, args []Value) []Value {
	for i := range ops {
		args = append(args, fr.get(&ops[i]))
	}
	return args
}

// NativeObj is an object implemented by the engine (stubs).
type NativeObj interface {
	Call(m *M, method string, args []Value) Value
}

func (fr *frame) loop() {
	m := fr.m
	fi := fr.fi
	for {
		b := &fi.blocks[fr.block]
		if len(b.phis) > 0 {
			pi := -1
			for i, p := range b.b.Preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				p := &b.phis[0]
				fr.regs[p.dst] = fr.get(&p.ops[pi])
			} else {
				tmp := make([]Value, len(b.phis))
				for i := range b.phis {
					tmp[i] = fr.get(&b.phis[i].ops[pi])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		m.steps += int64(len(b.ins))
		if m.steps > m.maxSteps {
			m.stop("nonterm", "instruction budget exceeded in %s", fi.fn)
		}
		if m.steps&0xfff < 16 && m.x.timeUp() {
			m.stop("timeup", "time")
		}
		if fi.repo {
			atomic.AddInt64(&fi.count, int64(len(b.ins)))
		}
		jumped := false
		for i := range b.ins {
			c := &b.ins[i]
			switch in := c.ins.(type) {
			case *ssa.Jump:
				fr.prev = b.b
				fr.block = b.b.Succs[0].Index
				jumped = true
			case *ssa.If:
				s := 1
				if m.branch(fr.get(&c.ops[0])) {
					s = 0
				}
				fr.prev = b.b
				fr.block = b.b.Succs[s].Index
				jumped = true
			case *ssa.Return:
				switch len(c.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&c.ops[0])
				default:
					t := make(Tuple, len(c.ops))
					for j := range c.ops {
						t[j] = fr.get(&c.ops[j])
					}
					fr.result = t
				}
				fr.done = true
				return
			case *ssa.Call:
				fv, args := fr.prepareCall(&in.Call, c.ops)
				fr.regs[c.dst] = m.callValue(fr, fv, args, in)
			default:
				fr.exec(c)
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic(unsupported("fell off block in %s", fi.fn))
		}
	}
}

func (fr *frame) nilCheck(p Ptr) {
	if p.c == nil {
		fr.m.rtPanic("invalid memory address or nil pointer dereference in " + fr.fi.fn.String())
	}
}

func (fr *frame) exec(c *cins) {
	m := fr.m
	switch in := c.ins.(type) {
	case *ssa.Alloc:
		v := zero(in.Type().(*types.Pointer).Elem())
		fr.regs[c.dst] = Ptr{c: &v}
	case *ssa.BinOp:
		fr.regs[c.dst] = m.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(&c.ops[0]), fr.get(&c.ops[1]))
	case *ssa.UnOp:
		fr.regs[c.dst] = fr.unop(in, fr.get(&c.ops[0]))
	case *ssa.ChangeType:
		fr.regs[c.dst] = fr.get(&c.ops[0])
	case *ssa.ChangeInterface:
		fr.regs[c.dst] = fr.get(&c.ops[0])
	case *ssa.Convert:
		fr.regs[c.dst] = m.convert(in.X.Type(), in.Type(), fr.get(&c.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[c.dst] = m.convert(in.X.Type(), in.Type(), fr.get(&c.ops[0]))
	case *ssa.MakeInterface:
		fr.regs[c.dst] = Iface{in.X.Type(), copyVal(fr.get(&c.ops[0]))}
	case *ssa.Extract:
		fr.regs[c.dst] = fr.get(&c.ops[0]).(Tuple)[in.Index]
	case *ssa.Field:
		fr.regs[c.dst] = fr.get(&c.ops[0]).(Struct)[in.Field]
	case *ssa.FieldAddr:
		p, ok := fr.get(&c.ops[0]).(Ptr)
		if !ok {
			panic(unsupported("field of cast pointer"))
		}
		fr.nilCheck(p)
		s := (*p.c).(Struct)
		fr.regs[c.dst] = Ptr{c: &s[in.Field]}
	case *ssa.Index:
		x := fr.get(&c.ops[0])
		iw, is := intInfo(in.Index.Type())
		switch a := x.(type) {
		case Array:
			i := m.index(fr.get(&c.ops[1]), iw, is, len(a))
			fr.regs[c.dst] = a[i]
		case string:
			i := m.index(fr.get(&c.ops[1]), iw, is, len(a))
			fr.regs[c.dst] = uint64(a[i])
		case *SymStr:
			i := m.index(fr.get(&c.ops[1]), iw, is, len(a.b))
			fr.regs[c.dst] = a.b[i]
		default:
			panic(unsupported("index of %T", x))
		}
	case *ssa.IndexAddr:
		iw, is := intInfo(in.Index.Type())
		switch a := fr.get(&c.ops[0]).(type) {
		case Slice:
			i := m.index(fr.get(&c.ops[1]), iw, is, len(a))
			fr.regs[c.dst] = Ptr{&a[i], a, i}
		case Ptr:
			fr.nilCheck(a)
			arr := (*a.c).(Array)
			i := m.index(fr.get(&c.ops[1]), iw, is, len(arr))
			fr.regs[c.dst] = Ptr{&arr[i], arr, i}
		default:
			panic(unsupported("indexaddr of %T", a))
		}
	case *ssa.Store:
		m.store(fr, fr.get(&c.ops[0]), fr.get(&c.ops[1]), in.Val.Type())
	case *ssa.MakeSlice:
		lw, ls := intInfo(in.Len.Type())
		cw, cs := intInfo(in.Cap.Type())
		n := m.concInt(fr.get(&c.ops[0]), ls, lw)
		cp := m.concInt(fr.get(&c.ops[1]), cs, cw)
		if n < 0 || n > 1<<40 {
			m.rtPanic("makeslice: len out of range")
		}
		if cp < n {
			m.rtPanic("makeslice: cap out of range")
		}
		if cp > 1<<22 {
			panic(unsupported("makeslice of %d", cp))
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		fr.regs[c.dst] = mkSlice(et, int(n), int(cp))
	case *ssa.Slice:
		fr.regs[c.dst] = fr.slice(in, c)
	case *ssa.SliceToArrayPointer:
		s := fr.get(&c.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			m.rtPanic("cannot convert slice to array pointer")
		}
		if s == nil {
			fr.regs[c.dst] = Ptr{}
			return
		}
		var v Value = Array(s[:n:n])
		fr.regs[c.dst] = Ptr{c: &v}
	case *ssa.MakeMap:
		mp := newMap()
		m.nextID++
		mp.id = m.nextID
		fr.regs[c.dst] = mp
	case *ssa.MapUpdate:
		mp := fr.get(&c.ops[0]).(*Map)
		k, v := fr.get(&c.ops[1]), copyVal(fr.get(&c.ops[2]))
		if mp == nil {
			m.rtPanic("assignment to entry in nil map")
		}
		kt := in.Map.Type().Underlying().(*types.Map).Key()
		m.checkHashable(kt, k)
		if i := m.mapFind(mp, kt, k); i >= 0 {
			mp.vals[i] = v
		} else {
			mp.add(copyVal(k), v)
		}
	case *ssa.Lookup:
		x := fr.get(&c.ops[0])
		switch a := x.(type) {
		case *Map:
			mt := in.X.Type().Underlying().(*types.Map)
			k := fr.get(&c.ops[1])
			m.checkHashable(mt.Key(), k)
			i := m.mapFind(a, mt.Key(), k)
			var v Value
			if i >= 0 {
				v = copyVal(a.vals[i])
			} else {
				v = zero(mt.Elem())
			}
			if in.CommaOk {
				v = Tuple{v, i >= 0}
			}
			fr.regs[c.dst] = v
		case string:
			iw, is := intInfo(in.Index.Type())
			i := m.index(fr.get(&c.ops[1]), iw, is, len(a))
			fr.regs[c.dst] = uint64(a[i])
		case *SymStr:
			iw, is := intInfo(in.Index.Type())
			i := m.index(fr.get(&c.ops[1]), iw, is, len(a.b))
			fr.regs[c.dst] = a.b[i]
		default:
			panic(unsupported("lookup in %T", x))
		}
	case *ssa.Range:
		x := fr.get(&c.ops[0])
		switch a := x.(type) {
		case *Map:
			it := &MapIter{m: a}
			fr.regs[c.dst] = it
		case string, *SymStr:
			it := &MapIter{isS: true, str: []Value{a}}
			fr.regs[c.dst] = it
		default:
			panic(unsupported("range over %T", x))
		}
	case *ssa.Next:
		fr.regs[c.dst] = fr.next(in, fr.get(&c.ops[0]).(*MapIter))
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for i := range c.ops[1:] {
			cl.env = append(cl.env, fr.get(&c.ops[1+i]))
		}
		fr.regs[c.dst] = cl
	case *ssa.TypeAssert:
		fr.regs[c.dst] = fr.typeAssert(in, fr.get(&c.ops[0]).(Iface))
	case *ssa.Panic:
		v := fr.get(&c.ops[0]).(Iface)
		panic(&targetPanic{v: v, st: " in " + fr.fi.fn.String()})
	case *ssa.Defer:
		fv, args := fr.prepareCall(&in.Call, c.ops)
		for i := range args {
			args[i] = copyVal(args[i])
		}
		fr.defers = append(fr.defers, deferred{fv, args, in})
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.panicking {
			panic(fr.pan)
		}
	case *ssa.Go:
		fv, args := fr.prepareCall(&in.Call, c.ops)
		m.spawn(fv, args, in)
	case *ssa.MakeChan:
		w, s := intInfo(in.Size.Type())
		n := m.concInt(fr.get(&c.ops[0]), s, w)
		m.nextID++
		fr.regs[c.dst] = &Chan{cap: int(n), et: in.Type().Underlying().(*types.Chan).Elem(), id: m.nextID}
	case *ssa.Send:
		m.chanSend(fr.get(&c.ops[0]).(*Chan), copyVal(fr.get(&c.ops[1])))
	case *ssa.Select:
		fr.regs[c.dst] = fr.selectStmt(in, c)
	default:
		panic(unsupported("instruction %T", in))
	}
}

func mkSlice(et types.Type, n, cp int) Slice {
	s := make(Slice, cp)
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range s {
			s[i] = zero(et)
		}
	default:
		z := zero(et)
		for i := range s {
			s[i] = z
		}
	}
	return s[:n]
}

// index bounds-checks and concretises an index.
func (m *M) index(v Value, w int, signed bool, n int) int {
	switch x := v.(type) {
	case uint64:
		i := int64(x)
		if signed {
			i = sext(x, w)
		}
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	case *Term:
		t := x
		if w < 64 {
			if signed {
				t = m.tm.Sext(t, 64)
			} else {
				t = m.tm.Zext(t, 64)
			}
		}
		if !m.branch(m.norm(m.tm.Ult(t, m.tm.BV(uint64(n), 64)))) {
			m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
		}
		return int(m.concretize(t, m.x.concLimit))
	}
	panic(unsupported("index %T", v))
}

func (m *M) checkHashable(t types.Type, k Value) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		m.rtPanic("hash of unhashable type " + i.t.String())
	}
}

func (m *M) load(fr *frame, pv Value, t types.Type) Value {
	switch p := pv.(type) {
	case Ptr:
		if p.c == nil {
			m.rtPanic("invalid memory address or nil pointer dereference in " + fr.fi.fn.String())
		}
		return copyVal(*p.c)
	case *CastPtr:
		return m.castLoad(p)
	}
	panic(unsupported("load through %T", pv))
}

func (m *M) store(fr *frame, pv, v Value, t types.Type) {
	switch p := pv.(type) {
	case Ptr:
		if p.c == nil {
			m.rtPanic("invalid memory address or nil pointer dereference (store) in " + fr.fi.fn.String())
		}
		storeInto(p.c, v)
	case *CastPtr:
		m.castStore(p, v)
	default:
		panic(unsupported("store through %T", pv))
	}
}

// bytes view of memory behind a cast pointer
func (m *M) castBytes(p *CastPtr) ([]*Value, bool) {
	fw, _ := intInfo(p.from)
	n := int(sizeof(p.to))
	if fw == 8 && p.p.arr != nil {
		if p.p.idx+n > len(p.p.arr) {
			panic(unsupported("unsafe access past the array"))
		}
		var r []*Value
		for i := 0; i < n; i++ {
			r = append(r, &p.p.arr[p.p.idx+i])
		}
		return r, true
	}
	if a, ok := p.from.Underlying().(*types.Array); ok {
		if w, _ := intInfo(a.Elem()); w == 8 {
			arr := (*p.p.c).(Array)
			if n > len(arr) {
				panic(unsupported("unsafe access past the array"))
			}
			var r []*Value
			for i := 0; i < n; i++ {
				r = append(r, &arr[i])
			}
			return r, true
		}
	}
	return nil, false
}

func (m *M) castLoad(p *CastPtr) Value {
	if bs, ok := m.castBytes(p); ok {
		if w, _ := intInfo(p.to); w > 0 {
			vs := make([]Value, len(bs))
			for i, b := range bs {
				vs[i] = *b
			}
			return m.norm(m.gather(vs))
		}
		if a, ok := p.to.Underlying().(*types.Array); ok {
			if w, _ := intInfo(a.Elem()); w == 8 {
				r := make(Array, len(bs))
				for i, b := range bs {
					r[i] = *b
				}
				return r
			}
			if w, _ := intInfo(a.Elem()); w > 8 {
				k := w / 8
				r := make(Array, len(bs)/k)
				for i := range r {
					vs := make([]Value, k)
					for j := range vs {
						vs[j] = *bs[i*k+j]
					}
					r[i] = m.norm(m.gather(vs))
				}
				return r
			}
		}
	}
	fw, _ := intInfo(p.from)
	tw, _ := intInfo(p.to)
	if fw > 0 && tw > 0 && tw <= fw {
		v := *p.p.c
		return m.norm(m.tm.Extract(m.term(v, fw), tw-1, 0))
	}
	if a, ok := p.to.Underlying().(*types.Array); ok && fw > 0 {
		if w, _ := intInfo(a.Elem()); w == 8 && int(a.Len())*8 == fw {
			r := make(Array, a.Len())
			t := m.term(*p.p.c, fw)
			for i := range r {
				r[i] = m.norm(m.tm.Extract(t, i*8+7, i*8))
			}
			return r
		}
	}
	if isFloat(p.from) && tw == 64 {
		if f, ok := (*p.p.c).(float64); ok {
			return math.Float64bits(f)
		}
	}
	if isFloat(p.to) && fw == 64 {
		if u, ok := (*p.p.c).(uint64); ok {
			return math.Float64frombits(u)
		}
	}
	panic(unsupported("unsafe load %v as %v", p.from, p.to))
}

func (m *M) castStore(p *CastPtr, v Value) {
	if bs, ok := m.castBytes(p); ok {
		if w, _ := intInfo(p.to); w > 0 {
			t := m.term(v, w)
			for i, b := range bs {
				*b = m.norm(m.tm.Extract(t, i*8+7, i*8))
			}
			return
		}
		if a, ok := p.to.Underlying().(*types.Array); ok {
			if w, _ := intInfo(a.Elem()); w == 8 {
				for i, b := range bs {
					*b = v.(Array)[i]
				}
				return
			}
		}
	}
	fw, _ := intInfo(p.from)
	if a, ok := p.to.Underlying().(*types.Array); ok && fw > 0 {
		if w, _ := intInfo(a.Elem()); w == 8 && int(a.Len())*8 == fw {
			*p.p.c = m.norm(m.gather([]Value(v.(Array))))
			return
		}
	}
	panic(unsupported("unsafe store %v as %v", p.from, p.to))
}

func (fr *frame) unop(in *ssa.UnOp, x Value) Value {
	m := fr.m
	switch in.Op {
	case token.MUL:
		return m.load(fr, x, in.Type())
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *Term:
			return m.norm(m.tm.Not(b))
		}
	case token.SUB:
		if w, _ := intInfo(in.Type()); w > 0 {
			if u, ok := x.(uint64); ok {
				return -u & mask(w)
			}
			return m.norm(m.tm.Neg(x.(*Term)))
		}
		if f, ok := x.(float64); ok {
			return -f
		}
		return m.farith(OFNeg, x)
	case token.XOR:
		w, _ := intInfo(in.Type())
		if u, ok := x.(uint64); ok {
			return ^u & mask(w)
		}
		return m.norm(m.tm.BNot(x.(*Term)))
	case token.ARROW:
		v, ok := m.chanRecv(x.(*Chan))
		if in.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	panic(unsupported("unop %v %T", in.Op, x))
}

func (fr *frame) slice(in *ssa.Slice, c *cins) Value {
	m := fr.m
	x := fr.get(&c.ops[0])
	bound := func(i int, t ssa.Value, def int) int {
		if c.ops[i].k == oNone {
			return def
		}
		w, s := intInfo(t.Type())
		v := m.concInt(fr.get(&c.ops[i]), s, w)
		if v < -1 || v > 1<<40 {
			return -1
		}
		return int(v)
	}
	switch a := x.(type) {
	case string, *SymStr:
		b := m.strBytes(a)
		lo := bound(1, in.Low, 0)
		hi := bound(2, in.High, len(b))
		if lo < 0 || hi < lo || hi > len(b) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, len(b)))
		}
		if s, ok := a.(string); ok {
			return s[lo:hi]
		}
		return mkStr(b[lo:hi])
	case Slice:
		lo := bound(1, in.Low, 0)
		hi := bound(2, in.High, len(a))
		mx := bound(3, in.Max, cap(a))
		if lo < 0 || hi < lo || mx < hi || mx > cap(a) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(a)))
		}
		if a == nil {
			return Slice(nil)
		}
		return a[lo:hi:mx]
	case Ptr:
		fr.nilCheck(a)
		arr := (*a.c).(Array)
		lo := bound(1, in.Low, 0)
		hi := bound(2, in.High, len(arr))
		mx := bound(3, in.Max, cap(arr))
		if lo < 0 || hi < lo || mx < hi || mx > len(arr) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, len(arr)))
		}
		return Slice(arr[lo:hi:mx])
	}
	panic(unsupported("slice of %T", x))
}

func (fr *frame) next(in *ssa.Next, it *MapIter) Value {
	m := fr.m
	if it.isS {
		if s, ok := it.str[0].(*SymStr); ok {
			p := it.pos
			if p >= len(s.b) {
				return Tuple{false, uint64(0), uint64(0)}
			}
			it.pos++
			b := s.b[p]
			if t, ok := b.(*Term); ok {
				if !m.branch(m.norm(m.tm.Ult(t, m.tm.BV(0x80, 8)))) {
					panic(unsupported("range over a string with wide characters"))
				}
				return Tuple{true, uint64(p), m.norm(m.tm.Zext(t, 32))}
			}
			if b.(uint64) >= 0x80 {
				panic(unsupported("range over a string with wide characters"))
			}
			return Tuple{true, uint64(p), b}
		}
		s := it.str[0].(string)
		if it.pos >= len(s) {
			return Tuple{false, uint64(0), uint64(0)}
		}
		for i, r := range s[it.pos:] {
			_ = i
			p := it.pos
			n := len(string(r))
			if r == 0xfffd {
				n = 1
			}
			it.pos += n
			return Tuple{true, uint64(p), uint64(uint32(r))}
		}
	}
	mp := it.m
	mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	if mp == nil {
		return Tuple{false, zero(mt.Key()), zero(mt.Elem())}
	}
	if m.mapOrder {
		for len(it.used) < len(mp.keys) {
			it.used = append(it.used, false)
		}
		var cand []int
		for i := range mp.keys {
			if !mp.dead[i] && !it.used[i] {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			return Tuple{false, zero(mt.Key()), zero(mt.Elem())}
		}
		i := cand[m.choose(len(cand))]
		it.used[i] = true
		return Tuple{true, copyVal(mp.keys[i]), copyVal(mp.vals[i])}
	}
	for it.pos < len(mp.keys) {
		i := it.pos
		it.pos++
		if !mp.dead[i] {
			return Tuple{true, copyVal(mp.keys[i]), copyVal(mp.vals[i])}
		}
	}
	return Tuple{false, zero(mt.Key()), zero(mt.Elem())}
}

func (fr *frame) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil {
			if _, nat := x.v.(NativeObj); nat {
				ok = true
			} else {
				ok = fr.m.w.p.implements(x.t, it)
			}
		}
		v = x
		if !ok {
			v = Iface{}
		}
	} else {
		ok = x.t != nil && types.Identical(x.t, in.AssertedType)
		if ok {
			v = x.v
		} else {
			v = zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return Tuple{v, ok}
	}
	if !ok {
		fr.m.rtPanic(fmt.Sprintf("interface conversion: not %v", in.AssertedType))
	}
	return v
}

// arithmetic -------------------------------------------------------------------

func (m *M) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return m.eq(eqType(xt, yt), x, y)
	case token.NEQ:
		switch r := m.eq(eqType(xt, yt), x, y).(type) {
		case bool:
			return !r
		case *Term:
			return m.norm(m.tm.Not(r))
		}
	}
	if w, signed := intInfo(xt); w > 0 {
		return m.intop(op, w, signed, yt, x, y)
	}
	if isFloat(xt) {
		fx, ok1 := x.(float64)
		fy, ok2 := y.(float64)
		if ok1 && ok2 {
			var r float64
			switch op {
			case token.ADD:
				r = fx + fy
			case token.SUB:
				r = fx - fy
			case token.MUL:
				r = fx * fy
			case token.QUO:
				r = fx / fy
			case token.LSS:
				return fx < fy
			case token.LEQ:
				return fx <= fy
			case token.GTR:
				return fx > fy
			case token.GEQ:
				return fx >= fy
			}
			if basicOf(xt).Kind() == types.Float32 {
				r = float64(float32(r))
			}
			return r
		}
		if basicOf(xt).Kind() == types.Float32 {
			panic(unsupported("symbolic float32"))
		}
		switch op {
		case token.ADD:
			return m.farith(OFAdd, x, y)
		case token.SUB:
			return m.farith(OFSub, x, y)
		case token.MUL:
			return m.farith(OFMul, x, y)
		case token.QUO:
			return m.farith(OFDiv, x, y)
		case token.LSS:
			return m.fcmp(OFLt, x, y)
		case token.LEQ:
			return m.fcmp(OFLe, x, y)
		case token.GTR:
			return m.fcmp(OFLt, y, x)
		case token.GEQ:
			return m.fcmp(OFLe, y, x)
		}
	}
	if isString(xt) {
		sx, ok1 := x.(string)
		sy, ok2 := y.(string)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return sx + sy
			case token.LSS:
				return sx < sy
			case token.LEQ:
				return sx <= sy
			case token.GTR:
				return sx > sy
			case token.GEQ:
				return sx >= sy
			}
		}
		if op == token.ADD {
			return mkStr(append(append([]Value{}, m.strBytes(x)...), m.strBytes(y)...))
		}
	}
	panic(unsupported("binop %v on %v", op, xt))
}

func eqType(a, b types.Type) types.Type {
	if bb := basicOf(a); bb != nil && bb.Kind() == types.UntypedNil {
		return b
	}
	return a
}

func (m *M) intop(op token.Token, w int, signed bool, yt types.Type, x, y Value) Value {
	mk := mask(w)
	a, ok1 := x.(uint64)
	b, ok2 := y.(uint64)
	shift := op == token.SHL || op == token.SHR
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return (a + b) & mk
		case token.SUB:
			return (a - b) & mk
		case token.MUL:
			return (a * b) & mk
		case token.QUO:
			if b == 0 {
				m.rtPanic("integer divide by zero")
			}
			if signed {
				r, _ := evalBin(OSDiv, a, b, w)
				return r
			}
			return a / b
		case token.REM:
			if b == 0 {
				m.rtPanic("integer divide by zero")
			}
			if signed {
				r, _ := evalBin(OSRem, a, b, w)
				return r
			}
			return a % b
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return a ^ b
		case token.AND_NOT:
			return a &^ b
		case token.SHL, token.SHR:
			yw, ys := intInfo(yt)
			if ys && sext(b, yw) < 0 {
				m.rtPanic("negative shift amount")
			}
			if op == token.SHL {
				if b >= uint64(w) {
					return uint64(0)
				}
				return (a << b) & mk
			}
			if signed {
				r, _ := evalBin(OAshr, a, b, w)
				return r
			}
			r, _ := evalBin(OLshr, a, b, w)
			return r
		case token.LSS:
			if signed {
				return sext(a, w) < sext(b, w)
			}
			return a < b
		case token.LEQ:
			if signed {
				return sext(a, w) <= sext(b, w)
			}
			return a <= b
		case token.GTR:
			if signed {
				return sext(a, w) > sext(b, w)
			}
			return a > b
		case token.GEQ:
			if signed {
				return sext(a, w) >= sext(b, w)
			}
			return a >= b
		}
		panic(unsupported("intop %v", op))
	}
	tm := m.tm
	ta := m.term(x, w)
	if shift {
		yw, ys := intInfo(yt)
		tb := m.term(y, yw)
		if ys {
			if m.branch(m.norm(tm.Slt(tb, tm.BV(0, yw)))) {
				m.rtPanic("negative shift amount")
			}
		}
		// bring the count to width w, saturating
		var cnt *Term
		if yw <= w {
			cnt = tm.Zext(tb, w)
		} else {
			big := tm.Ule(tm.BV(uint64(w), yw), tb)
			cnt = tm.Ite(big, tm.BV(uint64(w), w), tm.Extract(tb, w-1, 0))
		}
		o := OShl
		if op == token.SHR {
			o = OLshr
			if signed {
				o = OAshr
			}
		}
		return m.norm(tm.bin(o, ta, cnt))
	}
	tb := m.term(y, w)
	switch op {
	case token.ADD:
		return m.norm(tm.Add(ta, tb))
	case token.SUB:
		return m.norm(tm.Sub(ta, tb))
	case token.MUL:
		if m.x.h.UFMul && w == 64 {
			if ta.op == OConst {
				ta, tb = tb, ta
			}
			if tb.op == OConst && tb.val != 0 && tb.val != 1 && tb.val != mk {
				return m.uf(fmt.Sprintf("mul_%x", tb.val), sBV(64), ta)
			}
			if ta.op != OConst && tb.op != OConst {
				if tb.h[0] < ta.h[0] {
					ta, tb = tb, ta
				}
				return m.uf("mul2", sBV(64), ta, tb)
			}
		}
		return m.norm(tm.Mul(ta, tb))
	case token.QUO, token.REM:
		if m.branch(m.norm(tm.Eq(tb, tm.BV(0, w)))) {
			m.rtPanic("integer divide by zero")
		}
		o := OUDiv
		switch {
		case op == token.QUO && signed:
			o = OSDiv
		case op == token.REM && signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return m.norm(tm.bin(o, ta, tb))
	case token.AND:
		return m.norm(tm.bin(OBAnd, ta, tb))
	case token.OR:
		return m.norm(tm.bin(OBOr, ta, tb))
	case token.XOR:
		return m.norm(tm.Xor(ta, tb))
	case token.AND_NOT:
		return m.norm(tm.bin(OBAnd, ta, tm.BNot(tb)))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			ta, tb = tb, ta
		}
		strict := op == token.LSS || op == token.GTR
		switch {
		case strict && signed:
			return m.norm(tm.Slt(ta, tb))
		case strict:
			return m.norm(tm.Ult(ta, tb))
		case signed:
			return m.norm(tm.Sle(ta, tb))
		default:
			return m.norm(tm.Ule(ta, tb))
		}
	}
	panic(unsupported("symbolic intop %v", op))
}

// farith applies a float operation in the harness' float mode.
func (m *M) farith(op Op, args ...Value) Value {
	all := true
	ts := make([]*Term, len(args))
	for i, a := range args {
		if _, ok := a.(*Term); ok {
			all = false
		}
		ts[i] = m.fterm(a)
	}
	if all {
		return m.norm(m.tm.F(op, ts...))
	}
	switch m.x.h.Floats {
	case "ival":
		return m.ivalOp(op, ts...)
	case "fp":
		return m.norm(m.tm.F(op, ts...))
	case "uf", "step":
		return m.uf(fmt.Sprintf("f%d", op), sFP, ts...)
	}
	panic(unsupported("symbolic float in mode %q", m.x.h.Floats))
}

// uf is an uninterpreted float function. In mode "step" floats never reach the
// solver, so that congruence facts are not needed.
func (m *M) uf(name string, s Sort, args ...*Term) *Term {
	if m.x.h.Floats == "step" {
		return m.tm.App(name, s, args...)
	}
	return m.app(name, s, args...)
}

// mulChain finds the generator state a float was computed from.
func mulChain(t *Term) *Term {
	if t.op == OApp && strings.HasPrefix(t.name, "mul_") {
		return t
	}
	for _, a := range t.args {
		if r := mulChain(a); r != nil {
			return r
		}
	}
	return nil
}

// stepChoice picks the value of a float converted to an integer in mode "step":
// the distance to the next index of a mapping, at least 1. Indices of StepHi
// and beyond are represented by one value.
func (m *M) stepChoice(t *Term) Value {
	if v, ok := m.stepOf[t]; ok {
		return v
	}
	hi := m.x.h.StepHi
	c := mulChain(t)
	base := int64(0)
	if c != nil {
		base = m.stepBase[c.args[0]]
	}
	n := hi - base
	if n < 1 {
		n = 1
	}
	v := uint64(m.choose(int(n)) + 1)
	m.stepOf[t] = v
	if c != nil {
		m.stepBase[c] = base + int64(v)
	}
	return v
}

func (m *M) fcmp(op Op, x, y Value) Value {
	if m.x.h.Floats == "ival" {
		a, b := m.fterm(x), m.fterm(y)
		if a.op != OConst || b.op != OConst {
			return m.ivalCmp(op, a, b)
		}
	}
	if m.x.h.Floats == "step" {
		a, b := m.fterm(x), m.fterm(y)
		if a.op != OConst || b.op != OConst {
			t := m.tm.App(fmt.Sprintf("fc%d", op), sFP, a, b)
			if v, ok := m.stepOf[t]; ok {
				return v == 1
			}
			v := uint64(m.choose(2))
			m.stepOf[t] = v
			return v == 1
		}
	}
	return m.norm(m.tm.F(op, m.fterm(x), m.fterm(y)))
}

func (m *M) convert(from, to types.Type, x Value) Value {
	fw, fs := intInfo(from)
	tw, ts := intInfo(to)
	switch {
	case fw > 0 && tw > 0:
		if u, ok := x.(uint64); ok {
			if fs {
				return uint64(sext(u, fw)) & mask(tw)
			}
			return u & mask(tw)
		}
		t := x.(*Term)
		switch {
		case tw == fw:
			return t
		case tw < fw:
			return m.norm(m.tm.Extract(t, tw-1, 0))
		case fs:
			return m.norm(m.tm.Sext(t, tw))
		default:
			return m.norm(m.tm.Zext(t, tw))
		}
	case fw > 0 && isFloat(to):
		if u, ok := x.(uint64); ok {
			var f float64
			if fs {
				f = float64(sext(u, fw))
			} else {
				f = float64(u)
			}
			if basicOf(to).Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
		t := x.(*Term)
		op := OU2F
		if fs {
			op = OS2F
		}
		if m.x.h.Floats == "ival" {
			return m.ivalFrom(t, fs)
		}
		if m.x.h.Floats == "uf" || m.x.h.Floats == "step" {
			return m.uf(fmt.Sprintf("f%d", op), sFP, t)
		}
		if m.x.h.Floats != "fp" {
			// few values: concretise
			v := m.concretize(t, m.x.concLimit)
			return m.convert(from, to, v)
		}
		return m.norm(m.tm.F(op, t))
	case isFloat(from) && tw > 0:
		if f, ok := x.(float64); ok {
			return f2i(f, tw, ts)
		}
		t := x.(*Term)
		if m.x.h.Floats == "ival" {
			return m.ivalTo(t, tw, ts)
		}
		if m.x.h.Floats == "step" {
			return m.stepChoice(t)
		}
		if m.x.h.Floats == "uf" {
			r := m.app("f2i", sBV(64), t)
			if m.x.h.StepHi > 0 {
				m.assumeOnce(r)
			}
			if tw < 64 {
				return m.norm(m.tm.Extract(r, tw-1, 0))
			}
			return r
		}
		op := OF2U
		if ts {
			op = OF2S
		}
		r := m.tm.F(op, t)
		if tw < 64 {
			return m.norm(m.tm.Extract(r, tw-1, 0))
		}
		return m.norm(r)
	case isFloat(from) && isFloat(to):
		if f, ok := x.(float64); ok && basicOf(to).Kind() == types.Float32 {
			return float64(float32(f))
		}
		return x
	case isString(to):
		if fw > 0 {
			return string(rune(sext(x.(uint64), fw)))
		}
		if sl, ok := from.Underlying().(*types.Slice); ok {
			if ew, _ := intInfo(sl.Elem()); ew == 8 {
				return mkStr([]Value(x.(Slice)))
			}
			var sb strings.Builder
			for _, r := range x.(Slice) {
				sb.WriteRune(rune(r.(uint64)))
			}
			return sb.String()
		}
		if isString(from) {
			return x
		}
	case isString(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if ew, _ := intInfo(sl.Elem()); ew == 8 {
				return Slice(append([]Value{}, m.strBytes(x)...))
			}
			var r Slice
			for _, c := range x.(string) {
				r = append(r, uint64(uint32(c)))
			}
			return r
		}
	}
	fb, tb := basicOf(from), basicOf(to)
	if tb != nil && tb.Kind() == types.UnsafePointer {
		switch p := x.(type) {
		case Ptr:
			return UPtr{p: p, elem: from.Underlying().(*types.Pointer).Elem()}
		case *CastPtr:
			return UPtr{p: p.p, elem: p.from}
		case UPtr:
			return p
		}
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		if pt, ok := to.Underlying().(*types.Pointer); ok {
			u := x.(UPtr)
			if u.p.c == nil {
				return Ptr{}
			}
			if types.Identical(u.elem, pt.Elem()) || types.Identical(u.elem.Underlying(), pt.Elem().Underlying()) {
				return u.p
			}
			return &CastPtr{u.p, u.elem, pt.Elem()}
		}
		if tb != nil && tb.Kind() == types.UnsafePointer {
			return x
		}
	}
	if _, ok := to.Underlying().(*types.Slice); ok {
		return x
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return x
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	panic(unsupported("convert %v to %v", from, to))
}

// assumeOnce bounds a converted float (mapping step) to the stated range.
func (m *M) assumeOnce(r *Term) {
	if _, done := m.checkedAsserts["step"+r.String()+fmt.Sprint(r.h)]; done {
		return
	}
	m.checkedAsserts["step"+r.String()+fmt.Sprint(r.h)] = 1
	m.assume(m.norm(m.tm.And(m.tm.Ule(m.tm.BV(1, 64), r), m.tm.Ule(r, m.tm.BV(uint64(m.x.h.StepHi), 64)))))
}

// f2i mimics the amd64 float to integer conversions of the gc compiler.
func f2i(f float64, w int, signed bool) uint64 {
	switch {
	case signed && w == 64:
		return uint64(int64(f))
	case signed && w == 32:
		return uint64(uint32(int32(f)))
	case signed:
		return uint64(int32(f)) & mask(w)
	case w == 64:
		return uint64(f)
	case w == 32:
		return uint64(uint32(f))
	}
	return uint64(uint32(f)) & mask(w)
}

// builtins ---------------------------------------------------------------------

func (m *M) builtin(fr *frame, b *ssa.Builtin, args []Value, ins ssa.CallInstruction) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return uint64(len(x))
		case *SymStr:
			return uint64(len(x.b))
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case Ptr:
			return uint64(len((*x.c).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *Chan:
			return uint64(x.cap)
		case Ptr:
			return uint64(len((*x.c).(Array)))
		}
	case "append":
		dst := args[0].(Slice)
		var src []Value
		switch s := args[1].(type) {
		case Slice:
			src = s
		case string, *SymStr:
			src = m.strBytes(s)
		}
		et := ins.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
		return m.appendVals(et, dst, src)
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch s := args[1].(type) {
		case Slice:
			src = s
		case string, *SymStr:
			src = m.strBytes(s)
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeInto(&dst[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		mp := args[0].(*Map)
		if mp == nil {
			return nil
		}
		kt := ins.Common().Args[0].Type().Underlying().(*types.Map).Key()
		if i := m.mapFind(mp, kt, args[1]); i >= 0 {
			mp.del(i)
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for i := range x.keys {
					x.del(i)
				}
			}
		case Slice:
			et := ins.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				storeInto(&x[i], zero(et))
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		t := ins.Common().Args[0].Type()
		for _, y := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if fx, ok := r.(float64); ok {
				if fy, ok := y.(float64); ok {
					if b.Name() == "max" {
						r = math.Max(fx, fy)
					} else {
						r = math.Min(fx, fy)
					}
					continue
				}
			}
			c := m.binop(op, t, t, y, r)
			switch cv := c.(type) {
			case bool:
				if cv {
					r = y
				}
			case *Term:
				if w, _ := intInfo(t); w > 0 {
					r = m.norm(m.tm.Ite(cv, m.term(y, w), m.term(r, w)))
				} else if m.branch(cv) {
					r = y
				}
			}
		}
		return r
	case "print", "println":
		return nil
	case "close":
		m.chanClose(args[0].(*Chan))
		return nil
	case "recover":
		// fr is the deferred function's frame; its caller is the panicking one
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			p := fr.caller.pan
			fr.caller.pan = nil
			return p.v
		}
		return Iface{}
	case "panic":
		panic(&targetPanic{v: args[0].(Iface)})
	case "ssa:wrapnilchk":
		if ptrCell(args[0]) == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := int(asInt(args[1]))
		if n == 0 {
			return ""
		}
		return mkStr(p.arr[p.idx : p.idx+n])
	case "StringData":
		b := m.strBytes(args[0])
		if len(b) == 0 {
			return Ptr{}
		}
		return Ptr{&b[0], b, 0}
	case "SliceData":
		s := args[0].(Slice)
		if cap(s) == 0 {
			return Ptr{}
		}
		s = s[:cap(s)]
		return Ptr{&s[0], s, 0}
	case "Slice": // unsafe.Slice
		n := int(asInt(args[1]))
		switch p := args[0].(type) {
		case Ptr:
			if p.arr == nil {
				if n == 0 {
					return Slice(nil)
				}
				if n == 1 {
					panic(unsupported("unsafe.Slice of a variable"))
				}
			}
			if p.idx+n > len(p.arr) {
				panic(unsupported("unsafe.Slice past the array"))
			}
			return Slice(p.arr[p.idx : p.idx+n : p.idx+n])
		}
	}
	panic(unsupported("builtin %s(%T)", b.Name(), firstOf(args)))
}

func firstOf(a []Value) Value {
	if len(a) > 0 {
		return a[0]
	}
	return nil
}

func (m *M) appendVals(et types.Type, dst Slice, src []Value) Value {
	if len(src) == 0 {
		return dst
	}
	n := len(dst) + len(src)
	tmp := make([]Value, len(src))
	for i := range src {
		tmp[i] = copyVal(src[i])
	}
	if n <= cap(dst) {
		old := len(dst)
		dst = dst[:n]
		for i, v := range tmp {
			storeInto(&dst[old+i], v)
		}
		return dst
	}
	nc := growCap(et, len(dst), cap(dst), n)
	ns := make(Slice, nc)
	for i := range dst {
		ns[i] = copyVal(dst[i])
	}
	for i, v := range tmp {
		ns[len(dst)+i] = v
	}
	if nc > n {
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := n; i < nc; i++ {
				ns[i] = zero(et)
			}
		default:
			z := zero(et)
			for i := n; i < nc; i++ {
				ns[i] = z
			}
		}
	}
	return ns[:n]
}
