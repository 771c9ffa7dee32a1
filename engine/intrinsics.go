package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"math/rand"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Library functions the engine implements itself: the harness API (vnd),
// environment stubs and mathematical functions. Everything else is executed
// from source.

type intrinsic func(m *M, caller *frame, fn *ssa.Function, args []Value) Value

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "time": true, "net": true, "reflect": true, "sync": true,
	"log": true, "fmt": true, "encoding/gob": true, "testing": true, "errors": true, "internal/cpu": true,
	"internal/godebug": true, "internal/poll": true, "unicode": true, "strconv": true, "context": true,
	"crypto": true, "golang.org/x/sys/unix": true, "golang.org/x/sys/cpu": true, "flag": true, "math/rand/v2": true,
	"internal/reflectlite": true, "sync/atomic": true, "log/internal": true, "runtime/debug": true,
	"github.com/DataDog/sketches-go/ddsketch": true, "golang.org/x/crypto/blake2b": true, "math/rand": true,
}

func lookupIntrinsic(p *Prog, fn *ssa.Function, key string) intrinsic {
	if strings.HasPrefix(key, p.vnd+".") {
		if f, ok := vndFns[key[len(p.vnd)+1:]]; ok {
			return f
		}
		return nil
	}
	if f, ok := stdFns[key]; ok {
		return f
	}
	pp := fnPkgPath(fn)
	switch pp {
	case "log", "fmt":
		return func(m *M, fr *frame, fn *ssa.Function, args []Value) Value {
			if pp == "fmt" && (fn.Name() == "Errorf") {
				return m.mkError("fmt.Errorf")
			}
			if pp == "fmt" && strings.HasPrefix(fn.Name(), "Sprint") {
				return "?"
			}
			if pp == "fmt" && strings.Contains(fn.Name(), "scan") {
				panic(unsupported("fmt.%s", fn.Name()))
			}
			if pp == "log" && strings.HasPrefix(fn.Name(), "Fatal") {
				m.violation("log.Fatal called")
			}
			if pp == "log" && strings.HasPrefix(fn.Name(), "Panic") {
				panic(&targetPanic{v: Iface{types.Typ[types.String], "log.Panic"}})
			}
			return zeroResults(fn.Signature.Results())
		}
	}
	return nil
}

// mkError makes an error value.
func (m *M) mkError(s string) Value {
	ep := m.w.p.pkgs["errors"]
	if ep == nil {
		panic(unsupported("errors package not loaded"))
	}
	t := ep.Type("errorString").Type()
	var v Value = Struct{s}
	return Iface{types.NewPointer(t), Ptr{c: &v}}
}

func conc(v Value) uint64 {
	u, ok := v.(uint64)
	if !ok {
		panic(unsupported("concrete value expected, got %T", v))
	}
	return u
}

func boolVals(v Value) []Value { return []Value(v.(Slice)) }

var vndFns map[string]intrinsic
var stdFns map[string]intrinsic

func mathFn(op Op, name string, f func(float64) float64) intrinsic {
	return func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return f(x)
		}
		if op != OConst && m.x.h.Floats == "fp" {
			return m.norm(m.tm.F(op, m.fterm(a[0])))
		}
		if m.x.h.Floats == "ival" {
			if op == OConst {
				return m.ivalMono(name, f, m.fterm(a[0]))
			}
			return m.ivalOp(op, m.fterm(a[0]))
		}
		if m.x.h.Floats != "" {
			return m.uf("f_"+name, sFP, m.fterm(a[0]))
		}
		panic(unsupported("math.%s of a symbolic value", name))
	}
}

func nop(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
	return zeroResults(fn.Signature.Results())
}

func (m *M) hashApp(name string, words []*Term) *Term {
	// applications of different arity are different functions
	n := fmt.Sprintf("h:%s/%d", name, len(words))
	if _, ok := m.tm.ideal[n]; !ok {
		m.tm.ideal[n] = m.tm.ideal["*"] || m.tm.ideal[name]
	}
	return m.app(n, sBV(64), words...)
}

// words packs bytes into 64-bit words (the last one zero padded), so that
// word-wise views of byte arrays recombine.
func (m *M) words(bs []Value) []*Term {
	var out []*Term
	for i := 0; i < len(bs); i += 8 {
		j := i + 8
		if j > len(bs) {
			j = len(bs)
		}
		t := m.gather(bs[i:j])
		out = append(out, m.tm.Zext(t, 64))
	}
	return out
}

func init() {
	vndFns = map[string]intrinsic{
		"U64": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.input("u64", sBV(64), 0) },
		"U32": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.input("u32", sBV(32), 0)
		},
		"Byte": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.input("byte", sBV(8), 0) },
		"F64":  func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.input("f64", sFP, 0) },
		"Bool": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.input("bool", sBool, 0) },
		"Int": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			lo, hi := int64(conc(a[0])), int64(conc(a[1]))
			if lo > hi {
				m.stop("infeasible", "empty range")
			}
			return m.inputRange("int", lo, hi)
		},
		"Choose": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			n := int(conc(a[0]))
			if n < 1 {
				m.stop("infeasible", "empty choice")
			}
			c := uint64(m.choose(n))
			m.inputs = append(m.inputs, Input{Kind: "choose", V: c, N: uint64(n)})
			return c
		},
		"Concretize": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			if t, ok := a[0].(*Term); ok {
				return m.concretize(t, m.x.concLimit)
			}
			return a[0]
		},
		"Assume": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { m.assume(a[0]); return nil },
		"Assert": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { m.assert(a[0], a[1].(string)); return nil },
		"Fail": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			m.violation("assertion failed: " + a[0].(string))
			return nil
		},
		"Reach": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			if m.pos >= len(m.prefix) {
				m.x.label(a[0].(string))
			}
			return nil
		},
		"Stop": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { m.stop("ok", ""); return nil },
		"File": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			if m.files == nil {
				m.files = map[string][]Value{}
			}
			p := fmt.Sprintf("/vnd/file%d", len(m.files))
			m.files[p] = append([]Value{}, []Value(a[0].(Slice))...)
			return p
		},
		"Unsupported": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			panic(unsupported("%s", a[0]))
		},
		"Param": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			v, ok := m.x.h.Params[a[0].(string)]
			if !ok {
				panic(unsupported("parameter %s not set", a[0]))
			}
			return uint64(v)
		},
		"Symbolic":  func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return true },
		"Replaying": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return false },
		"And": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			var ts []*Term
			for _, b := range boolVals(a[0]) {
				ts = append(ts, m.bterm(b))
			}
			return m.norm(m.tm.And(ts...))
		},
		"Or": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			var ts []*Term
			for _, b := range boolVals(a[0]) {
				ts = append(ts, m.bterm(b))
			}
			return m.norm(m.tm.Or(ts...))
		},
		"Not": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.norm(m.tm.Not(m.bterm(a[0]))) },
		"Ite64": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.norm(m.tm.Ite(m.bterm(a[0]), m.term(a[1], 64), m.term(a[2], 64)))
		},
		"Hash64": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			var ws []*Term
			for _, w := range a[1].(Slice) {
				ws = append(ws, m.term(w, 64))
			}
			return m.norm(m.hashApp(a[0].(string), ws))
		},
		"MapOrder": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { m.mapOrder = a[0].(bool); return nil },
		"Yield":    func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { m.yield(); return nil },
		"Now":      func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.clock() },
		"SetNow":   func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { v := a[0]; m.now = &v; return nil },
		"Tick": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			// deliver a tick on every ticker channel with the given period
			per := conc(a[0])
			for _, t := range m.timers {
				if uint64(t.at) == per && len(t.ch.buf) == 0 {
					tv := m.timeVal()
					m.doSend(t.ch, tv)
				}
			}
			return nil
		},
		"Active": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return false },
		"Trace": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			if m.x.debug {
				fmt.Println("TRACE", showVal(a[0], 0), showVal(a[1], 0))
			}
			return nil
		},
	}
	stdFns = map[string]intrinsic{
		"math.Sqrt":  mathFn(OFSqrt, "Sqrt", math.Sqrt),
		"math.Ceil":  mathFn(OFCeil, "Ceil", math.Ceil),
		"math.Floor": mathFn(OFFloor, "Floor", math.Floor),
		"math.Trunc": mathFn(OFTrunc, "Trunc", math.Trunc),
		"math.Abs":   mathFn(OFAbs, "Abs", math.Abs),
		"math.Log":   mathFn(OConst, "Log", math.Log),
		"math.Log1p": mathFn(OConst, "Log1p", math.Log1p),
		"math.Exp":   mathFn(OConst, "Exp", math.Exp),
		"math.Log2":  mathFn(OConst, "Log2", math.Log2),
		"math.Float64bits": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			if f, ok := a[0].(float64); ok {
				return math.Float64bits(f)
			}
			panic(unsupported("Float64bits of a symbolic value"))
		},
		"math.Float64frombits": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			if u, ok := a[0].(uint64); ok {
				return math.Float64frombits(u)
			}
			return m.norm(m.tm.F(OFBits, a[0].(*Term)))
		},
		"math.Float32bits": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return uint64(math.Float32bits(float32(a[0].(float64))))
		},
		"math.Pow": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok1 && ok2 {
				return math.Pow(x, y)
			}
			if m.x.h.Floats != "" {
				return m.app("f_Pow", sFP, m.fterm(a[0]), m.fterm(a[1]))
			}
			panic(unsupported("math.Pow of a symbolic value"))
		},
		"math.Min": fmin(false), "math.Max": fmin(true),
		"math.archSqrt": nil,

		"(*sync.Mutex).Lock": lockFn(1), "(*sync.Mutex).Unlock": lockFn(-1), "(*sync.RWMutex).Lock": lockFn(1), "(*sync.RWMutex).Unlock": lockFn(-1),
		"(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
		"(*sync.WaitGroup).Add": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			m.wgs[a[0].(Ptr).c] += int(int64(conc(a[1])))
			return nil
		},
		"(*sync.WaitGroup).Done": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			m.wgs[a[0].(Ptr).c]--
			return nil
		},
		"(*sync.WaitGroup).Wait": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			for i := 0; m.wgs[a[0].(Ptr).c] > 0; i++ {
				if len(m.ready) == 0 {
					m.violation("deadlock: WaitGroup.Wait")
				}
				m.yield()
			}
			return nil
		},
		"(*sync.Once).Do": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			c := a[0].(Ptr).c
			if m.mus[c] == 0 {
				m.mus[c] = 1
				m.callValue(fr, a[1], nil, nil)
			}
			return nil
		},
		"(*sync.Pool).Get": poolGet,
		"(*sync.Pool).Put": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			c := a[0].(Ptr).c
			m.pools[c] = append(m.pools[c], a[1])
			return nil
		},
		"bytes.Equal": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.bytesEq([]Value(a[0].(Slice)), []Value(a[1].(Slice)))
		},
		"bytes.Compare": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			x, y := m.concBytes(a[0].(Slice)), m.concBytes(a[1].(Slice))
			return uint64(int64(strings.Compare(string(x), string(y))))
		},
		"internal/bytealg.Equal": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.bytesEq([]Value(a[0].(Slice)), []Value(a[1].(Slice)))
		},
		"math/bits.LeadingZeros64":  bitsFn(bits.LeadingZeros64),
		"math/bits.TrailingZeros64": bitsFn(bits.TrailingZeros64),
		"math/bits.OnesCount64":     bitsFn(bits.OnesCount64),
		"math/bits.Len64":           bitsFn(bits.Len64),
		"math/bits.Mul64": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			x, ok1 := a[0].(uint64)
			y, ok2 := a[1].(uint64)
			if ok1 && ok2 {
				h, l := bits.Mul64(x, y)
				return Tuple{h, l}
			}
			panic(unsupported("symbolic bits.Mul64"))
		},

		"crypto/subtle.XORBytes": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			d, x, y := a[0].(Slice), a[1].(Slice), a[2].(Slice)
			n := len(x)
			if len(y) < n {
				n = len(y)
			}
			if n == 0 {
				return uint64(0)
			}
			if n > len(d) {
				m.rtPanic("subtle.XORBytes: dst too short")
			}
			r := make([]Value, n)
			for i := range r {
				r[i] = m.norm(m.tm.Xor(m.term(x[i], 8), m.term(y[i], 8)))
			}
			copy(d, r)
			return uint64(n)
		},

		"github.com/dchest/siphash.New": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			key := a[0].(Slice)
			if len(key) != 16 {
				panic(&targetPanic{v: Iface{types.Typ[types.String], "wrong key length"}})
			}
			o := &sipObj{}
			ks := m.words(key)
			o.k0, o.k1 = m.norm(ks[0]), m.norm(ks[1])
			return Iface{types.Typ[types.Int], o}
		},
		"github.com/dchest/siphash.Hash": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.siphash(a[0], a[1], []Value(a[2].(Slice)))
		},
		"golang.org/x/crypto/blake2b.New512": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return Tuple{Iface{types.Typ[types.Int], &blakeObj{n: 64}}, Iface{}}
		},
		"golang.org/x/crypto/blake2b.Sum512": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return Array(m.blake([]Value(a[0].(Slice)), 64))
		},

		"math/rand.NewSource": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			if t, ok := a[0].(*Term); ok && t.op != OConst {
				// two seeds stand for all
				k := uint64(3 - m.choose(2))
				m.assume(m.norm(m.tm.Eq(t, m.tm.BV(k, 64))))
				return Iface{types.Typ[types.Int], &nativeSource{s: rand.NewSource(int64(k))}}
			}
			return Iface{types.Typ[types.Int], &nativeSource{s: rand.NewSource(int64(conc(a[0])))}}
		},
		"math/rand.New": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.newRand(fn, a[0].(Iface))
		},
		"(*math/rand.Rand).Intn":   randIntn,
		"(*math/rand.Rand).Int31n": randIntn,
		"(*math/rand.Rand).Int63n": randIntn,
		"(*math/rand.Rand).int31n": randInt31n,
		"(*math/rand.Rand).Int63": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.int63(m.randSrc(a[0]))
		},
		"(*math/rand.Rand).Uint32": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.shrTrunc(m.int63(m.randSrc(a[0])), 31)
		},
		"(*math/rand.Rand).Int31": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.shrTrunc(m.int63(m.randSrc(a[0])), 32)
		},
		"(*math/rand.Rand).Float64": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.randFloat(m.randSrc(a[0]))
		},
		"(*math/rand.Rand).ExpFloat64": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			s := m.randSrc(a[0])
			if s != nil && s.nat != nil {
				return s.rnd().ExpFloat64()
			}
			// any non-negative value: the harness decides through its float mode
			m.inputs = append(m.inputs, Input{Kind: "src", V: 1 << 62})
			return rand.New(constSrc(1 << 62)).ExpFloat64()
		},
		"(*math/rand.Rand).Uint64": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			s := m.randSrc(a[0])
			if s != nil && s.nat != nil {
				return s.rnd().Uint64()
			}
			t := m.input("src64", sBV(64), 0)
			return t
		},
		"math/rand.Intn":   func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.symIntn("gsrc", a[0]) },
		"math/rand.Int31n": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.symIntn("gsrc", a[0]) },
		"math/rand.Float64": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.randFloat(nil)
		},
		"math/rand.Int63n": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.symIntn("gsrc", a[0]) },
		"math/rand.Uint64": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.input("gfloat", sBV(64), 0) },
		"math/rand.Int63":  func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.gInt63() },
		"math/rand.Int":    func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.gInt63() },
		"math/rand.Int31":  func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.shrTrunc(m.gInt63(), 32) },
		"math/rand.Uint32": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.shrTrunc(m.gInt63(), 31) },
		// two outcomes stand for all
		"math/rand.ExpFloat64": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			v := uint64(1) << (62 - 2*m.choose(2))
			m.inputs = append(m.inputs, Input{Kind: "gfloat", V: v})
			return rand.New(constSrc(v)).ExpFloat64()
		},
		"math/rand.Perm": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			n, same := int(m.concInt(a[0], true, 64)), m.choose(2) == 0
			out := make(Slice, n)
			for i := range out {
				j := i
				if !same {
					j = 0
				}
				m.inputs = append(m.inputs, Input{Kind: "gsrc", V: uint64(j), N: uint64(i + 1)})
				out[i] = out[j]
				out[j] = uint64(i)
			}
			return out
		},
		"math/rand.Shuffle": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			n, same := int(m.concInt(a[0], true, 64)), m.choose(2) == 0
			for i := n - 1; i > 0; i-- {
				j, v := i, uint64(1<<32-1)<<31
				if !same {
					j, v = 0, 1<<31
				}
				m.inputs = append(m.inputs, Input{Kind: "gfloat", V: v})
				m.callValue(fr, a[1], []Value{uint64(i), uint64(j)}, nil)
			}
			return nil
		},
		"encoding/gob.snapshot": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			x := a[0].(Iface)
			t, v := x.t, x.v
			for {
				pt, ok := t.Underlying().(*types.Pointer)
				if !ok {
					break
				}
				p, ok := v.(Ptr)
				if !ok || p.c == nil {
					panic(unsupported("encoding a nil pointer"))
				}
				t, v = pt.Elem(), *p.c
			}
			return Iface{t, m.gobMerge(zero(t), v, t, true)}
		},
		"encoding/gob.assign": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			dst, src := a[0].(Iface), a[1].(Iface)
			pt, ok := dst.t.Underlying().(*types.Pointer)
			if !ok {
				panic(unsupported("decoding into a non-pointer"))
			}
			v := src.v
			if !types.Identical(src.t, pt.Elem()) {
				panic(unsupported("decoding a %v into a %v", src.t, pt.Elem()))
			}
			p, ok := dst.v.(Ptr)
			if !ok || p.c == nil {
				panic(unsupported("decoding into %T", dst.v))
			}
			storeInto(p.c, m.gobMerge(*p.c, v, pt.Elem(), true))
			return nil
		},
		"(time.Duration).Seconds": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			if t, ok := a[0].(*Term); ok {
				if m.x.h.Floats != "uf" && m.x.h.Floats != "step" {
					panic(unsupported("seconds of a symbolic time"))
				}
				return m.uf("f_seconds", sFP, t)
			}
			return time.Duration(a[0].(uint64)).Seconds()
		},
		"math/rand.Seed": nop,
		"math/rand.Read": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			s := a[0].(Slice)
			for i := range s {
				s[i] = m.input("gbyte", sBV(8), 0)
			}
			return Tuple{uint64(len(s)), Iface{}}
		},

		"fmt.Sscanf": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.call(fr, m.w.p.pkgs[m.w.p.vnd].Func("Sscanf"), a, nil)
		},
		"os.Open": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.openFile(fn, a[0]) },
		"os.OpenFile": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			if conc(a[1]) != 0 {
				panic(unsupported("os.OpenFile for writing"))
			}
			return m.openFile(fn, a[0])
		},
		"os.ReadFile": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			b, ok := m.files[m.fileName(a[0])]
			if !ok {
				return Tuple{Slice(nil), m.mkError("no such file")}
			}
			return Tuple{Slice(append([]Value{}, b...)), Iface{}}
		},
		"(*os.File).Read": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			f, ok := m.fds[a[0].(Ptr).c]
			if !ok {
				panic(unsupported("read of a file the harness did not make"))
			}
			p := a[1].(Slice)
			n := copy(p, f.data)
			f.data = f.data[n:]
			if n == 0 && len(p) > 0 {
				return Tuple{uint64(0), copyVal(*m.global(m.w.p.pkgs["io"].Var("EOF")))}
			}
			return Tuple{uint64(n), Iface{}}
		},
		"(*os.File).Close":                 func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return Iface{} },
		"internal/bytealg.IndexByte":       indexByte,
		"internal/bytealg.IndexByteString": indexByte,
		"internal/bytealg.LastIndexByte": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			b := m.bytesOf(a[0])
			for i := len(b) - 1; i >= 0; i-- {
				if m.branch(m.scalarEq(types.Typ[types.Byte], b[i], a[1])) {
					return uint64(i)
				}
			}
			return ^uint64(0)
		},
		"internal/bytealg.Count":       countByte,
		"internal/bytealg.CountString": countByte,

		"runtime.GC": nop, "runtime.KeepAlive": nop, "runtime.Gosched": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			m.yield()
			return nil
		},
		"runtime.SetFinalizer": nop,
		"os.Getenv":            func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return "" },
		"errors.Is": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.eq(types.NewInterfaceType(nil, nil), a[0], a[1])
		},

		"time.Now": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.timeVal() },
		"(time.Time).Sub": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.norm(m.tm.Sub(m.term(timeNs(a[0]), 64), m.term(timeNs(a[1]), 64)))
		},
		"time.Since": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.norm(m.tm.Sub(m.term(m.clock(), 64), m.term(timeNs(a[0]), 64)))
		},
		"(time.Time).Add": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return mkTime(fn.Signature.Results().At(0).Type(), m.norm(m.tm.Add(m.term(timeNs(a[0]), 64), m.term(a[1], 64))))
		},
		"(time.Time).After":  timeCmp(func(m *M, x, y *Term) *Term { return m.tm.Slt(y, x) }),
		"(time.Time).Before": timeCmp(func(m *M, x, y *Term) *Term { return m.tm.Slt(x, y) }),
		"(time.Time).Equal":  timeCmp(func(m *M, x, y *Term) *Term { return m.tm.Eq(x, y) }),
		"(time.Time).Compare": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			x, y := m.term(timeNs(a[0]), 64), m.term(timeNs(a[1]), 64)
			return m.norm(m.tm.Ite(m.tm.Slt(x, y), m.tm.BV(^uint64(0), 64), m.tm.Ite(m.tm.Eq(x, y), m.tm.BV(0, 64), m.tm.BV(1, 64))))
		},
		"(time.Time).IsZero": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.norm(m.tm.Eq(m.term(timeNs(a[0]), 64), m.tm.BV(0, 64)))
		},
		"(time.Time).UnixMicro": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			if u, ok := timeNs(a[0]).(uint64); ok {
				return uint64(int64(u) / 1000)
			}
			return m.app("unixmicro", sBV(64), m.term(timeNs(a[0]), 64))
		},
		"(time.Time).Unix": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			if u, ok := timeNs(a[0]).(uint64); ok {
				return uint64(int64(u) / 1000000000)
			}
			return m.app("unix", sBV(64), m.term(timeNs(a[0]), 64))
		},
		"(time.Time).UnixNano": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return timeNs(a[0]) },
		"time.Sleep": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			m.yield()
			return nil
		},
		"time.NewTicker": func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			ch := m.newTicker(a[0])
			st := zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()).(Struct)
			st[0] = ch
			var v Value = st
			return Ptr{c: &v}
		},
		"time.Tick":           func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.newTicker(a[0]) },
		"(*time.Ticker).Stop": nop,
		"time.After":          func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.newTicker(a[0]) },
	}
	delete(stdFns, "math.archSqrt")
}

// openFile opens a file made by vnd.File.
func (m *M) openFile(fn *ssa.Function, path Value) Value {
	pt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer)
	b, ok := m.files[m.fileName(path)]
	if !ok {
		return Tuple{Ptr{}, m.mkError("no such file")}
	}
	v := zero(pt.Elem())
	if m.fds == nil {
		m.fds = map[*Value]*fileDesc{}
	}
	m.fds[&v] = &fileDesc{b}
	return Tuple{Ptr{c: &v}, Iface{}}
}

type fileDesc struct{ data []Value }

func (m *M) fileName(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("symbolic file name"))
	}
	return s
}

func (m *M) bytesOf(v Value) []Value {
	if s, ok := v.(Slice); ok {
		return []Value(s)
	}
	return m.strBytes(v)
}

func indexByte(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
	for i, c := range m.bytesOf(a[0]) {
		if m.branch(m.scalarEq(types.Typ[types.Byte], c, a[1])) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func countByte(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
	n := 0
	for _, c := range m.bytesOf(a[0]) {
		if m.branch(m.scalarEq(types.Typ[types.Byte], c, a[1])) {
			n++
		}
	}
	return uint64(n)
}

func (m *M) newTicker(d Value) *Chan {
	m.nextID++
	ch := &Chan{cap: 1, et: types.Typ[types.Int], id: m.nextID, ticker: true}
	m.timers = append(m.timers, &Timer{at: int64(conc(d)), ch: ch})
	return ch
}

// time.Time is modelled as a struct whose first two fields hold the instant in
// nanoseconds (in ext) with wall = 0.
func mkTime(t types.Type, ns Value) Value {
	return Struct{uint64(0), ns, Ptr{}}
}

func timeNs(v Value) Value { return v.(Struct)[1] }

func (m *M) clock() Value {
	if m.now == nil {
		var v Value = uint64(0)
		m.now = &v
	}
	return *m.now
}

func (m *M) timeVal() Value { return mkTime(nil, m.clock()) }

func timeCmp(f func(m *M, x, y *Term) *Term) intrinsic {
	return func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.norm(f(m, m.term(timeNs(a[0]), 64), m.term(timeNs(a[1]), 64)))
	}
}

func lockFn(d int) intrinsic {
	return func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		c := ptrCell(a[0])
		if d > 0 {
			for m.mus[c] > 0 {
				if len(m.ready) == 0 {
					m.violation("deadlock: lock already held")
				}
				m.yield()
			}
			m.mus[c] = 1
			return nil
		}
		if m.mus[c] == 0 {
			m.violation("unlock of unlocked mutex")
		}
		m.mus[c] = 0
		return nil
	}
}

func fmin(max bool) intrinsic {
	return func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if ok1 && ok2 {
			if max {
				return math.Max(x, y)
			}
			return math.Min(x, y)
		}
		tx, ty := m.fterm(a[0]), m.fterm(a[1])
		c := m.tm.F(OFLt, tx, ty)
		if max {
			return m.norm(m.tm.Ite(c, ty, tx))
		}
		return m.norm(m.tm.Ite(c, tx, ty))
	}
}

func bitsFn(f func(uint64) int) intrinsic {
	return func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if u, ok := a[0].(uint64); ok {
			return uint64(f(u))
		}
		panic(unsupported("symbolic %s", fn))
	}
}

func (m *M) concBytes(s Slice) []byte {
	b := make([]byte, len(s))
	for i, v := range s {
		b[i] = byte(m.concInt(v, false, 8))
	}
	return b
}

// inRepo reports whether v is an object of a type of the repository.
func inRepo(v Value) bool {
	i, ok := v.(Iface)
	return ok && i.t != nil && strings.Contains(i.t.String(), repoMod)
}

// poolGet returns a new object or any object put back earlier.
func poolGet(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
	p := a[0].(Ptr)
	st := (*p.c).(Struct)
	fresh := func() Value {
		nf := st[len(st)-1]
		if isNilFunc(nf) {
			return Iface{}
		}
		return m.callValue(fr, nf, nil, nil)
	}
	l := m.pools[p.c]
	if len(l) == 0 {
		return fresh()
	}
	n := 1
	switch {
	case m.x.h.Params["pool_any"] != 0 && inRepo(l[0]):
		n = len(l) + 1 // any earlier object, or a new one
	case m.x.h.Params["pool_new"] != 0:
		n = 2 // the last one or a new one
	}
	i := 0
	if n > 1 {
		i = m.choose(n)
		m.inputs = append(m.inputs, Input{Kind: "pool", V: uint64(i)})
	}
	if i == len(l) || n == 2 && i == 1 {
		return fresh()
	}
	k := len(l) - 1 - i
	v := l[k]
	m.pools[p.c] = append(append([]Value{}, l[:k]...), l[k+1:]...)
	return v
}

// siphash ------------------------------------------------------------------------

type sipObj struct {
	k0, k1 Value
	buf    []Value
}

func (o *sipObj) Call(m *M, name string, a []Value) Value {
	switch name {
	case "Reset":
		o.buf = nil
		return nil
	case "Write":
		s := a[0].(Slice)
		o.buf = append(append([]Value{}, o.buf...), s...)
		return Tuple{uint64(len(s)), Iface{}}
	case "Sum64":
		return m.siphash(o.k0, o.k1, o.buf)
	case "Size":
		return uint64(8)
	case "BlockSize":
		return uint64(8)
	}
	panic(unsupported("siphash.%s", name))
}

func (m *M) siphash(k0, k1 Value, b []Value) Value {
	if m.tm.ideal["sip"] {
		return m.norm(m.hashApp("sip", append([]*Term{m.term(k0, 64), m.term(k1, 64)}, m.words(b)...)))
	}
	ideal := m.tm.ideal["siphash"] || m.tm.ideal["*"]
	if !ideal {
		bs := make([]byte, len(b))
		ok := true
		for i, v := range b {
			u, is := v.(uint64)
			if !is {
				ok = false
				break
			}
			bs[i] = byte(u)
		}
		c0, ok0 := k0.(uint64)
		c1, ok1 := k1.(uint64)
		if ok && ok0 && ok1 {
			return sip24(c0, c1, bs)
		}
		panic(unsupported("siphash of symbolic data outside the ideal-hash mode"))
	}
	ws := append([]*Term{m.term(k0, 64), m.term(k1, 64), m.tm.BV(uint64(len(b)), 64)}, m.words(b)...)
	n := fmt.Sprintf("siphash/%d", len(ws))
	m.tm.ideal[n] = true
	return m.norm(m.app(n, sBV(64), ws...))
}

func sip24(k0, k1 uint64, p []byte) uint64 {
	v0, v1, v2, v3 := k0^0x736f6d6570736575, k1^0x646f72616e646f6d, k0^0x6c7967656e657261, k1^0x7465646279746573
	round := func() {
		v0 += v1
		v1 = bits.RotateLeft64(v1, 13)
		v1 ^= v0
		v0 = bits.RotateLeft64(v0, 32)
		v2 += v3
		v3 = bits.RotateLeft64(v3, 16)
		v3 ^= v2
		v0 += v3
		v3 = bits.RotateLeft64(v3, 21)
		v3 ^= v0
		v2 += v1
		v1 = bits.RotateLeft64(v1, 17)
		v1 ^= v2
		v2 = bits.RotateLeft64(v2, 32)
	}
	n := len(p)
	for len(p) >= 8 {
		w := binary.LittleEndian.Uint64(p)
		v3 ^= w
		round()
		round()
		v0 ^= w
		p = p[8:]
	}
	w := uint64(n) << 56
	for i, b := range p {
		w |= uint64(b) << (8 * uint(i))
	}
	v3 ^= w
	round()
	round()
	v0 ^= w
	v2 ^= 0xff
	round()
	round()
	round()
	round()
	return v0 ^ v1 ^ v2 ^ v3
}

// blake2b --------------------------------------------------------------------------

type blakeObj struct {
	n   int
	buf []Value
}

func (o *blakeObj) Call(m *M, name string, a []Value) Value {
	switch name {
	case "Reset":
		o.buf = nil
		return nil
	case "Write":
		s := a[0].(Slice)
		o.buf = append(append([]Value{}, o.buf...), s...)
		return Tuple{uint64(len(s)), Iface{}}
	case "Sum":
		out := m.blake(o.buf, o.n)
		return m.appendVals(types.Typ[types.Uint8], a[0].(Slice), out)
	case "Size":
		return uint64(o.n)
	case "BlockSize":
		return uint64(128)
	}
	panic(unsupported("blake2b.%s", name))
}

func (m *M) blake(b []Value, n int) []Value {
	ws := append([]*Term{m.tm.BV(uint64(len(b)), 64)}, m.words(b)...)
	var out []Value
	for i := 0; i < n/8; i++ {
		name := fmt.Sprintf("blake%d_%d/%d", n, i, len(ws))
		m.tm.ideal[name] = true
		t := m.app(name, sBV(64), ws...)
		for k := 0; k < 8; k++ {
			out = append(out, m.norm(m.tm.Extract(t, k*8+7, k*8)))
		}
	}
	return out
}

// gobMerge is what a variable of type t holding dst holds after decoding an
// encoding of src into it: zero values do not travel (except at the top and as
// elements), what is there is reused.
func (m *M) gobMerge(dst, src Value, t types.Type, keep bool) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		out := make(Struct, u.NumFields())
		d, s := dst.(Struct), src.(Struct)
		for i := range out {
			out[i] = d[i]
			if u.Field(i).Exported() {
				out[i] = m.gobMerge(d[i], s[i], u.Field(i).Type(), false)
			}
		}
		return out
	case *types.Pointer:
		p, ok := src.(Ptr)
		if !ok {
			panic(unsupported("encoding through %T", src))
		}
		if p.c == nil {
			return dst
		}
		if _, isStruct := u.Elem().Underlying().(*types.Struct); !isStruct {
			panic(unsupported("encoding a pointer to %v", u.Elem()))
		}
		d := dst.(Ptr)
		if d.c == nil {
			v := zero(u.Elem())
			d = Ptr{c: &v}
		}
		storeInto(d.c, m.gobMerge(*d.c, *p.c, u.Elem(), false))
		return d
	case *types.Slice:
		s := src.(Slice)
		d, _ := dst.(Slice)
		if len(s) == 0 && !keep {
			return dst
		}
		if cap(d) < len(s) {
			old := d
			d = make(Slice, len(s))
			for i := range d {
				d[i] = zero(u.Elem())
			}
			copy(d, old)
		}
		d = d[:len(s)]
		for i := range s {
			storeInto(&d[i], m.gobMerge(d[i], s[i], u.Elem(), true))
		}
		return d
	case *types.Array:
		s, d := src.(Array), dst.(Array)
		out := make(Array, len(s))
		b, ok := u.Elem().Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsInteger) == 0 {
			panic(unsupported("encoding an array of %v", u.Elem()))
		}
		w, _ := intInfo(u.Elem())
		none := m.tm.Bool(!keep)
		fresh := true
		for i := range s {
			none = m.tm.And(none, m.tm.Eq(m.term(s[i], w), m.tm.BV(0, w)))
			fresh = fresh && isZeroInt(d[i])
		}
		for i := range s {
			out[i] = s[i]
			if !fresh {
				out[i] = m.norm(m.tm.Ite(none, m.term(d[i], w), m.term(s[i], w)))
			}
		}
		return out
	case *types.Basic:
		if u.Info()&types.IsInteger == 0 || keep || isZeroInt(dst) {
			switch x := src.(type) {
			case bool:
				if !x && !keep {
					return dst
				}
			case float64:
				if x == 0 && !keep {
					return dst
				}
			case string:
				if x == "" && !keep {
					return dst
				}
			case *Term:
				if u.Info()&types.IsInteger == 0 && !keep {
					panic(unsupported("encoding a symbolic %v", t))
				}
			}
			return src
		}
		w, _ := intInfo(t)
		return m.norm(m.tm.Ite(m.tm.Eq(m.term(src, w), m.tm.BV(0, w)), m.term(dst, w), m.term(src, w)))
	}
	panic(unsupported("encoding a %v", t))
}

func isZeroInt(v Value) bool {
	x, ok := v.(uint64)
	return ok && x == 0
}

// math/rand --------------------------------------------------------------------------

type nativeSource struct {
	s rand.Source
	r *rand.Rand
}

func (s *nativeSource) rnd() *rand.Rand {
	if s.r == nil {
		s.r = rand.New(s.s)
	}
	return s.r
}

func (s *nativeSource) Call(m *M, name string, a []Value) Value {
	switch name {
	case "Int63":
		return uint64(s.s.Int63())
	case "Uint64":
		return s.s.(rand.Source64).Uint64()
	case "Seed":
		s.s.Seed(int64(conc(a[0])))
		return nil
	}
	panic(unsupported("source.%s", name))
}

type constSrc int64

func (c constSrc) Int63() int64 { return int64(c) }
func (c constSrc) Seed(int64)   {}

type rsrc struct {
	nat *nativeSource
	sym bool
}

func (s *rsrc) rnd() *rand.Rand { return s.nat.rnd() }

// newRand builds *rand.Rand with its source recorded in the first field.
func (m *M) newRand(fn *ssa.Function, src Iface) Value {
	st := zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()).(Struct)
	st[0] = src
	var v Value = st
	return Ptr{c: &v}
}

func (m *M) randSrc(r Value) *rsrc {
	p := r.(Ptr)
	if p.c == nil {
		m.rtPanic("invalid memory address or nil pointer dereference (nil *rand.Rand)")
	}
	i := (*p.c).(Struct)[0].(Iface)
	if n, ok := i.v.(*nativeSource); ok {
		return &rsrc{nat: n}
	}
	// zzvnd.Source with a mode: see its declaration
	if st, ok := i.v.(Struct); ok && len(st) == 1 {
		if f, ok := st[0].(Ptr); ok && f.c != nil {
			k := int64(conc(*f.c))
			switch {
			case k > 0:
				return &rsrc{nat: &nativeSource{s: constSrc(0)}}
			case k < -1:
				*f.c = uint64(k + 1)
				return &rsrc{nat: &nativeSource{s: constSrc(0)}}
			case k == -1:
				*f.c = uint64(1)
			}
		}
	}
	return &rsrc{sym: true}
}

func (m *M) symIntn(kind string, n Value) Value {
	nn := int64(m.concInt(n, true, 64))
	if nn <= 0 {
		panic(&targetPanic{v: Iface{types.Typ[types.String], "invalid argument to Intn"}})
	}
	if nn > 1<<31 {
		panic(unsupported("Intn over a large range"))
	}
	v := m.inputRange(kind, 0, nn-1)
	m.inputs[len(m.inputs)-1].N = uint64(nn)
	return v
}

func randIntn(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
	s := m.randSrc(a[0])
	n := a[1]
	if fn.Name() == "Int31n" {
		n = m.norm(m.tm.Sext(m.term(n, 32), 64))
	}
	if s.nat != nil {
		k := m.concInt(n, true, 64)
		if k <= 0 {
			panic(&targetPanic{v: Iface{types.Typ[types.String], "invalid argument to Intn"}})
		}
		switch fn.Name() {
		case "Int63n":
			return uint64(s.rnd().Int63n(k))
		}
		return uint64(s.rnd().Intn(int(k)))
	}
	kind := "intn"
	if fn.Name() == "Int63n" {
		kind = "int63n"
	}
	r := m.symIntn(kind, n)
	if fn.Name() == "Int31n" {
		return m.norm(m.tm.Extract(m.term(r, 64), 31, 0))
	}
	return r
}

func randInt31n(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
	s := m.randSrc(a[0])
	n := m.norm(m.tm.Sext(m.term(a[1], 32), 64))
	if s.nat != nil {
		// the native algorithm of Shuffle
		k := uint32(conc(n))
		v := s.rnd().Uint32()
		prod := uint64(v) * uint64(k)
		low := uint32(prod)
		if low < k {
			thresh := uint32(-int32(k)) % k
			for low < thresh {
				v = s.rnd().Uint32()
				prod = uint64(v) * uint64(k)
				low = uint32(prod)
			}
		}
		return uint64(uint32(prod >> 32))
	}
	r := m.symIntn("int31n_", n)
	return m.norm(m.tm.Extract(m.term(r, 64), 31, 0))
}

func (m *M) int63(s *rsrc) Value {
	if s.nat != nil {
		return uint64(s.rnd().Int63())
	}
	t := m.input("src63", sBV(63), 0)
	return m.norm(m.tm.Zext(t, 64))
}

// gInt63 is a draw from the global source.
func (m *M) gInt63() Value {
	return m.norm(m.tm.Zext(m.tm.Extract(m.input("gfloat", sBV(64), 0), 62, 0), 64))
}

func (m *M) shrTrunc(v Value, k int) Value {
	if u, ok := v.(uint64); ok {
		return u >> uint(k)
	}
	t := m.term(v, 64)
	return m.norm(m.tm.Zext(m.tm.Extract(t, 62, k), 32))
}

// randFloat is any multiple of 2^-53 in [0,1).
func (m *M) randFloat(s *rsrc) Value {
	if s != nil && s.nat != nil {
		return s.rnd().Float64()
	}
	kind := "float"
	if s == nil {
		kind = "gfloat"
	}
	switch m.x.h.Floats {
	case "fp":
		t := m.input(kind, sBV(53), 0)
		f := m.tm.F(OFMul, m.tm.F(OU2F, m.tm.Zext(t, 64)), m.tm.FP(1.0/(1<<53)))
		return m.norm(f)
	case "uf", "step":
		t := m.input(kind, sBV(53), 0)
		return m.uf("rndf", sFP, m.tm.Zext(t, 64))
	}
	if m.x.h.Floats == "ival" {
		t := m.input(kind, sBV(53), 0)
		u := m.ivalFrom(m.tm.Zext(t, 64), false)
		if f, ok := u.(float64); ok {
			return f / (1 << 53)
		}
		return m.ivalOp(OFMul, u.(*Term), m.tm.FP(1.0/(1<<53)))
	}
	// corner and representative values
	cs := []uint64{0, 1, 1 << 20, 1 << 44, 1 << 49, 1 << 51, 1 << 52, 1<<52 + 1<<51, 1<<53 - 1<<40, 1<<53 - 1}
	c := m.choose(len(cs))
	m.inputs = append(m.inputs, Input{Kind: kind, V: cs[c]})
	return float64(cs[c]) / (1 << 53)
}
