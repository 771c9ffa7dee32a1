// Package zzvnd supplies the nondeterministic inputs of verification harnesses.
// The symbolic engine intercepts every function here; this native version
// replays the values of a counterexample against the real code.
package zzvnd

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

type val struct {
	K string `json:"k"`
	V uint64 `json:"v"`
	F bool   `json:"f"`
}

type app struct {
	Name string   `json:"name"`
	Args []uint64 `json:"args"`
	V    uint64   `json:"v"`
}

type replay struct {
	Harness  string           `json:"harness"`
	Params   map[string]int64 `json:"params"`
	Vals     []val            `json:"vals"`
	Apps     []app            `json:"apps"`
	SearchMs int64            `json:"search_ms"`
	StepMs   int64            `json:"step_ms"`
}

var (
	mu    sync.Mutex
	rep   replay
	pos   int
	run   uint64
	table map[string]uint64
	rng   = rand.New(rand.NewSource(1))
	gsrc  = rand.New(rand.NewSource(7))
	perm  map[uint64]uint64
)

// grandStart makes the global random source replay recorded values.
var grandStart func()

type status struct{ kind, msg string }

// Active reports whether the process is a counterexample replay.
func Active() bool { return os.Getenv("VND_REPLAY") != "" }

// Main runs the harness named in the replay file and exits.
func Main(fns map[string]func()) {
	debug.SetGCPercent(400)
	b, err := os.ReadFile(os.Getenv("VND_REPLAY"))
	if err == nil {
		err = json.Unmarshal(b, &rep)
	}
	if err != nil {
		fmt.Println("VND:error:", err)
		os.Exit(3)
	}
	f, ok := fns[rep.Harness]
	if !ok {
		fmt.Println("VND:error: no harness", rep.Harness)
		os.Exit(3)
	}
	if rep.StepMs == 0 {
		rep.StepMs = 8000
	}
	if grandStart != nil {
		grandStart()
	}
	end := time.Now().Add(time.Duration(rep.SearchMs) * time.Millisecond)
	first := status{}
	n := 0
	for {
		st := once(f)
		n++
		if run == 0 {
			first = st
		}
		if st.kind == "assert" || st.kind == "panic" {
			fmt.Printf("VND:%s:%s (native run %d)\n", st.kind, st.msg, n)
			os.Exit(10)
		}
		run++
		if time.Now().After(end) {
			break
		}
	}
	fmt.Printf("VND:%s:%s (native runs %d)\n", first.kind, first.msg, n)
	os.Exit(0)
}

func once(f func()) status {
	pos = 0
	clock, tickers = 0, nil
	perm = map[uint64]uint64{}
	table = map[string]uint64{}
	if run == 0 {
		for _, a := range rep.Apps {
			table[key(a.Name, a.Args)] = a.V
		}
	}
	rng = rand.New(rand.NewSource(int64(run)*7919 + 13))
	ch := make(chan status, 16)
	report = ch
	go func() {
		defer func() {
			r := recover()
			switch e := r.(type) {
			case nil:
				ch <- status{"ok", ""}
			case status:
				ch <- e
			default:
				ch <- status{"panic", fmt.Sprint(r) + where()}
			}
		}()
		f()
	}()
	select {
	case s := <-ch:
		return s
	case <-time.After(time.Duration(rep.StepMs) * time.Millisecond):
		fmt.Printf("VND:hang: no result after %d ms (native run %d)\n", rep.StepMs, run+1)
		os.Exit(12)
	}
	panic("unreachable")
}

var report chan status

func where() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "\t") && strings.Contains(l, "/repo/") && !strings.Contains(l, "zz") {
			return " at " + strings.TrimSpace(l)
		}
	}
	return ""
}

// Go runs f in a goroutine whose failures are reported.
func Go(f func()) {
	ch := report
	go func() {
		defer func() {
			r := recover()
			switch e := r.(type) {
			case nil:
			case status:
				ch <- e
			default:
				ch <- status{"panic", fmt.Sprint(r) + where()}
			}
		}()
		f()
	}()
}

func next(kind string) (uint64, bool) {
	mu.Lock()
	defer mu.Unlock()
	if pos >= len(rep.Vals) {
		if run > 0 {
			return rng.Uint64(), false
		}
		return 0, false
	}
	v := rep.Vals[pos]
	if v.K != kind {
		if run > 0 || kind == "gsrc" {
			return rng.Uint64(), false
		}
		panic(status{"diverged", fmt.Sprintf("value %d is %s, want %s", pos, v.K, kind)})
	}
	pos++
	if v.F && run > 0 {
		// other values of the free inputs, keeping equal ones equal
		if n, ok := perm[v.V]; ok {
			return n, true
		}
		n := rng.Uint64()
		if v.V == 0 && rng.Intn(2) == 0 {
			n = 0
		}
		if rng.Intn(8) == 0 {
			n = v.V
		}
		perm[v.V] = n
		return n, true
	}
	return v.V, true
}

func U64() uint64 { v, _ := next("u64"); return v }
func U32() uint32 { v, _ := next("u32"); return uint32(v) }
func Byte() byte  { v, _ := next("byte"); return byte(v) }
func Bool() bool  { v, _ := next("bool"); return v&1 != 0 }
func F64() float64 {
	v, _ := next("f64")
	return f64(v)
}

func Int(lo, hi int) int {
	if lo > hi {
		panic(status{"assume", "empty range"})
	}
	v, ok := next("int")
	if !ok {
		return lo + int(v%uint64(hi-lo+1))
	}
	return int(v)
}

func Choose(n int) int {
	if n < 1 {
		panic(status{"assume", "empty choice"})
	}
	v, _ := next("choose")
	return int(v % uint64(n))
}

func Concretize(x uint64) uint64 { return x }

func Assume(b bool) {
	if !b {
		panic(status{"assume", ""})
	}
}

func Assert(b bool, msg string) {
	if !b {
		panic(status{"assert", msg})
	}
}

func Fail(msg string)         { panic(status{"assert", msg}) }
func Reach(l string)          {}
func Stop()                   { panic(status{"ok", "stopped"}) }
func Symbolic() bool          { return false }
func Replaying() bool         { return true }
func Trace(s string, v any)   {}
func Param(name string) int {
	v, ok := rep.Params[name]
	if !ok {
		panic(status{"error", "no parameter " + name})
	}
	return int(v)
}

func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}

func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}

func Not(b bool) bool { return !b }

func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

func key(name string, a []uint64) string { return fmt.Sprint(name, "/", len(a), a) }

// Hash64 is an arbitrary function of its arguments, one per name and arity.
func Hash64(name string, words ...uint64) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := key(fmt.Sprintf("%s/%d", name, len(words)), words)
	if v, ok := table[k]; ok {
		return v
	}
	h := 0x9E3779B97F4A7C15 + run*0xD6E8FEB86659FD93
	for _, c := range name {
		h = mix(h ^ uint64(c))
	}
	for _, w := range words {
		h = mix(h ^ mix(w+0x1234567))
	}
	table[k] = h
	return h
}

func mix(x uint64) uint64 {
	hi, lo := bits.Mul64(x^0x165667B19E3779F9, 0xD6E8FEB86659FD93)
	return bits.RotateLeft64(hi^lo, 29) + 0x9E3779B97F4A7C15
}

// Source is the random source whose values the solver chooses. When M points
// to a positive number every draw is zero instead, and to a negative number -k
// every draw but the k-th.
type Source struct{ M *int }

func (s Source) zero() bool {
	if s.M == nil || *s.M == 0 {
		return false
	}
	if *s.M == -1 {
		*s.M = 1
		return false
	}
	if *s.M < 0 {
		*s.M++
	}
	return true
}

func (Source) Seed(int64) {}
func (s Source) Int63() int64 {
	if s.zero() {
		return 0
	}
	v, _ := next("src")
	return int64(v & (1<<63 - 1))
}
func (s Source) Uint64() uint64 {
	if s.zero() {
		return 0
	}
	v, _ := next("src")
	return v
}

func MapOrder(bool) {}

// Yield waits until every other goroutine is blocked.
func Yield() {
	buf := make([]byte, 1<<20)
	for quiet, t := 0, 0; quiet < 2 && t < 20000; t++ {
		runtime.Gosched()
		n := runtime.Stack(buf, true)
		busy := false
		for i, g := range strings.Split("\n"+string(buf[:n]), "\n\ngoroutine ") {
			l := strings.SplitN(g, "\n", 3)
			h := l[0]
			if i == 0 {
				continue // this goroutine
			}
			if strings.Contains(h, "[running") || strings.Contains(h, "[runnable") || strings.Contains(h, "[syscall") || strings.Contains(h, "[sync.Mutex.Lock") || strings.Contains(h, "[semacquire") || strings.Contains(h, "[preempted") {
				busy = true
			}
		}
		if busy {
			quiet = 0
			time.Sleep(20 * time.Microsecond)
		} else {
			quiet++
		}
	}
}

var (
	clock   uint64
	tickers []ticker
)

type ticker struct {
	period uint64
	f      func()
}

// Now is the time of the harness' clock in nanoseconds.
func Now() uint64 {
	mu.Lock()
	defer mu.Unlock()
	return clock
}

// SetNow sets the harness' clock.
func SetNow(ns uint64) {
	mu.Lock()
	defer mu.Unlock()
	clock = ns
}

// Ticker registers a ticker.
func Ticker(period uint64, f func()) {
	mu.Lock()
	defer mu.Unlock()
	tickers = append(tickers, ticker{period, f})
}

// Tick makes every ticker of the given period fire.
func Tick(period uint64) {
	mu.Lock()
	l := append([]ticker{}, tickers...)
	mu.Unlock()
	for _, t := range l {
		if t.period == period {
			t.f()
		}
	}
}
