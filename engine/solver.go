package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Stats are shared by all workers.
type Stats struct {
	Queries, SatN, UnsatN, UnknownN, CacheHits, ModelHits, Errors, LIA int64
	SolverNs                                                           int64
	Crosschecked, CrossDisagree                                        int64
}

type cacheEnt struct {
	res Result
	mdl map[THash]uint64
}

type QueryCache struct {
	mu sync.Mutex
	m  map[THash]cacheEnt
}

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	timeout int // ms
	st      *Stats
	cache   *QueryCache
	prog    string
	nq      int
	memMB   int
}

func newSolver(prog string, timeoutMs int, st *Stats, cache *QueryCache) *Solver {
	return &Solver{prog: prog, timeout: timeoutMs, st: st, cache: cache, memMB: 2500}
}

func (s *Solver) start() error {
	args := []string{"-in", fmt.Sprintf("-memory:%d", s.memMB)}
	if strings.Contains(s.prog, "cvc5") {
		args = []string{"--lang", "smt2", "--incremental", "--produce-models", "-q"}
	}
	s.cmd = exec.Command(s.prog, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check decides the conjunction of cs. On Sat the returned model covers all
// atoms in cs.
func (s *Solver) Check(cs []*Term) (Result, map[THash]uint64) {
	// canonical key: sorted conjunct hashes
	hs := make([]*Term, len(cs))
	copy(hs, cs)
	sortTerms(hs)
	key := THash{uint64(len(hs)), 99}
	for i, t := range hs {
		if i > 0 && t == hs[i-1] {
			continue
		}
		key[0] = mix(key[0], t.h[0])
		key[1] = mix(key[1], t.h[1])
	}
	s.cache.mu.Lock()
	e, ok := s.cache.m[key]
	s.cache.mu.Unlock()
	if ok {
		atomic.AddInt64(&s.st.CacheHits, 1)
		return e.res, e.mdl
	}
	res, mdl := s.solve(hs)
	if res != Unknown {
		s.cache.mu.Lock()
		if len(s.cache.m) > 2000000 {
			s.cache.m = map[THash]cacheEnt{}
		}
		s.cache.m[key] = cacheEnt{res, mdl}
		s.cache.mu.Unlock()
	}
	return res, mdl
}

func script(cs []*Term, timeout int) (string, []*Term, []string) {
	p := &printer{names: map[*Term]string{}}
	symset := map[*Term]bool{}
	for _, t := range cs {
		for _, y := range t.symbols() {
			symset[y] = true
		}
		n := p.ref(t)
		fmt.Fprintf(&p.sb, "(assert %s)\n", n)
	}
	var syms []*Term
	for y := range symset {
		syms = append(syms, y)
	}
	sortTerms(syms)
	var names []string
	var vs []*Term
	for _, y := range syms {
		if y.sort.K == KReal {
			continue
		}
		n := atomName(y)
		vs = append(vs, y)
		names = append(names, n)
	}
	return p.sb.String(), vs, names
}

func (s *Solver) solve(cs []*Term) (Result, map[THash]uint64) {
	body, vs, names, lia := liaScript(cs)
	if !lia {
		body, vs, names = script(cs, s.timeout)
	} else {
		atomic.AddInt64(&s.st.LIA, 1)
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		atomic.AddInt64(&s.st.SolverNs, int64(d))
		if dumpDir != "" && d > dumpMin {
			n := atomic.AddInt64(&dumpN, 1)
			os.WriteFile(fmt.Sprintf("%s/q%d_%dms.smt2", dumpDir, n, d.Milliseconds()), []byte(body+"(check-sat)\n"), 0o644)
		}
	}()
	atomic.AddInt64(&s.st.Queries, 1)
	for try := 0; try < 2; try++ {
		if s.cmd == nil {
			if err := s.start(); err != nil {
				atomic.AddInt64(&s.st.Errors, 1)
				return Unknown, nil
			}
		}
		res, mdl, err := s.roundtrip(body, vs, names)
		if err == nil {
			switch res {
			case Sat:
				atomic.AddInt64(&s.st.SatN, 1)
			case Unsat:
				atomic.AddInt64(&s.st.UnsatN, 1)
			default:
				atomic.AddInt64(&s.st.UnknownN, 1)
			}
			return res, mdl
		}
		if debugSolver {
			fmt.Println("solver error:", err, "\n", body)
		}
		atomic.AddInt64(&s.st.Errors, 1)
		s.close()
	}
	atomic.AddInt64(&s.st.UnknownN, 1)
	return Unknown, nil
}

var debugSolver = false

var (
	dumpDir = os.Getenv("VENGINE_DUMP")
	dumpMin = 30 * time.Millisecond
	dumpN   int64
)

func (s *Solver) readLine(deadline time.Time) (string, error) {
	type r struct {
		s string
		e error
	}
	// watchdog: kill the solver when it ignores its own timeout
	timer := time.AfterFunc(time.Until(deadline), func() {
		if c := s.cmd; c != nil {
			c.Process.Kill()
		}
	})
	l, err := s.out.ReadString('\n')
	timer.Stop()
	return strings.TrimSpace(l), err
}

func (s *Solver) roundtrip(body string, vs []*Term, names []string) (Result, map[THash]uint64, error) {
	deadline := time.Now().Add(time.Duration(s.timeout)*time.Millisecond*3/2 + 3*time.Second)
	hdr := "(reset)\n"
	if strings.Contains(s.prog, "cvc5") {
		hdr += fmt.Sprintf("(set-option :produce-models true)\n(set-option :tlimit-per %d)\n(set-logic ALL)\n", s.timeout)
	} else {
		hdr += fmt.Sprintf("(set-option :timeout %d)\n", s.timeout)
	}
	if _, err := io.WriteString(s.in, hdr+body+"(check-sat)\n(echo \"done\")\n"); err != nil {
		return Unknown, nil, err
	}
	var res Result = Unknown
	got := false
	for {
		l, err := s.readLine(deadline)
		if err != nil {
			return Unknown, nil, err
		}
		l = strings.Trim(l, "\"")
		if l == "done" {
			break
		}
		switch l {
		case "sat":
			res, got = Sat, true
		case "unsat":
			res, got = Unsat, true
		case "unknown", "timeout":
			res, got = Unknown, true
		case "":
		default:
			return Unknown, nil, fmt.Errorf("solver said %q", l)
		}
	}
	if !got {
		return Unknown, nil, fmt.Errorf("no answer")
	}
	if res != Sat || len(vs) == 0 {
		return res, map[THash]uint64{}, nil
	}
	var b strings.Builder
	b.WriteString("(get-value (")
	for i, n := range names {
		if vs[i].sort.K == KFP {
			b.WriteString(" (fp.to_ieee_bv " + n + ")")
		} else {
			b.WriteString(" " + n)
		}
	}
	b.WriteString("))\n(echo \"done\")\n")
	if _, err := io.WriteString(s.in, b.String()); err != nil {
		return Unknown, nil, err
	}
	var txt strings.Builder
	for {
		l, err := s.readLine(deadline)
		if err != nil {
			return Unknown, nil, err
		}
		if strings.Trim(l, "\"") == "done" {
			break
		}
		txt.WriteString(l + " ")
	}
	toks := tokenize(txt.String())
	mdl := map[THash]uint64{}
	// values appear in order: ((name val) (name val) ...)
	i, k := 1, 0
	for i < len(toks) && toks[i] == "(" && k < len(vs) {
		i++
		// skip the expression
		i = skipSexp(toks, i)
		v, ni, err := parseVal(toks, i)
		if err != nil {
			return Unknown, nil, err
		}
		mdl[vs[k].h] = v
		k++
		i = ni + 1
	}
	if k != len(vs) {
		return Unknown, nil, fmt.Errorf("model parse: %s", txt.String())
	}
	return res, mdl, nil
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		switch c := s[i]; {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func skipSexp(t []string, i int) int {
	if t[i] != "(" {
		return i + 1
	}
	d := 0
	for ; i < len(t); i++ {
		if t[i] == "(" {
			d++
		}
		if t[i] == ")" {
			d--
			if d == 0 {
				return i + 1
			}
		}
	}
	return i
}

func parseVal(t []string, i int) (uint64, int, error) {
	x := t[i]
	switch {
	case x == "true":
		return 1, i + 1, nil
	case x == "false":
		return 0, i + 1, nil
	case strings.HasPrefix(x, "#x"):
		v, err := strconv.ParseUint(x[2:], 16, 64)
		return v, i + 1, err
	case strings.HasPrefix(x, "#b"):
		v, err := strconv.ParseUint(x[2:], 2, 64)
		return v, i + 1, err
	case x[0] >= '0' && x[0] <= '9':
		v, err := strconv.ParseUint(x, 10, 64)
		return v, i + 1, err
	case x == "(" && t[i+1] == "-":
		v, err := strconv.ParseUint(t[i+2], 10, 64)
		return -v, i + 4, err
	case x == "(" && i+1 < len(t) && t[i+1] == "_" && strings.HasPrefix(t[i+2], "bv"):
		v, err := strconv.ParseUint(t[i+2][2:], 10, 64)
		return v, i + 5, err
	}
	return 0, i, fmt.Errorf("value %q", x)
}

// slice keeps the conjuncts of pc connected to t by shared atoms.
func sliceFor(pc []*Term, t *Term) []*Term {
	have := map[*Term]bool{}
	for _, s := range t.symbols() {
		have[s] = true
	}
	used := make([]bool, len(pc))
	out := []*Term{t}
	for {
		changed := false
		for i, c := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, s := range c.symbols() {
				if have[s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, c)
				for _, s := range c.symbols() {
					have[s] = true
				}
			}
		}
		if !changed {
			break
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
