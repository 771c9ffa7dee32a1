package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Check struct {
	Harnesses   []*Harness `json:"harnesses"`
	Assumptions []string   `json:"assumptions"`
	Outside     string     `json:"outside"`
}

type Registry map[string]*Check

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

func main() {
	debug.SetGCPercent(300)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check <property> [--tier quick|thorough] [--harness fn]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		tier := fs.String("tier", "", "")
		only := fs.String("harness", "", "")
		verbose := fs.Bool("v", false, "")
		noReplay := fs.Bool("noreplay", false, "")
		nw := fs.Int("j", 0, "")
		over := fs.String("params", "", "k=v,... overrides")
		budget := fs.Float64("budget", 0, "")
		fs.StringVar(&verifDir, "verif", verifDir, "")
		fs.StringVar(&repoDir, "repo", repoDir, "")
		prop := os.Args[2]
		fs.Parse(os.Args[3:])
		if *tier == "" {
			*tier = os.Getenv("VERIF_TIER")
		}
		if *tier != "thorough" {
			*tier = "quick"
		}
		os.Exit(runCheck(prop, *tier, *only, *verbose, *noReplay, *nw, *over, *budget))
	case "replay":
		fs := flag.NewFlagSet("replay", flag.ExitOnError)
		fs.StringVar(&verifDir, "verif", verifDir, "")
		fs.StringVar(&repoDir, "repo", repoDir, "")
		f := os.Args[2]
		fs.Parse(os.Args[3:])
		os.Exit(runReplay(f))
	}
}

func loadRegistry() (Registry, error) {
	reg := Registry{}
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", "props", "*.json"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var r Registry
		if err := json.Unmarshal(b, &r); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
		for k, v := range r {
			reg[k] = v
		}
	}
	return reg, nil
}

type finding struct {
	Property string `json:"property"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

type findings struct {
	Known []finding `json:"known"`
	Fixed []string  `json:"fixed"`
}

func loadFindings() findings {
	var f findings
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err == nil {
		json.Unmarshal(b, &f)
	}
	return f
}

func seed() int {
	s, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return s
}

func runCheck(prop, tier, only string, verbose, noReplay bool, nw int, over string, budget float64) int {
	t0 := time.Now()
	reg, err := loadRegistry()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ck := reg[prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no check for", prop)
		return 2
	}
	work, err := os.MkdirTemp("", "vengine")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	var hs []*Harness
	dirs := map[string]bool{}
	for _, h := range ck.Harnesses {
		if h.Tier != "" && h.Tier != tier {
			continue
		}
		if only != "" && h.Fn != only {
			continue
		}
		if over != "" {
			if h.Params == nil {
				h.Params = map[string]int64{}
			}
			for _, kv := range strings.Split(over, ",") {
				p := strings.SplitN(kv, "=", 2)
				v, _ := strconv.ParseInt(p[1], 10, 64)
				h.Params[p[0]] = v
			}
		}
		if budget > 0 {
			h.Budget = budget
		}
		hs = append(hs, h)
		dirs[h.Pkg] = true
	}
	var dl []string
	for d := range dirs {
		dl = append(dl, d)
	}
	sort.Strings(dl)
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed(), "level": "model_checking"}
	st := &Stats{}
	inconclusive := []string{}
	lr, lerr := load(verifDir, repoDir, dl)
	loadS := time.Since(t0).Seconds()
	var hreps []any
	var states, transitions, obligations, solverObl, validated int64
	var samples []any
	type confirmed struct {
		file, msg, native string
	}
	var viol []confirmed
	encoded := map[string]int64{}
	exhaustive := true
	if lerr != nil {
		inconclusive = append(inconclusive, "load: "+lerr.Error())
		exhaustive = false
	} else {
		inconclusive = append(inconclusive, lr.dropped...)
		nat := newNative(work, repoDir, lr.overlay)
		// native replay binaries are built while the exploration runs
		natReady := map[string]chan struct{}{}
		fnsByDir := map[string][]string{}
		mains := map[string]bool{}
		for _, h := range hs {
			sp := lr.p.pkgs[repoMod+"/"+h.Pkg]
			if sp == nil || sp.Func(h.Fn) == nil {
				continue
			}
			mains[h.Pkg] = sp.Pkg.Name() == "main"
			dup := false
			for _, f := range fnsByDir[h.Pkg] {
				dup = dup || f == h.Fn
			}
			if !dup {
				fnsByDir[h.Pkg] = append(fnsByDir[h.Pkg], h.Fn)
			}
		}
		var nmu sync.Mutex
		for d := range fnsByDir {
			natReady[d] = make(chan struct{})
		}
		go func() {
			for _, d := range dl {
				if fns, ok := fnsByDir[d]; ok {
					nmu.Lock()
					nat.binary(d, mains[d], fns)
					nmu.Unlock()
					close(natReady[d])
				}
			}
		}()
		cache := &QueryCache{m: map[THash]cacheEnt{}}
		for _, h := range hs {
			sp := lr.p.pkgs[repoMod+"/"+h.Pkg]
			if sp == nil || sp.Func(h.Fn) == nil {
				inconclusive = append(inconclusive, "harness "+h.Fn+" not available")
				exhaustive = false
				continue
			}
			x := newExplorer(lr.p, h, sp.Func(h.Fn), st)
			q0, s0 := st.Queries, st.SolverNs
			x.run(nw, cache, "z3")
			for k, n := range x.degenN {
				if x.violN[k] == 0 {
					x.violN[k] = n
					for _, v := range x.degen {
						if violKey(v.Msg) == k {
							x.viol = append(x.viol, v)
						}
					}
				}
			}
			states += x.st2.okPaths + int64(len(x.viol))
			transitions += x.st2.decisions
			obligations += x.st2.obligations
			solverObl += x.st2.solverObligations
			hr := map[string]any{
				"harness": h.Pkg + "." + h.Fn, "bounds": h.Bounds, "params": h.Params,
				"paths_completed": x.st2.okPaths, "paths_infeasible": x.st2.infeasible, "decisions": x.st2.decisions,
				"instructions": x.st2.instrs, "obligations": x.st2.obligations, "obligations_by_solver_query": x.st2.solverObligations,
				"solver_queries": st.Queries - q0, "solver_s": round(float64(st.SolverNs-s0) / 1e9), "wall_s": round(x.elapsed.Seconds()),
				"space_exhausted": x.exhausted(), "reached": x.labels,
			}
			if len(x.unsup) > 0 {
				hr["unsupported"] = topKeys(x.unsup, 5)
				inconclusive = append(inconclusive, h.Fn+": "+strings.Join(topKeys(x.unsup, 2), "; "))
			}
			if len(x.unk) > 0 {
				hr["solver_unknown"] = x.unk
				inconclusive = append(inconclusive, h.Fn+": solver gave no answer")
			}
			if len(x.cuts) > 0 {
				hr["cuts"] = topKeys(x.cuts, 5)
			}
			if x.timedOut {
				hr["time_budget_exceeded"] = true
			}
			if !x.exhausted() {
				exhaustive = false
			}
			for _, l := range h.Expect {
				if x.labels[l] == 0 && x.exhausted() {
					hr["vacuous"] = "label " + l + " unreachable"
					inconclusive = append(inconclusive, h.Fn+": label "+l+" never reached")
				}
			}
			for _, l := range h.Must {
				if x.labels[l] == 0 && x.exhausted() && len(x.viol) == 0 {
					x.viol = append(x.viol, Violation{Msg: "no execution reaches " + l, Kind: "assert"})
					break
				}
			}
			for _, s := range x.samples {
				if len(samples) < 8 {
					samples = append(samples, h.Fn+": "+s)
				}
			}
			if verbose {
				b, _ := json.Marshal(hr)
				fmt.Println(string(b))
			}
			// replay
			if !noReplay {
				<-natReady[h.Pkg]
				nmu.Lock()
				bin, berr := nat.binary(h.Pkg, mains[h.Pkg], nil)
				nmu.Unlock()
				if berr != nil {
					inconclusive = append(inconclusive, "native build: "+tail(berr.Error(), 300))
				} else {
					seen := map[string]bool{}
					var unconf []string
					tEnd := time.Now().Add(70 * time.Second)
					for i := range x.viol {
						v := &x.viol[i]
						key := violKey(v.Msg)
						if seen[key] || time.Now().After(tEnd) {
							continue
						}
						rf := &ReplayFile{Property: prop, Pkg: h.Pkg, Harness: h.Fn, Params: h.Params, Msg: v.Msg, Kind: v.Kind,
							Vals: nativeVals(v.Inputs, v.Ns), Apps: v.Apps}
						if !h.NoSearch {
							rf.SearchMs = 6000
						}
						path := filepath.Join(verifDir, "replays", prop, fmt.Sprintf("%s_%d.json", h.Fn, i))
						writeReplay(path, rf)
						o := nat.run(bin, path, 40*time.Second)
						if verbose {
							fmt.Println("candidate:", v.Msg, "->", o.kind, o.msg)
						}
						ok := o.kind == "assert" || o.kind == "panic" || o.kind == "hang" && (v.Kind == "nonterm" || strings.Contains(v.Msg, "deadlock"))
						if ok {
							seen[key] = true
							rf.Native = o.kind + ": " + o.msg
							writeReplay(path, rf)
							viol = append(viol, confirmed{path, h.Fn + ": " + v.Msg, o.kind + ": " + o.msg})
						} else {
							unconf = append(unconf, v.Msg+" -> native "+o.kind+" "+o.msg)
							os.Remove(path)
						}
					}
					if len(unconf) > 0 && len(seen) == 0 {
						inconclusive = append(inconclusive, h.Fn+": counterexample not reproduced natively: "+unconf[0])
						hr["unconfirmed"] = unconf
						exhaustive = false
					}
					// run some passing paths natively as a check on the encoding
					for i := range x.okModels {
						ok := &x.okModels[i]
						rf := &ReplayFile{Property: prop, Pkg: h.Pkg, Harness: h.Fn, Params: h.Params, Msg: "passing path", Kind: "ok",
							Vals: nativeVals(ok.Inputs, ok.Ns), Apps: ok.Apps}
						path := filepath.Join(work, fmt.Sprintf("ok_%s_%d.json", h.Fn, i))
						writeReplay(path, rf)
						o := nat.run(bin, path, 20*time.Second)
						if verbose {
							fmt.Println("validate:", h.Fn, "->", o.kind, o.msg)
						}
						switch o.kind {
						case "ok":
							validated++
						case "assert", "panic":
							p2 := filepath.Join(verifDir, "replays", prop, fmt.Sprintf("%s_v%d.json", h.Fn, i))
							rf.Native = o.kind + ": " + o.msg
							writeReplay(p2, rf)
							viol = append(viol, confirmed{p2, h.Fn + ": solver model fails natively", o.kind + ": " + o.msg})
						default:
							hr["validation_"+o.kind] = o.msg
						}
					}
				}
			}
			hreps = append(hreps, hr)
			if len(viol) > 0 {
				break
			}
		}
		encoded = lr.p.encoded()
	}
	kf := loadFindings()
	nviol := 0
	for _, v := range viol {
		known := false
		for _, k := range kf.Known {
			if k.Property == prop && strings.Contains(v.msg+" "+v.native, k.Match) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				known = true
			}
		}
		if !known {
			nviol++
			fmt.Printf("  %s\n  native: %s\n", v.msg, v.native)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v.file)
		}
	}
	var fnames []string
	for k := range encoded {
		fnames = append(fnames, strings.ReplaceAll(k, repoMod+"/", ""))
	}
	sort.Strings(fnames)
	cov := map[string]any{
		"states": states, "transitions": transitions, "traces_validated_against_impl": validated, "samples": samples,
		"obligations": obligations, "discharged": obligations, "obligations_by_solver_query": solverObl,
		"exhaustive": exhaustive, "harnesses": hreps, "functions_encoded": fnames, "solver": "z3 4.8.12",
		"solver_queries": st.Queries, "solver_sat": st.SatN, "solver_unsat": st.UnsatN, "solver_unknown": st.UnknownN,
		"solver_queries_as_integers": st.LIA, "solver_cache_hits": st.CacheHits, "solver_s": round(float64(st.SolverNs) / 1e9), "load_s": round(loadS),
		"meaning":      "states = feasible symbolic paths completed, each standing for every input value satisfying its path condition; transitions = decisions on symbolic values; obligations = assertions shown to hold on a path for all its values; traces_validated_against_impl = solver models re-run on the natively compiled code with the same harness",
		"outside":      ck.Outside,
		"inconclusive": inconclusive,
	}
	if len(samples) == 0 {
		cov["samples"] = []any{"no path completed"}
	}
	ev["coverage"] = cov
	ev["assumptions"] = ck.Assumptions
	ev["violations"] = nviol
	ev["wall_s"] = round(time.Since(t0).Seconds())
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
	for _, s := range inconclusive {
		fmt.Println("INCONCLUSIVE:", tail(s, 400))
	}
	fmt.Printf("%s %s: %d paths, %d obligations, %d solver queries, %.1f s solver, %d validated, exhaustive=%v, %.1f s\n", prop, tier, states, obligations, st.Queries, float64(st.SolverNs)/1e9, validated, exhaustive, time.Since(t0).Seconds())
	if nviol > 0 {
		return 1
	}
	return 0
}

func round(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

func runReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	work, _ := os.MkdirTemp("", "vreplay")
	defer os.RemoveAll(work)
	ov, err := overlayFiles(verifDir, repoDir, []string{rf.Pkg})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	nat := newNative(work, repoDir, ov)
	isMain := rf.Pkg == "newsim" || rf.Pkg == "simulator" || rf.Pkg == "node"
	bin, err := nat.binary(rf.Pkg, isMain, []string{rf.Harness})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	abs, _ := filepath.Abs(file)
	o := nat.run(bin, abs, 60*time.Second)
	fmt.Println(o.kind, o.msg)
	if o.kind == "ok" {
		return 0
	}
	return 1
}
