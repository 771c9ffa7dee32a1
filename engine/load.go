package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/yangl1996/rateless-set-reconcile"

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "CGO_ENABLED=0")
}

// overlayFiles collects the harness files for the given package directories.
// Files named *.go.tmpl in harness/shared-<a>-<b> are instantiated for each of
// the packages with PKGNAME replaced.
func overlayFiles(verif, repo string, dirs []string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	add := func(dst, src string, pkg string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		if pkg != "" {
			b = bytes.ReplaceAll(b, []byte("PKGNAME"), []byte(pkg))
		}
		ov[dst] = b
		return nil
	}
	vf, _ := filepath.Glob(filepath.Join(verif, "harness/zzvnd/*.go"))
	for _, f := range vf {
		if err := add(filepath.Join(repo, "zzvnd", filepath.Base(f)), f, ""); err != nil {
			return nil, err
		}
	}
	for _, d := range dirs {
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", d, "*.go"))
		for _, f := range fs {
			if err := add(filepath.Join(repo, d, filepath.Base(f)), f, ""); err != nil {
				return nil, err
			}
		}
		// in-<package>/*.go: helpers placed in another package
		in, _ := filepath.Glob(filepath.Join(verif, "harness", d, "in-*", "*.go"))
		for _, f := range in {
			if err := add(filepath.Join(repo, strings.TrimPrefix(filepath.Base(filepath.Dir(f)), "in-"), filepath.Base(f)), f, ""); err != nil {
				return nil, err
			}
		}
		sh, _ := filepath.Glob(filepath.Join(verif, "harness", "shared-*", "*.go.tmpl"))
		for _, f := range sh {
			parts := strings.Split(filepath.Base(filepath.Dir(f)), "-")[1:]
			for _, p := range parts {
				if p == d {
					if err := add(filepath.Join(repo, d, strings.TrimSuffix(filepath.Base(f), ".tmpl")), f, d); err != nil {
						return nil, err
					}
				}
			}
		}
	}
	// stand-ins for third-party packages
	st, _ := filepath.Glob(filepath.Join(verif, "harness/stubs/*/replaces.txt"))
	for _, r := range st {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) != 2 {
				continue
			}
			if len(f) == 2 {
				use := false
				for _, d := range dirs {
					if f[0] == d {
						use = true
					}
				}
				if !use {
					continue
				}
			}
			dir, err := moduleDir(repo, f[1])
			if err != nil {
				continue
			}
			// blank the original files, add the stub
			sf, _ := filepath.Glob(filepath.Join(filepath.Dir(r), "*.go"))
			want := pkgName(sf[0])
			gf, _ := filepath.Glob(filepath.Join(dir, "*.go"))
			var own []string
			for _, g := range gf {
				if !strings.HasSuffix(g, "_test.go") && pkgName(g) == want {
					ov[g] = []byte("package " + want + "\n")
					own = append(own, g)
				}
			}
			for i, g := range sf {
				b, err := os.ReadFile(g)
				if err != nil {
					return nil, err
				}
				if i < len(own) {
					ov[own[i]] = b
				}
			}
		}
	}
	return ov, nil
}

func pkgName(file string) string {
	p, err := parser.ParseFile(token.NewFileSet(), file, nil, parser.PackageClauseOnly)
	if err != nil {
		return ""
	}
	return p.Name.Name
}

// stubModfile writes a copy of go.mod in which the modules that have a
// stand-in for the engine are replaced by it (module.txt: module, package
// directory, packages that use it).
func stubModfile(verif, repo, work string, dirs []string) (string, error) {
	st, _ := filepath.Glob(filepath.Join(verif, "harness/stubs/*/module.txt"))
	extra := ""
	for _, r := range st {
		b, err := os.ReadFile(r)
		if err != nil {
			return "", err
		}
		f := strings.Fields(string(b))
		use := false
		for _, d := range dirs {
			for _, x := range f[2:] {
				use = use || x == d
			}
		}
		if !use {
			continue
		}
		root := filepath.Join(work, "mod", f[0])
		os.MkdirAll(filepath.Join(root, f[1]), 0o755)
		if err := os.WriteFile(filepath.Join(root, "go.mod"), []byte("module "+f[0]+"\n"), 0o644); err != nil {
			return "", err
		}
		sf, _ := filepath.Glob(filepath.Join(filepath.Dir(r), "*.go"))
		for _, g := range sf {
			b, err := os.ReadFile(g)
			if err != nil {
				return "", err
			}
			if err := os.WriteFile(filepath.Join(root, f[1], filepath.Base(g)), b, 0o644); err != nil {
				return "", err
			}
		}
		extra += "\nreplace " + f[0] + " => " + root + "\n"
	}
	if extra == "" {
		return "", nil
	}
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	gs, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err := os.WriteFile(filepath.Join(work, "go_engine.sum"), gs, 0o644); err != nil {
		return "", err
	}
	mf := filepath.Join(work, "go_engine.mod")
	return mf, os.WriteFile(mf, []byte(string(gm)+extra), 0o644)
}

func moduleDir(repo, pkg string) (string, error) {
	c := exec.Command("go", "list", "-f", "{{.Dir}}", pkg)
	c.Dir = repo
	c.Env = goEnv()
	out, err := c.Output()
	return strings.TrimSpace(string(out)), err
}

type loadResult struct {
	p       *Prog
	overlay map[string][]byte
	dropped []string // harness files left out because they do not compile
}

var errFile = regexp.MustCompile(`^([^:]+\.go):`)

// load builds SSA for the harness packages and everything they import.
func load(verif, repo string, dirs []string) (*loadResult, error) {
	ov, err := overlayFiles(verif, repo, dirs)
	if err != nil {
		return nil, err
	}
	res := &loadResult{overlay: ov}
	work, err := os.MkdirTemp("", "vload")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(work)
	modfile, err := stubModfile(verif, repo, work, dirs)
	if err != nil {
		return nil, err
	}
	for try := 0; try < 8; try++ {
		var pats []string
		for _, d := range dirs {
			pats = append(pats, "./"+d)
		}
		pats = append(pats, "./zzvnd")
		cfg := &packages.Config{
			Mode:    packages.LoadAllSyntax,
			Dir:     repo,
			Env:     goEnv(),
			Overlay: ov,
		}
		if modfile != "" {
			cfg.BuildFlags = []string{"-modfile=" + modfile}
		}
		t0 := time.Now()
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		bad := map[string]bool{}
		var msgs []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.Index(f, ":"); i >= 0 {
					f = f[:i]
				}
				if mm := errFile.FindStringSubmatch(e.Pos); mm != nil {
					f = mm[1]
				}
				if _, is := ov[f]; is && strings.HasPrefix(filepath.Base(f), "zz_") {
					bad[f] = true
				}
				msgs = append(msgs, e.Error())
			}
		})
		if len(msgs) > 0 {
			if len(bad) == 0 {
				return nil, fmt.Errorf("the program does not load: %s", strings.Join(msgs[:min(3, len(msgs))], "; "))
			}
			for f := range bad {
				delete(ov, f)
				res.dropped = append(res.dropped, f+": "+msgs[0])
			}
			continue
		}
		prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		prog.Build()
		p := &Prog{prog: prog, mod: repoMod, vnd: repoMod + "/zzvnd", pkgs: map[string]*ssa.Package{}}
		for _, sp := range prog.AllPackages() {
			p.pkgs[sp.Pkg.Path()] = sp
		}
		res.p = p
		if os.Getenv("VENGINE_V") != "" {
			fmt.Fprintf(os.Stderr, "load: %d packages in %v\n", len(p.pkgs), time.Since(t0))
		}
		return res, nil
	}
	return nil, fmt.Errorf("harness files do not compile: %v", res.dropped)
}

// native builds ---------------------------------------------------------------------

// Native builds replay binaries from the same sources.
type Native struct {
	work    string
	repo    string
	overlay map[string][]byte
	bins    map[string]string
	errs    map[string]error
	n       int
	timeSrc []byte
}

func newNative(work, repo string, ov map[string][]byte) *Native {
	ts, _ := os.ReadFile(filepath.Join(verifDir, "harness/zztime/time.go"))
	return &Native{work: work, repo: repo, overlay: ov, bins: map[string]string{}, errs: map[string]error{}, timeSrc: ts}
}

// globalRand lists the packages whose code draws from the global random source.
var globalRand = map[string]bool{"ldpc": true, "newsim": true, "simulator": true, "node": true}

// virtualTime lists the packages replayed with the harness' clock.
var virtualTime = map[string]bool{"node": true}

var timeImport = regexp.MustCompile(`(?m)^(\s*(?:import\s+)?)(?:time\s+)?"time"`)

func shimTime(b []byte) []byte {
	return timeImport.ReplaceAll(b, []byte(`${1}time "`+repoMod+`/zztime"`))
}

// vndSip lists the packages whose use of siphash.Hash is replayed.
var vndSip = map[string]bool{"newsim": true}

const sipStub = `package siphash

import vnd "` + repoMod + `/zzvnd"

func Hash(k0, k1 uint64, p []byte) uint64 {
	w := []uint64{k0, k1}
	for i := 0; i < len(p); i += 8 {
		x := uint64(0)
		for j := i; j < i+8 && j < len(p); j++ {
			x |= uint64(p[j]) << (8 * uint(j-i))
		}
		w = append(w, x)
	}
	return vnd.Hash64("sip", w...)
}
`

// binary returns the replay executable for a harness package directory.
func (n *Native) binary(dir string, isMain bool, fns []string) (string, error) {
	if b, ok := n.bins[dir]; ok {
		return b, n.errs[dir]
	}
	repl := map[string]string{}
	i := 0
	put := func(dst string, b []byte) error {
		i++
		src := filepath.Join(n.work, fmt.Sprintf("ov_%s_%d_%s", strings.ReplaceAll(dir, "/", "_"), i, filepath.Base(dst)))
		repl[dst] = src
		return os.WriteFile(src, b, 0o644)
	}
	var names []string
	for d := range n.overlay {
		names = append(names, d)
	}
	sort.Strings(names)
	for _, d := range names {
		if !strings.HasPrefix(d, n.repo+"/") {
			continue // a stand-in of the engine: replays use the real package
		}
		b := n.overlay[d]
		if virtualTime[dir] && filepath.Dir(d) == filepath.Join(n.repo, dir) {
			b = shimTime(b)
		}
		if err := put(d, b); err != nil {
			return "", err
		}
	}
	if virtualTime[dir] {
		// time passes when the harness says so
		gf, _ := filepath.Glob(filepath.Join(n.repo, dir, "*.go"))
		for _, f := range gf {
			if _, is := n.overlay[f]; is || strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return "", err
			}
			if err := put(f, shimTime(b)); err != nil {
				return "", err
			}
		}
		if err := put(filepath.Join(n.repo, "zztime", "time.go"), n.timeSrc); err != nil {
			return "", err
		}
	}
	if globalRand[dir] {
		// the global random source asks the replay first
		f := filepath.Join(runtime.GOROOT(), "src/math/rand/rand.go")
		b, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		b = bytes.ReplaceAll(b, []byte("runtime_rand()&rngMask"), []byte("vRand()&rngMask"))
		b = bytes.ReplaceAll(b, []byte("return runtime_rand()"), []byte("return vRand()"))
		b = bytes.ReplaceAll(b, []byte("runtime_rand() & rngMask"), []byte("vRand() & rngMask"))
		b = append(b, []byte("\n// VHook supplies values to replay.\nvar VHook func() uint64\n\nfunc vRand() uint64 {\n\tif VHook != nil {\n\t\treturn VHook()\n\t}\n\treturn runtime_rand()\n}\n")...)
		if err := put(f, b); err != nil {
			return "", err
		}
		if err := put(filepath.Join(n.repo, "zzvnd", "grand.go"), []byte("package zzvnd\n\nimport \"math/rand\"\n\nfunc init() {\n\tgrandStart = func() { rand.VHook = func() uint64 { v, _ := next(\"gsrc\"); return v } }\n}\n")); err != nil {
			return "", err
		}
	}
	modfile := ""
	if vndSip[dir] {
		// siphash.Hash is the harness' hash function
		sd := filepath.Join(n.work, "siphash_"+dir)
		gm, err := os.ReadFile(filepath.Join(n.repo, "go.mod"))
		if err != nil {
			return "", err
		}
		gs, err := os.ReadFile(filepath.Join(n.repo, "go.sum"))
		if err != nil {
			return "", err
		}
		modfile = filepath.Join(n.work, "go_"+dir+".mod")
		for f, c := range map[string]string{
			filepath.Join(sd, "go.mod"):                "module github.com/dchest/siphash\n",
			filepath.Join(sd, "siphash.go"):            sipStub,
			modfile:                                    string(gm) + "\nreplace github.com/dchest/siphash => " + sd + "\n",
			strings.TrimSuffix(modfile, "mod") + "sum": string(gs),
		} {
			if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
				return "", err
			}
			if err := os.WriteFile(f, []byte(c), 0o644); err != nil {
				return "", err
			}
		}
	}
	sort.Strings(fns)
	var sb strings.Builder
	target := "./" + dir
	if isMain {
		sb.WriteString("package main\n\nimport vnd \"" + repoMod + "/zzvnd\"\n\nfunc init() {\n\tif vnd.Active() {\n\t\tvnd.Main(map[string]func(){\n")
		for _, f := range fns {
			fmt.Fprintf(&sb, "\t\t\t%q: %s,\n", f, f)
		}
		sb.WriteString("\t\t})\n\t}\n}\n")
		if err := put(filepath.Join(n.repo, dir, "zz_replay_main.go"), []byte(sb.String())); err != nil {
			return "", err
		}
	} else {
		target = "./zzreplay"
		fmt.Fprintf(&sb, "package main\n\nimport (\n\tvnd %q\n\th %q\n)\n\nfunc main() {\n\tvnd.Main(map[string]func(){\n", repoMod+"/zzvnd", repoMod+"/"+dir)
		for _, f := range fns {
			fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", f, f)
		}
		sb.WriteString("\t})\n}\n")
		if err := put(filepath.Join(n.repo, "zzreplay", "main.go"), []byte(sb.String())); err != nil {
			return "", err
		}
	}
	js, _ := json.Marshal(map[string]any{"Replace": repl})
	of := filepath.Join(n.work, "overlay_"+strings.ReplaceAll(dir, "/", "_")+".json")
	if err := os.WriteFile(of, js, 0o644); err != nil {
		return "", err
	}
	out := filepath.Join(n.work, "replay_"+strings.ReplaceAll(dir, "/", "_"))
	args := []string{"build", "-overlay", of, "-o", out, target}
	if modfile != "" {
		args = append([]string{"build", "-modfile", modfile}, args[1:]...)
	}
	c := exec.Command("go", args...)
	c.Dir = n.repo
	c.Env = goEnv()
	var eb bytes.Buffer
	c.Stderr = &eb
	c.Stdout = &eb
	err := c.Run()
	if err != nil {
		err = fmt.Errorf("%v: %s", err, eb.String())
	}
	n.bins[dir] = out
	n.errs[dir] = err
	return out, err
}

type replayOut struct {
	kind, msg string
}

// run executes one replay file.
func (n *Native) run(bin, file string, limit time.Duration) replayOut {
	c := exec.Command(bin)
	c.Dir = n.work
	c.Env = append(os.Environ(), "VND_REPLAY="+file, "GOMEMLIMIT=3GiB", "GOTRACEBACK=all")
	var ob bytes.Buffer
	c.Stdout = &ob
	c.Stderr = &ob
	if err := c.Start(); err != nil {
		return replayOut{"error", err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(limit):
		c.Process.Kill()
		<-done
		return replayOut{"hang", "no result within " + limit.String()}
	}
	s := ob.String()
	if os.Getenv("VENGINE_OUT") != "" {
		fmt.Fprintln(os.Stderr, tail(s, 4000))
	}
	if i := strings.LastIndex(s, "VND:"); i >= 0 {
		l := strings.SplitN(strings.SplitN(s[i+4:], "\n", 2)[0], ":", 2)
		if len(l) == 2 {
			return replayOut{l[0], l[1]}
		}
	}
	// crash without a report: fatal error or a panic in another goroutine
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return replayOut{"panic", l}
		}
	}
	return replayOut{"error", tail(s, 300)}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
