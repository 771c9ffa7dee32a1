#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the bug descriptions in tools/seeds/*.py.

usage: mkseed.py [id ...]     (no ids: every bug that has no directory yet)

Each bug is confirmed in a scratch copy: the patch applies to /repo's HEAD, the
tree builds, the stable tests pass, the demonstration passes without the patch
and fails with it.  Only confirmed bugs are kept."""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
DEMO = r'''#!/bin/bash
# Runs TestDemo (demo_test.go, beside this file) inside package %(pkg)s of the
# repository in the current directory.  Exit 0: the property holds.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cat > "$T/overlay.json" <<EOF
{"Replace": {%(extra)s"$R/%(pkg)s/zz_demo_test.go": "$D/demo_test.go"}}
EOF
go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
'''
bugs = {}
class Bug:
    pass
def bug(id, prop, pkg, edits, needs, breaks, demo):
    """edits: list of (file, old, new[, occurrence])"""
    assert id not in bugs, id
    b = Bug(); b.id, b.prop, b.pkg, b.edits, b.needs, b.breaks, b.demo = id, prop, pkg, edits, needs, breaks, demo
    bugs[id] = b
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"), {"bug": bug})

def sh(cmd, cwd, ok=None, timeout=400):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    return r

def make(b):
    S = "/tmp/seedwork"
    if os.path.exists(S):
        shutil.rmtree(S)
    shutil.copytree("/repo", S, symlinks=True)
    out = V + "/seeded/" + b.id
    if os.path.exists(out):
        shutil.rmtree(out)
    os.makedirs(out)
    extra = ""
    if b.pkg == "ldpc":
        extra = "".join('"$R/ldpc/%s": "", ' % t for t in ("decoder_test.go", "encoder_test.go", "transaction_test.go"))
    open(out + "/demo.sh", "w").write(DEMO % dict(pkg=b.pkg, extra=extra))
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo_test.go", "w").write(b.demo.lstrip("\n"))
    json.dump({"property": b.prop, "needs": b.needs, "what_it_breaks": b.breaks}, open(out + "/meta.json", "w"), indent=1)
    def fail(why, txt=""):
        print("REJECTED", b.id, why); print(txt[-1500:])
        shutil.rmtree(out); shutil.rmtree(S)
        return False
    r = sh("bash %s/demo.sh" % out, S)
    if r.returncode != 0:
        return fail("demo fails on the unchanged tree", r.stdout + r.stderr)
    for e in b.edits:
        f, old, new = e[:3]; occ = e[3] if len(e) > 3 else 1
        s = open(S + "/" + f).read(); parts = s.split(old)
        if len(parts) <= occ:
            return fail("text not found in " + f + ": " + old)
        if occ == 1 and len(parts) > 2 and len(e) < 4:
            return fail("text ambiguous in " + f + ": " + old)
        open(S + "/" + f, "w").write(old.join(parts[:occ]) + new + old.join(parts[occ:]))
    open(out + "/patch.diff", "w").write(sh("git diff", S).stdout)
    r = sh("go build $(go list -e ./... | grep -vE '/experiments/overlap/(adv-censor|parallel|two-steps)$')", S)
    if r.returncode: return fail("does not build", r.stderr)
    r = sh("go test -vet=off -count=1 -timeout 120s ./iblt ./lt ./riblt", S)
    if r.returncode: return fail("stable tests fail", r.stdout + r.stderr)
    r = sh("bash %s/demo.sh" % out, S)
    if r.returncode == 0: return fail("demo passes with the patch", r.stdout)
    why = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
    if any("build failed" in l for l in why): return fail("demo does not compile", r.stdout + r.stderr)
    print("KEPT", b.id, b.prop, "|", " / ".join(l.strip() for l in why[:3])[:200])
    shutil.rmtree(S)
    return True

ids = sys.argv[1:] or [i for i in bugs if not os.path.exists(V + "/seeded/" + i)]
n = sum(make(bugs[i]) for i in ids)
print(n, "of", len(ids), "kept")
