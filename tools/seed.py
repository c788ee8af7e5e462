#!/usr/bin/env python3
"""Makes and verifies planted bugs (kept in /verif/seeded, read by no check).
  seed.py make SPEC.py     exec's SPEC.py, which calls bug(...)
  seed.py test ID...       patch applies, builds, stable tests pass, demo 0/non-0, check catches it"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
SEED = os.path.join(V, "seeded")
C_DEMO = r'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
L=$(ls src/*.c | grep -v -E '_test\.c$|_checkmk\.c$|\.dummy\.c$|\.test\.c$|\.reflect\.c$|/_module\.c$|/printf_format\.c$')
echo 'int metac_store_vprintf_params() { return -1; }' > "$W/stub.c"
gcc -w -g -I include @FLAGS@ -o "$W/demo" "$D"/demo*.c "$W/stub.c" $L -lm || exit 3
timeout 60 "$W/demo"
'''
# the generator built from the tree (third-party modules which are not available offline come from shim.tgz beside the demo)
GEN_DEMO = r'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
R=$(pwd); tar xzf "$D/shim.tgz" -C "$W" || exit 3
sed "s#@SHIM@#$W/shim#" "$W/shim/gen.go.mod.in" > "$W/g.mod"; cp "$R/go.sum" "$W/g.sum"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GOSUMDB=off
'''
PIPE_DEMO = GEN_DEMO + r'''go build -modfile="$W/g.mod" -o "$W/metac" . || exit 3
'''
# demo*.c taken through the whole pipeline
REFL_DEMO = PIPE_DEMO + r'''L=$(ls src/*.c | grep -v -E '_test\.c$|_checkmk\.c$|\.dummy\.c$|\.test\.c$|\.reflect\.c$|/_module\.c$|/printf_format\.c$')
echo 'int metac_store_vprintf_params() { return -1; }' > "$W/stub.c"
O=""; for f in $L "$W/stub.c"; do o="$W/$(basename $f .c).nd.o"; gcc -w -g0 -O0 -D_METAC_OFF_ -I include -c "$f" -o "$o" || exit 3; O="$O $o"; done
M=""; for f in "$D"/demo*.c; do o="$W/$(basename $f .c).m.o"; gcc -w -g3 -O0 -D_METAC_OFF_ -I include -c "$f" -o "$o" || exit 3; M="$M $o"; done
gcc -o "$W/meta" $M $O -lm || exit 3
"$W/metac" run metac-reflect-gen -s "path: $W/meta" -s 'path_type: "elf"' > "$W/demo.reflect.c" 2> "$W/err" || { echo "generator failed"; cat "$W/err"; exit 1; }
gcc -w -g -I include -o "$W/demo" "$D"/demo*.c "$W/demo.reflect.c" "$W/stub.c" $L -lm || { echo "generated code does not build"; exit 1; }
timeout 60 "$W/demo"
'''
GO_DEMO = r'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp "$D"/*.go "$W"/; R=$(pwd)
@EXTRA@
{ sed -e 's#^module .*#module demo#' "$R/go.mod"; echo "require github.com/aodinokov/metac v0.0.0"; echo "replace github.com/aodinokov/metac => $R"; @REPL@ } > "$W/go.mod"
cp "$R/go.sum" "$W/go.sum"
cd "$W" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GONOSUMCHECK=1 go run . "$R" "$D"
'''


def bug(id, prop, edits, needs, breaks, c=None, files=None, sh=None, reflect=True, flags="", repo="/repo"):
    d = os.path.join(SEED, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="sd_")
    subprocess.check_call(["git", "-C", repo, "worktree", "add", "-q", "--detach", w + "/r"], stdout=subprocess.DEVNULL)
    try:
        for f, old, new in edits:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, "%s: %s: %d occurrences of %r" % (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
        assert diff, id
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        subprocess.call(["git", "-C", repo, "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    for n, t in (files or {}).items():
        open(os.path.join(d, n), "w").write(t)
    if c is not None:
        open(os.path.join(d, "demo.c"), "w").write(c)
        if reflect is True:
            from vf import core
            ctx = core.Ctx("seed", "quick", 1)
            core.build_harness_meta(ctx, os.path.join(d, "demo.c"), os.path.join(d, "demo.reflect.c"))
        sh = C_DEMO.replace("@FLAGS@", flags)
        if reflect == "pipe":
            sh = REFL_DEMO
    if "shim.tgz" in sh:
        subprocess.check_call(["tar", "czf", d + "/shim.tgz", "--sort=name", "--mtime=2024-01-01", "-C", V, "shim"])
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    print("made", id)


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def test(id, check=True, pids=None):
    d = os.path.join(SEED, id)
    meta = json.load(open(d + "/meta.json"))
    t = tempfile.mkdtemp(prefix="sdd_")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(d, f), t)
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain", "-uno"]), "repo dirty"
    r = {}
    x = sh("bash", t + "/demo.sh", cwd="/repo")
    r["demo_clean"] = x.returncode
    if x.returncode:
        print(x.stdout.decode()[-600:])
    if sh("git", "-C", "/repo", "apply", d + "/patch.diff").returncode:
        print(id, "PATCH DOES NOT APPLY")
        return
    try:
        r["build"] = sh("bash", "/opt/vp/build.sh").returncode
        sh("bash", "/opt/vp/test.sh", "/tmp/sd_o.json")
        res = json.load(open("/tmp/sd_o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = set(res.get("passed", res.get("pass", [])))
        r["lost"] = [b for b in base if b not in passed]
        x = sh("bash", t + "/demo.sh", cwd="/repo")
        r["demo_bug"] = x.returncode
        r["demo_out"] = x.stdout.decode("utf8", "replace")[-200:]
        if check:
            for pid in (pids or [meta["property"]]):
                x = sh("python3", os.path.join(V, "check.py"), pid, "--tier", "quick", "--seed", "1", cwd=V)
                out = x.stdout.decode("utf8", "replace")
                r["check " + pid] = x.returncode
                r["why " + pid] = [l[:200] for l in out.splitlines() if l.startswith(("failure:", "VIOLATION"))][:2] or out[-300:]
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        sh("bash", "/opt/vp/build.sh")
        shutil.rmtree(t)
    ok = r["demo_clean"] == 0 and r["build"] == 0 and not r["lost"] and r["demo_bug"] not in (0, 3)
    print(id, "VALID" if ok else "INVALID", "CAUGHT" if any(v == 1 for k, v in r.items() if k.startswith("check ")) else "MISSED", json.dumps(r, indent=0)[:1500])


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for f in sys.argv[2:]:
            exec(open(f).read())
    else:
        a = sys.argv[2:]
        nc = "--nocheck" in a
        pids = [x for x in a if x.startswith("P")]
        for i in [x for x in a if not x.startswith(("-", "P"))] or sorted(os.listdir(SEED)):
            test(i, not nc, pids)
