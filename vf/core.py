"""Shared machinery of the checks: building /repo's working tree in a scratch
directory, running the C property-based engine on several workers, replaying
and reporting failures, writing evidence."""
import atexit, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = max(2, min(8, os.cpu_count() or 2))
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup"]
ASAN = ["-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
LIB_REFLECT = ["printf_format"]        # needs generated reflection of its own
LIB_NO_REFLECT = sorted(f[:-2] for f in os.listdir(os.path.join(REPO, "src"))
                        if f.endswith(".c") and not f.startswith("_") and not f.endswith(("_test.c", "_checkmk.c", ".dummy.c", ".test.c", ".reflect.c"))
                        and f[:-2] not in LIB_REFLECT)


class InfraError(Exception):
    """The check itself could not run (exit 2)."""


class Broken(Exception):
    """The code under test failed in a way that decides the property (exit 1)."""

    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir=base)
        if not os.environ.get("VERIF_KEEP"):
            atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.evaluations = 0
        self.nontrivial = set()
        self.nontrivial_extra = 0
        self.labels, self.samples, self.rules, self.assumptions, self.parts = {}, [], [], [], []
        self.failures = []      # (what, replay object)
        self.known = []
        self.notes = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    # ---- outcome collection
    def add(self, evaluations=0, keys=(), labels=None, samples=(), rule=None):
        self.evaluations += evaluations
        self.nontrivial.update(keys)
        for k, v in (labels or {}).items():
            self.labels[k] = self.labels.get(k, 0) + v
        for s in samples:
            if len(self.samples) < 12:
                self.samples.append(s)
        if rule and rule not in self.rules:
            self.rules.append(rule)

    def fail(self, what, replay):
        self.failures.append((what, replay))


def run(cmd, cwd=None, timeout=600, env=None, check=False, inp=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, input=inp)
    except subprocess.TimeoutExpired as x:
        raise InfraError("timeout: %s" % (cmd,)) from x
    if check and p.returncode != 0:
        raise InfraError("command failed (%d): %s\n%s" % (p.returncode, " ".join(map(str, cmd)),
                                                        (p.stderr + p.stdout).decode("utf8", "replace")[-4000:]))
    return p


def pmap(fn, items, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, items))


# ------------------------------------------------------------------ building
GOENV = {"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GONOSUMDB": "*", "GOSUMDB": "off", "GONOSUMCHECK": "1", "GOFLAGS_EXTRA": ""}


def build_metac(ctx):
    """The code generator, from /repo's working tree (missing third-party modules come from /verif/shim)."""
    if getattr(ctx, "metac", None):
        return ctx.metac
    mod = ctx.path("gen.mod")
    with open(os.path.join(VERIF, "shim", "gen.go.mod.in")) as f:
        s = f.read().replace("@SHIM@", os.path.join(VERIF, "shim"))
    with open(mod, "w") as f:
        f.write(s)
    shutil.copy(os.path.join(REPO, "go.sum"), ctx.path("gen.sum"))
    out = ctx.path("metac")
    run(["go", "build", "-modfile=" + mod, "-o", out, "."], cwd=REPO, env=GOENV, check=True)
    ctx.metac = out
    return out


def cc(ctx, src, obj, flags, compiler="gcc", check=True):
    return run([compiler, "-w", "-c"] + flags + ["-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "engine"),
               src, "-o", obj], check=check)


def build_lib(ctx, compiler="gcc", flags=None, tag="lib", reflect=True):
    """Objects of libmetac, built from /repo/src; reflect=True goes through the generator for printf_format."""
    flags = list(flags if flags is not None else ASAN)
    key = "lib_" + tag
    if getattr(ctx, key, None):
        return getattr(ctx, key)
    src = os.path.join(REPO, "src")
    jobs = [(os.path.join(src, n + ".c"), ctx.path(tag, n + ".o"), flags + ["-DMETAC_MODULE_NAME=libmetac"]) for n in LIB_NO_REFLECT]
    if reflect:
        jobs += [(os.path.join(src, n + ".c"), ctx.path(tag, n + ".o"), flags + ["-DMETAC_MODULE_NAME=libmetac"]) for n in LIB_REFLECT]
    jobs += [(os.path.join(src, n + ".c"), ctx.path(tag, "meta", n + ".o"), ["-g3", "-D_METAC_OFF_", "-DMETAC_MODULE_NAME=libmetac"])
             for n in LIB_NO_REFLECT + LIB_REFLECT + ["_module"]] if reflect else []
    pmap(lambda j: cc(ctx, j[0], j[1], j[2], compiler), jobs)
    objs = [ctx.path(tag, n + ".o") for n in LIB_NO_REFLECT]
    if reflect:
        metab = ctx.path(tag, "meta", "_meta_libmetac")
        # _module.c holds main()-less module marker; link as a program the way /repo's Makefile does
        run([compiler, "-o", metab] + [ctx.path(tag, "meta", n + ".o") for n in LIB_NO_REFLECT + LIB_REFLECT + ["_module"]] , check=True)
        rc = ctx.path(tag, "libmetac.reflect.c")
        gen_reflect(ctx, metab, rc, "libmetac itself")
        r = cc(ctx, rc, ctx.path(tag, "libmetac.reflect.o"), flags + ["-DMETAC_MODULE_NAME=libmetac"], compiler, check=False)
        if r.returncode != 0:
            raise Broken("generated reflection of libmetac does not compile", {"kind": "generated code does not compile", "stderr": r.stderr.decode("utf8", "replace")[-4000:]})
        objs += [ctx.path(tag, n + ".o") for n in LIB_REFLECT] + [ctx.path(tag, "libmetac.reflect.o")]
    setattr(ctx, key, objs)
    return objs


def gen_reflect(ctx, elf, out, what, extra=()):
    metac = build_metac(ctx)
    p = run([metac, "run", "metac-reflect-gen", "-s", "path: " + elf, "-s", 'path_type: "elf"'] + list(extra), cwd=REPO, timeout=600)
    data = p.stdout
    if p.returncode != 0 or b"metac_entry" not in data:
        raise Broken("the generator failed on " + what, {"kind": "generator failed", "rc": p.returncode, "stderr": p.stderr.decode("utf8", "replace")[-4000:],
                                                     "stdout_head": data[:300].decode("utf8", "replace")})
    with open(out, "wb") as f:
        f.write(data)
    return out


def build_harness_meta(ctx, src, out):
    """The generated reflection of one self-contained source file (used to prepare demonstrations)."""
    mo, elf = ctx.path("m", "m.o"), ctx.path("m", "_meta_m")
    cc(ctx, src, mo, ["-g3", "-O0", "-D_METAC_OFF_"])
    objs = []
    for n in LIB_NO_REFLECT + LIB_REFLECT:
        objs.append(ctx.path("m", n + ".o"))
        cc(ctx, os.path.join(REPO, "src", n + ".c"), objs[-1], ["-g0", "-O0", "-D_METAC_OFF_", "-DMETAC_MODULE_NAME=libmetac"])
    run(["gcc", "-o", elf, mo] + objs + ["-lm"], check=True)
    gen_reflect(ctx, elf, out, src)


def build_harness(ctx, name, reflect, extra_src=(), lib=None, flags=(), libs=(), src=None, lib_reflect=True, compiler="gcc"):
    """Compile /verif/harness/h_<name>.c; with reflect through the complete two-pass pipeline of the project."""
    src = src or os.path.join(VERIF, "harness", "h_%s.c" % name)
    eng = ctx.path("pbt.o")
    if not os.path.exists(eng):
        cc(ctx, os.path.join(VERIF, "engine", "pbt.c"), eng, ASAN)
    flags = list(flags)
    objs = lib if lib is not None else build_lib(ctx, reflect=lib_reflect)
    final = ctx.path(name, "h.o")
    rest = []
    if reflect:
        mo = ctx.path(name, "h.meta.o")
        cc(ctx, src, mo, ["-g3", "-O0", "-D_METAC_OFF_"] + flags, compiler)
        # objects of the library without debug information keep the reflection to the harness's own types
        nolib = ctx.path("nodebug", "done")
        if not os.path.exists(nolib):
            pmap(lambda n: cc(ctx, os.path.join(REPO, "src", n + ".c"), ctx.path("nodebug", n + ".o"), ["-g0", "-O0", "-D_METAC_OFF_", "-DMETAC_MODULE_NAME=libmetac"]), LIB_NO_REFLECT + LIB_REFLECT)
            cc(ctx, os.path.join(VERIF, "engine", "pbt.c"), ctx.path("nodebug", "pbt.o"), ["-g0", "-O0", "-DPBT_NO_ASAN"])
            open(nolib, "w").close()
        elf = ctx.path(name, "_meta_h")
        run(["gcc", "-o", elf, mo, ctx.path("nodebug", "pbt.o")] + [ctx.path("nodebug", n + ".o") for n in LIB_NO_REFLECT + LIB_REFLECT] + WRAP + list(libs), check=True)
        rc = ctx.path(name, "h.reflect.c")
        gen_reflect(ctx, elf, rc, "harness " + name)
        ro = ctx.path(name, "h.reflect.o")
        r = cc(ctx, rc, ro, ["-g0", "-O0"] , check=False)
        if r.returncode != 0:
            raise Broken("generated reflection of harness %s does not compile" % name, {"kind": "generated code does not compile", "stderr": r.stderr.decode("utf8", "replace")[-4000:]})
        rest = [ro]
    cc(ctx, src, final, (ASAN if compiler == "gcc" else ["-g", "-O1"]) + flags, compiler)
    exe = ctx.path(name, "h")
    r = run(["gcc", "-fsanitize=address", "-o", exe, final, eng] + rest + objs + WRAP + list(libs))
    if r.returncode != 0:
        if reflect:
            raise Broken("generated reflection of harness %s does not link" % name, {"kind": "generated code does not link", "stderr": r.stderr.decode("utf8", "replace")[-4000:]})
        raise InfraError("link of %s failed: %s" % (name, r.stderr.decode("utf8", "replace")[-3000:]))
    return exe


# ------------------------------------------------------------------ C engine
def subseed(seed, *parts):
    h = (seed * 2654435761 + 88172645463325252) & 0xffffffffffffffff
    for p in parts:
        for c in str(p).encode():
            h = ((h ^ c) * 1099511628211) & 0xffffffffffffffff
    return h & 0x7fffffffffffffff


def pbt(ctx, exe, part, cases, rule, batch=2000, workers=None, tmax=None):
    workers = workers or NCPU
    tmax = tmax or ctx.scale(240, 780)
    per = max(1, cases // workers)

    def one(w):
        out, hs = ctx.path("run", "%s_%d.json" % (part, w)), ctx.path("run", "%s_%d.hash" % (part, w))
        p = run([exe, "--seed", str(subseed(ctx.seed, part, w)), "--cases", str(per), "--batch", str(batch), "--tmax", str(tmax),
                 "--out", out, "--hashes", hs], timeout=tmax + 400, cwd=ctx.dir)
        if p.returncode != 0 or not os.path.exists(out):
            raise InfraError("engine failed for %s (%d): %s" % (part, p.returncode, p.stderr.decode("utf8", "replace")[-2000:]))
        with open(out, encoding="utf8") as f:
            r = json.load(f)
        keys = set()
        if os.path.exists(hs):
            b = open(hs, "rb").read()
            keys = set((part, x) for x in struct.unpack("<%dQ" % (len(b) // 8), b))
        return r, keys
    res = pmap(one, range(workers), workers)
    ev = 0
    for r, keys in res:
        ev += r["evaluations"]
        ctx.add(r["evaluations"], keys, {"%s: %s" % (part, k): v for k, v in r["labels"].items()}, [], rule)
    for r, _ in res[:2]:
        for s in r["samples"][:2]:
            ctx.samples.append({"part": part, "case": s[:1500]}) if len(ctx.samples) < 14 else None
    ctx.parts.append({"part": part, "evaluations": ev, "cut_by_time": sum(r["cut"] for r, _ in res)})
    for r, _ in res:
        if r["failure"]:
            rep = r["failure"]["repro"]
            need = 1 if rep["kind"] == "hang" else 3
            n = sum(1 for _ in range(need) if replay_pbt(ctx, exe, rep["choices"])["kind"] != "ok")
            if n == need:
                rep = dict(rep, part=part, engine="pbt", harness=r["harness"], shrink_steps=r["failure"]["shrink_steps"])
                ctx.fail("%s: %s %s" % (part, rep["kind"], rep["message"]), rep)
                break
            ctx.notes.append("part %s: a failure (%s) did not replay (%d/3), not reported" % (part, rep["kind"], n))
    return res


def replay_pbt(ctx, exe, choices):
    f, o = ctx.path("run", "replay.txt"), ctx.path("run", "replay.json")
    with open(f, "w") as h:
        h.write(" ".join(map(str, choices)))
    run([exe, "--replay", f, "--out", o], timeout=200, cwd=ctx.dir)
    with open(o, encoding="utf8") as h:
        return json.load(h)


# ------------------------------------------------------------------ Go parts (rapid)
def build_go(ctx, pkg):
    """/verif/go/<pkg> as a test binary laid over /repo's working tree (nothing is written there)."""
    metac = build_metac(ctx)
    ov = {}
    for d in ("vf", pkg):
        for f in sorted(os.listdir(os.path.join(VERIF, "go", d))):
            ov[os.path.join(REPO, "zz_verif", d, f)] = os.path.join(VERIF, "go", d, f)
    with open(ctx.path("overlay.json"), "w") as f:
        json.dump({"Replace": ov}, f)
    mod = ctx.path("rapid.mod")
    with open(ctx.path("gen.mod")) as f:
        s = f.read()
    with open(mod, "w") as f:
        f.write(s.replace("require (", "require (\n\tpgregory.net/rapid v1.3.0", 1))
    shutil.copy(os.path.join(REPO, "go.sum"), ctx.path("rapid.sum"))
    out = ctx.path("go_" + pkg)
    run(["go", "test", "-c", "-vet=off", "-overlay", ctx.path("overlay.json"), "-modfile=" + mod, "-o", out, "./zz_verif/" + pkg], cwd=REPO, env=GOENV, check=True)
    return out, metac


def run_go(ctx, bins, test, seed, checks, w, failfile=None, limit=600, env=None):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK | os.X_OK) and not os.environ.get("VERIF_SCRATCH") else ctx.dir
    d = tempfile.mkdtemp(prefix="vf_%s_" % w, dir=base)
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    out = os.path.join(d, "out.json")
    os.makedirs(os.path.join(d, "tmp"))
    cmd = [bins[0], "-test.run", "^%s$" % test, "-test.timeout", "%ds" % (limit + 60), "-rapid.checks=%d" % checks, "-rapid.seed=%d" % seed, "-rapid.shrinktime=20s"]
    if failfile:
        with open(os.path.join(d, "ff"), "w") as f:
            f.write(failfile)
        cmd += ["-rapid.failfile=" + os.path.join(d, "ff"), "-rapid.nofailfile"]
    p = run(cmd, cwd=d, timeout=limit + 120, env=dict(env or {}, VF_METAC=bins[1], VF_OUT=out, TMPDIR=os.path.join(d, "tmp"), GOMAXPROCS="2", VF_LIMIT=str(limit)))
    r = {"evaluations": 0, "nontrivial": 0, "labels": {}, "samples": [], "failure": None, "keys": []}
    if os.path.exists(out):
        with open(out, encoding="utf8") as f:
            r = json.load(f)
    elif p.returncode != 0:
        r["failure"] = {"kind": "crash", "message": (p.stdout + p.stderr).decode("utf8", "replace")[:3000], "case": "seed %d, %d cases" % (seed, checks)}
    if p.returncode == 0 and not r["evaluations"] and not failfile:
        raise InfraError("the Go part %s did nothing: %s" % (test, p.stdout.decode("utf8", "replace")[-1000:]))
    if p.returncode == 0 and r["failure"]:
        raise InfraError("the Go part %s reports a failure and passes" % test)
    if p.returncode != 0 and not r["failure"]:
        raise InfraError("the Go part %s fails without a failure: %s" % (test, (p.stdout + p.stderr).decode("utf8", "replace")[-3000:]))
    if r["failure"]:
        for root, _, files in os.walk(os.path.join(d, "testdata")):
            for f in files:
                with open(os.path.join(root, f), encoding="utf8") as h:
                    r["failfile"] = h.read()
    shutil.rmtree(d, ignore_errors=True)
    return r


def gopbt(ctx, pkg, test, cases, rule, workers=None, env=None):
    workers = workers or NCPU
    bins = build_go(ctx, pkg)
    part, per = pkg, max(1, cases // workers)
    limit = ctx.scale(300, 700)
    res = pmap(lambda w: run_go(ctx, bins, test, subseed(ctx.seed, pkg, w) % (1 << 62) + 1, per, "%s%d" % (pkg, w), limit=limit, env=env), range(workers), workers)
    ev = 0
    for w, r in enumerate(res):
        ev += r["evaluations"]
        ctx.add(r["evaluations"], [(part, k) for k in r["keys"]], {"%s: %s" % (part, k): v for k, v in r["labels"].items()}, [], rule)
    for r in res[:2]:
        for s in r["samples"][:2]:
            ctx.samples.append({"part": part, "case": s[:1500]}) if len(ctx.samples) < 14 else None
    ctx.parts.append({"part": part, "evaluations": ev, "cut_by_time": sum(1 for r in res if r.get("cut"))})
    for w, r in enumerate(res):
        if r["failure"]:
            rep = {"engine": "rapid", "pkg": pkg, "test": test, "seed": subseed(ctx.seed, pkg, w) % (1 << 62) + 1, "checks": per,
                   "failfile": r.get("failfile"), "failure": r["failure"]}
            n = sum(1 for _ in range(3) if replay_go(ctx, rep, bins)["failure"])
            if n == 3:
                ctx.fail("%s: %s %s" % (part, r["failure"]["kind"], r["failure"]["message"]), rep)
                break
            ctx.notes.append("part %s: a failure (%s) did not replay (%d/3), not reported" % (part, r["failure"]["kind"], n))
    return res


def replay_go(ctx, rep, bins=None):
    bins = bins or build_go(ctx, rep["pkg"])
    return run_go(ctx, bins, rep["test"], rep["seed"], 1 if rep.get("failfile") else rep["checks"], "replay", rep.get("failfile"), limit=100)


# ------------------------------------------------------------------ finishing
def finish(ctx):
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(edir, "replays"), exist_ok=True)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration",
          "coverage": {"evaluations": ctx.evaluations, "distinct_nontrivial": len(ctx.nontrivial) + ctx.nontrivial_extra,
                       "rule": " || ".join(ctx.rules) or "none", "samples": ctx.samples or ["none"],
                       "labels": ctx.labels, "parts": ctx.parts, "notes": ctx.notes},
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.failures)}
    with open(os.path.join(edir, ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k))
    for n in ctx.notes:
        print("note: " + n)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (ctx.pid, ctx.tier, ctx.seed, ctx.evaluations, len(ctx.nontrivial) + ctx.nontrivial_extra, time.time() - ctx.t0))
    for k in sorted(ctx.labels):
        print("  %-60s %d" % (k, ctx.labels[k]))
    if ctx.failures:
        for i, (what, rep) in enumerate(ctx.failures[:3]):
            path = os.path.join(edir, "replays", "%s_%s_%d_%d.json" % (ctx.pid, ctx.tier, ctx.seed, i))
            with open(path, "w") as f:
                json.dump({"property": ctx.pid, "what": what, "seed": ctx.seed, "tier": ctx.tier, "repro": rep}, f, indent=1)
            print("failure: " + what[:1500])
            print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
        return 1
    return 0
