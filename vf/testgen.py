"""P21: mains made by metac-test-gen for random sets of tests; P22: the same output each time and for every representation."""
import collections, hashlib, json, os, random, re, shutil, time
from . import core, e1, tprog
from .tprog import cstr

CONFIGS = [("gcc", "-gdwarf-5"), ("clang", "-gdwarf-5"), ("gcc", "-gdwarf-4"), ("clang", "-gdwarf-4"), ("gcc", "-gdwarf-3")]
PIECES = ["a", "b", "x", "test", "Test", "T", "_", "__", "metac", "gsym", "dflt", "0", "1", "12", "sanity", "entry", "Z", "module"]
NOISE = ["int metac__tests_%s;", "int metac__%s;", "int metac_test_%s;", "int metac__gsym_%s;", "int Metac__test_%s;", "int xmetac__test_%s;", "int metac__testing_%s;",
         "void metac__test_%sF(void) {}", "struct metac__test_%s { int metac__test_m; } nv_%s;", "int nf_%s(int metac__test_p) { return metac__test_p; }",
         "typedef int metac__test_%s_t; metac__test_%s_t nt_%s;", "enum { metac__test_e%s } ne_%s;", "int metac__TEST_%s;", "int metac__test;"]


def gen(seed):
    """[(unit, [(name, fails)], [noise], [names declared extern])]"""
    r = random.Random("testgen/%s" % seed)
    ncu = r.choice([1, 1, 2, 2, 3, 4] + [11] * (r.random() < .1))
    used, units = set(), []

    def name():
        while True:
            n = "".join(r.choice(PIECES) for _ in range(r.choice([1, 2, 2, 3, 4, 6] + [40] * (r.random() < .1))))
            n = "t" + n if n[0].isdigit() else n
            if len(n) < 200 and n not in used and n not in ("TTest", "ran"):
                used.add(n)
                return n
    pfail = r.choice([0, 0, 0, .2, 1])
    for k in range(ncu):
        tests = [(name(), r.random() < pfail) for _ in range(r.choice([0, 1, 2, 3, 5, 9] + ([30, 110] if ncu < 3 and r.random() < .1 else [])))]
        noise = []
        for i in range(r.choice([0, 0, 1, 2, 4])):
            t = r.choice(NOISE)
            if t == "int metac__test;" and (t in noise or k):
                continue
            noise.append(t.replace("%s", "n%d_%d" % (k, i)))
        units.append({"tests": tests, "noise": noise, "extern": []})
    al = [t for u in units for t, _ in u["tests"]]
    for u in units:
        if al and r.random() < .4:
            u["extern"] = r.sample(al, r.randint(1, len(al)))
    return units


def source(units, k):
    u = units[k]
    out = ['#include <stdio.h>', '#include <stdlib.h>', '#include "metac/test.h"',
           'static void ran(const char *n) { FILE *f = fopen(getenv("VF_LOG"), "a"); fprintf(f, "%s\\n", n); fclose(f); }']
    body = []
    out.append("int unit_%d;" % k)        # no unit without anything
    for n in u["extern"]:
        body.append("extern const TTest * METAC_REQUEST(test, %s);" % n)
    own = {t for t, _ in u["tests"]}
    for n in u["extern"]:
        body.append("const void * use_%d_%s(void) { return METAC_REQUEST(test, %s); }" % (k, n, n))
    for n, f in u["tests"]:
        body.append("METAC_START_TEST(%s) { ran(%s); %s } END_TEST" % (n, cstr(n), "ck_abort_msg(\"no\");" if f else ""))
    out += body[:len(u["extern"])] + u["noise"] + body[len(u["extern"]):]
    return "\n".join(out) + "\n"


def flags():
    return core.run(["pkg-config", "--cflags", "check"]).stdout.decode().split(), core.run(["pkg-config", "--libs", "check"]).stdout.decode().split()


def judge(ctx, units, dbg, tag):
    """None or (what, detail)"""
    d = ctx.path("tg_%s" % tag, "x")[:-2]
    os.makedirs(d, exist_ok=True)
    cf, lf = flags()
    metas, objs = [], []
    for k in range(len(units)):
        s = os.path.join(d, "u%d.c" % k)
        with open(s, "w") as f:
            f.write(source(units, k))
        core.cc(ctx, s, s + ".m.o", [dbg[1], "-O0", "-D_METAC_OFF_"] + cf, dbg[0])
        core.cc(ctx, s, s + ".o", ["-g0", "-O0"] + cf)
        metas.append(s + ".m.o")
        objs.append(s + ".o")
    with open(os.path.join(d, "dummy.c"), "w") as f:
        f.write("int main(void) { return 0; }\n")
    elf = os.path.join(d, "_meta")
    core.cc(ctx, os.path.join(d, "dummy.c"), os.path.join(d, "dummy.o"), ["-g0"])
    core.run(["gcc", "-o", elf] + metas + [os.path.join(d, "dummy.o")] + lf, check=True)
    p = core.run([core.build_metac(ctx), "run", "metac-test-gen", "-s", "path: " + elf, "-s", 'path_type: "elf"'], cwd=core.REPO, timeout=300)
    if p.returncode != 0:
        return "the generator failed", p.stderr.decode("utf8", "replace")[-1500:]
    m = os.path.join(d, "main.c")
    with open(m, "wb") as f:
        f.write(p.stdout)
    r = core.cc(ctx, m, m + ".o", ["-g0", "-O0"] + cf, check=False)
    if r.returncode != 0:
        return "the generated main does not compile", r.stderr.decode("utf8", "replace")[:1500]
    exe = os.path.join(d, "t")
    r = core.run(["gcc", "-o", exe] + objs + [m + ".o"] + lf)
    if r.returncode != 0:
        return "the generated main does not link", r.stderr.decode("utf8", "replace")[:1500]
    want = collections.Counter(n for u in units for n, _ in u["tests"])
    fail = any(f for u in units for _, f in u["tests"])
    for mode in ("yes", "no"):
        if mode == "no" and fail:
            continue            # without fork the first failure ends the process
        log = os.path.join(d, "log")
        if os.path.exists(log):
            os.remove(log)
        r = core.run([exe], timeout=120, env={"VF_LOG": log, "CK_FORK": mode, "CK_VERBOSITY": "silent"}, cwd=d)
        got = collections.Counter(open(log).read().split() if os.path.exists(log) else [])
        if got != want:
            return "tests run: missing %s, too often %s" % (sorted((want - got).elements())[:5], sorted((got - want).elements())[:5]), p.stdout.decode()[:1500]
        if (r.returncode != 0) != fail:
            return "exit status %d with%s failing tests" % (r.returncode, "" if fail else "out"), ""
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return None


def shrink(ctx, units, dbg, tag, what, tmax=100):
    t0, steps = time.time(), 0
    key = what.split(":")[0]

    def bad(u):
        if time.time() - t0 > tmax or not u:
            return False
        try:
            x = judge(ctx, u, dbg, tag + "s")
        except core.InfraError:
            return False
        return x is not None and x[0].split(":")[0] == key
    again = True
    while again and time.time() - t0 < tmax:
        again = False
        cands = []
        for k in range(len(units)):
            cands.append(json.loads(json.dumps(units[:k] + units[k + 1:])))
            for f in ("tests", "noise", "extern"):
                for i in range(len(units[k][f])):
                    u = json.loads(json.dumps(units))
                    del u[k][f][i]
                    cands.append(u)
        for u in cands:
            have = {t for x in u for t, _ in x["tests"]}
            for x in u:
                x["extern"] = [e for e in x["extern"] if e in have]
            if bad(u):
                units, again, steps = u, True, steps + 1
                break
    return units, steps


def run_tests(ctx, n, rule):
    core.build_metac(ctx)
    stop = []
    t_end = ctx.t0 + ctx.scale(330, 800)

    def one(i):
        if len(stop) >= 3 or time.time() > t_end:
            return None
        s = core.subseed(ctx.seed, "P21", i) % 1000000007
        u, dbg = gen(s), CONFIGS[i % len(CONFIGS)]
        x = judge(ctx, u, dbg, "%d" % i)
        if x:
            stop.append(1)
        return s, u, dbg, x
    done = 0
    for r in core.pmap(one, range(n)):
        if r is None:
            continue
        s, u, dbg, x = r
        done += 1
        nt = sum(len(v["tests"]) for v in u)
        key = [hashlib.md5(json.dumps(u).encode()).digest()[:8]] if nt >= 3 and len(u) > 1 else []
        ctx.add(1, key, {"%s %s" % dbg: 1, "some tests fail": int(any(f for v in u for _, f in v["tests"])), "tests declared elsewhere": int(any(v["extern"] for v in u))}, [], rule)
        if len(ctx.samples) < 4 and key:
            ctx.samples.append({"program": s, "units": u})
        if x and not ctx.failures:
            if all(judge(ctx, u, dbg, "again") for _ in range(2)):
                u2, steps = shrink(ctx, u, dbg, "shr", x[0])
                x = judge(ctx, u2, dbg, "again") or x
                ctx.fail("test main (%s %s): %s" % (dbg[0], dbg[1], x[0]), {"engine": "testgen", "units": u2, "config": dbg, "what": x[0], "detail": x[1], "shrink_steps": steps})
            else:
                ctx.notes.append("a failure did not reproduce")
    ctx.parts.append({"part": "testgen", "programs": done, "planned": n})


def replay(ctx, r):
    core.build_metac(ctx)
    x = judge(ctx, r["units"], tuple(r["config"]), "r")
    print(x or "ok")
    return 1 if x else 0


# ------------------------------------------------------------------ the same output for all representations
SPEC = """apiVersion: github.com/aodinokov/metac/v1
kind: goTemplate
metadata:
  name: any
spec:
  settings:
    path: must_override
    path_type: must_override
  template: |
    {{- $d := "" -}}
    {{- if eq .path_type "yaml" -}}{{- $d = dwarfFromYamlFile .path -}}{{- end -}}
    {{- if eq .path_type "json" -}}{{- $d = dwarfFromJsonFile .path -}}{{- end -}}
    {{- if eq .path_type "elf" -}}{{- $d = dwarfFromElf .path -}}{{- end -}}
    {{- %s $d -}}
"""


def representations(ctx, prog, dbg, groups=None):
    d = e1.pdir(ctx, prog.seed, dbg, "rep")
    prog.write(d, False)
    metas = []
    for k in range(prog.ncu):
        o = os.path.join(d, "cu%d.meta.o" % k)
        core.cc(ctx, os.path.join(d, "cu%d.c" % k), o, [dbg[1], "-O0", "-D_METAC_OFF_", "-I", d, "-I", os.path.join(core.VERIF, "harness")], dbg[0])
        metas.append(o)
    oo = os.path.join(d, "oracle.o")
    core.cc(ctx, os.path.join(d, "oracle.c"), oo, ["-g0", "-O0", "-I", d, "-I", os.path.join(core.VERIF, "harness")])
    lib0 = [ctx.path("nodebug", n + ".o") for n in core.LIB_NO_REFLECT + core.LIB_REFLECT]
    elf = os.path.join(d, "_meta")
    core.run(["gcc", "-o", elf] + metas + [oo, ctx.path("nodebug", "rt_static.o")] + lib0, check=True)

    def metac(what, args, path, kind):
        p = core.run([core.build_metac(ctx), "run"] + args + ["-s", "path: " + path, "-s", 'path_type: "%s"' % kind], cwd=core.REPO, timeout=300)
        if p.returncode != 0:
            raise core.Broken(what, {"kind": "generator failed", "stderr": p.stderr.decode("utf8", "replace")[-2000:]})
        return p.stdout
    gens = {"reflect": ["metac-reflect-gen"], "test": ["metac-test-gen"]}
    files = {("elf", 0): (elf, "elf")}
    for n, fn in (("yaml", "dwarfToYaml"), ("json", "dwarfToJson")):
        s = os.path.join(d, n + ".spec")
        with open(s, "w") as f:
            f.write(SPEC % fn)
    n, fails, keys = 0, [], []

    def convert(src, skind, to, name):
        out = os.path.join(d, name)
        with open(out, "wb") as f:
            f.write(metac("conversion from %s to %s" % (skind, to), ["-f", os.path.join(d, to + ".spec")], src, skind))
        return out
    y = convert(elf, "elf", "yaml", "a.yaml")
    j = convert(elf, "elf", "json", "a.json")
    y2 = convert(j, "json", "yaml", "b.yaml")
    j2 = convert(y, "yaml", "json", "b.json")
    n += 2
    for a, b, w in ((y, y2, "yaml"), (j, j2, "json")):
        if open(a, "rb").read() != open(b, "rb").read():
            fails.append(("representation", w, "the debug information written as %s depends on where it came from" % w, first_diff(open(a, "rb").read(), open(b, "rb").read())))
    for g, args in gens.items():
        ref = metac(g, args, elf, "elf")
        if g == "reflect" and b"metac_entry" not in ref:
            raise core.Broken("the generator gave nothing", {"kind": "generator failed"})
        for path, kind in ((elf, "elf"), (y, "yaml"), (j, "json"), (y2, "yaml"), (j2, "json")):
            n += 1
            o = metac(g, args, path, kind)
            if o != ref:
                fails.append(("output", "%s from %s" % (g, kind), "differs from the first run from elf", first_diff(ref, o)))
        keys.append(hashlib.md5(ref).digest()[:8])
    n += formats(ctx, prog, dbg, d, metac, gens["reflect"], fails)
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return n, fails, keys, []


# the same ABI in two object file formats
FORMATS = (("macho", "x86_64-apple-macosx10.15", "x86_64-linux-gnu"), ("pe", "x86_64-w64-windows-gnu", "x86_64-w64-windows-gnu-elf"))


def formats(ctx, prog, dbg, d, metac, args, fails):
    k, n = prog.seed % prog.ncu, 0
    i = os.path.join(d, "unit.i")
    core.run(["clang", "-w", "-E", "-D_METAC_OFF_", "-I", d, "-I", os.path.join(core.REPO, "include"), "-I", os.path.join(core.VERIF, "harness"),
              os.path.join(d, "cu%d.c" % k), "-o", i], check=True)
    for kind, t1, t2 in FORMATS:
        objs = []
        if kind == "pe":    # long has 32 bits there
            with open(i) as f:
                t = re.sub(r":\s*(3[3-9]|[4-6]\d)\s*;", ": 29;", f.read())
            with open(i, "w") as f:
                f.write(t)
        for t, sub in ((t1, "x.dSYM/Contents/Resources/DWARF/x"), (t2, "x.o")):
            o = os.path.join(d, kind, sub)
            os.makedirs(os.path.dirname(o), exist_ok=True)
            r = core.run(["clang", "-w", "-target", t, dbg[1] if dbg[1] != "-g" else "-gdwarf-5", "-O0", "-c", i, "-o", o])
            objs.append((o, r.returncode))
        if any(rc for _, rc in objs):
            ctx.add(0, labels={"not expressible for " + kind: 1})
            continue
        n += 1
        ctx.add(0, labels={"compared " + kind + " with elf": 1})
        a = metac("reflection from " + kind, args, os.path.join(d, kind, "x") if kind == "macho" else objs[0][0], kind)
        b = metac("reflection from elf", args, objs[1][0], "elf")
        if a != b:
            fails.append(("format", kind, "the reflection differs from the one of the same unit as elf", first_diff(a, b)))
    return n


def first_diff(a, b):
    x, y = a.decode("utf8", "replace").splitlines(), b.decode("utf8", "replace").splitlines()
    for i in range(max(len(x), len(y))):
        p, q = (x[i] if i < len(x) else "(end)"), (y[i] if i < len(y) else "(end)")
        if p != q:
            return "line %d: %s / %s" % (i + 1, p[:300], q[:300])
    return "line ends"
