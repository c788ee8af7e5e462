"""Checks over randomly generated C programs, each pushed through the whole pipeline (compiler -> debug
information -> generator -> compiled reflection) and compared with what the compiler itself says."""
import copy, hashlib, json, os, re, shutil, time
from . import core, tprog, cdecl
from .tgen import *

CONFIGS = [("gcc", "-gdwarf-5"), ("clang", "-gdwarf-4"), ("gcc", "-gdwarf-3"), ("clang", "-gdwarf-5"), ("gcc", "-gdwarf-4")]


# ------------------------------------------------------------------ edits (shrinking works on these)
def make(seed, edits=None, **opt):
    p = tprog.Program(seed, **opt)
    if edits:
        if edits.get("vars") is not None:
            p.vars = [v for v in p.vars if v.name in edits["vars"]]
        if edits.get("fns") is not None:
            p.fns = [v for v in p.fns if v.name in edits["fns"]]
        if edits.get("locals") is not None:
            p.locals = [v for v in p.locals if v.name in edits["locals"]]
            p.globs = [v for v in p.globs if v.name in edits["locals"]]
        drop = {}
        for uid, i in edits.get("drop", []):
            drop.setdefault(uid, set()).add(i)
        if drop:
            for a in all_aggs(p):
                if a.uid in drop:
                    a.members = [m for i, m in enumerate(a.members) if i not in drop[a.uid]]
        if edits:
            p.types = reachable(p)
    return p


def roots(p):
    return [v.t for v in p.vars] + [f.t for f in p.fns] + [t for l in p.locals + p.globs for _, vs in l.blocks for _, t, _ in vs]


def walk_all(p):
    seen, out = set(), []

    def walk(t):
        if isinstance(t, Ref):
            t = t.agg
        if id(t) in seen:
            return
        seen.add(id(t))
        out.append(t)
        for d in t.deps():
            walk(d)
    for t in roots(p):
        walk(t)
    return out


def all_aggs(p):
    return [t for t in walk_all(p) if isinstance(t, Agg)]


def reachable(p):
    ids = set(map(id, walk_all(p)))
    return [t for t in p.types if id(t) in ids]


def shrink(fails, seed, opt, tmax=120):
    """smallest edits for which fails(program) is still true"""
    t0 = time.time()
    p = make(seed, **opt)
    e = {"vars": [v.name for v in p.vars], "fns": [f.name for f in p.fns], "locals": [l.name for l in p.locals + p.globs], "drop": []}

    def ok(x):
        if time.time() - t0 > tmax:
            return False
        try:
            return fails(make(seed, x, **opt), x)
        except (core.InfraError, Exception):
            return False
    steps = 0
    for k in ("vars", "fns", "locals"):
        n = len(e[k])
        size = n
        while size >= 1 and e[k]:
            i, hit = 0, False
            while i < len(e[k]):
                x = copy.deepcopy(e)
                del x[k][i:i + size]
                if not (x["vars"] or x["fns"] or x["locals"]):
                    i += size
                    continue
                if ok(x):
                    e = x
                    hit = True
                    steps += 1
                else:
                    i += size
            size = size // 2
    again = True
    while again and time.time() - t0 < tmax:
        again = False
        for a in all_aggs(make(seed, {**e, "drop": []}, **opt)):
            for i in range(len(a.members)):
                if [a.uid, i] in e["drop"] or sum(1 for j, m in enumerate(a.members) if m.name and [a.uid, j] not in e["drop"]) <= 1:
                    continue        # C has no structures without named members
                x = copy.deepcopy(e)
                x["drop"].append([a.uid, i])
                if ok(x):
                    e = x
                    steps += 1
                    again = True
    return e, steps


# ------------------------------------------------------------------ running one program
def pdir(ctx, seed, dbg, tag):
    return ctx.path("e1_%s_%s_%s%s" % (tag, seed, dbg[0], dbg[1]), "x")[:-2]


def static_lines(ctx, prog, dbg, mode, tag="s"):
    d = pdir(ctx, prog.seed, dbg, tag)
    exe = tprog.build(ctx, prog, d, dbg=dbg, leaves=False)
    r = core.run([exe, mode], timeout=120)
    out = r.stdout.decode("utf8", "replace").splitlines()
    if r.returncode not in (0, 3):
        raise core.Broken("reading the reflection crashed (%d)" % r.returncode, {"kind": "crash", "stderr": r.stderr.decode("utf8", "replace")[:3000], "last": out[-1:]})
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return out


def judge_desc(ctx, prog, dbg, groups):
    """(comparisons, failures, keys, known)"""
    n, fails, keys, known = 0, [], [], []
    statics = set()
    for l in prog.locals:           # (of globs the static ones are used, and so known)
        for ln, vs in l.blocks:
            for nm, t, st in vs:
                if st:
                    statics.add("%s:%s:%s" % (l.name, ln, nm))
    for line in static_lines(ctx, prog, dbg, "desc"):
        m = re.match(r"(OK|FAIL) (\S+) ([^\t]*)\t([^\t]*)(?:\t(.*))?$", line)
        if not m:
            continue
        st, g, what, a, b = m.groups()
        if g not in groups:
            continue
        n += 1
        if st == "OK":
            if len(a) > 12 and g in ("var", "fn", "declloc", "db"):
                keys.append(hashlib.md5((g + a).encode()).digest()[:8])
        else:
            if g == "declloc" and b == "not found" and dbg[0] == "clang":
                if dbg[1] == "-gdwarf-5":
                    known.append("declloc-clang-dwarf5")
                    continue
                if what in statics:
                    known.append("declloc-clang-static-local")
                    continue
            fails.append((g, what, a, b))
    return n, fails, keys, known


def run_static(ctx, judge, seeds, configs, rule, kind, opt=None, per_prog=lambda s: {}):
    """judge(ctx, prog, dbg) -> (n, fails, keys, known)"""
    tprog.prepare(ctx)
    t_end = ctx.t0 + ctx.scale(330, 800)
    knowns, stopped = set(), []
    opts = {}

    def one(a):
        s, dbg = a
        if time.time() > t_end or len(stopped) >= 4:
            return None
        o = dict(per_prog(s))
        p = make(s, **o)
        try:
            j = judge(ctx, p, dbg)
            if j[1]:
                stopped.append(1)
            return a, j
        except core.Broken as b:
            stopped.append(1)
            return a, (1, [("build", b.what, "", json.dumps(b.replay)[:2500])], [], [])
    jobs = [(s, d) for s in seeds for d in configs(s)]
    done = 0
    for r in core.pmap(one, jobs):
        if r is None:
            continue
        done += 1
        a, (n, fails, keys, known) = r
        ctx.add(n, keys, {"%s %s" % a[1]: n}, [], rule)
        knowns.update(known)
        if len(ctx.samples) < 3:
            t = make(a[0], **per_prog(a[0])).types_h().splitlines()
            ctx.samples.append({"program": a[0], "compiler": " ".join(a[1]), "types": "\n".join(t[4:40])})
        if fails and not ctx.failures:
            o = per_prog(a[0])

            sig = fails[0][1] if fails[0][0] == "build" else fails[0][0]

            def again(p, x=None):
                try:
                    return any(f[0] == sig for f in judge(ctx, p, a[1])[1])
                except core.Broken as b:
                    return b.what == sig
            if sum(again(make(a[0], **o)) for _ in range(2)) == 2:
                e, steps = shrink(again, a[0], o)
                p = make(a[0], e, **o)
                try:
                    fl = judge(ctx, p, a[1])[1] or fails
                except core.Broken as b:
                    fl = [("build", b.what, "", json.dumps(b.replay)[:2500])]
                ctx.fail("%s: program %s (%s %s): %s" % (kind, a[0], a[1][0], a[1][1], " | ".join(map(str, fl[0]))),
                         {"engine": "e1", "kind": kind, "seed": a[0], "opt": o, "config": a[1], "edits": e, "shrink_steps": steps, "failures": fl[:5], "source": p.source_text()})
            else:
                ctx.notes.append("program %s: a failure did not reproduce" % a[0])
    ctx.parts.append({"part": kind, "programs": done, "planned": len(jobs)})
    return knowns


# ------------------------------------------------------------------ declarations
def cdecl_expect(g, w, vs, fs):
    if g == "var":
        return w, vs[w].t
    if g == "fn":
        return w, fs[w].t
    if g == "final":
        return None, final(vs[w].t)[0]
    if g in ("elem", "target"):
        return None, final(vs[w].t)[0].t
    if g == "result":
        return None, fs[w].t.ret
    if g == "paramtype":
        return None, fs[w.split()[0]].t.params[int(w.split()[1])]
    if g == "membertype":
        f = final(vs[w.split()[0]].t)[0]
        ms = [m for m in f.members if not (m.name is None and m.bits is not None)]
        return None, ms[int(w.split()[1])].t
    return None


def judge_cdecl(ctx, prog, dbg):
    td = {t.name: t for t in walk_all(prog) if isinstance(t, Typedef)}
    vs, fs = {v.name: v for v in prog.vars}, {f.name: f for f in prog.fns}
    n, fails, keys = 0, [], []
    for line in static_lines(ctx, prog, dbg, "cdecl", "c"):
        f = line.split("\t")
        if len(f) != 3:
            continue
        g, w, c = f
        e = cdecl_expect(g, w, vs, fs)
        if e is None:
            continue
        n += 1
        m = cdecl.check(c, td, e[0], e[1], g == "fn")
        if m:
            fails.append((g, w, c, m))
        else:
            k = c.replace(w, "") if g in ("var", "fn") else c
            if re.search(r"[*\[(]", c):
                keys.append(hashlib.md5(k.encode()).digest()[:8])
            if len(ctx.samples) < 8 and len(c) > 40 and len(c) < 300:
                ctx.samples.append({"declaration": c})
    return n, fails, keys, []


# ------------------------------------------------------------------ values (C engine inside the generated program)
def run_value(ctx, part, seeds, configs, cases, rule, per_prog=lambda s: {}):
    tprog.prepare(ctx)
    t_end = ctx.t0 + ctx.scale(330, 800)
    stopped = []

    def go(p, dbg, tag, n):
        d = pdir(ctx, p.seed, dbg, tag)
        exe = tprog.build(ctx, p, d, rt="rt_value", dbg=dbg)
        r = core.run([exe, "--seed", str(core.subseed(ctx.seed, part, p.seed)), "--cases", str(n), "--batch", "1000", "--tmax", "200",
                      "--out", d + "/o.json", "--hashes", d + "/h"], env={"VF_PART": part}, timeout=900)
        if r.returncode != 0:
            raise core.InfraError("engine: %d %s" % (r.returncode, r.stderr[-800:]))
        with open(d + "/o.json", encoding="utf8") as f:
            o = json.load(f)
        hs = open(d + "/h", "rb").read() if os.path.exists(d + "/h") else b""
        keys = [(p.seed, hs[i:i + 8]) for i in range(0, len(hs), 8)]
        return o, keys, exe, d

    def one(a):
        s, dbg = a
        if time.time() > t_end or len(stopped) >= 4:
            return None
        p = make(s, **per_prog(s))
        try:
            o, keys, exe, d = go(p, dbg, "v", cases)
        except core.Broken as b:
            stopped.append(1)
            return a, None, [], b
        f = o["failure"]
        need = 1 if f and f["repro"]["kind"] == "hang" else 3
        if f and sum(replay_at(ctx, exe, d, part, f["repro"]["choices"])["kind"] != "ok" for _ in range(need)) != need:
            o["failure"] = None
        if o["failure"]:
            stopped.append(1)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
        return a, o, keys, None
    done = 0
    jobs = [(s, d) for s in seeds for d in configs(s)]
    for r in core.pmap(one, jobs):
        if r is None:
            continue
        a, o, keys, broken = r
        done += 1
        if o:
            ctx.add(o["evaluations"], keys, {"%s: %s" % (part, k): v for k, v in o["labels"].items()}, [], rule)
            if len(ctx.samples) < 12 and done <= 6:
                for s in o["samples"][:2]:
                    ctx.samples.append({"program": a[0], "part": part, "case": s[:800]})
        if (broken or o["failure"]) and not ctx.failures:
            opt = per_prog(a[0])

            def again(p, x=None):
                if not p.vars:
                    return False
                try:
                    o2, _, _, d2 = go(p, a[1], "w", min(cases, 4000))
                except core.Broken as b:
                    return bool(broken) and b.what == broken.what
                shutil.rmtree(d2, ignore_errors=True)
                return bool(o2["failure"]) and not broken and o2["failure"]["repro"]["kind"] == o["failure"]["repro"]["kind"]
            e, steps = (None, 0)
            hang = bool(o and o["failure"]["repro"]["kind"] == "hang")  # each further run costs the CPU limit: left as it is
            if not hang and again(make(a[0], **opt)):
                e, steps = shrink(again, a[0], opt)
            p = make(a[0], e, **opt)
            rep = {"engine": "e1v", "part": part, "seed": a[0], "opt": opt, "config": a[1], "edits": e, "shrink_steps": steps, "source": p.source_text()}
            try:
                o2 = o if hang else go(p, a[1], "w", cases)[0]
                f = (o2["failure"] or o["failure"])["repro"]
                rep.update(choices=f["choices"], case=f["case"], stderr=f.get("stderr", ""), cases=cases)
                what = "%s %s" % (f["kind"], f["message"])
            except core.Broken as b:
                what = b.what
                rep.update(b.replay)
            ctx.fail("%s: program %s (%s %s): %s" % (part, a[0], a[1][0], a[1][1], what), rep)
    ctx.parts.append({"part": part, "programs": done, "planned": len(jobs)})


def replay_at(ctx, exe, d, part, choices):
    f, o = d + "/replay.txt", d + "/replay.json"
    with open(f, "w") as h:
        h.write(" ".join(map(str, choices)))
    core.run([exe, "--replay", f, "--out", o], timeout=200, env={"VF_PART": part})
    with open(o, encoding="utf8") as h:
        return json.load(h)


# ------------------------------------------------------------------ printing: compile the string back
def full_leaves(p, vi):
    res = []

    def walk(path, t, q):
        f, _ = final(t)
        if isinstance(f, Agg):
            if f.kind == "union":
                return
            for i, m in enumerate(f.members):
                if m.name is None and m.bits is not None:
                    continue
                walk(path + "." + (m.name or "an_%d" % i), m.t, q)
        elif isinstance(f, Arr):
            for i in range(f.n or 0):
                walk(path + "[%d]" % i, f.t, q)
        elif isinstance(f, (Base, Enum, Ptr)):
            res.append((path, f))
    walk("", p.vars[vi].t, None)
    return res


CHK = r"""
#include <complex.h>
#include <stdbool.h>
#include <stdio.h>
#include "types.h"
#include "twin.h"
static int near_(long double a, long double b) { long double d = a - b; if (d < 0) d = -d; long double m = a < 0 ? -a : a; return d <= 6e-7L + m * 1.3e-7L; }
#define CI(k, T, P) { const T *a = (const T *)img_##k, *b = (const T *)(void *)&x_##k; if ((*a)P != (*b)P) printf("DIFF %d %s\n", k, #P); }
#define CF(k, T, P) { const T *a = (const T *)img_##k, *b = (const T *)(void *)&x_##k; if (!near_((*a)P, (*b)P)) printf("DIFF %d %s\n", k, #P); }
#define CC(k, T, P) { const T *a = (const T *)img_##k, *b = (const T *)(void *)&x_##k; if (!near_(creall((*a)P), creall((*b)P)) || !near_(cimagl((*a)P), cimagl((*b)P))) printf("DIFF %d %s\n", k, #P); }
"""


def judge_print(ctx, prog, dbg, cases):
    if not prog.vars:
        return 0, [], [], []
    d = pdir(ctx, prog.seed, dbg, "p")
    exe = tprog.build(ctx, prog, d, rt="rt_value", dbg=dbg)
    dump = d + "/dump"
    if os.path.exists(dump):
        os.remove(dump)
    r = core.run([exe, "--seed", str(core.subseed(ctx.seed, "print", prog.seed)), "--cases", str(cases), "--batch", "1000", "--tmax", "60", "--out", d + "/o.json", "--hashes", d + "/h"],
                 env={"VF_PART": "print", "VF_DUMP": dump}, timeout=400)
    if r.returncode != 0:
        raise core.InfraError("engine: %d %s" % (r.returncode, r.stderr[-800:]))
    o = json.load(open(d + "/o.json"))
    if o["failure"]:
        f = o["failure"]["repro"]
        return o["evaluations"], [(f["kind"], f["message"], f["case"][:500], f["stderr"][:800])], [], []
    rows = [l.rstrip("\n").split("\t") for l in open(dump, encoding="latin-1")] if os.path.exists(dump) else []
    out, body, lines = [CHK], [], {}
    nline = CHK.count("\n") + 1
    keys = []
    lv = {}
    for k, row in enumerate(rows):
        vi, hx, s = int(row[0]), row[1], "\t".join(row[2:])
        if vi not in lv:
            lv[vi] = full_leaves(prog, vi)
            td = "typedef %s;" % prog.vars[vi].t.decl("vt_%d" % vi)
            out.append(td)
            nline += td.count("\n") + 1
        v = prog.vars[vi]
        # 'static' storage wants constants: exactly what an initializer has to be
        src = "static vt_%d x_%d = %s;" % (vi, k, s)
        pre = '_Alignas(64) static const unsigned char img_%d[] = {%s};' % (k, ",".join(str(b) for b in bytes.fromhex(hx)))
        out += [pre, src]
        nline += 1
        lines[nline] = k
        nline += src.count("\n") + 1
        for path, f in lv[vi]:
            mac = "CI"
            if isinstance(f, Base) and f.enc == "float":
                mac = "CF"
            elif isinstance(f, Base) and f.enc == "complex_float":
                mac = "CC"
            body.append("%s(%d, twv_%d, %s)" % (mac, k, vi, path) if path else "%s(%d, twv_%d, +0)" % (mac, k, vi))
        keys.append(hashlib.md5((str(prog.seed) + s).encode()).digest()[:8])
        if len(ctx.samples) < 10 and 40 < len(s) < 400:
            ctx.samples.append({"declaration": v.t.decl("x")[:300], "printed": s})
    out.append("int main(void) {\n%s\nreturn 0; }" % "\n".join(body))
    with open(d + "/back.c", "w", encoding="latin-1") as f:
        f.write("\n".join(out) + "\n")
    c = core.run(["gcc", "-w", "-O0", "-I", d, "-o", d + "/back", d + "/back.c"], timeout=300)
    fails = []
    if c.returncode != 0:
        err = c.stderr.decode("utf8", "replace")
        m = re.search(r"back\.c:(\d+):\d+: error: (.*)", err)
        ln = int(m.group(1)) if m else 0
        k = max([x for x in lines if x <= ln], default=None)
        row = rows[lines[k]] if k else ["0", "", ""]
        fails.append(("not an initializer", prog.vars[int(row[0])].t.decl("x")[:300], row[2][:500], m.group(2) if m else err[:500]))
    else:
        t = core.run([d + "/back"], timeout=100)
        for line in t.stdout.decode("latin-1").splitlines()[:5]:
            _, k, path = line.split(" ", 2)
            row = rows[int(k)]
            fails.append(("differs", path, prog.vars[int(row[0])].t.decl("x")[:300], row[2][:500] + " image " + row[1][:200]))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return len(rows), fails, keys, []


def replay(ctx, r, judges):
    tprog.prepare(ctx)
    p = make(r["seed"], r.get("edits"), **(r.get("opt") or {}))
    dbg = tuple(r["config"])
    if r["engine"] == "e1":
        try:
            n, fails, _, _ = judges[r["kind"]](ctx, p, dbg)
        except core.Broken as b:
            fails = [("build", b.what, json.dumps(b.replay))]
        for f in fails[:10]:
            print(f)
        return 1 if fails else 0
    d = pdir(ctx, p.seed, dbg, "r")
    try:
        exe = tprog.build(ctx, p, d, rt="rt_value", dbg=dbg)
    except core.Broken as b:
        print(b.what, b.replay)
        return 1
    o = replay_at(ctx, exe, d, r["part"], r.get("choices", []))
    print(o["kind"], o["message"])
    print(o["case"])
    print(o["stderr"])
    return 0 if o["kind"] == "ok" else 1
