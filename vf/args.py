"""Generated programs whose functions' calls are captured: random signatures, the
arguments passed by compiled calls, what was captured compared with them."""
import json, os, random, shutil, time
from . import core, tprog
from .tgen import *

MAXL = 40


def fixlen(t):
    """flattened scalar parts of a type (path, final type, bits)"""
    res = []

    def walk(path, t, bits):
        f, _ = final(t)
        if isinstance(f, Agg):
            for i, m in enumerate(f.members):
                if m.name is None and m.bits is not None:
                    continue
                walk(path + ("." + m.name if m.name else ""), m.t, m.bits)
        elif isinstance(f, Arr):
            for i in range(f.n or 0):
                walk("%s[%d]" % (path, i), f.t, None)
        else:
            res.append((path, f, bits))
    walk("", t, None)
    return res


def isfloat(f):
    return isinstance(f, Base) and (f.enc in ("float", "complex_float"))


def any_agg(t, pred, seen=None):
    f, _ = final(t)
    if isinstance(f, Agg):
        return pred(f) or any(any_agg(m.t, pred) for m in f.members)
    if isinstance(f, Arr):
        return any_agg(f.t, pred)
    return False


def unnamed_bits(a):
    """unnamed bit-fields may leave an eightbyte without a class, for which no register is used"""
    return any(m.name is None and m.bits is not None for m in a.members)


def deepable(t, depth=0):
    """copied and compared without instructions"""
    f, _ = final(t)
    if isinstance(f, (Void, Func, Fwd)):
        return False
    if isinstance(f, Ptr):
        return depth == 0 and pointee_ok(f.t)
    if isinstance(f, Agg):
        return f.kind == "struct" and not f.flexible() and all(m.name is None and m.bits is not None or deepable(m.t, 1) or isinstance(final(m.t)[0], Ptr) for m in f.members)
    if isinstance(f, Arr):
        return bool(f.n) and (deepable(f.t, 1) or isinstance(final(f.t)[0], Ptr))
    return True


def pointee_ok(t):
    f, q = final(t)
    return isinstance(f, (Base, Enum, Agg)) and deepable(t, 1) and not (q & {"const"}) and not isinstance(f, Ref)


def in_domain(t):
    """aggregates by value whose capture is not the listed finding (estimate; the program itself decides)"""
    f, _ = final(t)
    if not isinstance(f, Agg):
        return True
    al = fixlen(t)
    if not al or any_agg(t, lambda a: a.aligned > 8) or any(isfloat(x) and x.size >= 16 and x.sp != "double _Complex" for _, x, _ in al):
        return False
    return est(t) > 24 or not (any_agg(t, lambda a: a.packed or unnamed_bits(a)) or any(isfloat(x) for _, x, _ in al))


def written_out(t):
    """an enumeration or aggregate without a tag whose definition would be repeated with every use of the type"""
    if isinstance(t, (Enum, Agg)):
        return t.tag is None
    if isinstance(t, (Qual, Ptr, Arr)):
        return written_out(t.t)
    if isinstance(t, Func):
        return written_out(t.ret) or any(written_out(p) for p in t.params)
    return False


class Param:
    def __init__(self, name, t, deep):
        self.name, self.t, self.deep = name, t, deep


class ArgProgram:
    def __init__(self, seed, nfn=40, ntypes=26, only=None, nparams=None):
        self.seed = seed
        g = self.g = Gen(seed, quals=False, flex=False, maxmembers=5)
        r = self.r = g.r
        for _ in range(ntypes):
            g.add_type()
        self.large = []
        for _ in range(3):      # structures of a few hundred bytes passed by value
            a = g.reg(Agg("struct", g.fresh("big"), []))
            a.members = [Member(g.fresh("m"), r.choice([g.base(), Arr(Base(r.choice([0, 1, 4, 8])), r.choice([30, 65, 130, 300]))])) for _ in range(r.choice([2, 3, 5]))]
            g.types.append(a)
            self.large.append(a)
        self.fns = []
        for i in range(nfn):
            ret = r.choice([Void(), g.base(), self.param()])
            n = r.choice([0, 1, 1, 2, 3, 4, 6, 9, 14, 20])
            ps = []
            for k in range(n):
                t = self.param()
                ps.append(Param(g.fresh("p"), t, deepable(t) or isinstance(final(t)[0], Arr) and pointee_ok(final(t)[0].t)))
            if final(ret)[0].__class__ in (Arr, Func):
                ret = Void()
            self.fns.append((i, ret, ps))
        if only is not None:
            self.fns = [f for f in self.fns if f[0] == only]
        if nparams is not None:
            self.fns = [(i, rt, [p for k, p in enumerate(ps) if k in nparams]) for i, rt, ps in self.fns]

    def param(self):
        for _ in range(20):
            t = self.param1()
            if not written_out(t) and (in_domain(t) or self.r.random() < .02):
                return t
        return self.g.base()

    def param1(self):
        g, r = self.g, self.r
        x = r.random()
        named = [t for t in g.types if isinstance(t, (Agg, Enum, Typedef)) and not isinstance(final(t)[0], (Func, Void, Fwd))]
        if x < .03:
            t = r.choice(self.large)
        elif x < .40 and named:
            t = r.choice(named)
        elif x < .62:
            y = r.random()
            t = Ptr(g.target(1))
            if y < .2:
                t = Ptr(Qual(["const"], g.base()))
            elif y < .3:
                t = Arr(g.base(), r.randint(1, 5))
            elif y < .4:
                t = Arr(Arr(g.base(), r.randint(1, 3)), r.randint(1, 3))
        else:
            t = g.base()
        if r.random() < .12 and not isinstance(final(t)[0], (Arr, Func)) and not isinstance(t, Arr):
            t = Qual([r.choice(["const", "volatile"])], t)
        return t

    # ---- C text
    def fill(self, lv, f, bits, r):
        if bits is not None:
            return "%s = vf_u64();" % lv
        if isinstance(f, Enum):
            return "{ static const __typeof__(%s) es[] = {%s}; %s = es[pbt_choose(%d)]; }" % (lv, ", ".join("(__typeof__(%s))%s" % (lv, lit(v)) for _, v in f.consts), lv, len(f.consts))
        if isinstance(f, Base):
            if f.enc == "boolean":
                return "%s = pbt_bool();" % lv
            if f.enc == "float":
                return "%s = vf_dbl();" % lv
            if f.enc == "complex_float":
                return "__real__ %s = vf_dbl(); __imag__ %s = vf_dbl();" % (lv, lv)
            return "%s = (__typeof__(%s))vf_u64();" % (lv, lv)
        return "*(void **)&%s = vf_ptr();" % lv

    def same(self, a, b, f, bits):
        if bits is not None:
            return "%s == %s" % (a, b)
        n = "sizeof(%s)" % a
        if isinstance(f, Base) and f.enc == "float" and f.size == 16:
            n = "10"
        if isinstance(f, Base) and f.enc == "complex_float" and f.size == 32:
            return "(!memcmp(&%s, &%s, 10) && !memcmp((char*)&%s + 16, (char*)&%s + 16, 10))" % (a, b, a, b)
        return "!memcmp(&%s, &%s, %s)" % (a, b, n)

    def change(self, lv, f, bits):
        if isinstance(f, Base) and f.enc == "boolean":
            return "%s = !%s;" % (lv, lv)
        if isinstance(f, Base) and f.enc in ("float", "complex_float"):
            return "%s = %s != 3 ? 3 : 4;" % (lv, lv)
        if isinstance(f, Base):
            w = bits or 8 * f.size
            return "%s = (unsigned long long)%s ^ (1ull << pbt_choose(%d));" % (lv, lv, w)
        return None

    def source(self):
        out = ['#include "metac/reflect.h"', '#include "args_rt.h"', "#include <stdint.h>", "#include <stddef.h>"]
        for t in self.g.types:
            out.append(t.definition())
        for i, ret, ps in self.fns:
            out.append(self.fn(i, ret, ps))
        out.append("const struct vf_fn vf_fns[] = {")
        for i, ret, ps in self.fns:
            f, _ = final(ret)
            out.append("  {case_%d, %d, \"fn%d\", %s}," % (i, len(ps), i, "0" if isinstance(f, Void) else "sizeof(%s)" % ret.decl("")))
        out.append("};\nconst int vf_nfns = %d;" % len(self.fns))
        return "\n".join(out) + "\n"

    def fn(self, i, ret, ps):
        r = random.Random("%s/%d" % (self.seed, i))
        sig = Func(ret, [p.t for p in ps], names=[p.name for p in ps])
        out = ["%s { __builtin_trap(); }" % sig.decl("fn%d" % i), "METAC_GSYM_LINK(fn%d);" % i,
               "typedef %s;" % Func(ret, [p.t for p in ps]).decl("ft%d" % i), "ft%d * fp%d;" % (i, i), "METAC_GSYM_LINK(fp%d);" % i]
        b = ["static void case_%d(void) {" % i]
        deep = all(p.deep for p in ps)
        conds, names, checks, changes, dom = [], [], [], [], []
        for k, p in enumerate(ps):
            t = p.t
            while isinstance(t, Qual):
                t = t.t
            f, q = final(t)
            v = "a%d" % k
            names.append(v)
            b.append("  static %s;" % t.decl(v))
            if isinstance(f, Arr):
                b.append("  memset(&%s, 0, sizeof(%s));" % (v, v))
                checks.append((k, "*(void **)q == (void *)%s" % v, "sizeof(void *)"))
                continue
            if isinstance(f, Ptr):
                ptgt, _ = final(f.t)
                if p.deep and not isinstance(t, Typedef):
                    tt = f.t
                    while isinstance(tt, Qual):
                        tt = tt.t
                    if isinstance(tt, Ref):
                        tt = None
                else:
                    tt = None
                b.append("  %s = 0;" % v)
                if tt is not None:
                    b.append("  static %s; memset(&o%d, 0, sizeof(o%d)); vf_obj(&o%d, sizeof(o%d));" % (tt.decl("o%d" % k), k, k, k, k))
                    for pa, ff, bits in self.sample(tt, r):
                        b.append("  " + self.fillsafe("o%d%s" % (k, pa), ff, bits, r))
                    b.append("  if (vf.deep) { if (!pbt_chance(1, 3)) %s = &o%d; } else *(void **)&%s = vf_ptr();" % (v, k, v))
                else:
                    b.append("  if (!vf.deep) *(void **)&%s = vf_ptr();" % v)
                checks.append((k, "!memcmp(q, &%s, sizeof(%s))" % (v, v), "sizeof(%s)" % v))
                continue
            b.append("  memset(&%s, 0, sizeof(%s));" % (v, v))
            if isinstance(f, Agg):
                ls = self.sample(t, r)
                for pa, ff, bits in ls:
                    b.append("  " + self.fillsafe(v + pa, ff, bits, r))
                al = fixlen(t)
                memory = any_agg(t, lambda a: a.packed or unnamed_bits(a))
                cond = []
                # the capture of these is a listed finding: by value through `...' in other registers than the generated reader looks in
                if memory or any(isfloat(ff) for _, ff, _ in al):
                    cond.append("sizeof(%s) > 16" % v)
                cond.append("_Alignof(%s) <= 8 && sizeof(%s) > 0" % (t.decl(""), v))
                dom.append("(%s)" % " && ".join(cond))
                checks.append((k, " && ".join(self.same("%s%s" % (v, pa), "(*(%s)q)%s" % (Ptr(t).decl(""), pa), ff, bits) for pa, ff, bits in ls) or "1", "sizeof(%s)" % v))
                for pa, ff, bits in ls:
                    c = self.change("(*(%s)q)%s" % (Ptr(t).decl(""), pa), ff, bits)
                    if c:
                        changes.append((k, c))
            else:
                b.append("  " + self.fill(v, f, None, r))
                checks.append((k, self.same(v, "*(%s)q" % Ptr(t).decl(""), f, None), "sizeof(%s)" % v))
                c = self.change("*(%s)q" % Ptr(t).decl(""), f, None)
                if c:
                    changes.append((k, c))
        if dom:
            b.append("  if (!(%s)) { pbt_label(\"aggregate out of the domain\"); return; }" % " && ".join(dom))
        al = "".join(", " + n for n in names)
        b.append("  metac_value_t * v = vf_begin(vf.type ? metac_entry_pointer_entry(METAC_GSYM_LINK_ENTRY(fp%d)) : METAC_GSYM_LINK_ENTRY(fn%d));" % (i, i))
        b.append("  if (v == NULL) return;")
        b.append("  if (vf.v) v = vf_vwrap(v%s); else v = metac_value_parameter_wrap(v, NULL%s);" % (al, al))
        b.append("  if (!vf_wrapped(v)) return;")
        for k, c, sz in checks:
            b.append("  { void * q = vf_param(%d, %s, %s); if (!(%s)) vf_bad(%d, %s, q, &a%d); vf_param_done(); }" % (k, "vf.type ? NULL : " + tprog.cstr(ps[k].name), sz, c, k, tprog.cstr(ps[k].t.decl(ps[k].name)), k))
        b.append("  vf_text(\"%s\");" % ("fn%d" % i))
        nconst = any("const" in (p.t.q if isinstance(p.t, Qual) else ()) for p in ps)
        if deep and not nconst:
            b.append("  if (vf.deep && vf_copy()) {")
            if changes:
                b.append("    switch (pbt_choose(%d)) {" % (len(changes) + 1))
                for n, (k, c) in enumerate(changes[:60]):
                    b.append("    case %d: { void * q = vf_param(%d, NULL, 0); %s vf_param_done(); vf_differs(%d); } break;" % (n + 1, k, c, k))
                b.append("    }")
            b.append("  }")
        b.append("  vf_end();\n}")
        return "\n".join(out + b)

    def fillsafe(self, lv, f, bits, r):
        if isinstance(f, Ptr):
            return "if (!vf.deep) { void * p_ = vf_ptr(); memcpy((void *)&%s, &p_, sizeof(p_)); }" % lv
        if bits is None and isinstance(f, (Base, Enum)):       # members of packed structures may be unaligned
            return "{ __typeof__(%s) t_; memset(&t_, 0, sizeof(t_)); %s memcpy((void *)&%s, &t_, sizeof(t_)); }" % (lv, self.fill("t_", f, None, r), lv)
        return self.fill(lv, f, bits, r)

    def sample(self, t, r):
        ls = [x for x in fixlen(t) if isinstance(x[1], (Base, Enum, Ptr))]
        if len(ls) > MAXL:
            ls = [ls[k] for k in sorted(set(r.sample(range(len(ls)), MAXL)) | {0, len(ls) - 1})]
        return ls


def prepare(ctx):
    tprog.prepare(ctx)
    if getattr(ctx, "args_ready", None):
        return
    src = os.path.join(core.VERIF, "harness", "args_rt.c")
    core.cc(ctx, src, ctx.path("nodebug", "args_rt.o"), ["-g0", "-O0", "-D_METAC_OFF_"])
    core.cc(ctx, src, ctx.path("args_rt.o"), core.ASAN)
    ctx.args_ready = True


def build(ctx, p, d, dbg):
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "prog.c")
    with open(src, "w") as f:
        f.write(p.source())
    inc = ["-I", os.path.join(core.VERIF, "harness")]
    comp, ver = dbg
    mo, elf, rc = d + "/m.o", d + "/_meta", d + "/reflect.c"
    core.cc(ctx, src, mo, [ver, "-O0", "-D_METAC_OFF_"] + inc, comp)
    lib0 = [ctx.path("nodebug", n + ".o") for n in core.LIB_NO_REFLECT + core.LIB_REFLECT + ["args_rt", "pbt"]]
    core.run(["gcc", "-o", elf, mo] + lib0 + core.WRAP, check=True)
    core.gen_reflect(ctx, elf, rc, "program %s" % p.seed)
    r = core.cc(ctx, rc, d + "/reflect.o", ["-g0", "-O0"], comp, check=False)
    if r.returncode != 0:
        raise core.Broken("generated code does not compile", {"kind": "generated code does not compile", "stderr": r.stderr.decode("utf8", "replace")[:3000]})
    core.cc(ctx, src, d + "/prog.o", ["-g0", "-O0"] + inc, comp)
    exe = d + "/prog"
    r = core.run(["gcc", "-fsanitize=address", "-o", exe, d + "/prog.o", d + "/reflect.o", ctx.path("args_rt.o"), ctx.path("pbt.o")] + ctx.tp_lib + core.WRAP)
    if r.returncode != 0:
        raise core.Broken("program with generated reflection does not link", {"kind": "link failed", "stderr": r.stderr.decode("utf8", "replace")[:3000]})
    return exe


def run(ctx, seeds, configs, cases, rule, part="call-capture"):
    prepare(ctx)
    t_end = ctx.t0 + ctx.scale(330, 780)

    def go(p, dbg, tag, n):
        d = ctx.path("args", "%d_%s%s_%s" % (p.seed, dbg[0], dbg[1], tag), "x")[:-2]
        exe = build(ctx, p, d, dbg)
        r = core.run([exe, "--seed", str(core.subseed(ctx.seed, part, p.seed)), "--cases", str(n), "--batch", "500", "--tmax", "200",
                      "--out", d + "/o.json", "--hashes", d + "/h"], timeout=900)
        if r.returncode != 0:
            raise core.InfraError("engine: %d %s" % (r.returncode, r.stderr[-800:]))
        with open(d + "/o.json", encoding="utf8") as f:
            o = json.load(f)
        hs = open(d + "/h", "rb").read() if os.path.exists(d + "/h") else b""
        return o, [(p.seed, dbg, hs[i:i + 8]) for i in range(0, len(hs), 8)], exe, d

    def one(a):
        s, dbg = a
        if time.time() > t_end:
            return None
        try:
            o, keys, exe, d = go(ArgProgram(s), dbg, "v", cases)
        except core.Broken as b:
            return a, None, [], b
        f = o["failure"]
        if f and sum(replay_at(exe, d, f["repro"]["choices"])["kind"] != "ok" for _ in range(3)) != 3:
            o["failure"] = None
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
        return a, o, keys, None
    done = 0
    jobs = [(s, c) for s in seeds for c in configs(s)]
    for r in core.pmap(one, jobs):
        if r is None:
            continue
        a, o, keys, broken = r
        done += 1
        if o:
            ctx.add(o["evaluations"], keys, {"%s: %s" % (part, k): v for k, v in o["labels"].items()}, [], rule)
            if len(ctx.samples) < 12 and done <= 6:
                for s in o["samples"][:2]:
                    ctx.samples.append({"program": a[0], "part": part, "case": s[:800]})
        if (broken or o["failure"]) and not ctx.failures:
            rep = {"engine": "args", "seed": a[0], "config": a[1], "cases": cases, "part": part}
            if broken:
                what = broken.what
                rep.update(broken.replay)
            else:
                f = o["failure"]["repro"]
                what = "%s %s" % (f["kind"], f["message"])
                rep.update(choices=f["choices"], case=f["case"], stderr=f.get("stderr", ""))
                # the function alone, then without parameters that do not matter
                try:
                    fi = int(f["case"].split("fn", 1)[1].split("(")[0].split()[0])
                    keep = None
                    base = ArgProgram(a[0], only=fi)

                    def bad(nparams):
                        o2, _, _, d2 = go(ArgProgram(a[0], only=fi, nparams=nparams), a[1], "w", min(cases, 3000))
                        shutil.rmtree(d2, ignore_errors=True)
                        return o2["failure"] if o2["failure"] and o2["failure"]["repro"]["kind"] == f["kind"] else None
                    f2 = bad(None)
                    if f2:
                        keep = list(range(len(base.fns[0][2])))
                        t1 = time.time() + 90
                        for k in list(keep):
                            if time.time() > t1:
                                break
                            x = bad([j for j in keep if j != k])
                            if x:
                                keep.remove(k)
                                f2 = x
                        f = f2["repro"]
                        rep.update(only=fi, nparams=keep, choices=f["choices"], case=f["case"], stderr=f.get("stderr", ""), source=ArgProgram(a[0], only=fi, nparams=keep).source())
                        what = "%s %s" % (f["kind"], f["message"])
                except (ValueError, IndexError, core.Broken):
                    pass
            ctx.fail("%s: program %s (%s %s): %s" % (part, a[0], a[1][0], a[1][1], what), rep)
    ctx.parts.append({"part": part, "programs": done, "planned": len(jobs)})


def replay_at(exe, d, choices):
    f, o = d + "/replay.txt", d + "/replay.json"
    with open(f, "w") as h:
        h.write(" ".join(map(str, choices)))
    core.run([exe, "--replay", f, "--out", o], timeout=200)
    with open(o, encoding="utf8") as h:
        return json.load(h)


def replay(ctx, r):
    prepare(ctx)
    d = ctx.path("args", "replay", "x")[:-2]
    try:
        exe = build(ctx, ArgProgram(r["seed"], only=r.get("only"), nparams=r.get("nparams")), d, tuple(r["config"]))
    except core.Broken as b:
        print(b.what, b.replay)
        return 1
    out = replay_at(exe, d, r["choices"])
    print(out["kind"], out["message"])
    print(out["case"])
    print(out["stderr"])
    return 0 if out["kind"] == "ok" else 1
