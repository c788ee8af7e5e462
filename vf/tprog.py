"""Writes a generated program (types.h, twin.h, cu*.c, oracle.c) and builds it."""
import os, random
from . import core
from .tgen import *

STEP_ELEM = 1000000
MAXLEAVES = 48


def cstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


class D:
    """builds the C statements which write an expected description"""

    def __init__(self):
        self.out = []

    def s(self, x):
        if self.out and self.out[-1][0] == "s":
            self.out[-1] = ("s", self.out[-1][1] + x)
        else:
            self.out.append(("s", x))

    def n(self, e):
        self.out.append(("n", e))

    def code(self):
        return " ".join('X(%s);' % cstr(v) if k == "s" else "XN((long long)(%s));" % v for k, v in self.out)


def desc(d, t, full=0, inh=()):
    """full: how many levels of aggregates with a tag are written in full"""
    f, q = final(t)
    q = set(q) | set(inh)
    if isinstance(f, Arr):      # qualifiers of an array are those of its elements
        d.s("a[%d](" % (-1 if f.n is None else f.n))
        desc(d, f.t, full, q)
        d.s(")")
        return
    pre = "".join(c for c, n in (("c", "const"), ("v", "volatile"), ("r", "restrict")) if n in q)
    if pre and not isinstance(f, Void):
        d.s(pre + " ")
    if isinstance(f, Void):
        d.s("v")
    elif isinstance(f, Base):
        d.s("b:%s:%d:%d" % (f.name, ENC[f.enc], f.size))
    elif isinstance(f, Enum):
        d.s("e:%s:" % (f.tag or ""))
        d.s("%d{" % f.size())
        for n, v in f.consts:
            d.s("%s=%d," % (n, v))
        d.s("}")
    elif isinstance(f, Ptr):
        d.s("p(")
        desc(d, f.t, full)
        d.s(")")
    elif isinstance(f, Func):
        d.s("f(")
        desc(d, f.ret, full - 1)
        for p in f.params:
            d.s(";")
            desc(d, p, full - 1)
        if f.variadic:
            d.s(";...")
        d.s(")")
    elif isinstance(f, Fwd):
        d.s("%s:%s!" % (f.kind[0], f.tag))
    elif isinstance(f, Agg):
        d.s("%s:%s" % (f.kind[0], f.tag or ""))
        if f.tag is None or full > 0:
            d.s(":")
            d.n("sizeof(%s)" % f.twtag())
            d.s("{")
            for i, m in enumerate(f.members):
                if m.name is None and m.bits is not None:
                    continue
                nm = m.name or "an_%d" % i
                d.s("%s@" % (m.name or ""))
                if m.bits is not None:
                    d.s("bit")
                    d.n("VF_BITPOS(%s, %s)" % (f.twtag(), nm))
                    d.s("+%d:" % m.bits)
                else:
                    d.n("offsetof(%s, %s)" % (f.twtag(), nm))
                    d.s(":")
                desc(d, m.t, full - 1)
                d.s(";")
            d.s("}")
    else:
        raise AssertionError(t)


class Var:
    declared, second = False, None      # declared in decls.h; unit which uses the link as well

    def __init__(self, name, t, cu, static=False):
        self.name, self.t, self.cu, self.static = name, t, cu, static


class Fn:
    declared, second = False, None

    def __init__(self, name, t, cu, static=False):
        self.name, self.t, self.cu, self.static = name, t, cu, static


class Local:
    """a function with declarations tied to a declaration location"""

    def __init__(self, name, cu, blocks):
        self.name, self.cu, self.blocks = name, cu, blocks   # blocks: list of (locname, [(varname, type)], nested?)


class Program:
    def __init__(self, seed, ntypes=14, ncu=2, nfn=6, nloc=3, nadhoc=6, private=False, shared=False, **opt):
        self.seed = seed
        g = self.g = Gen(seed, **opt)
        r = g.r
        for _ in range(ntypes):
            g.add_type()
        self.types = g.types
        self.ncu = ncu
        self.vars, self.fns, self.locals = [], [], []
        for t in self.types:
            f, _ = final(t)
            vt = Ptr(t) if isinstance(f, (Fwd, Func, Void)) else t
            v = Var("%sv%d" % (r.choice(["", "g_", "zz"]), len(self.vars)), vt, r.randrange(ncu), r.random() < .2)
            v.top = t
            self.vars.append(v)
            if r.random() < .15:     # the same type again in another compile unit
                self.vars.append(Var("w%d" % len(self.vars), g.q(vt), r.randrange(ncu)))
        for _ in range(nadhoc):
            t = g.q(g.leafish(2)) if r.random() < .92 else Arr(g.base(), 0)
            self.vars.append(Var("x%d" % len(self.vars), t, r.randrange(ncu)))
        self.priv = []          # (compile unit, type): tags and typedefs which mean something else in another unit
        if private and ncu > 1:
            self.private()
        for i in range(nfn):
            self.fns.append(Fn("fn%d" % i, g.func(2, names=True), r.randrange(ncu), r.random() < .2))
        for i in range(nloc):
            bl = []
            for k in range(r.randint(1, 3)):
                vs, used = [], set()
                for _ in range(r.randint(1, 4)):
                    n = r.choice(["x", "y", "val", "p", "a1", "zz", "xx", "va", "x1", "value_", "a", "a12"])
                    if n in used:
                        continue
                    used.add(n)
                    t = g.leafish(1)
                    f, _ = final(t)
                    t = Ptr(Void()) if isinstance(f, (Fwd, Func, Void)) else t
                    vs.append((n, t, r.random() < .2))
                bl.append((r.choice(["loc", "dl%d" % k, "here", "lo", "loc1", "d"]), vs))
            self.locals.append(Local("local%d" % i, r.randrange(ncu), bl))
        self.globs, self.module, self.decoys = [], None, {}
        if shared:
            self.module = r.choice([None, None, None, "app", "dfltx", "lib2"])
            self.share()

    def share(self):
        """declarations in a header, links used from other units, declaration locations outside of functions"""
        g, r = self.g, self.g.r
        for v in self.vars + self.fns:
            if v.static:
                continue
            v.declared = r.random() < .4 and "{" not in v.t.decl(v.name)
            if r.random() < .35:
                v.second = r.randrange(self.ncu)
        for i in range(r.choice([0, 1, 2, 3])):
            vs = []
            for k in range(r.randint(1, 3)):
                t = g.leafish(1)
                if isinstance(final(t)[0], (Fwd, Func, Void)):
                    t = Ptr(Void())
                vs.append(("gl%d_%d" % (i, k), t, r.random() < .3))
            self.globs.append(Local("glob%d" % i, r.randrange(self.ncu), [("gloc%d" % i, vs)]))
        # something else of the same name: static in another unit, or local in a function
        self.decoys = {}
        for k in range(self.ncu):
            ds = self.decoys[k] = []
            for v in self.vars + self.fns:
                x = r.random()
                if x < .1 and v.cu != k and not v.declared and v.second != k:
                    ds.append("static %s __attribute__((used));" % g.base().decl(v.name) if x < .06 else "static %s { __builtin_trap(); }\nvoid * usef_%d_%s(void) { return (void *)%s; }" % (Func(g.base(), [g.base()], names=["x"]).decl(v.name), k, v.name, v.name))
                elif x < .2:
                    ds.append("void shadow_%d_%s(%s) { %s%s; (void)%s; }" % (k, v.name, g.base().decl("x"), r.choice(["", "static "]), g.base().decl(v.name), v.name)
                              if x < .16 else "void shadow_%d_%s(%s) { }" % (k, v.name, g.base().decl(v.name)))

    def private(self):
        g, r = self.g, self.g.r
        for _ in range(r.choice([1, 2, 2, 3])):
            kind, name, old = r.choice(["struct", "struct", "union", "enum", "typedef"]), g.fresh("pv"), []
            for k in range(self.ncu):
                x = r.random()
                if x < .25 and old:          # the same as elsewhere
                    t = r.choice(old)
                elif x < .4 and kind in ("struct", "union"):
                    t = Fwd(kind, name)
                elif x < .75 and [o for o in old if not isinstance(o, Fwd)]:       # one small difference
                    o = r.choice([o for o in old if not isinstance(o, Fwd)])
                    t = Typedef(name, g.near(o.t)) if kind == "typedef" else g.near(o)
                elif kind == "typedef":
                    t = Typedef(name, r.choice([g.base(), Ptr(g.base()), Arr(g.base(), r.randint(1, 4)), g.agg(1, anon=True), g.enum(anon=True)]))
                elif kind == "enum":
                    t = g.enum(mode=r.choice(["big", "big", "u32", "neg", None]))
                    t.tag = name
                else:
                    t = g.agg(1, kind=kind)
                    t.tag = name
                old.append(t)
                self.priv.append((k, t))
                whole = not isinstance(t, Fwd)
                for _ in range(r.randint(1, 3)):
                    vt = r.choice([t, Ptr(t), Ptr(t), Ptr(Ptr(t)), Arr(Ptr(t), 2), Qual(["const"], t)] if whole else [Ptr(t), Ptr(Ptr(t)), Arr(Ptr(t), 2)])
                    if isinstance(final(t)[0], Arr) and isinstance(vt, Qual):
                        vt = t
                    self.vars.append(Var("pvar%d" % len(self.vars), vt, k))
                if r.random() < .5:
                    self.vars.append(Var("pvar%d" % len(self.vars), Ptr(Func(Void(), [Ptr(t)])), k))

        for _ in range(r.choice([0, 1, 2])):        # types without a name, nearly the same in several units
            kind, old = r.choice(["struct", "union", "enum", "func"]), []
            for k in range(self.ncu):
                x = r.random()
                if x < .3 and old:
                    t = r.choice(old)
                elif x < .9 and old:
                    t = g.near(r.choice(old))
                elif kind == "func":
                    t = g.func(1)
                else:
                    t = g.enum(anon=True, mode=r.choice(["big", "big", "u32", "neg", None])) if kind == "enum" else g.agg(1, kind=kind, anon=True)
                old.append(t)
                self.vars.append(Var("nvar%d" % len(self.vars), Ptr(t) if kind == "func" else t, k, r.random() < .3))

    # ---- text
    def types_h(self):
        out = ["#ifndef TYPES_H", "#define TYPES_H", "#include <stdint.h>", "#include <stddef.h>"]
        for t in self.types:
            out.append(t.definition())
        out.append("#endif")
        return "\n".join(out) + "\n"

    def decls_h(self):
        out = ['#include "types.h"', '#include "metac/reflect.h"']
        for v in self.vars + self.fns:
            if v.declared and not v.name.startswith("pvar"):
                out.append("extern %s;" % v.t.decl(v.name))
            if v.second is not None:
                out.append("extern METAC_GSYM_LINK_DECLARE(%s);" % v.name)
        return "\n".join(out) + "\n"

    def twin_h(self):
        out = ["#include <stdint.h>", "#include <stddef.h>", "#include <string.h>"]
        ts = self.types + [t for _, t in self.priv] + [v.t for v in self.vars] + [t for l in self.locals + self.globs for _, vs in l.blocks for _, t, _ in vs]
        for a in collect_aggs(ts):
            out.append(a.definition(True))
        for i, v in enumerate(self.vars):
            out.append("typedef %s;" % v.t.decl("twv_%d" % i, True))
        return "\n".join(out) + "\n"

    def cu_c(self, k):
        out = ['#include "decls.h"']
        out += [t.definition() for c, t in self.priv if c == k]
        out += self.decoys.get(k, [])
        for v in self.vars:
            if v.cu == k:
                out.append("%s%s;" % ("static " if v.static else "", v.t.decl(v.name)))
                out.append("METAC_GSYM_LINK(%s);" % v.name)
                out.append("metac_entry_t * entry_%s(void) { return METAC_GSYM_LINK_ENTRY(%s); }" % (v.name, v.name))
                out.append("void * addr_%s(void) { return (void *)&%s; }" % (v.name, v.name))
                out.append("metac_value_t * value_%s(void) { return METAC_VALUE_FROM_LINK(%s); }" % (v.name, v.name))
        for f in self.fns:
            if f.cu == k:
                out.append("%s%s { __builtin_trap(); }" % ("static " if f.static else "", f.t.decl(f.name)))
                out.append("METAC_GSYM_LINK(%s);" % f.name)
                out.append("metac_entry_t * entry_%s(void) { return METAC_GSYM_LINK_ENTRY(%s); }" % (f.name, f.name))
        for v in self.vars + self.fns:
            if v.second == k:
                out.append("metac_entry_t * entry2_%s(void) { return METAC_GSYM_LINK_ENTRY(%s); }" % (v.name, v.name))
        for l in self.globs:
            if l.cu == k:
                ln, vs = l.blocks[0]
                out.append("WITH_METAC_DECLLOC(%s, %s)" % (ln, "".join("%s%s; " % ("static " if st else "", t.decl(nm)) for nm, t, st in vs)))
                # the compiler drops static variables nobody uses
                out.append("void * use_%s(int k) { %s return 0; }" % (l.name, " ".join("if (k == %d) return (void *)&%s;" % (i, x[0]) for i, x in enumerate(vs))))
                out.append("metac_entry_t * %s(int k) {" % l.name)
                for n, (nm, t, st) in enumerate(vs):
                    out.append("  if (k == %d) return METAC_ENTRY_FROM_DECLLOC(%s, %s);" % (n, ln, nm))
                out.append("  if (k == 1000) return METAC_ENTRY_FROM_DECLLOC(%s, nosuchvar);\n  return NULL;\n}" % ln)
        for l in self.locals:
            if l.cu == k:
                out.append("metac_entry_t * %s(int k) {" % l.name)
                n = 0
                for b, (ln, vs) in enumerate(l.blocks):
                    out.append("  {")
                    out.append("  WITH_METAC_DECLLOC(%s, %s)" % (ln, "".join("%s%s; " % ("static " if st else "", t.decl(nm)) for nm, t, st in vs)))
                    for nm, t, st in vs:
                        out.append("  if (k == %d) return METAC_ENTRY_FROM_DECLLOC(%s, %s);" % (n, ln, nm))
                        n += 1
                    out.append("  if (k == %d) return METAC_ENTRY_FROM_DECLLOC(%s, nosuchvar);" % (1000 + b, ln))
                    out.append("  }")
                out.append("  return NULL;\n}")
        if k == self.ncu - 1 and self.module:
            out.append("METAC_MODULE(METAC_MODULE_NAME);")
        if k == 0:
            out.append("METAC_DB_LINK();")
            out.append("struct metac_db * vf_db(void) { return METAC_DB_LINK_PTR(); }")
        return "\n".join(out) + "\n"

    def leaves(self, vi):
        v = self.vars[vi]
        r = random.Random("%s/%s" % (self.seed, v.name))
        res = []

        def walk(path, steps, t, mem):
            f, q = final(t)
            if isinstance(f, Agg):
                k = 0
                for i, m in enumerate(f.members):
                    if m.name is None and m.bits is not None:
                        continue
                    walk(path + "." + (m.name or "an_%d" % i), steps + [k], m.t, m)
                    k += 1
            elif isinstance(f, Arr):
                if not f.n:
                    return
                idx = sorted(set([0, f.n - 1] + [r.randrange(f.n)]))
                for i in idx:
                    walk(path + "[%d]" % i, steps + [STEP_ELEM + i], f.t, None)
            elif isinstance(f, (Base, Enum, Ptr)):
                res.append((path, steps, f, q, mem.bits if mem is not None else None))
        walk("", [], v.t, None)
        if len(res) > MAXLEAVES:
            res = r.sample(res, MAXLEAVES)
        return res

    def nodes(self, vi):
        """(path, steps, type, member) of the aggregates and arrays inside a variable"""
        v = self.vars[vi]
        res = []

        def walk(path, steps, t):
            f, q = final(t)
            if len(res) > 30:
                return
            if isinstance(f, Agg):
                res.append((path, steps, f))
                k = 0
                for i, m in enumerate(f.members):
                    if m.name is None and m.bits is not None:
                        continue
                    if m.bits is None:
                        walk(path + "." + (m.name or "an_%d" % i), steps + [k], m.t)
                    k += 1
            elif isinstance(f, Arr):
                res.append((path, steps, f))
                if f.n:
                    walk(path + "[%d]" % (f.n - 1), steps + [STEP_ELEM + f.n - 1], f.t)
        walk("", [], v.t)
        return res

    def oracle_c(self, leaves=True):
        out = ['#include "twin.h"', '#include "rt.h"']
        rows = []
        for i, v in enumerate(self.vars):
            d = D()
            desc(d, v.t, 2)
            out.append("static void exp_%d(void) { %s }" % (i, d.code()))
            if v.second is not None:
                out.append("extern metac_entry_t * entry2_%s(void);" % v.name)
            out.append("extern metac_entry_t * entry_%s(void); extern void * addr_%s(void); extern metac_value_t * value_%s(void);" % (v.name, v.name, v.name))
            lrows, nrows = [], []
            if leaves:
                for j, (path, steps, f, q, bits) in enumerate(self.leaves(i)):
                    lt = f.decl("", True) if not isinstance(f, Ptr) else "void *"
                    ob = "(*(twv_%d *)o)%s" % (i, path)
                    out.append("static void g_%d_%d(void *o, void *p) { *(%s *)p = %s; }" % (i, j, lt, ob))
                    out.append("static void s_%d_%d(void *o, void *p) { %s = *(%s *)p; }" % (i, j, ob, lt))
                    out.append("static const int st_%d_%d[] = {%s};" % (i, j, ",".join(map(str, steps)) or "0"))
                    kind = "VF_BASE" if isinstance(f, Base) else "VF_ENUM" if isinstance(f, Enum) else "VF_PTR"
                    api = f.i if isinstance(f, Base) else -1
                    off = "-1" if bits is not None else "(long)(intptr_t)&((*(twv_%d *)0)%s)" % (i, path)
                    en = "en_%d_%d" % (i, j) if isinstance(f, Enum) else "0"
                    if isinstance(f, Enum):
                        out.append("static const struct vf_econst en_%d_%d[] = {%s};" % (i, j, ",".join("{%s,%s}" % (cstr(n), lit(x)) for n, x in f.consts)))
                    ts = "0"
                    if isinstance(f, Ptr):
                        g = final(f.t)[0]
                        if not isinstance(g, (Void, Func, Fwd)) and not (isinstance(g, Arr) and not g.n):
                            ts = "sizeof(%s)" % f.t.decl("", True)
                    lrows.append("{%s,st_%d_%d,%d,%s,%d,%d,%d,%d,%d,%s,g_%d_%d,s_%d_%d,%s,%d,%s}" % (
                        cstr(v.name + path), i, j, len(steps), kind, api, bits if bits is not None else 0, int("const" in q),
                        (f.size if isinstance(f, Base) else f.size() if isinstance(f, Enum) else 8), int(isinstance(f, Enum) and f.signed()),
                        off, i, j, i, j, en, len(f.consts) if isinstance(f, Enum) else 0, ts))
                for j, (path, steps, f) in enumerate(self.nodes(i)):
                    out.append("static const int ns_%d_%d[] = {%s};" % (i, j, ",".join(map(str, steps)) or "0"))
                    if isinstance(f, Agg):
                        ms = [(k, m) for k, m in enumerate(f.members) if not (m.name is None and m.bits is not None)]
                        out.append("static const struct vf_mem nm_%d_%d[] = {%s};" % (i, j, ",".join(
                            "{%s,%s}" % (cstr(m.name) if m.name else "0", "-1" if m.bits is not None else "(long)offsetof(%s,%s)" % (f.twtag(), m.name or "an_%d" % k)) for k, m in ms)))
                        nrows.append("{%s,ns_%d_%d,%d,%s,%d,nm_%d_%d,(long)(intptr_t)&((*(twv_%d *)0)%s),0,0}" % (cstr(v.name + path), i, j, len(steps), "VF_AGG", len(ms), i, j, i, path))
                    else:
                        es = "sizeof((*(twv_%d *)0)%s[0])" % (i, path)
                        nrows.append("{%s,ns_%d_%d,%d,%s,%d,0,(long)(intptr_t)&((*(twv_%d *)0)%s),%s,%d}" % (cstr(v.name + path), i, j, len(steps), "VF_ARR", -1 if f.n is None else f.n, i, path, es, int(isinstance(final(f.t)[0], Base) and final(f.t)[0].sp == "char")))
            out.append("static const struct vf_leaf lv_%d[] = {%s};" % (i, ",\n".join(lrows) or "{0}"))
            out.append("static const struct vf_node nd_%d[] = {%s};" % (i, ",\n".join(nrows) or "{0}"))
            flex = isinstance(final(v.t)[0], Agg) and final(v.t)[0].flexible()
            rows.append("{%s,entry_%s,addr_%s,value_%s,sizeof(twv_%d),exp_%d,lv_%d,%d,nd_%d,%d,%d,%s,%d}" % (cstr(v.name), v.name, v.name, v.name, i, i, i, len(lrows), i, len(nrows), int(flex), "entry2_" + v.name if v.second is not None else "0", v.cu))
        out.append("const struct vf_var vf_vars[] = {%s};\nconst int vf_nvars = %d;" % (",\n".join(rows), len(rows)))
        rows = []
        for i, f in enumerate(self.fns):
            d = D()
            desc(d, f.t, 2)
            out.append("static void fexp_%d(void) { %s }" % (i, d.code()))
            out.append("extern metac_entry_t * entry_%s(void);" % f.name)
            if f.second is not None:
                out.append("extern metac_entry_t * entry2_%s(void);" % f.name)
            out.append("static const char * const fp_%d[] = {%s};" % (i, ",".join(map(cstr, f.t.names)) or "0"))
            rows.append("{%s,entry_%s,fexp_%d,fp_%d,%d,%s,%d}" % (cstr(f.name), f.name, i, i, len(f.t.params), "entry2_" + f.name if f.second is not None else "0", f.cu))
        out.append("const struct vf_fn vf_fns[] = {%s};\nconst int vf_nfns = %d;" % (",\n".join(rows) or "{0}", len(rows)))
        rows = []
        for l in self.locals + self.globs:
            out.append("extern metac_entry_t * %s(int k);" % l.name)
            n = 0
            for b, (ln, vs) in enumerate(l.blocks):
                for nm, t, st in vs:
                    d = D()
                    desc(d, t, 1)
                    out.append("static void lexp_%s_%d(void) { %s }" % (l.name, n, d.code()))
                    rows.append("{%s,%s,%d,lexp_%s_%d,%d,%s}" % (cstr("%s:%s:%s" % (l.name, ln, nm)), l.name, n, l.name, n, l.cu, "0" if l in self.globs else cstr(l.name)))
                    n += 1
                rows.append("{%s,%s,%d,0}" % (cstr("%s:%s:nosuchvar" % (l.name, ln)), l.name, 1000 + b))
        out.append("const struct vf_loc vf_locs[] = {%s};\nconst int vf_nlocs = %d;" % (",\n".join(rows) or "{0}", len(rows)))
        # names the name database has to know
        rows = []
        for t in self.used_named():
            d = D()
            desc(d, t, 2)
            out.append("static void nexp_%d(void) { %s }" % (len(rows), d.code()))
            cat = {"struct": 0, "union": 1}[t.kind] if isinstance(t, Agg) else 2 if isinstance(t, Enum) else 3
            rows.append("{%d,%s,nexp_%d}" % (cat, cstr(t.tag if not isinstance(t, Typedef) else t.name), len(rows)))
        out.append("const struct vf_named vf_named[] = {%s};\nconst int vf_nnamed = %d;" % (",\n".join(rows) or "{0}", len(rows)))
        return "\n".join(out) + "\n"

    def used_named(self):
        seen, out = set(), []

        def walk(t):
            if isinstance(t, Ref):
                t = t.agg
            if id(t) in seen:
                return
            seen.add(id(t))
            if isinstance(t, Typedef) or (isinstance(t, (Agg, Enum)) and t.tag):
                if not (isinstance(t, Typedef) and isinstance(final(t)[0], Void)):
                    out.append(t)
            for d in t.deps():
                walk(d)
        for v in self.vars:
            walk(v.t)
        pv = {getattr(t, "tag", None) or t.name for _, t in self.priv}
        return [t for t in out if (getattr(t, "tag", None) or getattr(t, "name", None)) not in pv]

    def write(self, d, leaves=True):
        os.makedirs(d, exist_ok=True)
        files = {"types.h": self.types_h(), "decls.h": self.decls_h(), "twin.h": self.twin_h(), "oracle.c": self.oracle_c(leaves)}
        for k in range(self.ncu):
            files["cu%d.c" % k] = self.cu_c(k)
        for n, s in files.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(s)
        return files

    def source_text(self):
        return "\n".join("// ---- %s\n%s" % (n, s) for n, s in [("types.h", self.types_h()), ("decls.h", self.decls_h())] + [("cu%d.c" % k, self.cu_c(k)) for k in range(self.ncu)])


# ------------------------------------------------------------------ building
def prepare(ctx):
    """objects shared by all programs"""
    if getattr(ctx, "tp_ready", None):
        return
    core.build_metac(ctx)
    lib = core.build_lib(ctx)
    for n in core.LIB_NO_REFLECT + core.LIB_REFLECT:
        pass
    core.pmap(lambda n: core.cc(ctx, os.path.join(core.REPO, "src", n + ".c"), ctx.path("nodebug", n + ".o"), ["-g0", "-O0", "-D_METAC_OFF_", "-DMETAC_MODULE_NAME=libmetac"]), core.LIB_NO_REFLECT + core.LIB_REFLECT)
    eng = os.path.join(core.VERIF, "engine")
    core.cc(ctx, os.path.join(eng, "pbt.c"), ctx.path("nodebug", "pbt.o"), ["-g0", "-O0", "-DPBT_NO_ASAN"])
    core.cc(ctx, os.path.join(eng, "pbt.c"), ctx.path("pbt.o"), core.ASAN)
    for rt in ("rt_static", "rt_value"):
        src = os.path.join(core.VERIF, "harness", rt + ".c")
        if os.path.exists(src):
            core.cc(ctx, src, ctx.path("nodebug", rt + ".o"), ["-g0", "-O0", "-D_METAC_OFF_"])
            core.cc(ctx, src, ctx.path(rt + ".o"), core.ASAN)
    ctx.tp_lib = lib
    ctx.tp_ready = True


def build(ctx, prog, d, rt="rt_static", dbg=("gcc", "-gdwarf-5"), leaves=True, extra_c=()):
    """two-pass build; raises Broken when the generator or its output fails"""
    prog.write(d, leaves)
    comp, ver = dbg
    inc = ["-I", d, "-I", os.path.join(core.VERIF, "harness")] + (["-DMETAC_MODULE_NAME=" + prog.module] if prog.module else [])
    metas = []
    for k in range(prog.ncu):
        o = os.path.join(d, "cu%d.meta.o" % k)
        core.cc(ctx, os.path.join(d, "cu%d.c" % k), o, [ver if ver != "-g" else "-g", "-O0", "-D_METAC_OFF_"] + inc, comp)
        metas.append(o)
    oo = os.path.join(d, "oracle.o")
    core.cc(ctx, os.path.join(d, "oracle.c"), oo, ["-g0", "-O0"] + inc)
    lib0 = [ctx.path("nodebug", n + ".o") for n in core.LIB_NO_REFLECT + core.LIB_REFLECT]
    use_pbt = rt != "rt_static"
    elf = os.path.join(d, "_meta")
    core.run(["gcc", "-o", elf] + metas + [oo, ctx.path("nodebug", rt + ".o")] + ([ctx.path("nodebug", "pbt.o")] if use_pbt else []) + lib0 + (core.WRAP if use_pbt else []), check=True)
    rc = os.path.join(d, "reflect.c")
    core.gen_reflect(ctx, elf, rc, "program %s" % prog.seed)
    jobs = [(rc, os.path.join(d, "reflect.o"), ["-g0", "-O0"] + inc)] + [(os.path.join(d, "cu%d.c" % k), os.path.join(d, "cu%d.o" % k), ["-g0", "-O0"] + inc) for k in range(prog.ncu)]
    for s, o, fl in jobs:
        r = core.cc(ctx, s, o, fl, check=False)
        if r.returncode != 0:
            if s == rc:
                raise core.Broken("generated code does not compile", {"kind": "generated code does not compile", "stderr": r.stderr.decode("utf8", "replace")[:3000]})
            raise core.InfraError("generated program does not compile: " + r.stderr.decode("utf8", "replace")[:3000])
    exe = os.path.join(d, "prog")
    r = core.run(["gcc", "-fsanitize=address", "-o", exe] + [j[1] for j in jobs] + [oo, ctx.path(rt + ".o")] + ([ctx.path("pbt.o")] if use_pbt else []) + ctx.tp_lib + (core.WRAP if use_pbt else []))
    if r.returncode != 0:
        raise core.Broken("program with generated reflection does not link", {"kind": "link failed", "stderr": r.stderr.decode("utf8", "replace")[:3000]})
    return exe
