"""Generator of C type models and of the C programs made of them.

A program is a list of named types (struct/union/enum/typedef) in dependency
order, global variables and functions spread over several compile units, and
function-local declarations.  The model knows how to write
  * the real declarations (what the project's generator has to understand),
  * a `twin' of every aggregate: same layout, every aggregate tagged, every
    member named, no qualifiers - used by the oracle for direct access,
  * code that builds the expected description of a type from compiler facts.
"""
import random
import re

# spelling, normalised reflected name, encoding, api suffix, sizeof
ENC = dict(boolean=2, complex_float=3, float=4, signed=5, signed_char=6, unsigned=7, unsigned_char=8)
BASES = [
    ("char", "char", "signed_char", "char", 1), ("unsigned char", "unsigned char", "unsigned_char", "uchar", 1),
    ("signed char", "signed char", "signed_char", None, 1),
    ("short", "short int", "signed", "short", 2), ("unsigned short", "unsigned short int", "unsigned", "ushort", 2),
    ("int", "int", "signed", "int", 4), ("unsigned int", "unsigned int", "unsigned", "uint", 4),
    ("long", "long int", "signed", "long", 8), ("unsigned long", "unsigned long int", "unsigned", "ulong", 8),
    ("long long", "long long int", "signed", "llong", 8), ("unsigned long long", "unsigned long long int", "unsigned", "ullong", 8),
    ("_Bool", "_Bool", "boolean", "bool", 1), ("float", "float", "float", "float", 4), ("double", "double", "float", "double", 8),
    ("long double", "long double", "float", "ldouble", 16), ("float _Complex", "complex float", "complex_float", "float_complex", 8),
    ("double _Complex", "complex double", "complex_float", "double_complex", 16),
    ("long double _Complex", "long complex double", "complex_float", "ldouble_complex", 32),
]


class T:
    quals = frozenset()

    def decl(self, name, tw=False):
        """C declaration of `name' with this type."""
        raise NotImplementedError

    def deps(self):
        return []


class Base(T):
    def __init__(self, i):
        self.i = i
        self.sp, self.name, self.enc, self.api, self.size = BASES[i]

    def decl(self, name, tw=False):
        return (self.sp + " " + name).rstrip()


class Void(T):
    def decl(self, name, tw=False):
        return ("void " + name).rstrip()


class Qual(T):
    def __init__(self, q, t):
        self.q, self.t = frozenset(q), t

    def decl(self, name, tw=False):
        if tw:
            return self.t.decl(name, tw)
        qs = " ".join(sorted(self.q))
        if isinstance(self.t, Ptr):
            return self.t.decl(qs + " " + name, tw)
        return qs + " " + self.t.decl(name, tw)

    def deps(self):
        return [self.t]


class Ptr(T):
    def __init__(self, t):
        self.t = t

    def decl(self, name, tw=False):
        if tw:
            return "void * " + name
        if isinstance(self.t, (Arr, Func)):
            return self.t.decl("(* " + name + ")", tw)
        return self.t.decl("* " + name, tw)

    def deps(self):
        return [self.t]


class Arr(T):
    def __init__(self, t, n):
        self.t, self.n = t, n

    def decl(self, name, tw=False):
        return self.t.decl("%s[%s]" % (name, "" if self.n is None else self.n), tw)

    def deps(self):
        return [self.t]


class Func(T):
    def __init__(self, ret, params, variadic=False, names=None):
        self.ret, self.params, self.variadic, self.names = ret, params, variadic, names or [""] * len(params)

    def decl(self, name, tw=False):
        ps = [p.decl(n, tw) for p, n in zip(self.params, self.names)]
        if self.variadic:
            ps.append("...")
        return self.ret.decl("%s(%s)" % (name, ", ".join(ps) or "void"), tw)

    def deps(self):
        return [self.ret] + self.params


class Enum(T):
    def __init__(self, tag, consts, packed=False):
        self.tag, self.consts, self.packed = tag, consts, packed
        self.inline = tag is None      # anonymous: the definition goes where it is used (typedef)

    def body(self):
        return "{ %s }%s" % (", ".join("%s = %s" % (n, lit(v)) for n, v in self.consts), " __attribute__((packed))" if self.packed else "")

    def definition(self):
        return "enum %s %s;" % (self.tag, self.body())

    def decl(self, name, tw=False):
        if tw:
            return (self.ctype() + " " + name).rstrip()
        if self.tag is None:
            return ("enum " + self.body() + " " + name).rstrip()
        return ("enum %s %s" % (self.tag, name)).rstrip()

    def range(self):
        vs = [v for _, v in self.consts]
        return min(vs), max(vs)

    def size(self):
        lo, hi = self.range()
        if self.packed:
            for s in (1, 2, 4):
                if (lo < 0 and -(1 << (8 * s - 1)) <= lo and hi < (1 << (8 * s - 1))) or (lo >= 0 and hi < (1 << (8 * s))):
                    return s
            return 8
        if (lo < 0 and -(1 << 31) <= lo and hi < (1 << 31)) or (lo >= 0 and hi < (1 << 32)):
            return 4
        return 8

    def signed(self):
        return self.range()[0] < 0

    def ctype(self):
        return "%sint%d_t" % ("" if self.signed() else "u", 8 * self.size())


def lit(v):
    if v == -(1 << 63):
        return "(-9223372036854775807LL - 1)"
    if -(1 << 31) < v < (1 << 31):
        return str(v)
    return "%dLL" % v


class Member:
    def __init__(self, name, t, bits=None):
        self.name, self.t, self.bits = name, t, bits   # name None: anonymous struct/union, or unnamed bit-field


class Agg(T):
    n = 0

    def __init__(self, kind, tag, members, packed=False, aligned=0):
        self.kind, self.tag, self.members, self.packed, self.aligned = kind, tag, members, packed, aligned

    def attrs(self):
        a = []
        if self.packed:
            a.append("packed")
        if self.aligned:
            a.append("aligned(%d)" % self.aligned)
        return " __attribute__((%s))" % ", ".join(a) if a else ""

    def body(self, tw=False):
        out = []
        for i, m in enumerate(self.members):
            nm = m.name
            if nm is None and tw and m.bits is None:
                nm = "an_%d" % i
            d = m.t.decl(nm or "", tw)
            if m.bits is not None:
                d = m.t.decl((nm or ""), tw) + ":%d" % m.bits
            out.append("    " + d + ";")
        return "{\n%s\n}%s" % ("\n".join(out), self.attrs())

    def twtag(self):
        return "%s tw_%d" % (self.kind, self.uid)

    def definition(self, tw=False):
        if tw:
            return "%s %s;" % (self.twtag(), self.body(True))
        return "%s %s %s;" % (self.kind, self.tag, self.body())

    def decl(self, name, tw=False):
        if tw:
            return (self.twtag() + " " + name).rstrip()
        if self.tag is None:
            return ("%s %s %s" % (self.kind, self.body(), name)).rstrip()
        return ("%s %s %s" % (self.kind, self.tag, name)).rstrip()

    def deps(self):
        return [m.t for m in self.members]

    def flexible(self):
        return bool(self.members) and isinstance(self.members[-1].t, Arr) and self.members[-1].t.n is None


class Fwd(T):
    """A tag that is declared and never completed."""

    def __init__(self, kind, tag):
        self.kind, self.tag = kind, tag

    def decl(self, name, tw=False):
        return ("%s %s %s" % (self.kind, self.tag, name)).rstrip()

    def definition(self):
        return "%s %s;" % (self.kind, self.tag)


class Ref(T):
    """Reference to an aggregate of the program by its tag (for recursive types)."""

    def __init__(self, agg):
        self.agg = agg

    def decl(self, name, tw=False):
        return self.agg.decl(name, tw)


class Typedef(T):
    def __init__(self, name, t):
        self.name, self.t = name, t

    def definition(self):
        return "typedef %s;" % self.t.decl(self.name)

    def decl(self, name, tw=False):
        if tw:
            return self.t.decl(name, tw)
        return (self.name + " " + name).rstrip()

    def deps(self):
        return [self.t]


def final(t):
    """(final type, set of qualifiers met on the way)"""
    q = set()
    while True:
        if isinstance(t, Qual):
            q |= t.q
            t = t.t
        elif isinstance(t, Typedef):
            t = t.t
        elif isinstance(t, Ref):
            t = t.agg
        else:
            return t, q


def est(t):
    """rough size in bytes"""
    f, _ = final(t)
    if isinstance(f, Arr):
        return (f.n or 0) * est(f.t)
    if isinstance(f, Agg):
        return sum(est(m.t) for m in f.members) + 1
    if isinstance(f, Base):
        return f.size
    return 8


MAXSIZE = 6000
# names a truncated name must not become
RESERVED = {"asm", "if", "do", "for", "int", "_m", "main", "en", "st", "un", "td", "fw", "_E"}


def flat(ms):
    """the names of members, those of anonymous members included"""
    out = set()
    for m in ms:
        if m.name is not None:
            out.add(m.name)
        elif isinstance(m.t, Agg):
            out |= flat(m.t.members)
    return out


# ------------------------------------------------------------------ random models
class Gen:
    def __init__(self, seed, **opt):
        self.r = random.Random(seed)
        self.types = []           # definitions, in order: Enum, Agg, Typedef, Fwd
        self.uid = 0
        self.names = 0
        self.used, self.seen, self.tdnames = [], set(), set()
        self.opt = dict(bitfields=True, ptr=True, func=True, quals=True, packed=True, flex=True, complex=True, big_enum=True, big=False, maxmembers=8)
        self.opt.update(opt)

    def fresh(self, p):
        self.names += 1
        r = self.r
        # names whose relative order (strcmp) varies, with common prefixes
        if r.random() < .3 and self.used:      # a name that is a prefix or an extension of another one
            n = r.choice(self.used[-12:])
            n = n + r.choice("_0aZ") if r.random() < .7 else n[:-1]
            if len(n) > 1 and n not in self.seen:
                return self.note(n)
        if r.random() < .06 and self.used:      # the same words written in another style
            n = r.choice(self.used[-30:])
            n = r.choice([n.upper(), n.lower(), n.replace("_", ""), n.replace("_", "__"), n[:1].upper() + n[1:], re.sub("_(.)", lambda m: m.group(1).upper(), n), re.sub("([A-Z])", lambda m: "_" + m.group(1).lower(), n), "_" + n])
            if re.match("[A-Za-z_][A-Za-z_0-9]+$", n) and n not in self.seen and n not in RESERVED:
                return self.note(n)
        if r.random() < .01:
            return self.note("%s_%s%d" % (p, "long_" * r.choice([7, 13, 26, 51]), self.names))
        return self.note("%s%s%d" % (r.choice(["", "a", "z", "_", "B", "m_"]) + p, r.choice(["", "_x", "Y"]), self.names))

    def note(self, n):
        if n in self.seen or n in RESERVED:
            n = "%s_n%d" % (n, self.names)
        self.seen.add(n)
        self.used.append(n)
        return n

    def reg(self, agg):
        agg.uid = self.uid
        self.uid += 1
        return agg

    def base(self):
        r = self.r
        return Base(r.choice([i for i in range(len(BASES)) if self.opt["complex"] or "Complex" not in BASES[i][0]]))

    def enum(self, anon=False, mode=None):
        r = self.r
        n = r.randint(1, 6)
        if self.opt["big"] and r.random() < .04:
            n = r.choice([20, 70, 140, 270])
        mode = mode or r.choice(["seq", "rnd", "neg", "u8", "u16", "u32", "big", "dup"])
        cs, v = [], 0
        for i in range(n):
            if mode == "seq":
                v = i
            elif mode == "rnd":
                v = r.randint(0, 1000)
            elif mode == "neg":
                v = r.randint(-100, 100)
            elif mode == "u8":
                v = r.randint(0, 255)
            elif mode == "u16":
                v = r.randint(0, 65535)
            elif mode == "u32":
                v = r.choice([0, 1, 0x7fffffff, 0x80000000, 0xffffffff, r.randint(0, 0xffffffff)])
            elif mode == "big" and self.opt["big_enum"]:
                v = r.choice([0, -1, 1 << 40, -(1 << 40), (1 << 63) - 1, -(1 << 63), r.randint(-(1 << 62), 1 << 62)])
            elif mode == "dup":
                v = r.choice([0, 1, 2])
            else:
                v = i
            cs.append((self.fresh("E"), v))
        return Enum(None if anon else self.fresh("en"), cs, packed=self.opt["packed"] and r.random() < .3)

    def near(self, o, depth=3):
        """a copy of the type that differs in one small thing (or, when there is nothing to change, the type itself)"""
        r = self.r
        if isinstance(o, Base):
            same = [i for i in range(len(BASES)) if i != o.i and BASES[i][4] == o.size and (self.opt["complex"] or "Complex" not in BASES[i][0])]
            return Base(r.choice(same)) if same and r.random() < .7 else Base((o.i + 1) % 13)
        if isinstance(o, Enum):
            cs, packed = list(o.consts), o.packed
            i = r.randrange(len(cs))
            x = r.random()
            if x < .6:
                wide = min(v for _, v in cs) >= -(1 << 31) and max(v for _, v in cs) < (1 << 31)
                b = r.randrange(31 if wide and (not self.opt["big_enum"] or r.random() < .5) else 62)
                cs[i] = (cs[i][0], cs[i][1] ^ (1 << b))
            elif x < .7:
                cs[i] = (self.fresh("E"), cs[i][1])
            elif x < .8 and len(cs) > 1:
                j = r.randrange(len(cs))
                cs[i], cs[j] = cs[j], cs[i]
            elif x < .9:
                cs.append((self.fresh("E"), cs[i][1]))
            else:
                packed = self.opt["packed"] and not packed
            return Enum(o.tag, cs, packed)
        if isinstance(o, Arr):
            if r.random() < .5 and depth:
                return Arr(self.near(o.t, depth - 1), o.n)
            if o.n is None or r.random() < .2:
                return Arr(Arr(o.t, 1), o.n)
            n = max(1, r.choice([o.n - 1, o.n + 1, o.n ^ 4, o.n + 10, o.n + 256]))
            return Arr(o.t, n if est(o.t) * n <= MAXSIZE else max(1, o.n - 1))
        if isinstance(o, Ptr):
            if isinstance(o.t, (Base, Arr, Func, Ptr, Void, Qual)) and depth and r.random() < .6:
                return Ptr(self.near(o.t, depth - 1))
            return Ptr(Ptr(o.t)) if isinstance(o.t, (Arr, Func)) or r.random() < .3 or not self.opt["quals"] else Ptr(Qual([r.choice(["const", "volatile"])], o.t))
        if isinstance(o, Func):
            ps = list(o.params)
            x = r.random()
            if x < .3 and ps:
                return Func(o.ret, ps, not o.variadic, o.names)
            if x < .6 and ps and depth:
                i = r.randrange(len(ps))
                if isinstance(ps[i], (Base, Ptr)):
                    ps[i] = self.near(ps[i], depth - 1)
                    return Func(o.ret, ps, o.variadic, o.names)
            if isinstance(o.ret, (Base, Ptr)) and x < .8 and depth:
                return Func(self.near(o.ret, depth - 1), ps, o.variadic, o.names)
            return Func(o.ret, ps + [Base(5)], o.variadic, o.names + [self.fresh("p") if any(o.names) else ""])
        if isinstance(o, Qual):
            return o.t
        if isinstance(o, Void):
            return Base(r.choice([0, 5]))
        if isinstance(o, Agg):
            t = self.reg(Agg(o.kind, o.tag, [], o.packed, o.aligned))
            ms = [Member(m.name, Ptr(Ref(t)) if isinstance(m.t, Ptr) and isinstance(m.t.t, Ref) and m.t.t.agg is o else m.t, m.bits) for m in o.members]
            t.members = ms
            named = [i for i, m in enumerate(ms) if m.name is not None]
            inner = [i for i, m in enumerate(ms) if m.bits is None and isinstance(m.t, (Base, Enum, Arr, Ptr, Agg)) and not (isinstance(m.t, Enum) and m.t.tag) and not (isinstance(m.t, Agg) and m.t.tag)]
            bits = [i for i in named if ms[i].bits is not None and ms[i].bits > 1]
            for _ in range(10):
                x = r.random()
                if x < .4 and inner and depth:
                    i = r.choice(inner)
                    if isinstance(ms[i].t, Ptr) and isinstance(ms[i].t.t, Ref) and ms[i].t.t.agg is t:
                        continue
                    if i == len(ms) - 1 and o.flexible():
                        ms[i].t = Arr(self.near(ms[i].t.t, 0) if isinstance(ms[i].t.t, Base) else ms[i].t.t, None)
                    else:
                        ms[i].t = self.near(ms[i].t, depth - 1)
                elif x < .6 and bits:
                    ms[r.choice(bits)].bits -= 1
                elif x < .7 and named:
                    i = r.choice(named)
                    ms[i].name = self.fresh("m")
                elif x < .78 and self.opt["packed"] and not o.aligned and not o.flexible():
                    t.packed = not t.packed
                elif x < .83 and self.opt["packed"] and not o.packed:
                    t.aligned = 0 if o.aligned else 32
                elif x < .88 and named and self.opt["quals"]:
                    i = r.choice(named)
                    if isinstance(final(ms[i].t)[0], (Arr, Func)) or isinstance(ms[i].t, Qual):
                        continue
                    ms[i].t = Qual(["volatile"], ms[i].t)
                elif x < .94 and len(ms) > 1 and not o.flexible():
                    i, j = r.sample(range(len(ms)), 2)
                    ms[i], ms[j] = ms[j], ms[i]
                else:
                    ms.insert(0 if o.flexible() else r.randint(0, len(ms)), Member(self.fresh("m"), self.base()))
                break
            return t
        return o

    def leafish(self, depth):
        r = self.r
        x = r.random()
        known = [t for t in self.types if not isinstance(t, Fwd) and not (isinstance(t, Agg) and t.flexible()) and not isinstance(final(t)[0], Func) and not isinstance(final(t)[0], Void) and not (isinstance(final(t)[0], Agg) and final(t)[0].flexible())]
        if x < .25 and known:
            t = r.choice(known)
            return t if est(t) <= MAXSIZE else self.base()
        if x < .5:
            return self.base()
        if x < .62 and self.opt["ptr"]:
            return Ptr(self.target(depth - 1))
        if x < .75 and depth > 0:
            if r.random() < .2:
                return Arr(Base(0), r.choice([1, 2, 3, 4, 6, 9, 17, 33]))
            t = self.leafish(depth - 1)
            for _ in range(r.choice([1, 1, 2, 3])):
                n = r.choice([1, 2, 3, 4, 5, 7])
                t = Arr(t, n if est(t) * n <= MAXSIZE else 1)
            return t
        if x < .85 and depth > 0:
            return self.agg(depth - 1, anon=True)
        if x < .9:
            return self.enum(anon=True) if r.random() < .3 else self.base()
        return self.base()

    def target(self, depth):
        r = self.r
        x = r.random()
        aggs = [t for t in self.types if isinstance(t, Agg)]
        if self.opt["big"] and r.random() < .03:
            return Arr(self.base(), r.choice([65535, 65536, 1000003, 2 ** 31 - 1]))
        if x < .12:
            return Qual(["const"], Void()) if r.random() < .3 and self.opt["quals"] else Void()
        if x < .2 and [t for t in self.types if isinstance(t, Fwd)]:
            return r.choice([t for t in self.types if isinstance(t, Fwd)])
        if x < .4 and aggs:
            return Ref(r.choice(aggs))
        if x < .5 and self.opt["func"] and depth >= 0:
            return self.func(depth)
        if x < .6 and depth >= 0:
            return Ptr(self.target(depth - 1))
        t = self.leafish(min(depth, 1)) if depth >= 0 else self.base()
        if isinstance(t, Agg) and t.tag is None:
            t = self.base()
        if isinstance(t, Enum) and t.tag is None:
            t = self.base()
        return self.q(t)

    def func(self, depth, names=False):
        r = self.r
        ret = r.choice([Void(), self.base(), None])
        if ret is None:
            ret = self.param(depth)
        ps = [self.param(depth - 1) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 3, 4, 4, 12]))]
        return Func(ret, ps, variadic=bool(ps) and r.random() < .2, names=[self.fresh("p") for _ in ps] if names else None)

    def param(self, depth):
        r = self.r
        x = r.random()
        named = [t for t in self.types if isinstance(t, (Agg, Enum, Typedef)) and not isinstance(final(t)[0], (Arr, Func, Void)) and not final(t)[1] and not (isinstance(final(t)[0], Agg) and final(t)[0].flexible())]
        if x < .3 and named:
            return r.choice(named)
        if x < .55 and self.opt["ptr"]:
            return Ptr(self.target(depth - 1))
        return self.base()

    def q(self, t):
        r = self.r
        if not self.opt["quals"] or r.random() > .25:
            return t
        f, _ = final(t)
        if isinstance(f, (Arr, Func, Void)) and isinstance(t, (Typedef, Arr, Func)):
            return t
        if isinstance(t, Arr):
            return t
        qs = [x for x in ("const", "volatile") if r.random() < .5]
        if isinstance(t, Ptr) and not isinstance(final(t.t)[0], Func) and r.random() < .4:
            qs.append("restrict")
        have = t.q if isinstance(t, Qual) else set()
        qs = [x for x in qs if x not in have]
        return Qual(qs, t) if qs else t

    def bitfield(self):
        r = self.r
        enums = [t for t in self.types if isinstance(t, Enum)]
        if enums and r.random() < .25:
            e = r.choice([t for t in enums if t.size() == 8] or enums) if r.random() < .4 else r.choice(enums)
            lo, hi = e.range()
            need = max(max(hi, 0).bit_length() + (1 if lo < 0 else 0), ((-lo - 1).bit_length() + 1) if lo < 0 else 1, 1)
            return e, r.randint(need, 8 * e.size())
        i = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11])
        b = Base(i)
        mx = 1 if b.sp == "_Bool" else 8 * b.size
        n = r.choice([1, mx, r.randint(1, mx), r.randint(1, mx), min(mx, r.randint(1, 7))])
        return b, n

    def agg(self, depth, anon=False, kind=None):
        r = self.r
        kind = kind or r.choice(["struct", "struct", "struct", "union"])
        a = Agg(kind, None if anon else self.fresh("st" if kind == "struct" else "un"), [])
        self.reg(a)
        a.packed = self.opt["packed"] and r.random() < .15
        a.aligned = r.choice([0] * 12 + [2, 4, 8, 16, 32]) if self.opt["packed"] else 0
        ms = []
        n = r.randint(1, self.opt["maxmembers"])
        if self.opt["big"] and not anon and depth > 0 and r.random() < .04:
            n, depth = r.choice([20, 40, 70, 140]), 0
        bitty = self.opt["bitfields"] and r.random() < .45
        if self.opt["big"] and not anon and r.random() < (.15 if bitty else .03):
            ms.append(Member(self.fresh("far"), Arr(r.choice([Base(0), Base(7)]), r.choice([35, 515, 4100, 8200]))))
        for _ in range(n):
            x = r.random()
            if bitty and x < .65:
                if r.random() < .08:
                    b = Base(r.choice([1, 4, 6, 8]))
                    ms.append(Member(None, b, r.choice([0, r.randint(1, 7)])))
                    continue
                t, bits = self.bitfield()
                t2 = self.q(t)
                ms.append(Member(self.fresh("b"), t2, bits))
            elif x < .72 and depth > 0:
                ms.append(Member(None, self.agg(depth - 1, anon=True)))
            elif x < .78 and self.opt["ptr"] and not anon:
                ms.append(Member(self.fresh("s"), Ptr(Ref(a))))
            elif self.opt["big"] and r.random() < .03:
                ms.append(Member(self.fresh("pad"), Arr(r.choice([Base(0), self.base()]), r.choice([70, 130, 200, 300, 1000, 4500]))))
            elif x < .8 and self.opt["flex"]:      # an array of zero elements
                ms.append(Member(self.fresh("z"), Arr(self.base(), 0)))
            else:
                t = self.leafish(depth)
                ms.append(Member(self.member(ms) if not anon else self.fresh("m"), self.q(t)))
        if not any(m.name is not None or m.bits is None for m in ms):
            ms.append(Member(self.fresh("m"), self.base()))
        if self.opt["flex"] and not anon and kind == "struct" and r.random() < .08:
            if not any(m.name for m in ms):
                ms.append(Member(self.fresh("m"), self.base()))
            ms.append(Member(self.fresh("fl"), Arr(self.base(), None)))
        a.members = ms
        return a

    def member(self, ms):
        """a name for a member: often one that something else has, too"""
        r = self.r
        n = r.choice(self.used) if self.used and r.random() < .12 else None
        if n is None or n in self.tdnames or n in flat(ms):
            return self.fresh("m")
        return n

    def add_type(self):
        r = self.r
        x = r.random()
        if x < .15:
            self.types.append(self.enum())
        elif x < .25:
            self.types.append(Fwd(r.choice(["struct", "union"]), self.fresh("fw")))
        elif x < .5:
            y = r.random()
            if y < .15:
                t = self.enum(anon=True)
            elif y < .35:
                t = self.agg(1, anon=True)
            elif y < .5 and self.opt["func"]:
                t = self.func(1)
            elif y < .6:
                t = Void()
            else:
                t = self.q(self.leafish(1))
                if isinstance(t, Qual) and isinstance(t.t, Agg) and t.t.tag is None:
                    t = t.t
            n = self.fresh("td")
            tags = [x.tag for x in self.types if isinstance(x, (Agg, Enum, Fwd)) and x.tag not in self.tdnames]
            if tags and r.random() < .2:        # typedef ... foo next to struct foo
                n = r.choice(tags)
            self.tdnames.add(n)
            self.types.append(Typedef(n, t))
        else:
            self.types.append(self.agg(r.choice([1, 2, 2, 3])))


def collect_aggs(types):
    """every aggregate of the program (also anonymous ones), inner first"""
    out, seen = [], set()

    def walk(t):
        if isinstance(t, Ref) or isinstance(t, Ptr):
            # pointer targets do not influence layout; anonymous aggregates are not generated there
            return
        if isinstance(t, Agg):
            if id(t) in seen:
                return
            seen.add(id(t))
            for m in t.members:
                walk(m.t)
            out.append(t)
            return
        for d in t.deps():
            walk(d)
    for t in types:
        walk(t)
    return out
