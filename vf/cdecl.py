"""Oracle for printed C declarations: a small parser of C declarations which
gives a canonical description, compared with the description of the model."""
import re
from .tgen import *

TOK = re.compile(r"\s*(?:([A-Za-z_]\w*)|(-?\d+)|(\.\.\.)|(.))", re.S)
QUALS = ("const", "volatile", "restrict")
WORDS = {"void", "char", "signed", "unsigned", "short", "int", "long", "float", "double", "_Bool", "_Complex", "complex", "bool"}


class ParseError(Exception):
    pass


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        out.append(m.group(1) or m.group(2) or m.group(3) or m.group(4))
        i = m.end()
    return out


def base_words(ws):
    """index in BASES of a multiset of type words"""
    c = sorted("_Complex" if w == "complex" else "_Bool" if w == "bool" else w for w in ws)
    if "char" not in c and "signed" in c:
        c.remove("signed")
        c = c or ["int"]
    if "int" in c and len(c) > 1:
        c.remove("int")
    if c == ["unsigned"]:
        return 6
    for i, b in enumerate(BASES):
        k = sorted(b[0].split())
        if "int" in k and len(k) > 1:
            k.remove("int")
        if k == c or (k == ["unsigned"] and c == ["unsigned"]):
            return i
    raise ParseError("unknown type %r" % " ".join(ws))


class P:
    def __init__(self, s, typedefs):
        self.t, self.i, self.typedefs = tokens(s), 0, typedefs

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def want(self, x):
        if self.next() != x:
            raise ParseError("expected %r at token %d of %r" % (x, self.i - 1, " ".join(self.t)))

    def specs(self):
        quals, words, t = [], [], None
        while True:
            x = self.peek()
            if x in QUALS:
                quals.append(self.next())
            elif x in ("struct", "union"):
                if t or words:
                    raise ParseError("two types")
                t = self.agg()
            elif x == "enum":
                if t or words:
                    raise ParseError("two types")
                t = self.enum()
            elif x in WORDS:
                if t:
                    raise ParseError("two types")
                words.append(self.next())
            elif x in self.typedefs and t is None and not words:
                t = self.typedefs[self.next()]
            else:
                break
        if words:
            t = Void() if words == ["void"] else Base(base_words(words))
        if t is None:
            raise ParseError("no type in %r at token %d" % (" ".join(self.t), self.i))
        if "restrict" in quals:
            f, _ = final(t)
            if not isinstance(f, Ptr):
                raise ParseError("restrict on a non-pointer")
        return Qual(quals, t) if quals else t

    def agg(self):
        kind = self.next()
        tag = None
        if self.peek() != "{":
            tag = self.next()
            if not re.match(r"[A-Za-z_]\w*$", tag or ""):
                raise ParseError("bad tag %r" % tag)
            return ("tag", kind, tag)
        self.want("{")
        ms = []
        while self.peek() != "}":
            t = self.specs()
            if self.peek() == ";":
                self.next()
                ms.append(Member(None, t))
                continue
            if self.peek() == ":":
                name, t2 = None, t
            else:
                name, t2 = self.declarator(t)
            bits = None
            if self.peek() == ":":
                self.next()
                bits = int(self.next())
            self.want(";")
            ms.append(Member(name, t2, bits))
        self.want("}")
        return Agg(kind, None, ms)

    def enum(self):
        self.want("enum")
        if self.peek() != "{":
            return ("tag", "enum", self.next())
        self.want("{")
        cs = []
        while self.peek() != "}":
            n = self.next()
            self.want("=")
            cs.append((n, int(self.next())))
            if self.peek() == ",":
                self.next()
            elif self.peek() != "}":
                raise ParseError("enum list")
        self.want("}")
        return Enum(None, cs)

    def declarator(self, t):
        """returns (name or None, type)"""
        name, fns = self._decl()
        for f in fns:
            t = f(t)
        return name, t

    def _decl(self):
        ptrs = []
        while self.peek() == "*":
            self.next()
            qs = []
            while self.peek() in QUALS:
                qs.append(self.next())
            ptrs.append(qs)
        name, inner, suffix = None, [], []
        if self.peek() == "(" and not self._params_follow():
            self.next()
            name, inner = self._decl()
            self.want(")")
        elif self.peek() and re.match(r"[A-Za-z_]\w*$", self.peek()) and self.peek() not in QUALS:
            name = self.next()
        while self.peek() in ("[", "("):
            if self.next() == "[":
                n = None
                if self.peek() != "]":
                    n = int(self.next())
                self.want("]")
                suffix.append(("a", n))
            else:
                ps, var = [], False
                while self.peek() != ")":
                    if self.peek() == "...":
                        self.next()
                        var = True
                    else:
                        st = self.specs()
                        ps.append(self.declarator(st))
                    if self.peek() == ",":
                        self.next()
                    elif self.peek() != ")":
                        raise ParseError("parameter list of %r" % " ".join(self.t))
                self.want(")")
                if len(ps) == 1 and isinstance(ps[0][1], Void) and ps[0][0] is None:
                    ps = []
                suffix.append(("f", ps, var))
        fns = []

        def mkp(q):
            return lambda t: Qual(q, Ptr(t)) if q else Ptr(t)

        def mks(s):
            if s[0] == "a":
                return lambda t: Arr(t, s[1])
            return lambda t: Func(t, [p for _, p in s[1]], s[2], [n or "" for n, _ in s[1]])
        fns += [mkp(q) for q in ptrs]
        fns += [mks(s) for s in reversed(suffix)]
        return name, fns + inner

    def _params_follow(self):
        # an abstract declarator: "(" starting a parameter list
        x = self.t[self.i + 1] if self.i + 1 < len(self.t) else None
        return x == ")" or x in WORDS or x in QUALS or x in ("struct", "union", "enum", "...") or x in self.typedefs

    def whole(self):
        t = self.specs()
        n, t = self.declarator(t)
        if self.i != len(self.t):
            raise ParseError("trailing %r in %r" % (self.t[self.i:], " ".join(self.t)))
        return n, t


def fin(t):
    if isinstance(t, tuple):
        return t, set()
    q = set()
    while True:
        if isinstance(t, tuple):
            return t, q
        if isinstance(t, Qual):
            q |= t.q
            t = t.t
        elif isinstance(t, Typedef):
            t = t.t
        elif isinstance(t, Ref):
            t = t.agg
        else:
            return t, q


def canon(t, inh=frozenset(), pnames=False):
    f, q = fin(t)
    q = set(q) | set(inh)
    if isinstance(f, Arr):
        return "a[%s](%s)" % ("" if f.n is None else f.n, canon(f.t, q))
    pre = "".join(c for c, n in (("c", "const"), ("v", "volatile"), ("r", "restrict")) if n in q)
    pre = pre + " " if pre else ""
    if isinstance(f, tuple):
        return pre + "%s %s" % f[1:]
    if isinstance(f, Void):
        return pre + "v"
    if isinstance(f, Base):
        return pre + f.sp
    if isinstance(f, Enum):
        return pre + ("enum %s" % f.tag if f.tag else "enum{%s}" % ",".join("%s=%d" % c for c in f.consts))
    if isinstance(f, Ptr):
        return pre + "p(%s)" % canon(f.t)
    if isinstance(f, Func):
        ps = [canon(p) + (" " + n if pnames and n else "") for p, n in zip(f.params, f.names)]
        return pre + "f(%s;%s)" % (canon(f.ret), ";".join(ps + (["..."] if f.variadic else [])))
    if isinstance(f, Fwd):
        return pre + "%s %s" % (f.kind, f.tag)
    if isinstance(f, Agg):
        if f.tag:
            return pre + "%s %s" % (f.kind, f.tag)
        return pre + "%s{%s}" % (f.kind, "".join("%s%s:%s;" % (m.name or "", "" if m.bits is None else "/%d" % m.bits, canon(m.t))
                                                 for m in f.members if not (m.bits is not None and m.name is None)))
    raise AssertionError(f)


def check(cdecl, typedefs, name, t, pnames=False):
    """None, or what is wrong with the printed declaration of `name' (None: a type with placeholder) of type t"""
    s = cdecl
    if name is None:
        if s.count("%s") != 1 or s.count("%") != 1:
            return "expected exactly one placeholder"
        s = s.replace("%s", "vf_placeholder")
    elif "%" in s:
        return "unexpected placeholder"
    try:
        n, got = P(s, typedefs).whole()
    except (ParseError, ValueError, TypeError) as e:
        return "not a C declaration: %s" % e
    want = name or "vf_placeholder"
    if n != want:
        return "declares %r instead of %r" % (n, want)
    a, b = canon(t, pnames=pnames), canon(got, pnames=pnames)
    if a != b:
        return "declares another type: expected %s got %s" % (a, b)
    return None
