"""Texts printed for object graphs (part deep-print), compiled back by gcc as initializers; the compiled object graphs are
serialised by the same model code and compared with the source's serialisation."""
import json, os, re
from . import core


def cstr(b):
    out = []
    for c in b:
        out.append(chr(c) if 32 <= c < 127 and c not in (34, 92, 63) else "\\%03o" % c)
    return '"' + "".join(out) + '"'


def records(path):
    b = open(path, "rb").read() if os.path.exists(path) else b""
    i, out = 0, []
    while i < len(b):
        j = b.find(b"\n", i)
        try:
            kind, mapb, n1, n2 = map(int, b[i:j].split())
        except ValueError:
            break
        s, t = b[j + 1:j + 1 + n1], b[j + 2 + n1:j + 2 + n1 + n2]
        i = j + 3 + n1 + n2
        if len(t) == n2:
            out.append((kind, mapb, s, t))
    return out


DECL = ["struct node *v%d", "struct node v%d", "struct node *v%d[3]"]


def compile_back(ctx, recs, tag):
    """-> list of (index, what) of the records which do not come back"""
    lib = [o for o in core.build_lib(ctx)]
    eng = ctx.path("pbt_nomain.o")
    if not os.path.exists(eng):
        core.cc(ctx, os.path.join(core.VERIF, "engine", "pbt.c"), eng, core.ASAN + ["-Dmain=pbt_main"])
    f = ctx.path("back", tag + ".inc")
    with open(f, "wb") as h:
        for i, (k, m, s, t) in enumerate(recs):
            h.write(("#line 1 \"case%d\"\n" % i).encode() + (DECL[k] % i).encode() + b" = " + s + b";\n")
        h.write(b"struct back cases[] = {\n" + b",\n".join(b"{%d, %d, %sv%d, %s}" % (k, m, b"" if k == 2 else b"&", i, cstr(t).encode()) for i, (k, m, s, t) in enumerate(recs)) + b"};\n")
    o, exe = ctx.path("back", tag + ".o"), ctx.path("back", tag)
    r = core.cc(ctx, os.path.join(core.VERIF, "harness", "h_deep.c"), o, ["-DPART=5", "-D_METAC_OFF_", "-DCASES=\"%s\"" % f, "-O0", "-g0", "-fno-sanitize=all"], check=False)
    if r.returncode != 0:
        err = r.stderr.decode("utf8", "replace")
        bad = sorted(set(int(x) for x in re.findall(r'^case(\d+):', err, re.M)))
        if not bad:
            raise core.InfraError("compile back: " + err[-2000:])
        return [(i, "not accepted by the compiler: " + "".join(re.findall(r'^case%d:.*$' % i, err, re.M)[:1])) for i in bad]
    core.run(["gcc", "-fsanitize=address", "-o", exe, o, eng] + lib + core.WRAP, check=True)
    p = core.run([exe], timeout=120)
    if p.returncode != 0:
        raise core.InfraError("compiled back program failed: " + p.stderr.decode("utf8", "replace")[-1500:])
    out = []
    for line in p.stdout.decode("latin1").splitlines():
        i, txt = line.split(" ", 1)
        out.append((int(i), "the compiled initializer holds something else: " + txt))
    os.remove(o), os.remove(exe), os.remove(f)
    return out


def check(ctx, dump, limit, rule):
    recs = sorted(set(records(dump)), key=lambda r: (len(r[2]), r[2]))
    if len(recs) > limit:
        recs = recs[:limit // 4] + recs[limit // 4::max(1, (len(recs) - limit // 4) // (limit - limit // 4))][:limit - limit // 4]
    n = 100
    batches = [(i, recs[i:i + n]) for i in range(0, len(recs), n)]
    core.build_lib(ctx)
    compile_back(ctx, recs[:1], "first") if recs else None
    res = core.pmap(lambda b: (b[1], compile_back(ctx, b[1], "b%d" % b[0])), batches)
    ctx.add(len(recs), [("back", hash(r[2]) & 0xffffffffffff) for r in recs if len(r[2]) > 1500], {"deep-print: compiled back": len(recs)}, [], rule)
    bad = [(rs[i], what) for rs, b in res for i, what in b]
    if bad:
        r, what = min(bad, key=lambda x: len(x[0][2]))
        rep = {"engine": "back", "kind": r[0], "mapb": r[1], "text": r[2].decode("latin1"), "expected": r[3].decode("latin1"), "what": what}
        ctx.fail("deep-print: " + what[:600], rep)


def replay(ctx, r):
    bad = compile_back(ctx, [(r["kind"], r["mapb"], r["text"].encode("latin1"), r["expected"].encode("latin1"))], "replay")
    print(r["text"])
    print(bad or "comes back (the text itself is stored in the replay file; run the check to print it anew)")
    return 1 if bad else 0
