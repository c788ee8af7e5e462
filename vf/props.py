"""One function per property."""
import json, os, re
from . import core, e1, back, args, testgen
RUN = {}
KNOWN = {}      # id of a listed finding -> its text


def load_known():
    with open(os.path.join(core.VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"KNOWN-FINDING: property=(\S+) \[(\S+)\] (.*)", line)
            if m:
                KNOWN[m.group(2)] = (m.group(1), m.group(3).strip())


def report_known(ctx, ids):
    """only what the committed file lists is excused"""
    load_known()
    for i in sorted(ids):
        if i in KNOWN and KNOWN[i][0] == ctx.pid:
            ctx.known.append(KNOWN[i][1])
        else:
            ctx.fail("unlisted finding %s" % i, {"finding": i})


def prop(pid):
    def d(f):
        RUN[pid] = f
        return f
    return d


PARTS = {}   # part name -> builder of its executable (for replay)


def hashmap_exe(ctx):
    return core.build_harness(ctx, "hashmap", False, lib=small_lib(ctx, ["hashmap"]))


def iterator_exe(ctx):
    return core.build_harness(ctx, "iterator", False, lib=small_lib(ctx, ["iterator"]))


def small_lib(ctx, names):
    objs = []
    for n in names:
        o = ctx.path("small", n + ".o")
        core.cc(ctx, os.path.join(core.REPO, "src", n + ".c"), o, core.ASAN)
        objs.append(o)
    return objs


def entrydb_exe(ctx):
    return core.build_harness(ctx, "entrydb", False)


PARTS["entrydb"] = entrydb_exe
PARTS["hashmap"] = hashmap_exe
PARTS["iterator"] = iterator_exe


def deep_exe(n):
    return lambda ctx: core.build_harness(ctx, "deep", True, flags=["-DPART=%d" % n])


for _n, _k in ((1, "copy"), (2, "equal"), (3, "free"), (4, "print")):
    PARTS["deep-" + _k] = deep_exe(_n)
for _n, _k in ((1, "tag-map"), (2, "tag-string"), (3, "tag-handler"), (4, "tag-parameter")):
    PARTS[_k] = (lambda n: lambda ctx: core.build_harness(ctx, "tag", True, flags=["-DPART=%d" % n]))(_n)
PARTS["storage"] = lambda ctx: core.build_harness(ctx, "storage", True)
GRAPH_RULE = "non-trivial: at least 6 blocks, handled in the mode, and a cycle or a pointer into the middle of a block"


@prop("P08")
def p08(ctx):
    core.pbt(ctx, PARTS["deep-copy"](ctx), "deep-copy", ctx.scale(60000, 600000),
             "object graphs copied in random modes, with a failing calloc_fn in a quarter of the cases; " + GRAPH_RULE, batch=500)


@prop("P09")
def p09(ctx):
    core.pbt(ctx, PARTS["deep-equal"](ctx), "deep-equal", ctx.scale(70000, 1200000),
             "object graphs against clones with 0 to 3 changes; non-trivial: at least 6 blocks and handled in the mode", batch=500)


@prop("P10")
def p10(ctx):
    core.pbt(ctx, PARTS["deep-free"](ctx), "deep-free", ctx.scale(250000, 2500000),
             "object graphs freed in random modes; " + GRAPH_RULE, batch=500)


@prop("P11")
def p11(ctx):
    core.pbt(ctx, PARTS["tag-map"](ctx), "tag-map", ctx.scale(400000, 8000000),
             "up to 4 tag maps with up to 4 categories each, referring to each other, set and looked up; non-trivial: at least 4 tags set and one found by the final type", batch=500)
    core.pbt(ctx, PARTS["tag-string"](ctx), "tag-string", ctx.scale(400000, 8000000),
             "tag strings of up to 8 key:\"value\" pairs; non-trivial: at least 3 pairs", batch=500)


@prop("P12")
def p12(ctx):
    core.pbt(ctx, PARTS["tag-parameter"](ctx), "tag-parameter", ctx.scale(60000, 1500000),
             "captured calls of a function with counted and zero-ended parameters, copied, compared and freed; non-trivial: at least 3 blocks", batch=500)
    core.pbt(ctx, PARTS["tag-handler"](ctx), "tag-handler", ctx.scale(100000, 4000000),
             "structures with 22 kinds of counters and selectors and random tags; non-trivial: at least 4 blocks copied", batch=500)


@prop("P13")
def p13(ctx):
    args.run(ctx, seeds(ctx, "P13", ctx.scale(40, 400)), some_configs(2), ctx.scale(4000, 10000),
             "calls of random functions captured through ... and va_list, by function and by function type, with failing allocations in a sixth of the cases; non-trivial: at least 3 parameters")
    core.pbt(ctx, PARTS["storage"](ctx), "storage", ctx.scale(60000, 1500000),
             "histories of additions, copies, writes and cleanups of four parameter storages, with failing allocations; non-trivial: something copied and something nested", batch=500)
    res = core.pbt(ctx, core.build_harness(ctx, "argfind", True), "listed-inputs", 8, "fixed inputs of the listed findings", workers=1)
    res += core.pbt(ctx, core.build_harness(ctx, "argfind2", True, compiler="clang"), "listed-inputs-clang", 8, "fixed inputs of the listed findings", workers=1)
    report_known(ctx, {k[4:] for r in res for k in r[0]["labels"] if k.startswith("bad:")})


PARTS["printf"] = lambda ctx: core.build_harness(ctx, "fmt", True)


@prop("P14")
def p14(ctx):
    core.pbt(ctx, PARTS["printf"](ctx), "printf", ctx.scale(200000, 4000000),
             "random formats and arguments (hand-made argument lists and variadic calls) captured alone and as parameters of six functions; non-trivial: at least 4 conversions", batch=500)


@prop("P15")
def p15(ctx):
    core.pbt(ctx, hashmap_exe(ctx), "hashmap", ctx.scale(1500000, 30000000),
             "histories of put/get/contains/remove/memoize/foreach with colliding hash functions and failing allocations; non-trivial: at least 10 operations and a removal of a present key")


@prop("P16")
def p16(ctx):
    core.pbt(ctx, iterator_exe(ctx), "iterator", ctx.scale(800000, 16000000),
             "random task trees driven through the iterator and a reference scheduler; non-trivial: at least 5 tasks and depth 2")


@prop("P17")
def p17(ctx):
    core.gopbt(ctx, "override", "TestMerge", ctx.scale(160000, 3000000),
               "random settings and lists of overrides (yaml or json text, yaml or json files, broken ones) merged and compared with a reference merge; non-trivial: accepted, at least two overrides with at least four keys at the top, distinct by the whole case")


@prop("P18")
def p18(ctx):
    core.gopbt(ctx, "module", "TestModule", ctx.scale(40000, 600000),
               "random trees of search paths with modules, specs, template directories, includes and broken files, run through the library and the command line; non-trivial: the run succeeds with output, several search paths")


@prop("P19")
def p19(ctx):
    core.gopbt(ctx, "dwarfy", "TestDwarfy", ctx.scale(24000, 400000),
               "random debug information (several units, versions 2 to 5, all attribute forms, line tables) written byte by byte, taken over and converted to yaml, json, unstructured and back; non-trivial: well-formed, more than 12 entries")


@prop("P20")
def p20(ctx):
    core.gopbt(ctx, "metadb", "TestMetaDb", ctx.scale(24000, 300000),
               "random debug information of one to four units, cloned and changed, built into a database and compared with the coarsest partition of equal types; non-trivial: several units, at least three merged types, several distinct")


@prop("P21")
def p21(ctx):
    testgen.run_tests(ctx, ctx.scale(480, 6000), "programs of random units with tests and names which resemble requests, their main generated, compiled and run; non-trivial: several units, at least three tests")


@prop("P22")
def p22(ctx):
    e1.run_static(ctx, JUDGES["representations"], seeds(ctx, "P22", ctx.scale(40, 400)), some_configs(1),
                  "outputs of both generators for random programs from elf, yaml, json and converted files; non-trivial: distinct output", "representations", per_prog=shape3)


# ------------------------------------------------------------------ generated programs
def seeds(ctx, part, n):
    return [core.subseed(ctx.seed, part, i) % 1000000007 for i in range(n)]


def all_configs(s):
    return e1.CONFIGS


def some_configs(k):
    return lambda s: [e1.CONFIGS[(s + i) % len(e1.CONFIGS)] for i in range(k)]


def shape(s):
    """program sizes vary with the seed"""
    return [dict(ntypes=14, ncu=2), dict(ntypes=6, ncu=1, nfn=3), dict(ntypes=24, ncu=4, nfn=10, nloc=6), dict(ntypes=10, ncu=3, nloc=8)][s % 4]


def shapeb(s):
    """every other program also has long arrays, and so members far from the start of their object"""
    return dict(shape(s), big=s % 2 == 1)


def shape2(s):
    return dict(shapeb(s), private=s % 3 != 0)


def shape3(s):
    return dict(shapeb(s), private=s % 3 == 0, shared=s % 3 != 1)


G01 = {"var", "varname", "varkind", "varsize", "fn", "fnname", "fnparam", "fnparam-by-name", "unit", "build"}
G02 = {"varaddr", "link2", "build", "declloc", "declloc-miss", "declloc-name", "loc-unit", "db", "db-count", "db-found", "db-var", "db-fn", "db-unique", "db-entryname"}
JUDGES = {
    "reflection": lambda ctx, p, d: e1.judge_desc(ctx, p, d, G01),
    "lookup": lambda ctx, p, d: e1.judge_desc(ctx, p, d, G02),
    "declaration": e1.judge_cdecl,
    "representations": testgen.representations,
    "print": lambda ctx, p, d: e1.judge_print(ctx, p, d, 60),
}


@prop("P01")
def p01(ctx):
    e1.run_static(ctx, JUDGES["reflection"], seeds(ctx, "P01", ctx.scale(60, 600)), all_configs,
                  "descriptions of variables and functions of random programs compared with compiler facts, per compiler and debug format; non-trivial: the description is of a compound type, distinct by its text",
                  "reflection", per_prog=shape2)


@prop("P02")
def p02(ctx):
    k = e1.run_static(ctx, JUDGES["lookup"], seeds(ctx, "P02", ctx.scale(60, 600)), all_configs,
                      "entries found through symbol links, declaration locations and the name database; non-trivial: the entry found is of a compound type, distinct by its text",
                      "lookup", per_prog=shape3)
    report_known(ctx, k)
    core.pbt(ctx, entrydb_exe(ctx), "entrydb", ctx.scale(200000, 4000000),
             "random sorted tables of files, locations and names (related by prefix) looked up by present and absent keys; non-trivial: at least 4 declarations")


@prop("P03")
def p03(ctx):
    e1.run_static(ctx, JUDGES["declaration"], seeds(ctx, "P03", ctx.scale(120, 1200)), some_configs(2),
                  "printed C declarations parsed back and compared with the declared type; non-trivial: the declaration has a pointer, array or function declarator, distinct by text",
                  "declaration", per_prog=shapeb)


@prop("P04")
def p04(ctx):
    e1.run_value(ctx, "scalar", seeds(ctx, "P04", ctx.scale(40, 300)), some_configs(2), ctx.scale(8000, 20000),
                 "one random member of one random variable: read, write, compare, copy, print against compiler-generated accessors; non-trivial: distinct choice sequences", per_prog=shapeb)


@prop("P05")
def p05(ctx):
    e1.run_value(ctx, "bits", seeds(ctx, "P05", ctx.scale(40, 300)), some_configs(2), ctx.scale(8000, 20000),
                 "one random bit-field of one random variable over a random memory image; non-trivial: distinct choice sequences", per_prog=shapeb)


@prop("P06")
def p06(ctx):
    e1.run_value(ctx, "nav", seeds(ctx, "P06", ctx.scale(40, 300)), some_configs(2), ctx.scale(8000, 20000),
                 "one random aggregate or array inside a random variable: members and elements by index, out-of-range indexes; non-trivial: more than one member or element", per_prog=shapeb)


@prop("P07")
def p07(ctx):
    e1.run_static(ctx, JUDGES["print"], seeds(ctx, "P07", ctx.scale(80, 800)), some_configs(1),
                  "values of random variables printed, compiled back as initializers and compared member by member; distinct printed strings",
                  "print", per_prog=shape)
    dump = ctx.path("deep.dump")
    os.environ["VF_DUMP"] = dump
    core.pbt(ctx, PARTS["deep-print"](ctx), "deep-print", ctx.scale(6000, 60000),
             "object graphs printed in deep mode; non-trivial: at least 6 pointers followed", batch=500, workers=4)
    os.environ.pop("VF_DUMP")
    back.check(ctx, dump, ctx.scale(2500, 30000), "printed object graphs compiled back by gcc; non-trivial: more than 1500 characters of text")


def replay(ctx, rep):
    r = rep["repro"]
    if r.get("engine") in ("e1", "e1v"):
        return e1.replay(ctx, r, JUDGES)
    if r.get("engine") == "testgen":
        return testgen.replay(ctx, r)
    if r.get("engine") == "args":
        return args.replay(ctx, r)
    if r.get("engine") == "back":
        return back.replay(ctx, r)
    if r.get("engine") == "rapid":
        out = core.replay_go(ctx, r)["failure"]
        print(json.dumps(out, indent=1) if out else "ok")
        return 1 if out else 0
    if r.get("engine") == "pbt":
        exe = PARTS[r["part"]](ctx)
        out = core.replay_pbt(ctx, exe, r["choices"])
        print(out["kind"], out["message"])
        print(out["case"])
        print(out["stderr"])
        return 0 if out["kind"] == "ok" else 1
    print("re-running the whole check for this replay kind")
    RUN[ctx.pid](ctx)
    return core.finish(ctx)
