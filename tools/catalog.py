#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), technique, note))


TRUST = " Trusts: gcc/clang of the sandbox as the source of facts about C, AddressSanitizer, the check's own generator and oracle; finite sample of an infinite domain."

p("P01", "Reflection describes every type, variable and function as compiled",
  "For every C program, compiler (gcc, clang) and debug format (DWARF 3, 4, 5), the reflection generated from the program's debug information compiles, links, and describes each variable and function exactly as declared: names, kinds, sizes, base-type encodings, qualifiers, array lengths (also flexible), enumerators with their values, member names and offsets, bit-field positions and widths, pointer targets, function results, parameters and variadicity. Parents lead from a member or parameter to its type or function, and from a variable, function or type to the compile units where it occurs. This holds for any number of compile units that share types and for packed, aligned, anonymous, recursive, incomplete and nested types.",
  ["programs", "configurations"], "all C programs (type tags unique per program), gcc/clang x DWARF 3/4/5",
  "The unit tests contain a few dozen hand-written types compiled by one compiler; the guarantee is over all programs and toolchains.",
  ["pkg/dwarfy", "pkg/metadb", "modules/metac-reflect-gen", "src/entry.c", "include/metac/backend/entry.h"],
  [("DWARF loading", "pkg/dwarfy"), ("type database and deduplication", "pkg/metadb"), ("C code templates", "modules/metac-reflect-gen"), ("entry access", "src/entry.c")],
  "property-based testing: random C programs through the whole pipeline, differential against compiler facts (sizeof/offsetof/bit probing)",
  "Exploration of random programs of up to about 40 named types over 1-4 compile units." + TRUST)
p("P02", "A declaration is found by symbol, by location and by name, and only its own",
  "For every program the entry obtained for a symbol through its link, for a local variable through its declaration location, or for a type, variable or function through the name database is the entry of exactly that declaration, in its function and compile unit; a value made from a symbol has that symbol's address. A name that was not declared at a location is not found, each named type used by the program is in the name database exactly once, and each entry is filed under its own name.",
  ["programs", "configurations"], "all C programs, numbers of compile units, declaration locations, names",
  "Tests look up a handful of names in one file; binary searches over generated tables depend on how all names of a program compare.",
  ["src/entry_db.c", "modules/metac-reflect-gen", "pkg/metadb", "include/metac/reflect/loc.h", "include/metac/reflect/db.h"],
  [("location database", "src/entry_db.c"), ("generated tables", "modules/metac-reflect-gen")],
  "property-based testing: random programs with random names and locations, lookups compared with the generator's model",
  "Exploration; two listed findings for clang are excused and nothing else." + TRUST)
p("P03", "The printed C declaration of any type declares that type",
  "For every type, variable or function of every program, the C declaration text produced for its entry is valid C and, parsed by the rules of C declarators, denotes exactly the declared type with the declared name in place (qualifiers, pointers, arrays, functions and their parameters in the right order and precedence).",
  ["programs"], "all types built from base types, tags, typedefs, pointers, arrays, functions and qualifiers, to any nesting",
  "Tests list a few dozen declarators; precedence mistakes show only in particular nestings of pointer, array, function and qualifier.",
  ["src/entry_cdecl.c"], [("declaration printer", "src/entry_cdecl.c")],
  "property-based testing: random types, round trip through an independent C declarator parser",
  "Exploration." + TRUST)
p("P04", "Reading, writing, comparing, copying and printing scalars agrees with C",
  "For every base-type, enumeration or pointer variable, member or array element of every program and every value, reading it through the value API gives what the compiler's own access gives, writing it has the effect of a C assignment and changes no other byte, equality and copying agree with C equality and assignment, and an accessor or comparison of a different base type fails without changing anything. Writing a base-type value that is declared const is refused; enumerations are printed by an enumerator of that value, or by number when there is none.",
  ["programs", "inputs"], "all scalar declarations and all values of their types",
  "Tests read and write a few fixed values of fixed members of each type.",
  ["src/value.c", "src/value_base_type.c"], [("base-type access", "src/value_base_type.c"), ("enumerations and pointers", "src/value.c")],
  "property-based testing: random programs and values, differential against compiler-generated getters and setters over whole memory images",
  "Exploration." + TRUST)
p("P05", "Bit-fields are read and written exactly as the compiler lays them out",
  "For every bit-field of every structure or union (any base type or enumeration, width, neighbours, packing, compiler and debug format) and every surrounding memory content, reading through the value API gives the value that C gives, sign included, and writing stores the value that C would store and leaves every other bit unchanged.",
  ["programs", "inputs", "configurations"], "all bit-field layouts, all values, all surrounding bits, gcc/clang x DWARF 3/4/5",
  "Tests cover a few layouts of one compiler with zero surroundings.",
  ["src/value.c", "src/entry.c", "pkg/metadb"], [("bit-field read and write", "src/value.c"), ("offset computation for DWARF variants", "src/entry.c")],
  "property-based testing: random layouts and memory images, differential against compiler-generated accessors",
  "Exploration; little-endian x86-64 only." + TRUST)
p("P06", "Walking a value reaches every member and element at its C address",
  "For every aggregate or array inside every variable, the value API reports its kind and its number of members or elements, and hands out for every index in range a value with the right name and the address C gives; every index out of range is refused. An array or pointer re-counted to n elements has exactly n elements at consecutive addresses.",
  ["programs", "inputs"], "all aggregates and arrays (nested, anonymous, flexible, multi-dimensional), all indexes",
  "Tests walk a few fixed structures with valid indexes.",
  ["src/value.c", "src/entry.c"], [("members", "src/value.c"), ("elements", "src/value.c")],
  "property-based testing: random programs and index sequences against offsetof and sizeof",
  "Exploration." + TRUST)
p("P07", "A printed value is a C initializer that recreates the value",
  "For every variable whose unions are resolved and whose pointers can be followed (or are printed as addresses), the text printed for its value is accepted by the C compiler as an initializer of the variable's type, and the initialized variable equals the original member by member, following pointers (floating point up to the printed precision; strings, counted arrays, casts and discriminated unions as the tags say). A value that no initializer can express (a cycle of pointers, a link into the middle of a list element, a union without a selector) is not printed: the result is NULL.",
  ["programs", "inputs"], "all types and contents; object graphs as for P08 (without flexible arrays, which C cannot initialize there)",
  "Tests compare a few strings with expected ones; escaping, signs, widths, nesting and anonymous members multiply.",
  ["src/value_string.c", "src/value_base_type.c", "src/value.c"], [("printing", "src/value_string.c"), ("scalars", "src/value_base_type.c")],
  "property-based testing: random values printed, compiled back with gcc and compared (round trip)",
  "Exploration." + TRUST)
p("P15", "The hash map behaves as a finite map for every history",
  "Starting from an empty map, after any history of put, get, contains, remove, memoize and iteration, with any hash and equality function consistent with each other, the map answers exactly as a finite map would: last value put wins, removed keys are gone, iteration visits every pair once (and removing during it is safe), memoization creates each value once. Keys and values are destroyed exactly once when the creator of the map asked for it, and a failing allocation fails only the operation it hits.",
  ["histories", "fault_sequences"], "all operation histories, colliding hash functions, allocation failures at any point",
  "Tests run a few fixed histories with a good hash function and no failures.",
  ["src/hashmap.c", "include/metac/backend/hashmap.h"], [("hash map", "src/hashmap.c")],
  "stateful property-based testing against a reference map, with colliding hashes and injected allocation failures",
  "Exploration." + TRUST)
p("P16", "The recursive iterator visits every task once, children before completion",
  "For every tree of tasks, the iterator hands out each task first in its start state, re-enters it when its dependencies are complete and its state says so, returns results and failures of dependencies to their parent in the order they were requested, reports the levels above correctly, and ends with the root's result, leaking nothing.",
  ["histories", "inputs"], "all task trees, states, orders of dependency handling, failures",
  "Tests use a few fixed trees.",
  ["src/iterator.c", "include/metac/backend/iterator.h"], [("iterator", "src/iterator.c")],
  "stateful property-based testing against a reference scheduler",
  "Exploration." + TRUST)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "catalog2.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "catalog2.py")) else None

P.sort(key=lambda x: x[0]["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": d["id"], "quick_cmd": "python3 check.py %s --tier quick" % d["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % d["id"],
                 "technique": t, "level": "exploration", "level_note": n, "evidence_file": "evidence/%s.json" % d["id"]} for d, t, n in P],
     "not_applicable": [],
     "notes": "No hooks in /repo. Every check builds the library and the code generator from /repo's working tree in a scratch directory; Go modules that are not available offline are replaced by the stand-ins in /verif/shim."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
