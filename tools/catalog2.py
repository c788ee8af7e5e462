GRAPH = ("object graphs of heap blocks: structures, arrays and arrays of pointers, counted and zero-ended arrays, flexible arrays, discriminated and anonymous unions, void pointers cast by a selector, intrusive lists through embedded links, unknown pointers; "
         "blocks shared, in cycles, or pointed into at any inner object; every block in use is pointed to at its beginning with its whole size known; the root may be a pointer, an array of pointers or a structure that nothing points to; all mode combinations and tag maps")
p("P08", "A deep copy is an independent, structure-preserving image of the source",
  "For every object graph described by tags and every mode, metac_value_copy_ex either returns the destination or NULL. On success the destination holds equal contents: in dag mode with exactly one new block per source block and every pointer (also those into the middle of blocks, and cycles) leading to the corresponding place, in tree mode with one new block per pointer followed and cycles closed on the copied ancestor; nothing in the copy points into the source; unknown pointers, unions and flexible arrays without a selector become NULL/zero, are copied as they are, or make the copy fail exactly as the mode says; NULL stays NULL. The source never changes, the result compares equal to the source, freeing it frees exactly the new blocks, and a failed copy (also when calloc_fn fails at any point) has given every block back to free_fn once.",
  ["inputs", "fault_sequences", "configurations"], GRAPH,
  "Tests copy about ten fixed graphs; sharing, cycles, inner pointers, modes and failing allocations combine freely.",
  ["src/value_deep.c", "src/entry_tag.c", "src/value.c", "include/metac/reflect/value.h"],
  [("memory map", "src/value_deep.c metac_new_value_memory_map_ex"), ("copy", "src/value_deep.c metac_value_copy_ex"), ("handlers", "src/entry_tag.c")],
  "property-based testing: generated object graphs, graph isomorphism against a block-level model, injected calloc_fn failures",
  "Exploration of graphs of up to 8 nodes and about 60 blocks." + TRUST)
p("P09", "Deep comparison says equal exactly when the contents are equal",
  "For every pair of object graphs of the same type, every mode and tag map, metac_value_equal_ex is 1 when all scalars (bit-fields, enumerations, selected union members, counted and zero-ended arrays up to their count) and the shape of the pointers are equal, following pointers and closing cycles at the same place, and 0 when any of them differs; it does not depend on addresses, padding, bytes a union selector leaves unused, or on whether equal parts are shared; it is symmetric and reflexive, and negative when something cannot be handled in the mode.",
  ["inputs", "configurations"], GRAPH + "; pairs are a graph and a relocated clone with zero or more changes anywhere",
  "Tests compare a few fixed pairs.",
  ["src/value_deep.c", "src/value.c", "src/value_base_type.c"],
  [("memory map", "src/value_deep.c metac_new_value_memory_map_ex"), ("comparison", "src/value_deep.c metac_value_equal_ex")],
  "property-based testing: generated graphs and mutated clones, comparison with the equality of canonical unfoldings",
  "Exploration. In dag mode pairs with the same contents where one pointer leads into the middle of a block and the other to a block of its own are not judged." + TRUST)
p("P10", "Deep free releases every owned block exactly once",
  "For every object graph described by tags and every mode, metac_value_free_ex calls free_fn exactly once with the beginning of every block that pointers of the graph reach (shared blocks and cycles included, pointers into the middle of a block not counted), never with anything else; it reads nothing after it is freed; unknown pointers are left alone or freed as the mode says. When something cannot be handled in the mode it returns 0 and frees nothing.",
  ["inputs", "configurations"], GRAPH,
  "Tests free about ten fixed graphs.",
  ["src/value_deep.c"], [("memory map", "src/value_deep.c metac_new_value_memory_map_ex"), ("free", "src/value_deep.c metac_value_free_ex")],
  "property-based testing: generated graphs, recorded free_fn calls against the model's set of owned blocks, AddressSanitizer",
  "Exploration." + TRUST)
p("P11", "Tag maps answer with the most specific tag; tag strings parse as written",
  "For every set of tag maps (categories with masks, own or external maps, default tags) and every history of setting tags, a lookup answers with the first category, in order, whose mask has the kind of the entry and that has a tag for the entry or (mask with final types) for its final type, where an external map answers as by itself, and otherwise with the default tag. Setting refuses an existing tag unless overriding; the tag is copied; contexts are destroyed exactly once, when overridden or with the map. A failed call changes and leaks nothing. metac_entry_tag_string_lookup returns the text between the quotes of the first key:\"value\" pair with exactly that key, escapes kept, and NULL if there is none, ignoring words that are no such pair.",
  ["histories", "inputs", "fault_sequences"], "all maps, histories and tag strings; keys without spaces, colons and quotes",
  "Tests set a few tags in one map without categories that miss.",
  ["src/entry_tag.c", "include/metac/reflect/entry_tag.h"], [("maps", "src/entry_tag.c metac_tag_map_tag, metac_tag_map_set_tag"), ("strings", "src/entry_tag.c metac_entry_tag_string_lookup")],
  "stateful property-based testing against a reference lookup, with injected allocation failures; generated strings for the parser",
  "Exploration." + TRUST)
p("P12", "Tagged pointers, unions and flexible arrays mean what their siblings say",
  "For every structure, with the counter or selector being any member that holds an integer (any width and sign, boolean, enumeration, bit-field, typedef, qualified), METAC_COUNT_BY makes a pointer or flexible array stand for exactly as many elements as the counter says, METAC_ZERO_ENDED_STRING for the characters up to and including the terminator, METAC_CONTAINER_OF for the containing object, METAC_UNION_MEMBER_SELECT_BY (by name, by number, or directly) and METAC_UNION_MEMBER_PARMANENT_SELECTION for the selected member, METAC_CAST_PTR for the elements of the type that the selector chooses: deep copy, comparison and free see that much and nothing else. When the tag cannot be followed (not a number, no such case or member, no such sibling of a cast), the operation fails and leaves nothing behind.",
  ["inputs", "configurations"], "all counter and selector types and values (counters not negative), cases and targets; data without const",
  "Tests use two or three counter types with fixed values.",
  ["src/entry_tag.c", "src/value_base_type.c", "src/value_deep.c"], [("handlers", "src/entry_tag.c metac_handle_*"), ("numbers", "src/value_base_type.c metac_value_num")],
  "property-based testing: generated tags and values, recorded sizes of copied blocks and sensitivity of comparison against a model",
  "Exploration." + TRUST)
p("P13", "Captured call parameters and results are what the function was given",
  "For every function signature (base types, enumerations, pointers, structures and unions by value, typedefs, arrays and functions as adjusted, any number of parameters) and all arguments, metac_value_parameter_wrap / vwrap captures each parameter with the declared type and exactly the passed value (METAC_WRAP_FN and METAC_WRAP_FN_RES alike, the latter also the result), the text of the call is the function's name with the values in order, and a deep copy of the captured call equals it, prints the same, is independent of it, differs once any parameter is changed, and is freed completely. When an allocation fails, the capture is refused and everything is given back. The storages behind it (metac_parameter_storage_*), nested ones included, keep the order, types and bytes of what was added through any history of additions, copies and cleanups.",
  ["programs", "inputs", "fault_sequences"], "all signatures and arguments; the classes of structures in known_findings.txt (16 bytes or less with floating point or packed members, alignment over 8) are excluded",
  "Tests capture about a dozen fixed signatures with fixed arguments; which registers and stack slots an argument takes depends on all arguments before it.",
  ["src/value_with_args.c", "include/metac/reflect/value_with_args.h", "modules/metac-reflect-gen", "src/value_string.c", "src/value_deep.c"],
  [("capture", "src/value_with_args.c"), ("generated readers of by-value structures", "modules/metac-reflect-gen"), ("deep functions on calls", "src/value_deep.c, src/value_string.c")],
  "property-based testing: generated signatures and arguments, captured bytes compared with the passed ones; injected allocation failures",
  "Exploration of up to 20 parameters; System V x86-64 only; four listed findings." + TRUST)
p("P14", "Captured printf-style lists hold each conversion's argument, and nothing else",
  "For every format of the supported conversions (d i o u x X c s p n f e g with hh h l ll L, any flags, width and precision, %% anywhere, conversions next to each other) and every argument list, by `...` or by va_list, capture by METAC_FORMAT_BASED_VA_ARG or metac_store_(v)printf_params yields one value per conversion, in order, with the type the conversion implies and exactly the argument passed; strings are copied with their terminator, read no further than the precision allows. The count and the parsed parts of the conversions agree with the format. Parameters after a va_list are not disturbed, a list without a tag stays empty. Formats with anything else (*, wide characters, unknown or unfinished conversions) are refused, leaving nothing behind, also when an allocation fails. The text of the call lists the values with their types; a deep copy equals it, prints the same, differs once a value is changed and is freed completely.",
  ["inputs", "fault_sequences"], "all formats and argument lists, every split over integer registers, floating point registers and stack",
  "Tests capture a few fixed formats with a single space between conversions and short strings.",
  ["src/printf_format.c", "src/value_with_args.c", "src/entry_tag.c", "src/value_string.c", "src/value_deep.c"],
  [("format parser and capture", "src/printf_format.c"), ("handler", "src/entry_tag.c metac_handle_printf_format"), ("lists inside calls", "src/value_with_args.c, src/value_deep.c, src/value_string.c")],
  "property-based testing: generated formats and hand-made argument lists ending exactly where the arguments end, AddressSanitizer, injected allocation failures",
  "Exploration of up to 20 conversions; System V x86-64 only." + TRUST)
p("P17", "Settings overrides merge in order, key by key, or are refused as a whole",
  "For every table of module settings and every list of overrides (yaml or json text, or --file:PATH with either), merging gives the settings where each override in order replaced or added exactly the keys it has: nested tables are merged key by key, everything else (scalars, lists, null, a table over a scalar or the reverse) is replaced; empty overrides (blank text, comments, null, {}) change nothing. Any override that cannot be read or is no table makes the whole merge fail with an error. The module's own settings are never changed by it and share nothing with the result.",
  ["inputs"], "all trees of settings and lists of overrides in both notations",
  "Tests merge four fixed pairs.",
  ["pkg/override/override.go"],
  [("merge", "pkg/override/override.go MergeAll")],
  "property-based testing (rapid): generated settings and overrides against a reference merge, with shrinking; the base and aliasing are checked after each merge",
  "Exploration of trees up to depth 4; keys are strings, numbers compared by value. Modules without settings are not judged. Third-party copystructure is replaced by a stand-in in /verif/shim (no network).")
p("P18", "Modules come from the first usable search path; failures are reported",
  "For every tree of search paths, a module named NAME is taken from the first search path having NAME/module.yaml with a readable header of a known kind (a kind refusing an instance lets the next path be tried); names with path separators, . and .. are refused; a spec file given by path is run from its own directory, one given with a name inside the module. A run evaluates the template of the spec with the module's settings merged with the overrides, with the templates of the module's own templates directory and, per include, of the first usable module of that name of the same kind; unreadable specs, missing templates, failing templates, unresolvable includes, wrong overrides and a missing working directory are errors, never partial output. The run happens in the working directory asked for, and the caller's is restored, also after errors; repeated runs of an instance are independent, also when its template changes the settings; a factory that forbids including modules, or the function include, refuses modules that use them. The command line gives the same output and a non-zero exit status exactly for errors.",
  ["inputs", "histories", "fault_sequences"], "all trees of modules, names, specs, includes, overrides and working directories",
  "Tests run a handful of fixed trees; a wrong choice between several candidate paths or a swallowed error shows only in particular trees.",
  ["pkg/module/module.go", "pkg/module/gotemplate/gotemplate.go", "cmd/run/run.go", "main.go"],
  [("resolution", "pkg/module/module.go InfoByName, NewInstance"), ("run", "pkg/module/gotemplate/gotemplate.go Run, handleIncludes"), ("command line", "cmd/run/run.go, main.go")],
  "property-based testing (rapid): generated module trees, several runs of each, against a reference resolution and evaluation, through the library and the command line",
  "Exploration of up to 5 search paths and 5 module names; a module including itself under another path is not judged. Third-party sprig and cobra are replaced by stand-ins in /verif/shim (no network), so their own behaviour is outside.")
p("P19", "Debug information is taken over completely and survives every representation",
  "For every well-formed DWARF debug information, the data the tool works with has every entry at its offset with its tag, its parent, its children in order, and every attribute with its name, class and exact value (64-bit integers included), and each compile unit with the files of its line table, empty when there is none; nothing is added. Written as yaml, json or unstructured data (to text or to files, by the library or by the functions templates use) and read again, in any sequence of representations, it is the same data; converting does not change the original. Malformed debug information is either refused with an error or gives exactly the entries debug/dwarf reads; absent files are errors.",
  ["inputs"], "all debug information made of the forms of DWARF 2 to 5; strings printable",
  "Tests take one entry by hand; forms, big numbers, missing line tables and nesting are not covered.",
  ["pkg/dwarfy", "pkg/module/gotemplate/funcs"],
  [("taking over", "pkg/dwarfy NewData"), ("representations", "pkg/dwarfy ToYamlBuffer, ToJsonBuffer, ToUnstructured and back"), ("template functions", "pkg/module/gotemplate/funcs")],
  "property-based testing (rapid): debug sections generated byte by byte from a model, round trips through all representations, random corruption compared with an independent walk",
  "Exploration of up to some 20 units and some thousand entries. The Go library's debug/dwarf is trusted for the meaning of forms; strings with control characters are not generated (yaml library defect).")
p("P20", "The type database shows every type exactly; equal types are one, others apart",
  "For every debug information of any number of compile units, the database has for every type, variable, function, block and namespace an entry with exactly its properties (names, sizes, encodings, counts, members with offsets and bit positions, enumerators, parameters, declarations), referring to the entries of exactly the types it refers to, and each compile unit shows its declarations in order with their locations. Two types share one entry exactly when they are indistinguishable: the same kind and properties, and, recursively, referring to indistinguishable types, cycles included; types that merely have the same name in different units (declared here and complete there, or with different members) stay apart. Every link leads to an existing entry, parents are those of all entries shown, ids are unique. The result is the same each time and for each representation of the input, which is not changed; damaged input (dangling or wrongly typed references, missing attributes) is an error.",
  ["inputs", "programs"], "all debug information of C and C++ units made of base types, qualifiers, pointers, typedefs, arrays, enumerations, structures, unions, classes, subprograms, variables, blocks and namespaces",
  "Tests build a database of two or three entries by hand.",
  ["pkg/metadb"],
  [("merging equal types", "pkg/metadb/metadb_builder.go"), ("entries", "pkg/metadb")],
  "property-based testing (rapid): generated units, clones and mutations; comparison with the coarsest stable partition of the type graph (bisimulation) and a field-by-field model",
  "Exploration of up to 4 units of some 25 types each; no arrays of void, no cycles made of nameless types only (C has none).")
p("P21", "A generated test main runs every test exactly once and reports failures",
  "For every program made of any number of units with tests written with METAC_START_TEST (any names, which may contain underscores, digits or the words the tool uses itself, tests declared extern in further units included), the main generated by metac-test-gen compiles and links, runs every test of every unit exactly once and nothing else, whatever other variables, functions, types, members and parameters have names that resemble test requests, and its exit status is zero exactly when all tests pass; a program without tests gives a main that succeeds.",
  ["programs", "configurations"], "all sets of tests and names over several units, both compilers, DWARF 3 to 5",
  "The repository's own tests are run through this generator, so a lost test is silently not run and a lost failure not seen.",
  ["modules/metac-test-gen", "include/metac/test.h", "include/metac/reqresp.h", "pkg/metadb", "pkg/module/gotemplate"],
  [("requests", "modules/metac-test-gen/templates/_build_requests.tpl"), ("main", "modules/metac-test-gen/templates/_.tpl"), ("request macro", "include/metac/test.h")],
  "property-based testing: generated programs of tests, the generated main compiled and run; recorded runs and exit status against the model, with shrinking",
  "Exploration of up to 11 units and 110 tests. The check library and the template function stand-ins in /verif/shim are trusted.")
p("P22", "Generated code is reproducible and independent of the debug information's form",
  "For every program, compiler and debug format, the text that metac-reflect-gen and metac-test-gen generate is the same, byte for byte, each time they are run, and the same whether the debug information is read from the ELF file, from its yaml or its json form, or from a form converted through another one; the yaml and json forms themselves do not depend on the form they were made from.",
  ["programs", "schedules", "configurations"], "all C programs of the kind P01 and P02 use; ELF objects and, for the forms, Mach-O and PE containers",
  "Go's maps are visited in another order each time: a dependence on it shows only in some runs of some programs.",
  ["modules/metac-reflect-gen", "modules/metac-test-gen", "pkg/dwarfy", "pkg/metadb", "pkg/module/gotemplate", "cmd/run/run.go"],
  [("generation", "modules/metac-reflect-gen/templates"), ("representations", "pkg/dwarfy"), ("type database", "pkg/metadb")],
  "property-based testing: random programs, metamorphic comparison of outputs over runs and representations, with shrinking",
  "Exploration.")
