"""Which harness entries decide which property, with what bounds.
A run: h = harness crate, entry = exported function, quick/thorough = parameters (None: not in this tier),
reach = witnesses that must be reached (guard against vacuity), bound = what the parameters bound."""

CHECKS = {}


def prop(pid, *, runs, bounds, assumptions=(), note="", budget=None):
    CHECKS[pid] = dict(runs=list(runs), bounds=bounds, assumptions=list(assumptions), note=note)
    if budget:
        CHECKS[pid]["budget"] = budget


def run(h, entry, quick, thorough=None, reach=(), bound="", **kw):
    d = dict(h=h, entry=entry, quick=list(quick) if quick is not None else None, reach=list(reach), bound=bound, **kw)
    d["thorough"] = list(thorough) if thorough is not None else d["quick"]
    return d


prop("C01",
     runs=[run("h-wrap", "c01_build", [10], reach=[1], bound="every wrapping with up to 10 lists (the documented maximum)"),
           run("h-wrap", "c01_step", [10], reach=[1, 2], bound="one operation from every wrapping with up to 10 lists"),
           run("h-wrap", "c01_pair", [10], reach=[1, 2], bound="every pair of wrappings with up to 10 lists"),
           run("h-wrap", "c01_display", [10], reach=[1], bound="every wrapping with up to 10 lists, type name T")],
     bounds="all wrappings with 0..10 list levels (the type's own maximum), every nullability combination: the whole domain",
     assumptions=["the eleventh list level panics by design (documented in the code) and is outside the property"])

COMPOSED = ["schemas that are syntactically valid for graphql parsers other than cynic-parser too (no unbalanced brackets, `!!`, `()`)",
            "subgraphs without @composite directives and extensions unless stated"]

prop("C02",
     runs=[run("h-compose", "c02_types", [1, 2], [2, 3], reach=[1, 2], bound="a field of two subgraphs, every wrapping with 1 (thorough 2) lists, two names"),
           run("h-compose", "c02_types", [2, 2], reach=[1, 2], bound="two subgraphs, up to 2 lists"),
           run("h-compose", "c02_types", [1, 3], reach=[1, 2], bound="three subgraphs, 1 list")],
     bounds="fields of objects and interfaces in two and three subgraphs, all nullabilities of up to 2 list levels, two named types, every order",
     assumptions=COMPOSED + ["types that differ in more than their outermost nullability may be rejected or composed to a type valid for every subgraph"])

prop("C03",
     runs=[run("h-compose", "c03_types", [1, 2], [2, 2], reach=[1, 2], bound="presence, nullability and named type of an argument or input field in two subgraphs, 1 (thorough 2) lists"),
           run("h-compose", "c03_defaults", [2, 7], [3, 7], reach=[1, 2], bound="every presence and default of an argument or input field in two (thorough three) subgraphs"),
           run("h-compose", "c03_defaults", [3, 4], reach=[1, 2], bound="an argument or input field absent, nullable, non-null or with a default in each of three subgraphs")],
     bounds="arguments and input fields of two subgraphs, list depth up to 1 (thorough 2); presence, nullability and defaults in three subgraphs",
     assumptions=COMPOSED + ["a required input with a default that another subgraph does not have, and conflicting defaults, may be rejected"])

prop("C04",
     runs=[run("h-compose", "c04_enums", [2, 2], [2, 3], reach=[1, 2], bound="two subgraphs, enums over 2 (thorough 3) values, every usage"),
           run("h-compose", "c04_enums", [3, 2], reach=[1, 2], bound="three subgraphs, enums over 2 values")],
     bounds="enums over up to 3 values in two and three subgraphs with every usage (none, argument, input field, output field, lists, both)",
     assumptions=COMPOSED)

prop("C05",
     runs=[run("h-compose", "c05_hide", [0, 9], reach=[1, 2], bound="9 families, every assignment of @inaccessible to their elements in one or two subgraphs"),
           run("h-compose", "c05_implements", [0], reach=[1], bound="interfaces implemented by objects and interfaces of two subgraphs, hidden or not")],
     bounds="9 families of schemas (objects, interfaces, unions, enums, input objects, arguments, entities), every assignment of @inaccessible",
     assumptions=COMPOSED + ["an element not marked in a subgraph whose type is marked may make composition fail even where its parent or another subgraph hides it",
                             "elements are types, fields, arguments, input fields, enum values, union members and implemented interfaces"])

prop("C06",
     runs=[run("h-compose", "c06_guards", [0, 6], reach=[1, 2], bound="6 families, every placement of @authenticated, @requiresScopes and @policy on an element of two subgraphs with other directives between them"),
           run("h-compose", "c06_links", [0], reach=[1], bound="every way of naming the directives with @link (prefix, import, rename)")],
     bounds="types, interfaces, scalars, enums and fields in two subgraphs, all placements of the three directives with up to two lists of scopes",
     assumptions=COMPOSED)

prop("C07",
     runs=[run("h-compose", "c07_sharing", [0, 6], reach=[1, 2], bound="6 families, every combination of @shareable (field, type), @key, @external, @override, @inaccessible and federation version in two and three subgraphs")],
     bounds="one shared field in two and three subgraphs with every combination of the directives",
     assumptions=COMPOSED + ["objects shareable as a whole have the same accessible fields in all subgraphs; nested key fields are outside the property"])

prop("C08",
     runs=[run("h-compose", "c08_kinds", [2, 1], reach=[1, 2], bound="every pair of kinds (entity interfaces included) for one name in two subgraphs"),
           run("h-compose", "c08_kinds", [3, 1], reach=[1, 2], bound="every triple of kinds in three subgraphs")],
     bounds="8 kinds of definitions of one name in two and three subgraphs",
     assumptions=COMPOSED)

prop("C09",
     runs=[run("h-compose", "c09_routes", [0, 8], reach=[1, 2], bound="8 families, every presence of a field and of @external, @override (with labels), @provides, @requires, keys and entity interfaces in two and three subgraphs")],
     bounds="8 families over objects, entities and entity interfaces in two and three subgraphs",
     assumptions=COMPOSED + ["a subgraph whose field is overridden without a label (or at 100 percent) is not a provider; external fields nested in keys and federation 1 entities without keys are outside the property"])

prop("C10",
     runs=[run("h-compose", "c10_families", [0, 37], reach=[1, 2], bound="37 families of subgraphs, all their alternatives"),
           run("h-compose", "c10_values", [0], reach=[1], bound="30 values of all kinds as defaults and directive arguments in 5 places of 5 types"),
           run("h-compose", "c10_text", [0, 11, 1], reach=[1], bound="11 positions of descriptions, reasons, defaults and directive arguments with one free character up to U+FFFF"),
           run("h-compose", "c10_text", [0, 11, 2], [0, 11, 3], reach=[1], bound="the same with up to 2 (thorough 3) free characters")],
     bounds="37 families with symbolic alternatives; texts of up to 2 (thorough 3) free characters in 11 positions",
     assumptions=COMPOSED + ["characters up to U+FFFF (cynic-parser does not read others)", "white space and blank lines at the start and end of descriptions and lines of white space only are normalised"])

prop("C11",
     runs=[run("h-compose", "c11_families", [0, 37], reach=[1, 2], bound="37 families, every alternative and every pair of orders of their subgraphs"),
           run("h-compose", "c11_elements", [2], [3], reach=[1, 2], bound="an element of each kind in two subgraphs with independent alternatives"),
           run("h-compose", "c11_elements", [3], reach=[1, 2], bound="the same in three subgraphs, every permutation")],
     bounds="37 families and single elements of every kind in two and three subgraphs, every permutation",
     assumptions=COMPOSED + ["descriptions and deprecation reasons are those of the first subgraph that has one"])

prop("C12",
     runs=[run("h-compose", "c12_broken", [0, 14], reach=[1, 2], bound="14 families of broken subgraphs (unknown names, wrong kinds, malformed directives and arguments), all alternatives"),
           run("h-compose", "c12_words", [2, 0, 3], reach=[1, 2], bound="field sets, names and arguments of up to 2 words in places 0..2"),
           run("h-compose", "c12_words", [2, 3, 6], reach=[1, 2], bound="the same in places 3..5"),
           run("h-compose", "c12_words", [2, 6, 9], reach=[1, 2], bound="the same in places 6..8"),
           run("h-compose", "c12_words", None, [3, 0, 1], reach=[1, 2], bound="up to 3 words in the first place"),
           run("h-compose", "c12_words", None, [3, 3, 4], reach=[1, 2], bound="up to 3 words in the fourth place"),
           run("h-compose", "c12_words", None, [3, 6, 7], reach=[1, 2], bound="up to 3 words in the seventh place")],
     bounds="14 families of broken subgraphs; 9 places with texts of up to 2 (thorough 3) words over names, brackets, colons and values",
     assumptions=["subgraphs the SDL parser accepts"])

prop("C13",
     runs=[run("h-compose", "c13_numbers", [2, 1], [2, 2], reach=[1], bound="@cost and @listSize sizes of two subgraphs, numbers of 1 (thorough 2) free digits with a sign"),
           run("h-compose", "c13_numbers", [3, 1], reach=[1], bound="the same in three subgraphs"),
           run("h-compose", "c13_meta", [2], reach=[1], bound="@deprecated, @tag, @cost, @listSize, @oneOf on every kind of element in two subgraphs"),
           run("h-compose", "c13_meta", [3], reach=[1], bound="the same in three subgraphs")],
     bounds="every placement in two and three subgraphs; costs and sizes of up to 2 digits",
     assumptions=COMPOSED + ["costs and assumed sizes compose to the maximum, slicing arguments and sized fields to the union of those that exist, requireOneSlicingArgument to any"])

prop("C14",
     runs=[run("h-compose", "c14_sets", [3], [6], reach=[1, 2, 3], bound="field sets generated from a grammar with 3 (thorough 6) choices"),
           run("h-compose", "c14_values", [0], [2], reach=[1, 2, 3], bound="argument values in field sets: every literal kind, lists and objects"),
           run("h-compose", "c14_words", [2], [3], reach=[1, 2, 3], bound="texts of up to 2 (thorough 3) words over names, braces, fragments and arguments in @key, @requires and @provides")],
     bounds="generated field sets over a schema with objects, interfaces, unions and arguments; texts of up to 2 (thorough 3) words",
     assumptions=COMPOSED + ["aliases, directives, empty parentheses, composite fields without subselection, fragments that never apply and integers beyond 32 bits in field sets are outside the property"])

prop("C15",
     runs=[run("h-diff", "c15_holes", [2, 0, 30], [3, 0, 30], reach=[1, 2, 3], bound="30 document templates with 1..4 holes of up to 2 (thorough 3) free characters or alternatives, source and target independent"),
           run("h-diff", "c15_holes", [3, 7, 8], None, reach=[1, 2], bound="the input field template with holes of up to 3 characters"),
           run("h-diff", "c15_kinds", [0], reach=[1, 2], bound="every pair of documents of a definition A (8 forms), another definition (6 forms) and a schema definition (4 forms) in two orders")],
     bounds="30 templates (objects, interfaces, unions, enums, inputs, arguments, defaults, directives, schema definitions, extensions) with free characters in the holes of both schemas; all pairs of 384 documents with definitions of any kind",
     assumptions=["schemas that are syntactically valid and define no name twice in one place (duplicates make the reported paths ambiguous)"])

prop("C16",
     runs=[run("h-diff", "c16_holes", [2, 0, 30], [3, 0, 30], reach=[1, 2], bound="the same 30 templates, source patched with the diff to the target"),
           run("h-diff", "c16_kinds", [0], reach=[1, 2], bound="every pair of the 384 documents with definitions of any kind")],
     bounds="30 templates with holes of up to 2 characters (thorough 3) in source and target; all pairs of 384 documents",
     assumptions=["schemas that are syntactically valid and define no name twice in one place",
                  "directives applied to elements are not part of the diff; the patch keeps those of the source"])

prop("C17",
     runs=[run("h-diff", "c17_parse", [6], [8], reach=[1, 2], bound="every text of up to 6 (thorough 8) characters over .@&[]_aZ09+-"),
           run("h-diff", "c17_bytes", [3], [4], reach=[1, 2], bound="9 templates with a hole of up to 3 (thorough 4) arbitrary characters, multibyte included"),
           run("h-diff", "c17_print", [0], reach=[1], bound="every kind of path with 3 names and indexes 0..255, 1000 and the maximum")],
     bounds="path texts up to 6 characters of the path alphabet, templates with 3 arbitrary characters, all built path forms",
     assumptions=["an index printed with leading zeros is read as the number"])

prop("C18",
     runs=[run("h-ops", "c18_cases", [0, 8], reach=[1, 2], bound="8 families of schemas, every pair of variants, every operation of the family and everything used"),
           run("h-ops", "c18_wraps", [2], [3], reach=[1, 2], bound="an argument, output or input field with every nullability of up to 2 (thorough 3) lists on both sides"),
           run("h-ops", "c18_names", [0], reach=[1, 2], bound="every order of the names of types, fields and arguments")],
     bounds="8 schema families with up to 13 variants of the changed element on each side and up to 9 operations; all nullabilities of up to 2 list levels; names of one letter in any order",
     assumptions=["the operation is valid against the source schema or selects unknown fields", "up to 57 list levels (the encoding's limit)"])

prop("C19",
     runs=[run("h-ops", "c19_cases", [0, 8], reach=[1, 2], bound="the same families as C18"),
           run("h-ops", "c19_wraps", [2], [3], reach=[1, 2], bound="an argument, output or input field with every nullability of up to 2 (thorough 3) lists on both sides"),
           run("h-ops", "c19_names", [0], reach=[1, 2], bound="every order of the names of types, fields and arguments")],
     bounds="8 schema families with up to 13 variants of the changed element on each side and up to 9 operations; all nullabilities of up to 2 list levels; names of one letter in any order",
     assumptions=["the operation is valid against the source schema or selects unknown fields",
                  "an argument that became required may be reported although every known operation provides it"])

prop("C20",
     runs=[run("h-ops", "c20_counts", [2], [3], reach=[1, 2], bound="up to 2 (thorough 3) operations from 14 selections (the first with two), any request counts below 2^56, any threshold")],
     bounds="up to 2 operations over 14 selections with aliases, nesting, inline and named fragments, list and object literals; 56-bit request counts, 64-bit threshold")

prop("C21",
     runs=[run("h-validate", "c21_types", [1], [2], reach=[1, 2], bound="10 x 10 named types of every kind in every nullability of up to 1 (thorough 2) lists, objects and interfaces"),
           run("h-validate", "c21_args", [2], [3], reach=[1, 2], bound="up to 2 (thorough 3) arguments of up to 6 types with and without default on both sides"),
           run("h-validate", "c21_parts", [0], reach=[1, 2], bound="every distribution of 2 interfaces and their fields over definitions and extensions"),
           run("h-validate", "c21_targets", [0], reach=[1, 2], bound="11 definitions of the implemented name, 4 kinds of implementer, both orders, all options")],
     bounds="2 related interfaces with 2 fields, field types of up to 1 list (thorough 2) around 10 named types, up to 2 (thorough 3) arguments",
     assumptions=["the extension of a type has its kind unless extending unknown types is forbidden"])

prop("C22",
     runs=[run("h-validate", "c22_graph", [3], reach=[1, 2], bound="every graph of references between 3 input objects, one of them extended"),
           run("h-validate", "c22_graph", None, [4], reach=[1, 2], bound="every graph of nullable and non-null references between 4 input objects"),
           run("h-validate", "c22_chain", [4], [5], reach=[1, 2], bound="4 (thorough 5) input objects with one reference each")],
     bounds="all reference graphs over 3 input objects (nullable, non-null, list references), functional graphs over 4; thorough: 4 and 5")

prop("C23",
     runs=[run("h-validate", "c23_names", [99], reach=[1, 2], bound="10 templates with up to two names of up to 3 free characters over _aA, all options"),
           run("h-validate", "c23_forms", [0, 99], reach=[1, 2], bound="19 families of documents, all their alternatives, all options")],
     bounds="names of up to 3 characters in every defining position; 19 families of documents over kinds, extensions, references, roots and directives",
     assumptions=["the extension of a type has its kind unless extending unknown types is forbidden", "a repeated directive definition is outside the property"])

prop("C24",
     runs=[run("h-parse", "c24_any", [6], [8], reach=[1, 2], bound="every text of up to 6 (thorough 8) characters over the map alphabet {}[].<>:|, space, newline, a Z _ 0 ,"),
           run("h-parse", "c24_bytes", [4], [6], reach=[1, 2], bound="every text of up to 4 (thorough 6) bytes, ASCII or é"),
           run("h-parse", "c24_template", [4], [5], reach=[1, 2], bound="8 maps with a hole of up to 4 (thorough 5) alphabet characters"),
           run("h-parse", "c24_model", [1, 1], [1, 0], reach=[1], bound="every map built from paths of up to 2 segments, objects of up to 2 fields, lists, with one level of nesting")],
     bounds="texts up to 6 alphabet characters or 4 arbitrary bytes, templates with 4 free characters, built maps with one nesting level")

prop("C25",
     runs=[run("h-parse", "c25_parse", [10], [14], reach=[1, 2, 3, 4], bound="every text of up to 10 (thorough 14) bytes, ASCII or é"),
           run("h-parse", "c25_construct", [3], [4], reach=[1], bound="parts of up to 3 (thorough 4) ASCII bytes")],
     bounds="references of up to 10 bytes (thorough 14)")

prop("C26",
     runs=[run("h-ext", "c26_parse", [7], [10], reach=[1, 2], bound="texts of up to 7 (thorough 10) characters over a-.01+"),
           run("h-ext", "c26_parse_bytes", [2], [3], reach=[1, 2], bound="5 templates with up to 2 (thorough 3) arbitrary bytes"),
           run("h-ext", "c26_roundtrip", [3, 2], [4, 3], reach=[1, 2], bound="names up to 3 and pre-releases up to 2 characters"),
           run("h-ext", "c26_compatible", [0], reach=[1, 2], bound="all 64-bit version numbers, 7 requirement forms, 6 names"),
           run("h-ext", "c26_catalog", [2], [3], reach=[1, 2, 3], bound="catalogs of up to 2 (thorough 3) extensions")],
     bounds="identifier texts up to 7 characters; all release versions against 7 requirement forms; catalogs of up to 2 extensions",
     assumptions=["a name that itself contains '-' followed by a valid version is ambiguous and outside the round trip"])

prop("C27",
     runs=[run("h-parse", "c27_template", [2], [3], reach=[1, 2], bound="10 templates around placeholders with up to 2 (thorough 3) arbitrary bytes per hole"),
           run("h-parse", "c27_values", [4], [6], reach=[1], bound="4 templates with a variable whose value is up to 4 (thorough 6) arbitrary bytes")],
     bounds="10 templates with holes of up to 2 arbitrary bytes (3 where the template is a single hole); two set variables and one unset",
     assumptions=["vertical tab is excluded (Unicode and ASCII white space differ on it)"])

prop("C29",
     runs=[run("h-events", "c29_history", [3], [4], reach=[1, 2, 3, 4, 5], bound="every history of 3 (thorough 4) pushes with a pop after each, every filter"),
           run("h-events", "c29_content", [0], reach=[1, 2, 3, 4, 5], bound="one event of every kind, all contents and durations symbolic"),
           run("h-events", "c29_long", [70], [200], reach=[1], bound="70 (thorough 200) pushes with one pop at any point, over two block boundaries of the queue")],
     bounds="histories of up to 3 events under all 18 filters, single events with arbitrary content, one-kind histories of 70 events; single-threaded",
     assumptions=["one thread; concurrent producers are C37"])

prop("C30",
     runs=[run("h-ids", "c30_bitset_op", [7], reach=[1, 2, 3, 4, 5], bound="one operation from any bit set of capacity 0,1,32,33,64,70 with members at block boundaries"),
           run("h-ids", "c30_bitset_bin", [4], [7], reach=[1], bound="binary operators between sets of equal and different capacity"),
           run("h-ids", "c30_bitset_iter", [7], reach=[1], bound="iteration over those sets"),
           run("h-ids", "c30_range", [0], reach=[1], bound="all 16-bit intervals and ids"),
           run("h-ids", "c30_range_iter", [5], [8], reach=[1, 2], bound="intervals of up to 5 (thorough 8) ids anywhere, any mix of next and next_back"),
           run("h-ids", "c30_from_slice", [4], [6], reach=[1, 2], bound="slices of up to 4 (thorough 6) arbitrary ids"),
           run("h-ids", "c30_many", [4, 3], [5, 4], reach=[1, 2], bound="relations of up to 4 pairs over 3 keys (thorough 5 over 4)"),
           run("h-ids", "c30_one", [3], [4], reach=[1], bound="3 writes to a 4 element map")],
     bounds="bit sets up to 80 ids with symbolic members at block boundaries, all 16-bit intervals, relations up to 4 pairs")

prop("C35",
     runs=[run("h-events", "c35_union", [0], reach=[1, 2, 3], bound="all triples of statuses, 62-bit counts")],
     bounds="all triples of statuses with counts below 2^62: the whole domain short of counter overflow")

prop("C28",
     runs=[run("h-logger", "c28_due", [2], [3], reach=[1, 2], bound="2 (thorough 3) writes of symbolic sizes at symbolic times under every strategy"),
           run("h-logger", "c28_history", [2, 0], [3, 0], reach=[1, 2, 4], bound="histories of 2 (thorough 3) writes, all files on a model file system"),
           run("h-logger", "c28_history", [2, 5], reach=[1, 2, 3, 4], bound="histories of 2 writes with a failing file operation anywhere"),
           run("h-logger", "c28_burst", [8], [12], reach=[1], bound="8 (thorough 12) rotations within the same or consecutive milliseconds")],
     bounds="histories of 2 (thorough 3) writes with symbolic times and sizes; one injected fault",
     assumptions=["the file system is a model in memory (open, write, rename, metadata); renames and writes are atomic", "the wall clock never runs backwards", "one thread"])

prop("C31",
     runs=[run("h-config", "c31_layers", [0], reach=[1, 2, 3, 4], bound="every presence of every setting in the global and specific section, all numbers symbolic"),
           run("h-config", "c31_active", [0], reach=[1, 2], bound="every combination of enabled flags"),
           run("h-config", "c31_toml", [0], reach=[1, 2], bound="every combination of sections in a document"),
           run("h-config", "c31_settings", [0], reach=[1, 2], bound="sampling rates, collection limits, propagation flags, headers, response extension and batch settings, each there or not"),
           run("h-config", "c31_tls", [0], reach=[1, 2], bound="every combination of TLS settings")],
     bounds="every presence/value combination of the settings of the OTLP and stdout exporters in two sections",
     assumptions=["stdout exporters are taken from one place as a whole, as documented"])

prop("C32",
     runs=[run("h-sdk", "c32_priorities", [0], reach=[1], bound="all pairs of 8-bit priorities"),
           run("h-sdk", "c32_contract", [2], [3], reach=[1, 2], bound="every sequence of 2 (thorough 3) settings over 3 directives")],
     bounds="all 8-bit accessibilities; sequences of up to 2 (thorough 3) settings")

prop("C33",
     runs=[run("h-sdk", "c33_integers", [0], reach=[1, 2], bound="30 column types; all integers that fit, windows around the ends of each type"),
           run("h-sdk", "c33_floats", [0], reach=[1, 2], bound="10 floats around the limits, every column type"),
           run("h-sdk", "c33_text", [2], [3], reach=[1], bound="texts of up to 2 (thorough 3) characters, every column type"),
           run("h-sdk", "c33_bytes", [3], [4], reach=[1, 2], bound="hexadecimal texts of up to 3 (thorough 4) arbitrary bytes after the prefix"),
           run("h-sdk", "c33_shapes", [0], reach=[1, 2], bound="every kind of value for every column type"),
           run("h-sdk", "c33_json", [1], [2], reach=[1, 2], bound="JSON columns, trees of depth 1 (thorough 2)"),
           run("h-sdk", "c33_query", [2], [3], reach=[1], bound="queries with 2 (thorough 3) bound values or arrays"),
           run("h-sdk", "c33_lists", [0], reach=[1], bound="arrays of up to 3 elements read and iterated"),
           run("h-sdk", "c33_types", [0], reach=[1], bound="every Rust type that can be bound, alone, optional and in lists; all numbers"),
           run("h-sdk", "c33_casts", [0], reach=[1], bound="30 column types, alone and as lists")],
     bounds="all 30 column types; 64-bit integers that fit and windows around the limits of the integer types; texts up to 2 (thorough 3) characters; queries of 2 (thorough 3) parameters")

prop("C39",
     runs=[run("h-config", "c39_expand", [0], reach=[1, 2], bound="placeholders in every string of a document, set and unset"),
           run("h-config", "c39_paths", [0], reach=[1], bound="every relative and absolute path setting"),
           run("h-config", "c39_sections", [0], reach=[1, 2], bound="every section, absent, empty and with an unknown key"),
           run("h-config", "c39_entries", [0], reach=[1, 2], bound="every kind of entry of lists and maps"),
           run("h-config", "c39_durations", [1], reach=[1, 2], bound="durations with numbers of 1 digit and 1 byte of unit"),
           run("h-config", "c39_values", [1], [2], reach=[1, 2], bound="sizes, fractions, levels and lists with 1 (thorough 2) arbitrary characters")],
     bounds="a document that covers every section of the configuration, one symbolic deviation at a time",
     assumptions=["rate limits below one second may be rejected (the limiter counts whole seconds)"])

prop("C40",
     runs=[run("h-sdk", "c40_query", [2], [3], reach=[1, 2], bound="2 (thorough 3) elements of 6 kinds, every decision on each, every order"),
           run("h-sdk", "c40_response", [2], [3], reach=[1, 2], bound="2 (thorough 3) elements of responses, every decision on each"),
           run("h-sdk", "c40_output", [0], reach=[1], bound="the whole output of an authorization with state and headers")],
     bounds="up to 2 (thorough 3) elements over up to two directives, every decision, shared and own errors")

prop("C41",
     runs=[run("h-sdk", "c41_data", [1, 6], reach=[1], bound="values of depth 1 with up to 2 children, all 64-bit integers, texts of up to 2 characters"),
           run("h-sdk", "c41_data", [2, 1], [2, 2], reach=[1], bound="every shape of depth 2"),
           run("h-sdk", "c41_response", [0], reach=[1], bound="responses with up to 2 errors, items of up to 2 responses"),
           run("h-sdk", "c41_field", [0], reach=[1], bound="selections of up to 2 fields with up to 2 nested ones"),
           run("h-sdk", "c41_variables", [3], [5], reach=[1], bound="3 (thorough 5) variables with arbitrary ids")],
     bounds="values of depth 2, selections of two levels, 3 (thorough 5) variables",
     assumptions=["the resource handles of the component boundary (headers, event queue) are imports of the host and outside the check"])

prop("C34",
     runs=[run("h-lint", "c34_cases", [3], [4], reach=[1, 2], bound="names of up to 3 (thorough 4) characters over abAB1_ and four endings in 14 places"),
           run("h-lint", "c34_affixes", [0], reach=[1, 2], bound="17 affixes, pairs of them, each with any letter changed or added"),
           run("h-lint", "c34_deprecated", [0], reach=[1, 2], bound="7 combinations of directives in 13 places"),
           run("h-lint", "c34_two", [0], reach=[1, 2], bound="every pair of definitions over 14 places and 6 names")],
     bounds="names of up to 3 characters over a 6 letter alphabet that has every class of characters; all affixes with one arbitrary letter changed or added; up to 2 definitions",
     assumptions=["names are ASCII (GraphQL names are)", "only object types named Query, Mutation and Subscription count as roots, as documented"])

prop("C42",
     runs=[run("h-compose", "c42_styles", [0], [1], reach=[1], bound="12 documents over all federation 2 and composite schemas directives, every way of linking (imports, aliases, swapped names, prefixes, schema definitions and extensions) in one (thorough: each) subgraph"),
           run("h-compose", "c42_names", [4], reach=[1, 3], bound="prefixes and aliases of up to 4 characters, the names of other directives among them"),
           run("h-compose", "c42_unknown", [0], reach=[1, 2], bound="every directive left out of the imports, spelled in four ways")],
     bounds="12 documents that use every directive, all link styles; aliases and prefixes of up to 4 characters",
     assumptions=COMPOSED[:1] + ["composition is compared with that of the same documents where every directive is imported under its own name, which C02 to C14 judge"])

prop("C43",
     runs=[run("h-compose", "c43_links", [0], reach=[1, 2], bound="two subgraphs with up to two of 22 links each, extensions and others"),
           run("h-compose", "c43_places", [0], [1], reach=[1], bound="13 kinds of elements and the schema, 7 argument lists, repeated and combined directives in two subgraphs")],
     bounds="22 forms of links, all pairs of them; every place a directive can be; 7 argument lists with every kind of value",
     assumptions=COMPOSED[:1] + ["an extension URL that one subgraph links under two names is outside the property", "the prefix of an extension whose URL ends in a version without v is outside the property (the link specification and the tests disagree)"])

prop("C44",
     runs=[run("h-compose", "c44_uses", [0], [1], reach=[1], bound="14 places, 6 ways of having the directive in one subgraph and 2 (thorough 4) in the other, composed or not, repeated or not"),
           run("h-compose", "c44_definitions", [0], [1], reach=[1, 2], bound="2 (thorough 3) definitions with 10 argument lists, 4 location lists, repeatable or not, composed or not")],
     bounds="two (thorough up to three) subgraphs, one composed directive, 14 places, 10 argument lists",
     assumptions=COMPOSED[:1] + ["both subgraphs have the directive from the same place: linked with one URL or not linked at all"])


prop("C45",
     runs=[run("h-compose", "c45_marks", [0, 7], reach=[1, 2], bound="7 families, every combination of @lookup, @internal, @is, @require and @derive with keys, sharing, overriding, in two and three subgraphs of the composite schemas or the federation specification"),
           run("h-compose", "c45_batch", [0], reach=[1, 2], bound="one subgraph: 8 return types by 7 argument lists"),
           run("h-compose", "c45_batch", [1], [2], reach=[1, 2], bound="two (thorough three) subgraphs, 8 (6) return types by 7 (3) argument lists each"),
           run("h-compose", "c45_rules", [0, 1], reach=[1, 2], bound="one subgraph: two of three groups of rules together"),
           run("h-compose", "c45_rules", [1, 0], [1, 1], reach=[1, 2], bound="two subgraphs: one (thorough two) of three groups of rules"),
           run("h-compose", "c45_rules", [2, 0], reach=[1, 2], bound="three subgraphs: one of three groups of rules")],
     bounds="one to three subgraphs; the rules of the specification about lookups, inaccessible query roots, overrides, provided selections and shared subscriptions",
     assumptions=COMPOSED[:1] + ["@internal on a type says nothing about its fields in other subgraphs"])

prop("C46",
     runs=[run("h-sdk", "c46_schema", [0], reach=[1, 2], bound="lists of fields, interfaces, members and the parent of a field in any order"),
           run("h-sdk", "c46_schema", [1], reach=[1, 2], bound="types and wrappings of fields, arguments and input fields"),
           run("h-sdk", "c46_schema", [2], reach=[1, 2], bound="directives with any number as argument on every kind of definition"),
           run("h-sdk", "c46_schema", [3], reach=[1, 2], bound="every choice of the root types")],
     bounds="schemas of 8 types of every kind and 3 fields, 4 ways to number them, names with free characters, lists of up to 3",
     assumptions=["what the host sends is consistent: ids are unique and refer to definitions of the right kind"])

ENGINE = ["the engine's schema and operation crates are built with stand-ins for crates that are not available offline: the string interner, the JSON reader of query parameters, the template engine and the HTTP client; the operation normalizer (only a cache key) is left out",
          "federated graphs are given as SDL, without extensions"]

prop("C47",
     runs=[run("h-engine", "c47_variables", [0], reach=[1, 2], bound="a variable of any type, nullable or not, with any kind of value (64 bit integers, floats, strings, enum values, lists, null, none)"),
           run("h-engine", "c47_variables", [1], reach=[1, 2], bound="the same for lists and lists of lists"),
           run("h-engine", "c47_literals", [0], reach=[1, 2], bound="the same values as literals"),
           run("h-engine", "c47_literals", [1], reach=[1, 2], bound="literals for lists and lists of lists"),
           run("h-engine", "c47_objects", [0], reach=[1, 2], bound="input objects and oneOf input objects as variables, every field missing, null or given"),
           run("h-engine", "c47_objects", [1], reach=[1, 2], bound="the same as literals"),
           run("h-engine", "c47_nested", [0], reach=[1], bound="variables with and without values inside of literals"),
           run("h-engine", "c47_usage", [0], reach=[1, 2], bound="every declared type of a variable against every type of a position (first half)"),
           run("h-engine", "c47_usage", [1], reach=[1, 2], bound="the second half"),
           run("h-engine", "c47_defaults", [0], reach=[1, 2], bound="defaults of arguments in the schema"),
           run("h-engine", "c47_defaults", [1], reach=[1, 2], bound="defaults of input fields in the schema")],
     bounds="one field with one argument; all built-in and custom scalars, an enum, input objects with up to 3 fields, wrappings of up to two lists; integers over the full 64 bit range, floats from a list at the edges of Int",
     assumptions=ENGINE + ["not decided: null for a nullable variable with a default and nullable variables at positions with a default (the engine rejects both), enum literals in custom scalars, single values in lists of lists"])

prop("C48",
     runs=[run("h-engine", "c48_fields", [0], reach=[1, 2], bound="one field on any type with any arguments and sub-selections"),
           run("h-engine", "c48_fields", [1], reach=[1, 2], bound="two fields"),
           run("h-engine", "c48_inline", [0], reach=[1, 2], bound="inline fragments on any type"),
           run("h-engine", "c48_inline", [1], reach=[1, 2], bound="nested inline fragments"),
           run("h-engine", "c48_fragments", [0], reach=[1, 2], bound="named fragments that use each other in any way, with cycles"),
           run("h-engine", "c48_variables", [0], reach=[1, 2], bound="variables declared, used and missing in fields and fragments"),
           run("h-engine", "c48_documents", [0], reach=[1, 2], bound="documents of several operations, with or without a name to execute")] +
          [run("h-engine", "c48_limits", [i], reach=[1, 2], bound="the limit on %s against the size of the operation" % n)
           for i, n in enumerate(["depth", "root fields", "aliases", "complexity", "height"])],
     bounds="a graph with objects, an interface, a union, an enum and input types; operations of up to 3 levels and 3 fragments; limits 0 to 5",
     assumptions=ENGINE + ["not decided: arguments of __typename, unknown directives, fragments that are not used (the engine lets them pass)"])

prop("C49",
     runs=[run("h-engine", "c49_config", [0], reach=[1, 2], bound="every way of configuring the limits"),
           run("h-engine", "c49_weights", [4], [6], reach=[1, 2], bound="fields, their types and enums with 4 (thorough 6) weights each, with or without a list size"),
           run("h-engine", "c49_arguments", [4], [6], reach=[1, 2], bound="weights of arguments and input fields, given or not"),
           run("h-engine", "c49_sizes", [0], reach=[1, 2], bound="list sizes from arguments, variables and assumptions"),
           run("h-engine", "c49_sizes", [1], reach=[1, 2], bound="list sizes of nested and of sized fields"),
           run("h-engine", "c49_large", [0], reach=[1, 2], bound="two nested lists whose sizes are any 31 bit integers")],
     bounds="weights from -3 to 2^31-1, limits and slices over 31 bits, up to three levels of lists",
     assumptions=ENGINE + ["not decided: negative slices, slicing arguments that are null, two selections of one field, the cost of __typename", "a cost of 2^32 or more only has to exceed the limit"])

prop("C50",
     runs=[run("h-engine", "c50_hidden", [1], reach=[1, 2], bound="one of 49 elements is @inaccessible"),
           run("h-engine", "c50_hidden", [2], [3], reach=[1, 2], bound="any two (thorough three) elements"),
           run("h-engine", "c50_contract", [1], reach=[1, 2, 3], bound="a contract hides one element"),
           run("h-engine", "c50_contract", [2], [3], reach=[1, 2, 3], bound="a contract hides any two (thorough three) elements")],
     bounds="a schema of 18 types of every kind, up to two (thorough three) hidden elements, 15 operations with literals and variables",
     assumptions=ENGINE + ["the root types themselves are never hidden (by design)", "not decided: hidden inputs with defaults, hidden values in defaults, objects that hide a field of a visible interface"])

prop("C51",
     runs=[run("h-engine", "c51_graphs", [a, b], reach=[1, 3], bound="%d families of two and three subgraphs" % (b - a)) for a, b in [(0, 12), (12, 15), (15, 18), (18, 24), (24, 30), (30, 37)]] +
          [run("h-engine", "c51_text", [0, 8, 1], reach=[1], bound="every Latin-1 character in every description, reason and default"),
           run("h-engine", "c51_text", [0, 8, 2], [0, 8, 3], reach=[1], bound="any two (thorough three) of 18 special pieces of text")],
     bounds="37 families of subgraphs, composed and loaded; text of up to two (thorough three) pieces",
     assumptions=ENGINE + ["not decided: fields with an override label (the engine treats it as an override), deprecations of inputs (never shown), whether one key's fields can be had through another key"])

prop("C52",
     runs=[run("h-engine", "c52_types", [1], [2], reach=[1, 2], bound="the types of a schema of every kind of type, up to one (thorough two) of its elements @inaccessible"),
           run("h-engine", "c52_fields", [1], [2], reach=[1], bound="the fields, arguments, values and members, up to one (thorough two) @inaccessible"),
           run("h-engine", "c52_documents", [0], reach=[1], bound="any selection of types, introspected together"),
           run("h-engine", "c52_documents", [1], reach=[1], bound="unknown and hidden names among those asked for"),
           run("h-engine", "c52_documents", [2], reach=[1], bound="deprecations, defaults and @oneOf"),
           run("h-engine", "c52_text", [0, 8, 1], reach=[1], bound="every Latin-1 character in descriptions"),
           run("h-engine", "c52_text", [0, 7, 2], [0, 7, 3], reach=[1], bound="any two (thorough three) special pieces of text"),
           run("h-engine", "c52_text", [7, 8, 2], reach=[1], bound="pieces of text of any kind side by side")],
     bounds="one schema with every kind of type; up to one (thorough two) hidden elements; text of up to two (thorough three) pieces",
     assumptions=ENGINE + ["the MCP server library, the full-text index and the running engine are stood in for: what the tools print is decided, not what the search ranks first",
                           "not decided: @specifiedBy (dropped by composition), whether introspection types are shown, which interfaces are listed, deprecations of inputs, reasons of deprecations, the layout of descriptions"])
