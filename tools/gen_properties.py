#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {}),
                          "hook_needed": hook}})

C = "crates/graphql-composition/src/"
p("C01", "GraphQL type wrapping encodes and decodes losslessly",
  "A GraphQL type modifier (any combination of list and non-null wrappers up to the supported nesting depth) built through the public wrapping API is read back as exactly the same sequence of wrappers, inner and outer nullability and list-ness, and prints as the standard `[T!]!` notation. Adding one wrapper and removing it again is the identity.",
  ["inputs"], "every sequence of list / non-null wrappers up to the representable depth",
  "The tests check a handful of fixed shapes; the packed bit representation has thousands of states per depth and boundary states at the maximum depth.",
  ["crates/graphql-wrapping-types/src/lib.rs"],
  [("packed wrapper word with push/pop", "crates/graphql-wrapping-types/src/lib.rs")])
p("C02", "Composed output field types are valid for every subgraph",
  "When several subgraphs define the same output field, the composed field type is the most permissive of their types: at every list level (and at the top level) it is non-null only if every subgraph declares it non-null, and it is never narrower than what any subgraph may return. If the subgraphs disagree on the named type or on the list structure, composition fails instead of picking one; types that differ only in their outermost nullability always compose (deeper differences may also be rejected).",
  ["inputs", "configurations"], "every pair/triple of field types over two names, all nullability patterns and list depths 0 to 2, on object and interface fields, in both subgraph orders",
  "The composition snapshots exercise a few hand-picked pairs; the merge is a function of all wrapper combinations of all subgraphs.",
  [C + "subgraphs/field_types.rs", C + "compose/fields.rs", C + "compose/object.rs"],
  [("field type merge", C + "subgraphs/field_types.rs"), ("per-field-group fold over subgraphs", C + "compose/fields.rs")])
p("C03", "Composed inputs accept only what every subgraph accepts",
  "For field arguments and input object fields defined in several subgraphs, the composed type is the strictest one (required if any subgraph requires it, at every list level); only inputs present in every subgraph that defines the parent are kept. An input that is required (and has no default) in one subgraph and absent from another, or whose named types, list structures or defaults conflict, makes composition fail rather than silently disappear; a required input with a default that is absent elsewhere either fails or is left out.",
  ["inputs", "configurations"], "every presence/type/default combination of an argument or input field over two and three subgraphs, list depths 0 to 2",
  "The tests hold a few fixed schemas; presence x nullability x list structure x default combinations across subgraphs are not enumerated.",
  [C + "compose/object.rs", C + "compose/input_object.rs", C + "compose/fields.rs", C + "subgraphs/field_types.rs"],
  [("argument intersection", C + "compose/object.rs"), ("input object field intersection", C + "compose/input_object.rs")])
p("C04", "Enum merging follows how the enum is used",
  "An enum shared by subgraphs is composed to the union of its values when it is only returned (or unused), to the intersection when it is only used as input (failing when empty), and must have identical values in all subgraphs when used both ways, otherwise composition fails. Each composed value records exactly the subgraphs that define it.",
  ["inputs", "configurations"], "every value subset in two and three subgraphs, every usage (argument, input field, output field, list-wrapped, none, both)",
  "Tests cover one schema per usage mode; the quantifier is over all value sets and usages.",
  [C + "compose/enums.rs"], [("usage classification and value merge", C + "compose/enums.rs")])
p("C05", "Inaccessible elements never reach the API schema",
  "The public API schema rendered from a composed graph contains no type, field, argument, input field or enum value that any subgraph marks inaccessible, never references a hidden type, and contains every element that is not marked, implemented interfaces included. A visible element whose type is inaccessible makes composition fail (an element not marked in the subgraph where its type is marked may be rejected even if its parent or another subgraph hides it).",
  ["inputs", "configurations"], "every assignment of @inaccessible to the elements of a schema with objects, interfaces, unions, enums, input objects and arguments over one and two subgraphs",
  "The tests mark single elements; leaks depend on combinations of marked elements and positions.",
  [C + "federated_graph/render_sdl/render_api_sdl.rs", C + "federated_graph/render_sdl/render_api_sdl/visibility.rs", C + "compose/object.rs", C + "compose/input_object.rs"],
  [("visibility filter", C + "federated_graph/render_sdl/render_api_sdl.rs"), ("inaccessible type reference validation", C + "compose/object.rs")])
p("C06", "Access-control directives survive composition",
  "If any subgraph puts @authenticated, @requiresScopes or @policy on a type, field or enum, the composed federated graph carries that requirement (with all its scopes or policies) on the corresponding element, and no element gains a requirement no subgraph declared. This holds whatever the order of subgraphs and whatever other directives are present.",
  ["inputs", "configurations"], "every placement of the access-control directives over the elements of two subgraphs, through direct use and @link import",
  "A dropped authorization directive is invisible to functional tests unless that exact element/subgraph combination is asserted.",
  [C + "compose/directives.rs", C + "ingest_subgraph/directives.rs", C + "emit_federated_graph/directive.rs"],
  [("directive collection over all sites", C + "compose/directives.rs")])
p("C07", "Field sharing is only allowed where declared",
  "Two Federation 2 subgraphs may both resolve the same object field only if the field is shareable (on the field or its type, in at least one of them), part of a key, external or overridden; otherwise composition fails. A field that satisfies one of those conditions, or is resolved by a single subgraph, is never rejected for sharing. Types that are shareable as a whole define the same accessible fields in every subgraph.",
  ["inputs", "configurations"], "every combination of @shareable on field/type, @key, @external, @override, per subgraph, federation v1/v2",
  "Exceptions interact; tests cover each one alone.",
  [C + "validate/composite_schemas/post_merge.rs", C + "compose/object.rs", C + "compose/roots.rs"],
  [("invalid_field_sharing", C + "validate/composite_schemas/post_merge.rs")])
p("C08", "Same-named types of different kinds never compose",
  "If two subgraphs define the same type name with different kinds (object, interface, union, enum, input object, scalar), composition fails; if every subgraph agrees on the kind, the kind of the composed type is that kind, and objects, interfaces, enums and input objects (through join__type) and unions (through join__unionMember) list exactly the defining subgraphs.",
  ["inputs", "configurations"], "every pair of kinds for the same name in two and three subgraphs, including entity interface objects",
  "Tests cover few kind pairs.",
  [C + "compose.rs"], [("kind dispatch and mismatch diagnostics", C + "compose.rs")])
p("C09", "The federated graph records which subgraph provides each field",
  "For every field of the composed graph, the recorded providers are exactly the subgraphs that define the field, each with its own external, requires, provides, override and type information; overriding records the overridden source, and a subgraph whose field is entirely overridden (no label, or 100 percent) is not a provider. A gateway can therefore route a field only to subgraphs that define it.",
  ["inputs", "configurations"], "every presence pattern of a field and of @external/@override/@provides/@requires over two and three subgraphs",
  "Routing metadata is only snapshot-tested on fixed schemas.",
  [C + "compose/object.rs", C + "emit_federated_graph/directive.rs", C + "federated_graph/render_sdl/render_federated_sdl.rs"],
  [("join field directives", C + "compose/object.rs")])
p("C10", "Federated SDL round-trips",
  "Rendering a composed graph to federated SDL always yields SDL the library can load again, and loading then rendering it yields the same SDL; the API SDL rendered before and after such a reload is the same. Deprecation reasons, default values and directive arguments come back unchanged, and so do descriptions up to the white space at their ends and on empty lines.",
  ["inputs"], "every composed graph of the bounded schema family, with arbitrary description, reason and default strings up to a length bound",
  "String escaping and the render/parse pair are exercised on a few literals only.",
  [C + "federated_graph/render_sdl", C + "federated_graph/from_sdl.rs", C + "federated_graph/from_sdl"],
  [("SDL writer", C + "federated_graph/render_sdl/display_utils.rs"), ("SDL loader", C + "federated_graph/from_sdl.rs")])
p("C11", "Composition does not depend on the order of subgraphs",
  "Composing the same set of subgraphs added in any order yields the same outcome: either the same federated graph (types, fields, directives and their arguments; descriptions and deprecation reasons are those of the first subgraph that has one) or an error in every order.",
  ["inputs", "configurations", "histories"], "every permutation of two and three subgraphs of the bounded schema family",
  "Tests add subgraphs in one fixed order.",
  [C + "lib.rs", C + "compose.rs", C + "subgraphs/top.rs"], [("sort_pre_composition", C + "lib.rs")])
p("C12", "Composition never crashes",
  "Ingesting and composing any set of syntactically valid subgraph schemas returns either a graph or diagnostics; it never panics, whatever inconsistent types, unknown names, malformed keys, requires, provides or override arguments they contain.",
  ["inputs"], "every schema of a bounded family of valid and invalid schemas, including arbitrary short field-set strings",
  "Crash inputs are rare combinations of invalid references; tests only keep those found in the past.",
  [C + "validate/selection.rs", C + "subgraphs/keys.rs", C + "emit_federated_graph.rs", C + "ingest_subgraph.rs"],
  [("pre-merge validation", C + "validate.rs")])
p("C13", "Cost, list size, deprecation and tag metadata merge predictably",
  "A composed element carries a deprecation, cost, list size, tag or one-of marker exactly when some subgraph declares it on that element; tags are the set union, costs and assumed sizes the maximum, and the list sizes of several subgraphs are merged field by field: the slicing arguments and sized fields are the union of those that exist on the composed field, and one slicing argument is required if any subgraph requires it.",
  ["inputs", "configurations"], "every placement over two and three subgraphs and every 32-bit cost / size",
  "Tests cover single placements.",
  [C + "compose/directives.rs", C + "federated_graph/directives/list_size.rs", C + "federated_graph/directives/complexity_control.rs"],
  [("collect_composed_directives", C + "compose/directives.rs"), ("ListSize merge", C + "federated_graph/directives")])
p("C14", "Keys, requires and provides are validated against the subgraph",
  "A @key, @requires or @provides field set is accepted exactly when every selected field exists on the type it is selected on, required arguments are provided, arguments exist and match, and inline fragments name known types; accepted keys reappear unchanged on the composed type. (Composite fields without subselection, aliases and directives in field sets are left unspecified.)",
  ["inputs"], "every field set of bounded depth over a small schema",
  "Field sets are free-form strings; tests cover few.",
  [C + "validate/selection.rs", C + "subgraphs/keys.rs", C + "emit_federated_graph"],
  [("validate_selection", C + "validate/selection.rs")])
p("C15", "Schema diff reports exactly what changed",
  "Diffing a schema against itself reports nothing; diffing two schemas reports at least one change whenever they differ in types, fields, arguments, types of fields or arguments, enum values, union members, interface implementations, defaults or roots, and every reported addition or removal is a real one.",
  ["inputs"], "every pair of schemas of a bounded family",
  "Tests compare fixed pairs.",
  ["crates/graphql-schema-diff/src/state.rs", "crates/graphql-schema-diff/src/traverse_schemas.rs", "crates/graphql-schema-diff/src/lib.rs"],
  [("DiffMap traversal", "crates/graphql-schema-diff/src/traverse_schemas.rs")])
p("C16", "Patching a schema with its diff gives the target schema",
  "Applying the diff of a source and a target schema to the source yields a document that is valid SDL and has no remaining differences from the target.",
  ["inputs"], "every pair of schemas of a bounded family covering every change kind",
  "Tests patch fixed pairs; separators, ordering and nesting interact.",
  ["crates/graphql-schema-diff/src/patch.rs"],
  [("patch", "crates/graphql-schema-diff/src/patch.rs")])
p("C17", "Diff paths parse and print consistently",
  "The textual path of a schema change parses to one structured path and prints back to the same text; malformed paths give an error and never a crash.",
  ["inputs"], "every path string up to a byte bound (arbitrary UTF-8), every structured path",
  "Byte-level parsing of arbitrary strings is sampled by tests.",
  ["crates/graphql-schema-diff/src/path.rs"], [("Path::parse / Display", "crates/graphql-schema-diff/src/path.rs")])
p("C18", "Operation checks flag every change that breaks used operations",
  "If an operation uses a field, argument, input object, enum literal or type condition and a schema change removes it, narrows the input the operation provides, requires an input it leaves out, or widens the returned output (per GraphQL nullability and list rules), the operation check reports that element; it also does so when assuming everything is used. Input objects are tracked as a whole (any use of the type), type conditions directly under the union or interface.",
  ["inputs", "histories"], "every change kind x usage counts x type wrapper pairs in the bounded family",
  "Tests fix one schema pair and one operation per rule.",
  ["crates/operation-checks/src/check.rs", "crates/operation-checks/src/check/rules.rs", "crates/operation-checks/src/schema/wrapping_types.rs", "crates/operation-checks/src/aggregate_field_usage.rs"],
  [("rule table", "crates/operation-checks/src/check/rules.rs"), ("wrapper comparison", "crates/operation-checks/src/schema/wrapping_types.rs")])
p("C19", "Operation checks never flag harmless changes",
  "A change to something no operation uses, or a change that only relaxes inputs or tightens outputs, or a pure addition of optional elements, is never reported as a breaking change (severity error) by the operation check. Every diagnostic names the element that changed.",
  ["inputs", "histories"], "as C18",
  "False alarms need the negative space, which tests do not enumerate.",
  ["crates/operation-checks/src/check.rs", "crates/operation-checks/src/check/rules.rs", "crates/operation-checks/src/aggregate_field_usage.rs"],
  [("rule table", "crates/operation-checks/src/check/rules.rs")])
p("C20", "Usage counts are aggregated exactly",
  "Aggregating operations gives, for every schema field, argument, enum literal, type condition and left out default, a usage count equal to the sum, over its occurrences, of the request counts of the operations it occurs in, through aliases, nested selections, inline and named fragments alike; an element counts as used exactly when that sum reaches the configured threshold.",
  ["inputs", "histories"], "every operation of a bounded shape with arbitrary 64-bit request counts",
  "Tests use one count and direct selections.",
  ["crates/operation-checks/src/aggregate_field_usage.rs"], [("aggregate_field_usage", "crates/operation-checks/src/aggregate_field_usage.rs")])
p("C21", "Interface implementations are validated per the GraphQL specification",
  "Schema validation reports an error for a type implementing an interface exactly when a field is missing, a field type is not a covariant subtype, an argument is missing or has another type, an additional argument is required, a transitively implemented interface is not declared, or what is implemented is repeated, the type itself, unknown or not an interface; definitions and extensions count together; implementations it should accept, it accepts.",
  ["inputs"], "every pair of field/argument types up to list depth 2 with nullability, object/interface/union refinements, extensions",
  "Tests are per-case fixtures.",
  ["crates/graphql-schema-validation/src/validate/interface_implementers.rs"],
  [("IsValidImplementation", "crates/graphql-schema-validation/src/validate/interface_implementers.rs")])
p("C22", "Input object cycles are rejected exactly when unsatisfiable",
  "Schema validation rejects an input object that references itself through a chain of non-null, non-list fields, and accepts every other reference pattern; it always terminates.",
  ["inputs"], "every reference graph over three input objects with every field wrapper",
  "Cyclic graphs have many shapes; tests keep a few.",
  ["crates/graphql-schema-validation/src/validate/input_object_cycles.rs"],
  [("input_object_cycles", "crates/graphql-schema-validation/src/validate/input_object_cycles.rs")])
p("C23", "Schema validation enforces naming, uniqueness and position rules",
  "Schema validation reports an error when a type, field, argument, enum value, union member or input field name is duplicated or reserved, a type is empty, a referenced type is unknown, an input type is used in output position or vice versa, a root type is unknown, used twice or not an object, or a directive is applied where it may not be or repeated without being repeatable; it reports none for a schema that violates no rule, and it never crashes.",
  ["inputs"], "every document of a bounded family with symbolic names and references",
  "Fixtures cover each rule once.",
  ["crates/graphql-schema-validation/src/validate.rs", "crates/graphql-schema-validation/src/validate/type_definition.rs", "crates/graphql-schema-validation/src/context.rs"],
  [("second-pass validation", "crates/graphql-schema-validation/src/validate/type_definition.rs")])
p("C24", "Field selection maps parse, print and reparse to the same value",
  "Parsing a selection map (as used by @is and @require) either fails with an error or yields a value whose printed form parses back to an equal value and differs from the input in white space only; no input makes the parser crash or hang.",
  ["inputs"], "every byte string up to a bound over the grammar's alphabet, and arbitrary UTF-8",
  "Grammar ambiguity shows on rare token sequences.",
  ["crates/engine/field-selection-map/src/lib.rs", "crates/engine/field-selection-map/src/parser.rs", "crates/engine/field-selection-map/src/model.rs"],
  [("winnow parser and Display", "crates/engine/field-selection-map/src/parser.rs")])
p("C25", "Graph references parse exactly the documented forms",
  "A graph reference has the form `graph`, `graph@branch` or `graph@branch#version`: the graph is the text before the first `@`, the branch the text up to the first `#` after it, the version the rest. A reference is accepted exactly when its graph name is not empty and contains no account part (`/`); an accepted reference prints back to the same text and parses to the same reference, and no input crashes the parser.",
  ["inputs"], "every string up to a byte bound",
  "Delimiter placement combinations are sampled only.",
  ["crates/graph-ref/src/lib.rs"], [("GraphRef::from_str", "crates/graph-ref/src/lib.rs")])
p("C26", "Extension identifiers round-trip and match versions correctly",
  "Printing an extension identifier (`name-version`, pre-release versions included) and parsing it back gives the same name and version whenever the name itself does not contain a dash followed by a valid version; malformed identifiers give an error, never a crash. An identifier is compatible with a requested name and version requirement exactly when the name is equal and the version satisfies the requirement, and catalog lookup returns the first compatible extension, with an explicitly associated link URL taking precedence.",
  ["inputs", "configurations"], "every identifier string up to a byte bound, every version triple, every catalog of three extensions",
  "The tests parse two literals.",
  ["crates/extension/src/id.rs", "crates/extension-catalog/src/catalog.rs"], [("Id FromStr/Display", "crates/extension/src/id.rs"), ("find_compatible_extension", "crates/extension-catalog/src/catalog.rs")])
p("C27", "Environment substitution in configuration strings is exact",
  "In a dynamic configuration string every `{{ env.NAME }}` placeholder is replaced by that variable's value, all other text is kept byte for byte in place, and an unknown variable or non-env placeholder is an error.",
  ["inputs", "configurations"], "every template up to a byte bound and every variable value up to a byte bound",
  "Tests substitute in a few literals.",
  ["crates/serde-dynamic-string/src/lib.rs"], [("DynamicString deserialization", "crates/serde-dynamic-string/src/lib.rs")])
p("C28", "The rolling log loses no data and rotates when due",
  "Every byte successfully written to the rolling log is present, in order, in exactly one of the current or rotated files; a new file is started exactly when the configured size or time limit has been reached, and rotation never overwrites an existing file.",
  ["histories", "inputs", "configurations"], "every sequence of up to N writes of arbitrary sizes, with an arbitrary non-decreasing clock and every rotation strategy",
  "Tests use real time and a few writes; clock collisions and boundary sizes are not reached.",
  ["crates/rolling-logger/src/lib.rs"], [("rotation decision and rename", "crates/rolling-logger/src/lib.rs")])
p("C29", "The event queue keeps exactly the subscribed events in order",
  "The event queue stores an event exactly when its kind is enabled by the configured filter, delivers stored events in push order, each exactly once, with the data they were built from; with no filter it stores nothing and never runs the event constructor of a filtered-out event.",
  ["histories", "configurations"], "every filter (all subsets) and every sequence of up to N pushes/pops of the four event kinds",
  "Tests check little of the filter x history space.",
  ["crates/event-queue/src/lib.rs", "crates/event-queue/src/filter.rs", "crates/event-queue/src/events/builder.rs"],
  [("must_keep_event", "crates/event-queue/src/lib.rs")])
p("C30", "Id collections behave like their mathematical models",
  "The bit set, id range and id-to-many map types used throughout the engine agree with a set, an interval and a multimap under every sequence of operations: membership, iteration order, union/intersection/difference, length, slicing and lookup.",
  ["inputs", "histories"], "every sequence of up to N operations with arbitrary ids up to several words",
  "Word-boundary and empty cases are rarely sampled.",
  ["crates/engine/id-newtypes/src/bitset.rs", "crates/engine/id-newtypes/src/range.rs", "crates/engine/id-newtypes/src/lib.rs"],
  [("BitSet", "crates/engine/id-newtypes/src/bitset.rs"), ("IdRange", "crates/engine/id-newtypes/src/range.rs"), ("IdToMany", "crates/engine/id-newtypes/src/many.rs")])
p("C31", "Telemetry configuration layering: specific overrides global",
  "For logs, traces and metrics, the effective OTLP exporter settings are those of the specific section where set and the global section otherwise, field by field (the stdout exporter is taken from one place as a whole); an exporter is active exactly when the effective enabled flag is true, and disabling it in the specific section always wins. TLS settings are loaded exactly or rejected.",
  ["configurations"], "every presence/value combination of the global and specific sections",
  "Tests cover a few documents of an exponential configuration space.",
  ["crates/gateway-config/src/telemetry/mod.rs", "crates/gateway-config/src/telemetry/exporters/otlp.rs"],
  [("LayeredOtlExporterConfig", "crates/gateway-config/src/telemetry/exporters/otlp.rs")])
p("C32", "Contract accessibility encoding respects the documented priorities",
  "In the extension SDK, a contract starts with every directive at the default accessibility; setting accessibility at low priority beats the default, overriding beats every other priority, the sign decides accessibility, and only the addressed directive changes.",
  ["inputs", "histories"], "every sequence of settings over several directives, every 8-bit priority",
  "No test exercises the encoding.",
  ["crates/grafbase-sdk/src/types/contract.rs"], [("Contract", "crates/grafbase-sdk/src/types/contract.rs")])
p("C33", "Values bound to Postgres columns are exact or rejected",
  "Converting a JSON input value for a Postgres column either yields a bound value equal to the input, with the column's type, array elements in order and array flag, or an error; a number that does not fit the column is never silently changed, and malformed byte strings are rejected without crashing. The parameters of a query reach the host as they were bound, arrays with their elements included, and array values are read back in order.",
  ["inputs"], "every 64-bit integer x column type, arrays up to a bound, byte strings up to a bound, queries with several parameters",
  "The SDK has no test for it.",
  ["crates/grafbase-sdk/src/host_io/postgres/types.rs", "crates/grafbase-sdk/src/host_io/postgres/query.rs"],
  [("DatabaseValue::from_json_input", "crates/grafbase-sdk/src/host_io/postgres/types.rs"), ("QueryBuilder", "crates/grafbase-sdk/src/host_io/postgres/query.rs")])
p("C34", "Lint rules fire exactly on what they are documented for",
  "The schema linter reports a naming violation for a type, field, argument, input value, directive, enum or enum value exactly when its name does not have the documented case; a prefix or suffix violation for types, enums, unions, interfaces and the fields of the root types exactly when the name has the forbidden affix; and a missing deprecation reason exactly where @deprecated has no reason, in every place it can be.",
  ["inputs"], "every name up to a length bound in every position, every affix",
  "Tests lint one document.",
  ["crates/graphql-lint/src/lib.rs"], [("SchemaLinter", "crates/graphql-lint/src/lib.rs")])
p("C35", "GraphQL response status aggregation keeps the worst outcome",
  "Combining the statuses of a streamed response yields the most severe status seen (refused, then request error, then field errors, then success), independent of the order and grouping of the parts; a success part changes nothing, the counts of field errors add up, and the error count and null-data flag of the result always come from the parts.",
  ["inputs", "histories"], "every pair and triple of statuses with arbitrary counts",
  "No test covers it.",
  ["crates/telemetry/src/graphql.rs"], [("GraphqlResponseStatus::union", "crates/telemetry/src/graphql.rs")])
p("C36", "Query planning and execution return spec-compliant responses",
  "For every supported operation and schema, the gateway plans and executes subgraph requests so that the merged response has the shape, nullability propagation and errors the GraphQL specification prescribes.",
  ["inputs", "schedules", "fault_sequences"], "every operation, schema and subgraph behaviour",
  "The integration tests sample operations; schedules and subgraph faults are not enumerated.",
  ["crates/engine/src", "crates/engine/query-solver/src"], [("planner and executor", "crates/engine/src")])
p("C37", "Concurrent event producers lose no events",
  "Events pushed concurrently from several tasks to the event queue are all delivered exactly once, and events pushed by one task stay in that task's order.",
  ["schedules"], "every interleaving of several producers and a consumer",
  "Tests run one schedule.",
  ["crates/event-queue/src/lib.rs"], [("crossbeam SegQueue", "crates/event-queue/src/lib.rs")])
p("C38", "Rate limits are never exceeded",
  "Within any configured window, the gateway admits at most the configured number of requests per limit, whatever the request timing.",
  ["schedules", "histories"], "every request timing",
  "Tests use real time.",
  ["crates/runtime-local/src/rate_limiting", "crates/gateway-config/src/rate_limit.rs"], [("in-memory and Redis rate limiters", "crates/runtime-local/src/rate_limiting")])
p("C39", "Gateway configuration files are loaded as written",
  "Placeholders in every string of a configuration file are expanded exactly once and keys are left alone; an unset variable is an error that names the place. Relative schema, extension and cache paths are anchored at the configuration file, absolute ones kept. Durations, sizes, fractions, log levels, lists and keys are read exactly or rejected; an empty section means the same as an absent one; unknown keys are rejected.",
  ["configurations", "inputs"], "every section of the configuration with arbitrary values up to a length bound",
  "Tests load a few documents.",
  ["crates/gateway-config/src/lib.rs", "crates/gateway-config/src/size_ext.rs", "crates/gateway-config/src/rate_limit.rs"],
  [("Config::load", "crates/gateway-config/src/lib.rs")])
p("C40", "Authorization decisions reach exactly the elements they were made on",
  "In the extension SDK, iterating over the elements to authorize (flat or grouped by directive) visits each once with its own site, arguments and id, and the decisions built while doing so deny exactly the elements they were made on, with the given errors, everything else being granted.",
  ["inputs", "histories"], "every number and kind of elements, every sequence of decisions",
  "The SDK has no test for it; a mistake grants access.",
  ["crates/grafbase-sdk/src/types/authorization.rs", "crates/grafbase-sdk/src/types/elements"],
  [("QueryElements", "crates/grafbase-sdk/src/types/elements"), ("DenySomeBuilder", "crates/grafbase-sdk/src/types/authorization.rs")])
p("C41", "Data, fields and variables cross the SDK boundary unchanged",
  "Data an extension returns is encoded as the value it is; responses and subscription items keep their data, errors and order; a resolver field shows exactly the alias, definition, arguments and selection the gateway sent, also after its round trip through prepare; variables are those of their id.",
  ["inputs"], "every value and selection up to a size, every id",
  "The SDK has no test for it.",
  ["crates/grafbase-sdk/src/types/resolver.rs", "crates/grafbase-sdk/src/types/data.rs", "crates/grafbase-sdk/src/types/response.rs"],
  [("ResolvedField", "crates/grafbase-sdk/src/types/resolver.rs"), ("Data", "crates/grafbase-sdk/src/types/data.rs")])
p("C42", "The spelling of linked directives does not matter",
  "Composition depends on what directives mean, not on how @link brings them in scope: imported, renamed on import (even to the name of another directive), under the default or a chosen prefix, on a schema definition or extension, they give the same federated graph or the same rejection; a directive that is not in scope has no effect.",
  ["inputs", "configurations"], "every link style, every alias and prefix up to a length bound, every directive",
  "Snapshot tests use the usual spelling.",
  ["crates/graphql-composition/src/ingest_subgraph/directives", "crates/graphql-composition/src/ingest_subgraph/schema_definitions"],
  [("match_directive_name", "crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs"), ("ingest_link_directive", "crates/graphql-composition/src/ingest_subgraph/schema_definitions/link.rs")])
p("C43", "Extension directives reach the federated graph where they were used",
  "Every directive of a linked extension is in the federated SDL as @extension__directive on the same element, once per use and subgraph, with its own name, its arguments unchanged, the subgraph and the extension it comes from; exactly the extensions that are used are listed in extension__Link, each under a name of its own with its URL and its schema directives; directives of other links are not taken for extensions.",
  ["inputs"], "every form of link, every element, every kind of argument value",
  "Snapshot tests cover some links and places.",
  ["crates/graphql-composition/src/subgraphs/extensions.rs", "crates/graphql-composition/src/emit_federated_graph/emit_extensions.rs", "crates/graphql-composition/src/validate/extension_names.rs"],
  [("emit_extensions", "crates/graphql-composition/src/emit_federated_graph/emit_extensions.rs"), ("validate_extension_names", "crates/graphql-composition/src/validate/extension_names.rs")])
p("C44", "Composed directives keep their uses and one agreed definition",
  "A directive a subgraph lists in @composeDirective is in the federated graph on every element it is used on, under its original name and with its arguments unchanged, no matter how many subgraphs repeat it, together with the link it comes from; others are dropped. Its definitions are merged into one with all locations and arguments; whether they are compatible does not depend on the order of subgraphs: they agree on repetition and shared arguments, and required arguments are in all of them.",
  ["inputs", "configurations"], "every place, every pair of definitions from a grammar, linked or not, composed or not",
  "Snapshot tests cover four cases.",
  ["crates/graphql-composition/src/compose/directive_definitions.rs", "crates/graphql-composition/src/compose/directives.rs", "crates/graphql-composition/src/emit_federated_graph/emit_linked_schemas.rs"],
  [("compose_directive_definitions", "crates/graphql-composition/src/compose/directive_definitions.rs"), ("collect_composed_directives", "crates/graphql-composition/src/compose/directives.rs")])
p("C45", "Composite schema directives keep their meaning through composition",
  "Each @lookup, @derive, @internal, @is and @require of a composite schema is in the federated graph on its element, for its subgraph, with its selection unchanged; keys of composite schemas are not resolvable. The API schema, also of a reloaded graph, hides exactly the arguments with @require and the fields that are @internal in all subgraphs providing them; internal fields do not count as shared. A field with a batched @require must return a list and counts as its items. Each broken composite schemas rule is reported with its code for its subgraph, and no other is.",
  ["inputs", "configurations"], "every combination of the directives on fields, arguments and types with keys, sharing, overriding and inaccessibility over one to three subgraphs",
  "Snapshot tests hold one schema per directive or rule; leaks and false reports come from combinations.",
  [C + "ingest_subgraph/directives.rs", C + "validate/composite_schemas", C + "compose/fields.rs", C + "federated_graph/render_sdl/render_api_sdl/visibility.rs", C + "federated_graph/from_sdl/directive.rs"],
  [("API visibility", C + "federated_graph/render_sdl/render_api_sdl/visibility.rs"), ("batched requirements", C + "compose/fields.rs"), ("composite schemas rules", C + "validate/composite_schemas")])

p("C46", "Extensions see the subgraph schema the gateway sent",
  "For any schema the gateway sends to an extension, the SDK shows every definition once, with its kind, name, root operation types, fields with their parents, arguments, types and wrapping, implemented interfaces, union members, enum values, input fields and directives with their arguments; looking a definition up by its id gives that definition and none for other ids, in whatever order definitions, fields and ids are sent.",
  ["inputs", "configurations"], "every order and numbering of the definitions, every wrapping, root type and directive argument",
  "The SDK's tests hold one schema in one order; lookups by sorted ids and ranges go wrong only for other orders.",
  ["crates/grafbase-sdk/src/types/schema.rs"],
  [("schema types", "crates/grafbase-sdk/src/types/schema.rs")])

p("C47", "Arguments get the values the operation and its variables give them",
  "For any variable or literal, the engine either passes an argument exactly the value that the GraphQL rules for input coercion give - scalars in range, enum values, lists of single values, input and oneOf input objects with defaults filled in, variables left out where they have no value - or rejects the request; it rejects nothing the rules allow, and a variable is only accepted where its type fits.",
  ["inputs", "configurations"], "every type of the schema, wrapping, value (integers over 64 bits), literal, variable declaration and default",
  "The engine's coercion tests fix single pairs of types and values; limits such as the range of Int, nulls in oneOf objects or lists of defaults need every combination.",
  ["crates/engine/operation/src/bind", "crates/engine/schema/src/builder/coerce"],
  [("variables", "crates/engine/operation/src/bind/coercion/variable.rs"), ("literals", "crates/engine/operation/src/bind/coercion/query.rs"), ("schema defaults", "crates/engine/schema/src/builder/coerce/mod.rs")])

p("C48", "Operations are executed as written, invalid or too large ones rejected",
  "For any operation document, the engine rejects it if it selects fields, arguments, fragments or variables the schema and the document do not have, has fragment cycles or impossible fragments, or exceeds a configured limit on depth, height, root fields, aliases or complexity; otherwise what it binds has exactly the fields, response keys, type conditions and arguments of the document, of the operation that was asked for. No document makes it crash.",
  ["inputs", "configurations"], "every selection over the schema, every graph of fragments, every variable use, set of operations and limit",
  "Tests cover single documents; cycles, unnamed operations, fragments reached twice and limits at their boundary need combinations nobody wrote down.",
  ["crates/engine/operation/src/bind", "crates/engine/operation/src/validation", "crates/engine/operation/src/parse/mod.rs"],
  [("binding", "crates/engine/operation/src/bind/operation.rs"), ("limits", "crates/engine/operation/src/validation"), ("name of an operation", "crates/engine/operation/src/analytics/operation_name.rs")])

p("C49", "The cost of an operation is what its limit is held against",
  "With cost control, the engine gives an operation exactly the cost the weights and list sizes of its fields, arguments, input fields and types add up to - sizes from slicing arguments, variables or assumptions - and, when limits are enforced, rejects it if and only if that cost exceeds the limit; weights, list sizes and variables of any size never make an expensive operation cheap.",
  ["inputs", "configurations"], "every weight (negative ones too), list size over 31 bits, way to give a slicing argument, mode and limit",
  "Overflow of nested list sizes and the interplay of assumed sizes, slicing arguments and weights need values and combinations that no test has.",
  ["crates/engine/operation/src/validation/complexity.rs", "crates/engine/schema/src/builder/graph/directives/common"],
  [("cost", "crates/engine/operation/src/validation/complexity.rs"), ("list sizes", "crates/engine/schema/src/builder/graph/directives/common/list_size.rs")])

p("C50", "The engine hides what is @inaccessible and what depends on it",
  "An element the federated graph or a contract marks inaccessible is in no way visible: neither in the schema shown to clients nor usable in operations and variables. What cannot exist without it is hidden too (fields and inputs of a hidden type, fields whose required input is hidden, types and enums of which nothing is left), nothing else is, and the schema that is left refers to nothing hidden. A contract limited to reachable types also hides types nothing leads to.",
  ["inputs", "configurations"], "every choice of two (three) hidden elements of a schema of every kind of type, with operations and variables that use them",
  "What a hidden element takes with it depends on chains through inputs, enums, unions and interfaces; tests mark single elements.",
  ["crates/engine/schema/src/builder/graph/directives/common/mod.rs", "crates/engine/schema/src/builder/mutable.rs", "crates/engine/schema/src/sdl.rs"],
  [("propagation", "crates/engine/schema/src/builder/graph/directives/common/mod.rs"), ("contracts", "crates/engine/schema/src/builder/mutable.rs"), ("what clients see", "crates/engine/schema/src/sdl.rs")])

p("C51", "The engine loads every composed graph and reads it as it was written",
  "Every graph that composition produces loads in the engine, and there means the same: clients are told its visible types, fields, arguments, defaults, descriptions (whatever characters they contain) and deprecations; every field is taken to exist in exactly the subgraphs its join directives and keys say, with their types, requirements and provided selections; it can be fetched directly from those subgraphs if it is a root field, and through exactly the resolvable keys it is not part of; interfaces and unions have exactly their types.",
  ["inputs", "configurations"], "every graph that the composition checks compose: keys, sharing, overriding, provided and required selections, interface objects, renamed roots, metadata",
  "Composition and engine are tested apart, with hand-written federated graphs; that one understands all the other writes is tested for few.",
  ["crates/engine/schema/src/builder", "crates/engine/schema/src/sdl.rs", "crates/graphql-composition/src/federated_graph/render_sdl"],
  [("join directives", "crates/engine/schema/src/builder/graph/directives/federation.rs"), ("resolvers", "crates/engine/schema/src/builder/graph/directives/resolvers.rs"), ("client schema", "crates/engine/schema/src/sdl.rs")])

p("C52", "MCP tools show models exactly the API that clients may use, as valid SDL",
  "What the MCP server's introspect tool prints for any types of any graph is SDL that parses, and says of each visible type exactly what clients may use: its kind, fields, arguments, input fields, values and members with their types, defaults and descriptions (whatever characters they contain), which of them are deprecated, and whether an input object is @oneOf. Nothing that is @inaccessible or that depends on what is so appears anywhere, and nothing visible is left out.",
  ["inputs", "configurations"], "any selection of the types of a graph of every kind of type, any elements hidden, any text in descriptions",
  "The tools have a few snapshot tests of one small schema without hidden elements or special characters.",
  ["crates/mcp/src/tools/sdl/mod.rs", "crates/mcp/src/tools/sdl/buffer.rs", "crates/mcp/src/tools/introspect.rs", "crates/mcp/src/tools/search/mod.rs"],
  [("partial SDL", "crates/mcp/src/tools/sdl/mod.rs"), ("strings", "crates/mcp/src/tools/sdl/buffer.rs"), ("introspect tool", "crates/mcp/src/tools/introspect.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
