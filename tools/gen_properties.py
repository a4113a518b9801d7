#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The table below is the single source of the property texts."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Generated artefacts are deterministic",
  "Running the same generators with the same options over the same sources writes the same files with the same bytes every time, and prints help and diagnostics in the same order. "
  "No ordering, selection or content of any artefact, help page or error list may depend on map iteration order, goroutine scheduling, time, randomness or process identity.",
  ["inputs", "schedules"], "all source trees, option sets, map iteration orders and goroutine schedules",
  "A golden-file test samples one iteration order per map per run, and small maps or few elements make the wrong order rare; the suites hold a handful of fixture packages.",
  ["pkg/crd/spec.go", "pkg/crd/schema.go", "pkg/crd/gen.go", "pkg/crd/flatten.go", "pkg/markers/collect.go", "pkg/rbac/parser.go", "pkg/webhook/parser.go", "pkg/genall/help/sort.go", "pkg/deepcopy/gen.go"],
  [("collect map keys, sort by a total key, then iterate", "pkg/crd/gen.go FindKubeKinds; pkg/rbac/parser.go GenerateRoles; pkg/genall/help/sort.go ByCategory"),
   ("order-insensitive reductions (map to map copies, sets, boolean any/all)", "pkg/markers/zip.go PackageMarkers; pkg/crd/flatten.go")])

p("C02", "No failure is swallowed",
  "Every error met while loading packages, parsing options or markers, generating, formatting, writing or closing an artefact is either returned to the caller or recorded against a package, and no operation goes on as if it had succeeded. "
  "A run in which any generator or package recorded such an error prints it and the command exits non-zero, while the remaining generators still run; only type-checker diagnostics are exempt.",
  ["inputs", "fault_sequences"], "all inputs and every operation that can fail, at every call site",
  "Tests inject almost no I/O or formatting failure; a dropped error leaves every passing case unchanged.",
  ["pkg/genall/genall.go", "pkg/loader/loader.go", "pkg/crd/schema.go", "pkg/deepcopy/gen.go", "pkg/applyconfiguration/gen.go", "pkg/schemapatcher/gen.go", "pkg/webhook/parser.go", "pkg/rbac/parser.go", "cmd/controller-gen/main.go"],
  [("error results are returned, wrapped, or passed to AddError", "all packages"),
   ("sticky had-errors flag combined with PrintErrors; non-zero exit", "pkg/genall/genall.go Run; cmd/controller-gen/main.go")])

p("C03", "Parallel package checking is race-free and joined",
  "Loading and type-checking packages in parallel never touches the shared state of a package, the checker, the loader, the marker registry or the marker cache without holding the lock that owns it, every lock taken is released on every path, and every started goroutine is waited for before its results are used. "
  "A package is never reported as checked before its own check and those of the packages it references are complete.",
  ["schedules"], "all goroutine schedules over all import graphs",
  "The race detector only sees the schedules the fixtures happen to produce, and the fixtures have almost no packages that fail to parse or import each other diamond-wise.",
  ["pkg/loader/loader.go", "pkg/loader/refs.go", "pkg/markers/reg.go", "pkg/markers/collect.go"],
  [("per-package mutex held by the checker around syntax, types and error updates", "pkg/loader/refs.go check"),
   ("checker mutex guarding the checked set; wait group joining the sub-checks", "pkg/loader/refs.go check"),
   ("own-index result slots joined by a wait group", "pkg/loader/loader.go NeedSyntax"),
   ("registry read/write mutex, collector mutex", "pkg/markers/reg.go, pkg/markers/collect.go")])

p("C04", "All output goes through the chosen output rule",
  "A generator creates, writes or removes files only through the output rule it was given, so that 'none' and 'stdout' leave the disk untouched and a directory rule resolves every file against that directory; boilerplate is read only through the input rule. "
  "Every handle obtained for writing or reading is closed on every path, and every temporary file made on the way is removed on every path.",
  ["configurations", "inputs", "fault_sequences"], "all generators, output rules, inputs and failure points",
  "Tests run each generator with one in-memory or directory rule and look only at the files they expect; a stray write or a leaked handle on an error path is not observed.",
  ["pkg/genall/output.go", "pkg/genall/genall.go", "pkg/genall/input.go", "pkg/deepcopy/gen.go", "pkg/schemapatcher/gen.go", "pkg/applyconfiguration/gen.go"],
  [("output rule Open is the only creator of files", "pkg/genall/output.go"),
   ("input rule OpenForRead is the only reader of boilerplate", "pkg/genall/input.go"),
   ("deferred close/remove", "pkg/genall/genall.go WriteYAML, pkg/applyconfiguration/gen.go")])

p("C05", "Every marker offered is honoured, every marker honoured is offered",
  "Every marker a generator registers for packages, types or fields has an effect on that generator's output (the schema patcher also accepts, without effect, the markers about the rest of a CRD), and every marker name a generator acts on is registered by that generator for exactly the place it looks for it, with the value type it expects. "
  "No two registrations visible to one run give the same name and place different value types.",
  ["inputs", "configurations"], "all markers, all targets, all combinations of generators",
  "Golden fixtures exercise some markers at some targets; a marker looked up under a name nobody registers is silently never found.",
  ["pkg/crd/markers/register.go", "pkg/crd/markers/validation.go", "pkg/crd/markers/crd.go", "pkg/crd/markers/topology.go", "pkg/crd/markers/package.go", "pkg/deepcopy/gen.go", "pkg/applyconfiguration/gen.go", "pkg/rbac/parser.go", "pkg/webhook/parser.go", "pkg/crd/schema.go", "pkg/crd/parser.go"],
  [("marker definition tables registered per generator", "pkg/*/ RegisterMarkers"),
   ("lookups by marker name constant and type assertion on the value", "pkg/crd/parser.go, pkg/crd/schema.go, pkg/deepcopy/gen.go, pkg/applyconfiguration/gen.go")])

p("C06", "Marker arguments land in the fields they document",
  "Each argument of each CRD, validation, RBAC and webhook marker sets the one manifest field documented for it, and no argument is dropped, altered beyond its documented normalisation, or written to a different field. "
  "Values the user gave never leak into fields of another argument, and documented defaults apply only when the argument is absent.",
  ["inputs"], "all argument values and combinations of every marker",
  "Fixtures use few values and often equal ones, so swapped, dropped or conditionally skipped arguments go unseen.",
  ["pkg/crd/markers/validation.go", "pkg/crd/markers/crd.go", "pkg/crd/markers/topology.go", "pkg/rbac/parser.go", "pkg/webhook/parser.go"],
  [("apply-to-schema and apply-to-CRD methods", "pkg/crd/markers/*.go"),
   ("conversion of rules and webhook configs to API objects", "pkg/rbac/parser.go ToRule, pkg/webhook/parser.go")])

p("C07", "Validation markers reject schemas they do not fit",
  "A validation marker changes a schema only when the schema's type is one the constraint is defined for (numeric, textual or int-or-string, array, object) and its value is one of the allowed ones; otherwise it is reported as an error and the schema keeps its previous value. "
  "Integer schemas accept no non-integral bound or multiple, list-map keys need an associative list, and list, map and struct topology markers accept exactly their documented values.",
  ["inputs"], "all combinations of schema type, int-or-string flag and marker value",
  "The decision depends on the cross product of marker, schema type and value; tests cover a few cells of it.",
  ["pkg/crd/markers/validation.go", "pkg/crd/markers/topology.go"],
  [("type guards before the write in each apply-to-schema method", "pkg/crd/markers/validation.go, pkg/crd/markers/topology.go")])

p("C08", "The order of markers in source does not change the schema",
  "Applying the markers of a type or field gives the same schema in whatever order they are written, because a marker that depends on what another marker sets is always applied after it, and two markers that set the same thing have a fixed winner. "
  "Repeated markers of one name take effect in source order.",
  ["inputs"], "all sets of markers on one type or field, in any order",
  "The number of marker combinations and orders is unbounded; fixtures use the conventional order.",
  ["pkg/crd/markers/priority.go", "pkg/crd/markers/validation.go", "pkg/crd/markers/topology.go", "pkg/crd/schema.go"],
  [("declared apply priorities, sorted before application", "pkg/crd/schema.go applyMarkers; pkg/crd/markers/priority.go")])

p("C09", "Schema traversals reach every nested schema",
  "Any pass over a schema (reference flattening, embedded-field merging, description trimming) visits every place a nested schema can occur, exactly as the OpenAPI schema type defines them, calls the end-of-subtree notification after each visited subtree, and keeps the edits made at each place.",
  ["inputs"], "all schemas, with sub-schemas in any position",
  "Generated fixtures only contain properties, items and additionalProperties; other positions come from user-supplied overrides and are untested.",
  ["pkg/crd/schema_visitor.go", "pkg/crd/desc_visitor.go", "pkg/crd/flatten.go"],
  [("walker recursing into each sub-schema field and writing map edits back", "pkg/crd/schema_visitor.go")])

p("C10", "Merging embedded and referenced schemas keeps every constraint",
  "When an embedded or referenced schema is merged into another, each constraint present on only one side appears unchanged in the result, and constraints present on both are combined so that both still hold or a conflict is reported; documentation fields follow the outer schema, and the map type and the preservation of unknown fields, which constrain nothing, follow one of the two. "
  "Whether a bound is exclusive stays with that bound. Required lists, properties, and validation rules are unions, never replacements.",
  ["inputs"], "all pairs of schemas over all fields of the schema type",
  "The merge treats each of some forty schema fields; the tests merge a few of them.",
  ["pkg/crd/flatten.go"],
  [("field-by-field merge with hoisting of conflicts into allOf", "pkg/crd/flatten.go flattenAllOfInto"),
   ("documentation preserved from the referring field", "pkg/crd/flatten.go preserveFields")])

p("C11", "Shared and cached results are never modified by their readers",
  "Producing one artefact never changes a type schema, flattened schema, CRD, package list or marker value that another artefact, version or generator will read: whatever is taken from a shared cache is copied before it is edited. "
  "Hence the output for a type does not depend on which other types, versions or generators were processed before it (types that contain themselves, for which no finite schema exists, aside).",
  ["histories", "inputs"], "all orders and repetitions of requests against one parser or collector",
  "Tests ask for one CRD or schema at a time from a fresh parser, so corruption of the cache by an earlier request is not seen.",
  ["pkg/crd/flatten.go", "pkg/crd/spec.go", "pkg/crd/gen.go", "pkg/schemapatcher/gen.go", "pkg/rbac/parser.go", "pkg/webhook/parser.go", "pkg/markers/collect.go"],
  [("deep copy before edit", "pkg/crd/spec.go NeedCRDFor, pkg/crd/flatten.go FlattenSchema, FlattenEmbedded"),
   ("fresh slices when combining marker values", "pkg/markers/zip.go PackageMarkers")])

p("C12", "Self-referential types terminate",
  "Generating schemas, CRDs, deep copies or type-checking for types and packages that refer to themselves directly or through any cycle always terminates, and each type and package is processed at most once per run.",
  ["inputs", "programs"], "all type and import graphs, including cyclic ones",
  "A fixture exercises one or two cycle shapes; the general claim is about every recursive call path.",
  ["pkg/crd/parser.go", "pkg/crd/flatten.go", "pkg/crd/schema_visitor.go", "pkg/loader/refs.go", "pkg/loader/loader.go", "pkg/deepcopy/traverse.go"],
  [("placeholder stored in the memo table before descending", "pkg/crd/parser.go NeedSchemaFor, pkg/crd/flatten.go Visit"),
   ("seen sets", "pkg/loader/loader.go visitImports, pkg/loader/refs.go check, pkg/crd/schema_visitor.go")])

p("C13", "Malformed markers and options are rejected, never half-applied",
  "A marker or option with an unknown argument, a missing mandatory argument, trailing text, a value of the wrong type, or a number out of its field's range makes parsing fail with a positioned error, and no value parsed from a failed marker is applied. A well-formed one puts exactly the value it spells in each field. "
  "Every argument type that can be declared can be parsed and shown in help.",
  ["inputs"], "all marker texts against all marker definitions",
  "The grammar is recursive and the tests sample it; an accepted malformed text is only visible to a test that tries it.",
  ["pkg/markers/parse.go", "pkg/markers/collect.go", "pkg/genall/options.go", "pkg/genall/help/types.go"],
  [("error-collecting scanner, strict definitions", "pkg/markers/parse.go Definition.Parse"),
   ("failed values are skipped", "pkg/markers/collect.go"),
   ("switches over the declared argument types", "pkg/markers/parse.go, pkg/genall/help/types.go")])

p("C14", "Help describes exactly the markers and options that exist",
  "The help for each marker and option names exactly the arguments its definition accepts, with their types, under the definition it belongs to, and with the text of the source documentation. "
  "Adding, renaming or removing an argument without updating the help, or attaching one definition's help to another, does not happen.",
  ["programs", "configurations"], "all registered marker and option definitions",
  "No test compares help with definitions; the generated help files can drift silently.",
  ["cmd/helpgen/main.go", "pkg/genall/help/types.go", "pkg/markers/help.go", "pkg/webhook/parser.go", "pkg/rbac/parser.go", "pkg/deepcopy/gen.go", "pkg/applyconfiguration/gen.go", "pkg/crd/markers/zz_generated.markerhelp.go"],
  [("generated help methods per marker type, paired at registration", "pkg/**/zz_generated.markerhelp.go; RegisterMarkers")])

p("C15", "Generated roles grant exactly what the markers ask for",
  "For each namespace (and cluster-wide for none) the generated role grants exactly the union of the access its RBAC markers list: rules are combined only when they differ in a single dimension and agree in all others, the cluster or a namespace never gains rules of another, and no rule is lost. "
  "The group name \"core\" means the empty group, a verb \"*\" replaces the other verbs of its rule, and each list is sorted without duplicates.",
  ["inputs"], "all sets of RBAC markers over any packages",
  "Over-granting shows only for particular overlaps of groups, resources, names, URLs, verbs and namespaces, of which tests hold a few.",
  ["pkg/rbac/parser.go"],
  [("merge keys built from all dimensions but the one merged", "pkg/rbac/parser.go"),
   ("partition by namespace before merging", "pkg/rbac/parser.go GenerateRoles")])

p("C16", "Invalid webhook markers are rejected alike for both kinds",
  "A webhook configuration is written only if every webhook in it has exactly one of path and URL, an allowed side-effects class, a timeout of 1 to 30 seconds when given, a known match policy, supported webhook versions and at least one admission review version; anything else is an error. "
  "Mutating and validating webhooks are subject to the same checks, and a webhook never appears in the other kind's configuration.",
  ["inputs"], "all webhook markers, mutating and validating",
  "Each check is tested on one kind or one bad value; the pair of builders can diverge unnoticed.",
  ["pkg/webhook/parser.go"],
  [("per-kind conversion methods and v1 validity checks", "pkg/webhook/parser.go")])

p("C17", "Every CRD written is named, versioned and stored consistently",
  "A written CRD is named plural.group, lists each of its versions once in sorted order, and has at least one served version and at least one storage version, a sole version being the storage version by default; otherwise an error is reported. "
  "Version-level markers affect only the version they are written on, the top-level metadata schema is a bare object, and the status is never written.",
  ["inputs", "configurations"], "all groups, kinds, versions and version-level markers",
  "Tests use two or three version layouts; these invariants range over all of them.",
  ["pkg/crd/spec.go", "pkg/crd/gen.go", "pkg/crd/markers/crd.go"],
  [("name fix-up, version sort, storage and served checks", "pkg/crd/spec.go NeedCRDFor"),
   ("metadata reset and status removal before writing", "pkg/crd/gen.go Generate"),
   ("version-name match before each version-level edit", "pkg/crd/markers/crd.go")])

p("C18", "Go types map to the documented OpenAPI types",
  "Booleans, strings, and integers map to boolean, string and integer, 32- and 64-bit integers (signed or unsigned) with format int32 and int64, byte slices to base64 strings, maps with string keys to objects, other slices to arrays, and the well-known Kubernetes types to their fixed schemas. "
  "Floats are rejected unless dangerous types are allowed, and every other Go type, including maps with other keys, is reported as an error rather than written.",
  ["inputs", "programs"], "all field types, with and without the dangerous-types option",
  "The fixtures contain some kinds; the claim covers all basic kinds, composite shapes and overridden packages.",
  ["pkg/crd/schema.go", "pkg/crd/known_types.go"],
  [("kind switch", "pkg/crd/schema.go builtinToType, typeToSchema, mapToSchema, arrayToSchema"),
   ("fixed schemas for well-known types", "pkg/crd/known_types.go")])

p("C19", "Required and optional fields follow the documented precedence",
  "A field is required exactly if its own optional/required marker says so (the kubebuilder form taking precedence over the Kubernetes form), or, without one, if the package default is not optional and the field is neither inlined nor omitempty. "
  "Fields with JSON name \"-\" and, when asked for, unexported fields are left out, and a field without a JSON tag is an error.",
  ["inputs"], "all combinations of markers, tags and package defaults",
  "The outcome is a function of many flags; tests sample a dozen fields.",
  ["pkg/crd/schema.go", "pkg/crd/markers/package.go", "pkg/crd/markers/validation.go"],
  [("precedence switch and tag parsing", "pkg/crd/schema.go structToSchema")])

p("C20", "Generated deep copies are complete and share nothing",
  "For every type selected for copying, the generated code copies every field, allocates a new container for every non-nil pointer, slice and map it copies, and calls a hand-written copy method where one exists; a type or field it cannot copy is reported as an error, never skipped. "
  "Plain assignment is used only for values that contain no pointer, slice, map or interface.",
  ["inputs", "programs"], "all type declarations in the packages processed",
  "The fixture types cover part of the cross product of nesting, naming, and aliases; a missing case yields code that compiles and aliases memory.",
  ["pkg/deepcopy/traverse.go", "pkg/deepcopy/gen.go"],
  [("type-kind switches that emit code or report an error", "pkg/deepcopy/traverse.go"),
   ("shallow-copy predicate", "pkg/deepcopy/traverse.go fineToShallowCopy, hasDeepCopyMethod")])

p("C21", "Generated code never hides from or feeds back into the tool",
  "Every Go file the tool generates into the package it was generated from starts with a build constraint and a generated-code notice; the constraint excludes it exactly under the build tag the tool sets by default when it loads packages, so a stale or broken generated file never affects the next run. "
  "Generated source is gofmt-formatted before it is written, and if formatting fails the failure is reported.",
  ["inputs", "configurations"], "all packages and all load-tag settings",
  "The tag, the constraint, and the default flag live in different packages; tests compare golden files and run with a clean tree.",
  ["pkg/deepcopy/gen.go", "pkg/loader/loader.go", "cmd/controller-gen/main.go", "cmd/helpgen/main.go"],
  [("header writer and default load tags", "pkg/deepcopy/gen.go, pkg/loader/loader.go, cmd/controller-gen/main.go")])

p("C22", "Command-line options select exactly the generators and rules named",
  "Each generator and each output rule is available as an option, every generator accepts every output rule, and an option selects only the generator it names. "
  "Unknown options, a generator given twice, and an output rule for a generator that is not run are errors; a per-generator rule beats the default rule, which beats the built-in directory layout.",
  ["configurations"], "all option lists",
  "The generator-by-rule matrix and option combinations are not enumerated by tests.",
  ["cmd/controller-gen/main.go", "pkg/genall/options.go", "pkg/genall/genall.go", "pkg/genall/output.go"],
  [("option registry built from generator and rule tables", "cmd/controller-gen/main.go init"),
   ("option interpretation", "pkg/genall/options.go protoFromOptions, FromOptionsWithConfig"),
   ("rule lookup per generator", "pkg/genall/output.go ForGenerator")])

p("C23", "Malformed input never crashes the tool",
  "No Go source, marker text, option, manifest or boilerplate file makes any of the tools panic: unsupported or malformed input is reported as an error. "
  "In particular no index, slice, type assertion, nil dereference or explicit panic is reachable with a value derived from user input that was not checked first.",
  ["inputs"], "all sources, markers, options and manifests",
  "Panics hide behind inputs nobody wrote a fixture for.",
  ["pkg/crd/schema.go", "pkg/crd/markers/crd.go", "pkg/genall/options.go", "pkg/schemapatcher/gen.go", "pkg/markers/parse.go", "pkg/deepcopy/traverse.go", "cmd/helpgen/main.go"],
  [("length, nil and comma-ok checks before use", "all packages")])

p("C24", "Schema patching changes only the validation schemas",
  "Patching a CRD manifest changes nothing but the validation schemas (the common one or those of its listed versions): every other node of the document, comments included, is kept, and the result is written under the manifest's own file name. "
  "Each version gets the schema generated for its own type and version and no other, a CRD none of whose versions the sources define keeps its schemas, only manifests that are CRDs of a supported API version are touched, and a CRD manifest that cannot be interpreted is reported.",
  ["inputs"], "all manifests and source packages",
  "Tests patch a few well-formed manifests and compare whole files.",
  ["pkg/schemapatcher/gen.go", "pkg/schemapatcher/internal/yaml/set.go", "pkg/schemapatcher/internal/yaml/nested.go"],
  [("node-level edits at fixed paths", "pkg/schemapatcher/gen.go, pkg/schemapatcher/internal/yaml")])

p("C25", "Each marker is attached to the declaration it documents",
  "A marker in the comment directly above, or in the documentation of, a package clause, type or field is attached to that declaration and to no other, in source order, and free-standing or end-of-file markers outside type bodies belong to the package. "
  "A marker registered only for packages that stands in a free comment above a type is moved to the package.",
  ["inputs"], "all comment placements",
  "Association depends on relative source positions of arbitrary comments and declarations.",
  ["pkg/markers/collect.go"],
  [("comment-position walk over the syntax tree", "pkg/markers/collect.go")])

p("C26", "Description limits shorten text without corrupting it",
  "With a description limit of n set, a description of at most n characters is unchanged, and of a longer one a beginning of at most n characters is kept, followed at most by an ellipsis: it ends at the last sentence end that fits when there is one, and never inside a character. "
  "A limit of zero removes all descriptions, without a limit none is changed, every nested schema is covered, and schemas shared with other users are not changed.",
  ["inputs"], "all description texts and limits",
  "Where a cut falls depends on the text, its characters and the limit together; tests try a few ASCII texts.",
  ["pkg/crd/desc_visitor.go", "pkg/crd/spec.go"],
  [("truncation visitor", "pkg/crd/desc_visitor.go"), ("limit applied to a copy of the flattened schema", "pkg/crd/spec.go")])

p("C27", "Written YAML round-trips to the generated object",
  "Parsing a written manifest gives back exactly the object that was generated, apart from the fields documented as removed, and each object is its own document with the header text first.",
  ["inputs"], "all generated objects",
  "Round-trip equality over arbitrary values.",
  ["pkg/genall/genall.go"],
  [("JSON to YAML conversion with transforms", "pkg/genall/genall.go")])

p("C28", "Every package of every requested root is loaded once",
  "For any list of root paths and package patterns, exactly the packages they match (including nested modules below a '...' path) are loaded, each once, relative to the configured directory, which is restored afterwards.",
  ["configurations", "inputs"], "all root lists and module layouts",
  "Depends on go list and the file system layout.",
  ["pkg/loader/loader.go"],
  [("root classification and per-root load with de-duplication", "pkg/loader/loader.go LoadRootsWithConfig")])

p("C29", "Documentation reaches the output as written, without notes to developers",
  "The documentation handed out with each type and struct field is the text of the comment that documents it and of no other (not of free comments, of comments behind it on its line, of the group it stands in or of a neighbour), line by line and in order. "
  "Left out are only marker lines, lines that start with TODO, and everything from a line that starts with three dashes on; inside fenced code blocks lines of the last two kinds stay. Each name of a field of several names gets the documentation and struct tag of the field.",
  ["inputs"], "all documentation comments, on types alone and in groups, on fields and embedded fields",
  "Which lines stay depends on the order of the lines and on where the comment stands; tests try a few comments.",
  ["pkg/markers/zip.go", "pkg/markers/collect.go"],
  [("documentation extraction", "pkg/markers/zip.go extractDoc"), ("collection of type and field information", "pkg/markers/zip.go EachType")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P))
