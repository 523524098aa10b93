#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","RBAC manifests grant exactly what the rbac markers ask for",
 "For every set of rbac markers, the Role/ClusterRole generated for a namespace (ClusterRole for no namespace) allows exactly the (group, resource, resource name, verb) and (non-resource URL, verb) combinations that some marker with that namespace allows, reading group \"core\" as \"\" and verb \"*\" as every verb. Nothing is lost, added or moved to another namespace when rules are merged.",
 ["inputs","configurations"],"all finite multisets and orders of rbac markers over all root packages, whose resource rules name at least one API group",
 "The tests compare one fixed set of markers with a golden file; merging is a multi-pass map computation whose losses need a particular combination of overlapping rules (and map iteration order).",
 ["pkg/rbac/parser.go"],[("GenerateRoles, NormalizeRules","pkg/rbac/parser.go"),("ruleKey, addVerbs, normalize, removeDupAndSort","pkg/rbac/parser.go")],"GenerateRoles' result / role.yaml")
p("C02","RBAC output is canonical and independent of marker order",
 "The generated roles are a function of the set of markers: reordering or repeating markers, or moving them between root packages, never changes the output, and neither does running again. There is at most one object per namespace, cluster-wide first and then by namespace; within a role every list of every rule is sorted without duplicates, no two rules apply to the same set of targets, and a rule whose verbs contain \"*\" lists only \"*\".",
 ["inputs","histories"],"all finite multisets of rbac markers and all orders in which they are met, including every map iteration order",
 "A golden file samples one order; the code iterates over Go maps at every pass.",
 ["pkg/rbac/parser.go"],[("removeDupAndSort, normalize, key, addVerbs","pkg/rbac/parser.go"),("NormalizeRules, GenerateRoles","pkg/rbac/parser.go")])
p("C03","Validation markers apply only to compatible schemas and set only their field",
 "Each value-validation marker is accepted exactly when the schema's type admits it (numeric limits on integer/number, with an integral value on integer; lengths and pattern on strings or int-or-string; item limits on arrays; property limits on objects; a known reason on an expression rule); type-agnostic markers are always accepted. When accepted it sets exactly the schema keyword of its name to the marker's value (expression rules are appended) and changes nothing else; when rejected it reports an error and changes nothing.",
 ["inputs"],"every marker value (all float64, int, string, bool values) and every schema state",
 "Unit tests check a handful of accepted values; frame conditions and all-type rejection tables are quantified over all schemas and values.",
 ["pkg/crd/markers/validation.go"],[("ApplyToSchema of the validation markers","pkg/crd/markers/validation.go"),("isIntegral, hasNumericType, hasTextualType","pkg/crd/markers/validation.go")])
p("C04","List/map/struct topology markers are validated and applied exactly",
 "listType is accepted only on arrays and only as map, set or atomic; listMapKey only on arrays already declared as map lists, adding its key after the existing ones; mapType/structType only on objects (structType also on a still untyped schema) and only as granular or atomic. An accepted marker sets exactly the corresponding x-kubernetes-* extension to that value; a rejected one reports an error and leaves the schema unchanged.",
 ["inputs"],"every marker value and every schema state",
 "The tests exercise valid combinations through golden files; rejection and frame conditions range over all strings and schemas.",
 ["pkg/crd/markers/topology.go"],[("ListType/ListMapKey/MapType/StructType.ApplyToSchema","pkg/crd/markers/topology.go")])
p("C05","CRD markers act on exactly their own API version",
 "A CRD-level marker on a type of version V changes only the entry for V (status/scale subresource, storage, served, deprecation, printer column and selectable field appended in order, or removal of exactly that entry), and a subresource, column or selectable-field marker whose version is absent is an error that changes nothing. The resource marker changes only names and scope, never clearing a name it does not give; the metadata marker adds exactly the given annotations and labels, keeps the others, and rejects an entry without \"=\" instead of failing abruptly.",
 ["inputs","configurations"],"every list of CRD versions (any length, any names), every pre-existing state of them, every marker argument",
 "Golden files use at most a few versions; that other versions are untouched is a frame condition over all version lists.",
 ["pkg/crd/markers/crd.go"],[("ApplyToCRD of the CRD markers","pkg/crd/markers/crd.go")])
p("C06","Assembled CRDs are well-named and have consistent versions",
 "For every group-kind a generated CRD is named <plural>.<group> with the plural finally in force, carries the group, kind, list kind and one entry per package version that declares the kind and is not skipped, with versions in ascending name order and each schema taken from that version's type. A single-version CRD stores that version; a CRD left without a storage version, or without a served version, is reported as an error; if no version is left nothing is generated.",
 ["inputs","configurations"],"every assignment of packages to group/versions and of CRD markers to their types",
 "Fixtures contain one to three versions in fixed configurations.",
 ["pkg/crd/spec.go"],[("NeedCRDFor","pkg/crd/spec.go")])
p("C07","Flattening references and embedded structs loses no validation",
 "When a referenced or embedded schema is merged into the schema that uses it, every validation constraint (type, limits, enum, pattern, format, required names, properties, additional properties, expression rules, extensions, ...) present on either side is still enforced by the result, at the top level or in a remaining allOf branch. Documentation of the using field takes precedence over that of the referenced type, and conflicting types are reported as an error; required names come out sorted without duplicates. (Keywords a structural CRD schema may not use, such as additionalProperties: false, are left out.)",
 ["inputs"],"every pair of schemas and every nesting of allOf branches",
 "Tests cover a dozen keyword combinations of a reflective merge over more than forty keywords; loss shows only for particular pairs of keywords.",
 ["pkg/crd/flatten.go"],[("flattenAllOfInto","pkg/crd/flatten.go"),("preserveFields, flattenVisitor","pkg/crd/flatten.go"),("allOfVisitor, FlattenEmbedded","pkg/crd/flatten.go")])
p("C08","Schema reference links identify their type unambiguously",
 "The reference link generated for a type of a package decodes back to exactly that package path and type name, whatever characters Go allows in them; links of different types differ; and a reference without the prefix of definition links is rejected. A link without a package resolves to the package it is read in, any other to that package's import of that path.",
 ["inputs"],"every import path and every Go type name",
 "The tests only use ordinary paths; round trip and injectivity range over all strings, including the escape characters themselves.",
 ["pkg/crd/schema.go","pkg/crd/flatten.go"],[("qualifiedName, TypeRefLink","pkg/crd/schema.go"),("RefParts, identFromRef","pkg/crd/flatten.go")])
p("C09","Schema walks reach every sub-schema once and keep edits",
 "Editing a schema with a visitor visits the schema itself and then every schema nested in it (items, allOf/oneOf/anyOf, not, properties, pattern properties, additional properties/items, dependencies, definitions) exactly once, parents before children, and every edit the visitor makes ends up in the edited schema. After the children of a node the visitor returned for it is told of completion; returning no visitor skips exactly that node's children. (A visitor that replaces the reference of a node by another one is shown the node again until the chain of references ends or comes round.)",
 ["inputs"],"every schema tree and every visitor",
 "The tests walk a few small schemas; map-valued children need explicit write-back that only shows on particular keywords.",
 ["pkg/crd/schema_visitor.go"],[("EditSchema, walkSchema, walkMap, walkSlice, walkPtr","pkg/crd/schema_visitor.go")])
p("C10","Description truncation is bounded and never corrupts text",
 "With a maximum description length n, a description of at most n bytes is kept as it is; a longer one becomes a prefix of it of at most n bytes that ends with its last sentence terminator if there is one after its first character, else is cut at a word boundary (or at the limit) and marked with \"...\". Valid UTF-8 stays valid UTF-8, n=0 removes all descriptions, no or a negative limit changes none, and nothing but descriptions changes, at any depth of the schema.",
 ["inputs"],"every description text, every limit and every schema tree",
 "Tests use a few ASCII sentences; the cut position interacts with multi-byte runes.",
 ["pkg/crd/desc_visitor.go"],[("truncateString","pkg/crd/desc_visitor.go"),("descVisitor, TruncateDescription","pkg/crd/desc_visitor.go")])
p("C11","Go types map to the JSON type their serialisation has",
 "Booleans map to boolean, strings to string, every integer kind to integer with the 32/64-bit format where the Go type is that wide, slices of byte (under any alias) to base64 strings, other slices/arrays to arrays of the element's schema, maps with string-based keys to objects whose values have the element's schema, and pointers to the schema of what they point to. Floats map to number only when dangerous types are allowed; floats otherwise, other kinds and other map keys are reported as errors, never silently given a schema.",
 ["inputs","programs"],"every Go basic type and every composition of slices, arrays, maps, pointers, named types and aliases",
 "Fixtures use a fixed selection of field types.",
 ["pkg/crd/schema.go"],[("builtinToType","pkg/crd/schema.go"),("arrayToSchema, mapToSchema, localNamedToSchema, typeToSchema","pkg/crd/schema.go")])
p("C12","Field requiredness and naming follow tags and markers",
 "In a struct's schema a property exists exactly for each serialised, non-inlined field under its JSON name, inlined fields are merged as allOf branches, and fields tagged \"-\" (and unexported ones when asked) are left out; a field without JSON tag is an error. A property is required exactly when: an explicit required marker says so, or no explicit marker does and the package default is required and the field is not omitempty; kubebuilder markers win over Kubernetes ones and optional wins over required of the same family; only names of existing properties are ever required.",
 ["inputs","programs"],"every combination of JSON tag options, field markers, package markers and options",
 "The decision table has hundreds of combinations; the fixtures cover a few rows.",
 ["pkg/crd/schema.go"],[("structToSchema","pkg/crd/schema.go")])
p("C13","Every schema marker is applied exactly once, in priority order",
 "All markers on a field or type that affect its schema are applied exactly once each: first by ascending priority, and, between equal priorities of one marker name, in source order; items markers are applied to the items schema after all others. A marker that fails, or an items marker on something that has no items, is reported as an error with the marker's position and does not prevent the others from being applied.",
 ["inputs","configurations"],"every multiset of markers with any priorities, every map iteration order",
 "Markers are kept in a map; tests see one random order and few markers.",
 ["pkg/crd/schema.go","pkg/crd/markers/priority.go"],[("applyMarkers","pkg/crd/schema.go"),("ApplyPriority methods","pkg/crd/markers")])
p("C14","Marker names resolve to the right definition",
 "A marker comment +a:b:c=args names the definition a:b:c with an anonymous argument if one is registered for that kind of target, otherwise a:b with the field c; without \"=\" it names exactly the whole text. Definitions registered for packages, types and fields never shadow each other, and the last registration of a name for a target wins.",
 ["inputs","histories"],"every marker text, every registry content and registration order",
 "Tests look up a few fixed names.",
 ["pkg/markers/parse.go","pkg/markers/reg.go"],[("splitMarker","pkg/markers/parse.go"),("tryAnonLookup, Registry.Register, Registry.Lookup","pkg/markers/reg.go")])
p("C15","Marker arguments parse to exactly what was written or to an error",
 "Parsing a marker yields the written values, converted without loss to the declared argument types, in the fields they name, all other fields staying zero; a text rendered from values of the declared types parses back to those values. Unknown or malformed arguments, integers that do not fit the declared type, trailing text and missing non-optional arguments are errors, never a panic or a silently different value.",
 ["inputs"],"every argument text and every supported combination of argument types",
 "Tests cover some dozens of literals; the grammar is recursive and values unbounded.",
 ["pkg/markers/parse.go"],[("Definition.Parse, Argument.Parse","pkg/markers/parse.go"),("argumentInfo, loadFields, ArgumentFromType","pkg/markers/parse.go")])
p("C16","Descriptions are the doc comment without markers and notes",
 "The description extracted for a package, type or field is its doc comment with exactly the marker lines, TODO lines outside fenced code blocks, and everything after a \"---\" line outside code blocks removed, all other lines kept in order. A type spec takes its own comment, else that of an ungrouped declaration.",
 ["inputs"],"every doc comment",
 "A handful of comments in fixtures.",
 ["pkg/markers/zip.go","pkg/markers/collect.go"],[("extractDoc","pkg/markers/zip.go"),("isMarkerComment","pkg/markers/collect.go")])
p("C17","Webhook manifests reflect their markers and are valid v1 objects",
 "Each webhook marker yields exactly one webhook in the mutating or validating configuration it asks for, carrying its name, groups (\"core\" as \"\"), versions, resources, verbs, policies, review versions, and either its URL or the service reference with path and defaults for what it does not give, never both. No webhook is emitted with a timeout outside 1..30 seconds, without review versions, with side effects other than None/NoneOnDryRun, with neither or both of url and path, with an unknown match policy, or for an unsupported webhook version: each of these is an error.",
 ["inputs"],"every webhook marker value (all strings, integers) and every set of markers",
 "Golden files hold a few configurations; the defaulting and rejection tables range over all values, including integer extremes.",
 ["pkg/webhook/parser.go"],[("ToMutatingWebhook, ToValidatingWebhook, rules, clientConfig, timeoutSeconds, ...","pkg/webhook/parser.go"),("Generate, checkSideEffectsForV1, checkTimeoutSeconds","pkg/webhook/parser.go")])
p("C18","Command-line options select generators, paths and outputs as written",
 "Every option yields exactly what it names or an error, never a crash: generators run in the order given and at most once each, paths accumulate in order, and each generator writes to the output rule given (last) for it, else to the default rule given, else to its own directory under config/. A rule for a generator that is not run, an unknown option and a repeated generator are errors; package-bound artifacts go to the code directory or the package's own directory, all others to the configured directory.",
 ["inputs","configurations"],"every list of option strings and every output rule configuration",
 "Only a few command lines are ever exercised.",
 ["pkg/genall/options.go","pkg/genall/output.go"],[("protoFromOptions, splitOutputRuleOption, FromOptionsWithConfig","pkg/genall/options.go"),("OutputRules.ForGenerator, DirectoryPerGenerator, OutputArtifacts.Open","pkg/genall/output.go")])
p("C19","No error is swallowed: failed runs fail",
 "A generation run reports failure exactly when some generator returned an error, or some root package or package it depends on carries an error other than a filtered type-checking one; every such error is printed, and a failing generator does not keep the others from running. An artifact that cannot be opened or written is such an error, and so is every file that does not parse. Errors attached to a package keep their position and kind, and error lists are flattened without loss.",
 ["inputs","histories","fault_sequences"],"every assignment of results to generators and of errors to packages in every import graph",
 "The tests inject almost no errors.",
 ["pkg/genall/genall.go","pkg/loader/errors.go","pkg/loader/loader.go"],[("Runtime.Run","pkg/genall/genall.go"),("PrintErrors, Package.AddError","pkg/loader/loader.go"),("ErrFromNode, MaybeErrList","pkg/loader/errors.go")])
p("C20","YAML manifests are edited only where asked",
 "Getting, setting and deleting a path of a YAML document obey: what was set is what is then read; deleting makes the path absent; every other path, and the order of the remaining keys, is unchanged; paths through non-mappings are errors that change nothing. Patching a manifest's schemata replaces the schema of exactly those versions for which one was generated, removes the others' and the legacy top-level one, and malformed version lists are errors, never a crash.",
 ["inputs"],"every single YAML document (without anchors and duplicate keys), every path and value, every set of generated versions",
 "The tests use a few two-level documents.",
 ["pkg/schemapatcher/internal/yaml","pkg/schemapatcher/gen.go"],[("GetNode, SetNode, DeleteNode, ValueInMapping","pkg/schemapatcher/internal/yaml"),("setVersionedSchemata","pkg/schemapatcher/gen.go")])
p("C21","Deepcopy generation is enabled, and shares memory, only where safe",
 "A type gets deepcopy methods exactly when its own marker enables it, or has no say and the package marker or its being an API root object does; and values are copied by plain assignment only if their type (through names and aliases) contains no pointer, slice, map, interface, channel or function. Existing hand-written DeepCopy/DeepCopyInto methods with the right signature are used and never duplicated. The generated code compiles, and the copies it makes equal their originals and share no pointer, slice or map with them.",
 ["inputs","programs"],"every combination of package/type markers and every Go type",
 "The fixtures contain fixed lists of types.",
 ["pkg/deepcopy/gen.go","pkg/deepcopy/traverse.go"],[("enabledOnPackage, enabledOnType, genObjectInterface, shouldBeCopied","pkg/deepcopy"),("fineToShallowCopy, passesByReference, usePtrReceiver, hasDeepCopyMethod","pkg/deepcopy/traverse.go")])
p("C22","Import aliases in generated code are valid and unique",
 "Whatever packages generated code refers to, each import path gets one alias for the whole file, different paths get different aliases, none equals the file's own package name, and every alias is a valid Go identifier that is not a keyword, and neither hides nor is hidden by a predeclared name, a declaration of the package or a local variable of the generated methods. A path inside a vendor directory is treated as the path it stands for.",
 ["inputs","histories"],"every sequence of import paths",
 "Tests import a few well-behaved packages.",
 ["pkg/deepcopy/traverse.go"],[("importsList.NeedImport, ImportSpecs","pkg/deepcopy/traverse.go")])
p("C23","Doc and free-standing comments attach to the node they precede",
 "A marker in a type's or field's doc comment, or in the comment block directly above it, belongs to that type or field; package-level markers anywhere else in the file belong to the package; no marker is attached twice or lost.",
 ["programs"],"every placement of comments in every Go source file",
 "Fixtures hold a few placements.",
 ["pkg/markers/collect.go"],[("markerVisitor, associateFileMarkers","pkg/markers/collect.go")])
p("C24","Generated deepcopy code makes copies that share no mutable memory",
 "For every type it accepts, the generated DeepCopy returns a value equal to its receiver that shares no pointer, map or slice storage with it.",
 ["programs"],"every Go type declaration and every value of it",
 "The tests compare generated text for a fixed set of types.",
 ["pkg/deepcopy/traverse.go"],[("genDeepCopyIntoBlock and the gen*DeepCopy family","pkg/deepcopy/traverse.go")])
p("C25","Loading and type-checking packages concurrently is race-free",
 "Packages may be parsed and type-checked concurrently: no error is lost, nothing deadlocks and no memory is raced on, whatever the schedule.",
 ["schedules"],"every interleaving of the loading goroutines",
 "Tests run a few schedules without fault injection.",
 ["pkg/loader/loader.go","pkg/loader/refs.go"],[("Package.NeedSyntax, TypeChecker.Check","pkg/loader")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,x["id"]
