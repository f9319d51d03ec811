#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None, **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}))))

p("C01", "Every input is answered with a model or an error, never a crash",
  "For any content of the entry file and of the files it includes (valid, mutated, truncated, self-referential or arbitrary bytes), any entry point kind and any combination of the unwrap and validate options, parsing returns either a model or a non-nil error, without a panic, a stack overflow or an endless loop. "
  "When parsing with unwrapping succeeds, validating any JSON value against any declared type, cloning the types and converting them to JSON Schema with and without a wrapper also end without a crash.",
  ["inputs", "configurations"], "all file contents, sets of included files, entry points, parse options and instance values",
  "Tests feed a few dozen hand-written fixtures; crashes sit on malformed nodes, null fragments and reference cycles that no fixture has.",
  ["parse.go", "fragment.go", "shape.go", "complex.go", "scalars.go", "resolve.go", "rdt_visitor.go", "unwrap.go", "validate.go", "node.go", "example.go", "extension.go", "jsonschemaconv.go"],
  [("node kind and tag checks before use", "fragment.go, shape.go decode*, node.go yamlNodeToDataNode"), ("circular reference detection", "resolve.go resolveShape, checkCircularShapes"), ("recursion marking", "unwrap.go FindAndMarkRecursion")],
  ["ParseFromPath", "ParseFromString", "BaseShape.Validate", "JSONSchemaConverter.Convert", "BaseShape.CloneDetached"])

p("C02", "Results are deterministic and independent of declaration order",
  "Parsing the same files repeatedly, in the same process or in another one, yields the same model in the same order, the same JSON Schemas and, for invalid input, the same errors in the same order. "
  "Reordering the types, annotation types and uses entries inside a fragment (and the YAML keys of a type declaration) changes neither which declarations are accepted nor which instances any type accepts.",
  ["inputs", "programs"], "all valid and invalid sets of fragments and all permutations of their declarations",
  "A fixture is parsed once in one declaration order; unwrapping and resolution are driven by Go maps and by worklists whose order depends on the declarations.",
  ["raml.go", "resolve.go", "unwrap.go", "validate.go", "jsonschemaconv.go", "fragment.go"],
  [("fragments are visited in the order of their locations", "raml.go sortedFragments"), ("ordered maps for declarations", "fragment.go, complex.go"), ("lazy resolution and unwrapping of references", "resolve.go resolveShape, unwrap.go UnwrapShape")],
  ["ParseFromPath", "RAML.EntryPoint", "BaseShape.Validate", "JSONSchemaConverter.Convert"])

p("C03", "The model holds exactly what the source declares",
  "Before unwrapping, the parsed model lists every declared type, annotation type, property, pattern property, item type and custom facet definition under its name and in source order, with its base type, required flag, display name, description, default, examples and every declared facet value, and nothing that is not declared. "
  "A property is required unless its name ends with '?' or it says required: false, and an explicit required facet keeps a trailing '?' as part of the name.",
  ["inputs"], "all libraries and data types built from the built-in types and their facets",
  "Each test looks at a few facets of one fixture; losing, swapping or defaulting one facet of one type in one syntactic position goes unnoticed.",
  ["shape.go", "scalars.go", "complex.go", "fragment.go", "example.go", "node.go"],
  [("common facets", "shape.go BaseShape.decode, decodeValueNode"), ("type specific facets", "scalars.go and complex.go unmarshalYAMLNodes"), ("property names and requirement", "complex.go makeProperty, chompImplicitOptional"), ("fragment content", "fragment.go UnmarshalYAML")],
  ["Library.Types", "Library.AnnotationTypes", "BaseShape fields", "ObjectShape.Properties"])

p("C04", "Type expressions mean what their grammar says",
  "A type expression made of names, '|', '[]', '?' and parentheses with any nesting and spacing yields exactly the union, array and nullable structure given by the usual precedence (suffixes bind tighter than '|'), with union members in source order. "
  "A string that is not a type expression is rejected with an error.",
  ["inputs"], "all type expressions up to a nesting bound and all near-miss strings",
  "Tests try a handful of expressions; precedence and grouping errors only show in combinations.",
  ["rdt_visitor.go", "resolve.go", "rdt"],
  [("ANTLR grammar and listener", "rdt/, resolve.go resolveShape"), ("structure building", "rdt_visitor.go VisitUnion, VisitArray, VisitOptional, VisitGroup")],
  ["UnionShape.AnyOf", "ArrayShape.Items", "BaseShape.Type"])

p("C05", "A declaration without a type gets the type its facets imply",
  "A declaration that names no type is a string, number, array, object or file type according to the facets it uses (length facets alone mean string, together with fileTypes they mean file, no telling facet means string), whatever the order of the facets, and behaves exactly like the same declaration with that type written out. "
  "A declaration whose facets imply different types is rejected.",
  ["inputs"], "all combinations and orders of type-telling and neutral facets",
  "Tests use one facet at a time; conflicts and order dependence need combinations.",
  ["shape.go"],
  [("type detection", "shape.go identifyShapeType")],
  ["BaseShape.Type", "ParseFromString error"])

p("C06", "Names resolve only to what their fragment declares or imports",
  "A type or annotation name resolves to the declaration of that name in the same fragment, and a qualified name lib.Name to the declaration in the library that the fragment's own uses section binds to lib, even if other fragments declare the same names or bind the same prefix differently. "
  "A reference to an undeclared name, to a library bound only in another fragment, to a missing file, to a file of the wrong fragment kind, or to a type that is defined only through itself is an error.",
  ["inputs", "programs"], "all sets of libraries and data types with colliding names, arbitrary uses graphs and directories, and all dangling references",
  "Fixtures have one or two libraries with distinct names, so resolving in the wrong fragment gives the same answer.",
  ["fragment.go", "raml.go", "parse.go", "resolve.go", "rdt_visitor.go"],
  [("reference lookup", "fragment.go GetReferenceType, GetReferenceAnnotationType"), ("relative paths and fragment cache", "parse.go parseLibrary, parseDataType"), ("fragment kind check", "parse.go CheckFragmentKind")],
  ["BaseShape.Alias", "BaseShape.Inherits", "BaseShape.Validate", "DomainExtension.DefinedBy"])

p("C07", "Splitting declarations into files does not change their meaning",
  "Moving type declarations into included DataType fragments or into libraries in other directories, splitting examples into NamedExample fragments and values into included data files, or parsing from a string instead of a file, leaves every type accepting the same instances with the same effective properties and facets and the same JSON Schema up to the names of definitions (for recursive types, up to where their cycles are cut). "
  "A file that is included or used several times, or in a cycle of uses, is loaded once and shared.",
  ["inputs", "programs"], "all type graphs and all ways of distributing them over libraries, data types, named examples and data files",
  "Each test checks one layout; there is no test that compares two layouts of the same declarations.",
  ["parse.go", "fragment.go", "shape.go", "node.go", "unwrap.go", "resolve.go"],
  [("links to data types", "shape.go makeShapeType, resolve.go resolveLink, unwrap.go unwrapParents"), ("fragment cache", "parse.go, raml.go PutFragment"), ("included data", "node.go makeIncludedNode")],
  ["BaseShape.Validate", "JSONSchemaConverter.Convert", "RAML.GetFragment"])

p("C08", "Instance validation implements the RAML type semantics",
  "For every unwrapped type and JSON value, Validate returns no error exactly if the value conforms to the type: matching JSON type, length in characters, item and property counts, unique items, ranges, patterns, enums compared by value, date and time formats, required, optional, pattern and additional properties, all members of arrays and at least one member of a union. "
  "An heir requires what every one of its parents requires in addition to its own constraints.",
  ["inputs"], "all types built from the built-in types, with inheritance, unions and nesting, and all JSON values",
  "Tests check fixed pairs of a type and a value; boundary values, Unicode strings, numbers beyond the int range and combined constraints are out of their reach.",
  ["scalars.go", "complex.go", "shape.go"],
  [("validate methods of shapes", "scalars.go, complex.go"), ("merging of constraints", "shape.go Inherit, inherit methods")],
  ["BaseShape.Validate"])

p("C09", "Inheritance narrows: heirs never accept more than their parents",
  "Every value that a type accepts is accepted by each type it inherits from, apart from properties that an heir adds to a parent whose additional or pattern properties do not allow them (directly, through chains, multiple parents, properties, items and union members), and facets and properties that an heir does not override are inherited unchanged. "
  "An heir that widens a parent's constraint (range, length, count, enum, format, uniqueness, requirement of a property, type of a property or item) is rejected with an error.",
  ["inputs"], "all parent and heir declarations over the inheritable facets, and all values",
  "Tests try one override per facet; the direction of each comparison, equal bounds, multi-level chains and nested overrides form a large product.",
  ["shape.go", "scalars.go", "complex.go", "unwrap.go"],
  [("per-facet merge and narrowing checks", "inherit methods in scalars.go and complex.go"), ("multiple parents", "unwrap.go unwrapParents"), ("unions", "shape.go inheritUnionSource, inheritUnionTarget")],
  ["OptWithUnwrap error", "BaseShape.Validate", "shape facet fields"])

p("C10", "A declaration never changes the types it refers to",
  "Adding to a set of fragments further declarations that inherit from, alias, nest, include or annotate existing types changes neither the unwrapped facets, properties and JSON Schema of any existing type nor the instances it accepts (of the JSON Schema of a recursive type, the meaning: where its cycles are cut may depend on other declarations). "
  "In particular an heir that overrides a property, item type, union member or facet leaves its parents and siblings as they were.",
  ["inputs", "programs"], "all base sets of declarations and all sets of added declarations, in any order",
  "Tests inspect the heir, not the parent, and never compare the parent with and without heirs.",
  ["shape.go", "complex.go", "unwrap.go"],
  [("overrides are applied to copies", "shape.go inheritDetached, CloneShallow; complex.go cloneShallow"), ("aliases share facets read-only", "shape.go AliasTo")],
  ["BaseShape fields after OptWithUnwrap", "BaseShape.Validate", "JSONSchemaConverter.Convert"])

p("C11", "Unwrapping is complete, finite, idempotent and preserves meaning",
  "After parsing with unwrapping, every shape reachable from the entry point is unwrapped and concrete (no unresolved names, aliases or links to follow), every cycle is cut by a recursive marker that refers to the enclosing type, and unwrapping again changes nothing. "
  "Parsing with validation reports the same verdict whether or not unwrapping is requested, and validating alone leaves the model as parsed.",
  ["inputs", "histories"], "all sets of fragments, and all sequences of unwrap and validate calls",
  "Tests unwrap once and look at selected types of fixtures.",
  ["unwrap.go", "validate.go", "shape.go", "resolve.go"],
  [("unwrapping", "unwrap.go UnwrapShape, UnwrapShapes"), ("recursion markers", "unwrap.go FindAndMarkRecursion"), ("validation works on detached copies", "validate.go unwrapShape")],
  ["RAML.UnwrapShapes", "RAML.ValidateShapes", "BaseShape.IsUnwrapped", "RAML.GetShapes"])

p("C12", "Validated models contain only conforming examples, defaults and facets",
  "Parsing with validation succeeds exactly if every example, named example (inline or included), default and discriminator value conforms to its effective type, every enum value has the type it enumerates, and no minimum exceeds its maximum, at every depth: properties, pattern properties, items, union members, custom facet definitions, annotation types, libraries and included data types. "
  "Without validation none of these is an error.",
  ["inputs"], "all valid models and all single violations injected at any position",
  "Tests inject few violations, mostly at the top level of one library.",
  ["validate.go", "scalars.go", "complex.go"],
  [("validation of examples and defaults", "validate.go validateExamples, validateShapeCommons"), ("facet checks", "check methods in scalars.go and complex.go")],
  ["OptWithValidate error", "RAML.ValidateShapes"])

p("C13", "Custom facets are defined before use, typed and enforced",
  "A type may set a custom facet exactly if one of its ancestors defines it, with a value that conforms to the definition; required custom facets must be set (or inherited) by every heir, and a type may not redefine a facet that its ancestors define. "
  "Parsing with validation rejects every violation and accepts every model that has none, whether parents are local, aliased, imported from a library or included.",
  ["inputs"], "all inheritance chains with facet definitions, uses and injected violations",
  "Tests cover one parent and one heir; chains, aliases and facets that are inherited rather than set are untested.",
  ["validate.go", "shape.go", "unwrap.go"],
  [("facet collection and validation", "validate.go validateShapeFacets"), ("inheritance of facet values", "shape.go Inherit")],
  ["OptWithValidate error", "BaseShape.CustomShapeFacets", "BaseShape.CustomShapeFacetDefinitions"])

p("C14", "Annotations are bound to their annotation types and checked",
  "Every annotation applied to a fragment, type, property, item type or example is recorded with its name and value, is listed among the annotations of the model, and is bound to the annotation type that its name denotes where it is applied, before and after unwrapping. "
  "Parsing fails if that annotation type does not exist, and parsing with validation fails exactly if some annotation value does not conform to its annotation type.",
  ["inputs"], "all placements of local and qualified annotations with conforming and non-conforming values",
  "Tests apply one annotation to one kind of node; binding after unwrapping and through libraries is hardly looked at.",
  ["extension.go", "resolve.go", "unwrap.go", "validate.go", "raml.go"],
  [("recording", "extension.go unmarshalCustomDomainExtension"), ("binding", "resolve.go resolveDomainExtension, unwrap.go unwrapDomainExtensions"), ("checking", "validate.go validateDomainExtensions")],
  ["RAML.GetAllAnnotationsPtr", "CustomDomainProperties", "DomainExtension.DefinedBy"])

p("C15", "The JSON Schema of a type accepts the instances the type accepts",
  "For every unwrapped type, conversion yields a draft-07 JSON Schema that serialises to JSON, whose references all resolve inside the document, and which accepts exactly the JSON values that Validate accepts (format and multipleOf keywords being annotations). "
  "Titles, descriptions, defaults, examples, and with the RAML wrapper annotations, facet definitions and facet values, are carried over unchanged, and converting does not alter the type.",
  ["inputs"], "all unwrapped types, including recursive ones, and all JSON values",
  "Tests compare single keywords of hand-made shapes and never evaluate a schema.",
  ["jsonschemaconv.go", "schema.go"],
  [("per type conversion", "jsonschemaconv.go Visit*"), ("definitions of recursive types", "jsonschemaconv.go VisitRecursiveShape, Convert")],
  ["JSONSchemaConverter.Convert", "json.Marshal of the schema", "JSONSchema.Map"])

p("C16", "JSON Schema objects copy, serialise and pass through losslessly",
  "A draft-07 schema built from the supported keywords survives unmarshalling and marshalling, being declared as the type of a RAML type and converted back (keeping every keyword apart from $schema, with RAML title, description, default and examples taking precedence), and Map() describes the same document as marshalling does. "
  "(Null as the value of const or default is not representable and is left out.) "
  "DeepCopy yields an equal schema that shares no mutable part with the original.",
  ["inputs"], "all schemas over the supported keywords",
  "Tests set few keywords at a time; a keyword forgotten in one of four hand-written copies of the keyword list stays unnoticed.",
  ["schema.go", "jsonschemaconv.go", "shape.go"],
  [("copies and maps", "schema.go DeepCopy, ShallowCopy, Map"), ("recasting", "jsonschemaconv.go recast, VisitJSONShape"), ("JSON types", "shape.go MakeJSONShape")],
  ["JSONSchema.DeepCopy", "JSONSchema.Map", "JSONSchemaConverter.Convert"])

p("C17", "A detached clone equals the original and is independent of it",
  "A detached clone of any type, taken before or after unwrapping, describes the same type: it accepts the same instances, has the same facets, properties, parents and JSON Schema. "
  "No mutable shape is shared between clone and original, so unwrapping, inheriting into, or editing one never changes the other.",
  ["inputs", "histories"], "all types and all sequences of operations on the clone or on the original",
  "Tests clone single hand-made shapes; sharing matters only for nested, recursive and inherited parts that are modified later.",
  ["shape.go", "complex.go", "scalars.go"],
  [("cloning", "shape.go CloneDetached, clone; clone methods of shapes")],
  ["BaseShape.CloneDetached", "BaseShape.Clone", "RAML.UnwrapShape"])

p("C18", "Hooks run in order at every call and their errors abort",
  "After any sequence of appending, prepending, removing and clearing hooks, the hooks registered for a key run in exactly the resulting order at every point of that key, stopping at the first error, and hooks that return no error do not influence the result. "
  "A hook error at any call of parsing, unwrapping or validation makes that operation return an error that carries it, without a crash.",
  ["histories", "fault_sequences"], "all sequences of hook operations and all points at which a hook may fail",
  "Tests register one or two hooks; failing the n-th call of each hook point is not explored.",
  ["raml.go", "shape.go", "unwrap.go", "validate.go", "rdt_visitor.go", "parse.go"],
  [("hook lists", "raml.go AppendHook, PrependHook, RemoveHook, ClearHooks, callHooks")],
  ["RAML.AppendHook", "RAML.ParseFromPath", "RAML.UnwrapShapes", "RAML.ValidateShapes"])

p("C19", "Errors point at the file and line of the faulty declaration",
  "When a single fault is injected into an otherwise valid set of fragments (bad facet value, unknown reference, malformed expression, widened constraint, non-conforming example, default, annotation or custom facet, missing include), the returned error is a stack trace of which some entry names the file of the fault and a line within the declaration that contains it, and every position in it lies within an existing line of the named file. "
  "Several independent faults in different types that are found while resolving references, unwrapping or validating are all reported (a fault of the syntax of a fragment and a circular reference may stop at the first one).",
  ["inputs", "fault_sequences"], "all valid models and all injected single and independent double faults in any file",
  "Tests check that an error exists, hardly ever where it points.",
  ["stacktrace.go", "shape.go", "complex.go", "scalars.go", "resolve.go", "unwrap.go", "validate.go", "fragment.go", "parse.go"],
  [("positions of shapes and nodes", "shape.go MakeBaseShape, stacktrace.go WithNodePosition"), ("accumulation", "StackTrace.Append in resolve.go, unwrap.go and validate.go")],
  ["stacktrace.Unwrap(err)"])

p("C20", "Recursive types accept exactly the finite values of their unrolling",
  "A type that refers to itself through properties, items or unions (directly, mutually or through other fragments) parses, unwraps and validates in finite time, and accepts a value exactly if unrolling the definitions to the depth of the value does. "
  "The converted JSON Schema is finite, and its references lead to schemas that accept the same values.",
  ["inputs"], "all recursive type graphs and all values of bounded depth",
  "Fixtures contain a few direct recursions and values of depth one.",
  ["unwrap.go", "complex.go", "shape.go", "resolve.go", "jsonschemaconv.go"],
  [("recursion markers", "unwrap.go FindAndMarkRecursion, complex.go RecursiveShape"), ("definitions", "jsonschemaconv.go VisitRecursiveShape")],
  ["BaseShape.Validate", "JSONSchemaConverter.Convert"])

p("C21", "Data values are taken over unchanged from YAML, JSON and includes",
  "Examples, defaults, enum values, annotations and custom facet values hold exactly the value written in the source: strings stay strings (also timestamps and quoted numbers), numbers, booleans, nulls, maps and lists of any nesting keep their value (numbers written in JSON in double precision), whether written as YAML in any style, as a JSON string, or included from a YAML, JSON or text file relative to the including file. "
  "Every value reports the file and line it comes from.",
  ["inputs"], "all data values, their YAML and JSON renderings, and their distribution over included files",
  "Tests check few scalar values; renderings, nesting and includes multiply.",
  ["node.go", "example.go", "extension.go"],
  [("data nodes", "node.go makeRootNode, makeIncludedNode, yamlNodeToDataNode"), ("examples", "example.go makeExample, fill")],
  ["Node.Value", "Example.Data", "DomainExtension.Extension"])

p("C22", "Using an unwrapped model does not change it, so it can be shared",
  "Validating instances, converting to JSON Schema, checking and detaching clones of unwrapped types leave the model unchanged, give the same answer on every call, and do not modify the instance. "
  "Several goroutines validating and converting types of one model at the same time get the same answers as one goroutine, without data races.",
  ["schedules", "histories"], "all models, all sequences and interleavings of read-only operations",
  "Tests make one call per fresh model and run single-threaded without the race detector.",
  ["complex.go", "scalars.go", "jsonschemaconv.go", "shape.go", "validate.go"],
  [("read-only traversal", "validate methods, jsonschemaconv.go Visit*, shape.go clone")],
  ["BaseShape.Validate", "JSONSchemaConverter.Convert", "BaseShape.CloneDetached"])

p("C23", "The command-line tool reports every file and fails if any is invalid",
  "`raml validate` processes every given file in order, whatever the outcome of the earlier ones, and reports for each whether it is valid, exactly as the library decides with validation and unwrapping. "
  "The report of an invalid file holds the traces of the library's error with all messages and positions. The exit status is zero if and only if all files are valid; the flags of the documentation are accepted and do not change the verdict.",
  ["inputs"], "all sequences of files and combinations of flags",
  "The tool has no tests.",
  ["cmd/raml/validate.go", "cmd/raml/raml.go", "cmd/raml/slog.go", "README.md"],
  [("command", "cmd/raml/validate.go Validate"), ("flags and exit status", "cmd/raml/raml.go")],
  ["raml validate", "exit status", "log output"])

p("C24", "Lookups by name and location agree with the declarations",
  "Looking up a type or annotation type by name in the context of a fragment yields the declaration that the fragment declares or imports under this name (declared names with dots come first, imports are not transitive), before and after unwrapping and validation the one that the fragment holds; other names, and locations that were not loaded, yield nothing. "
  "The registered types of a fragment are exactly its declared types, only fragments that are referred to are loaded, and the list of shapes holds each shape once, with unique IDs.",
  ["inputs"], "all collections of fragments, all names and locations",
  "Tests look up few fixed names; shadowing, transitivity and the state after unwrapping need generated collections.",
  ["raml.go", "fragment.go", "unwrap.go", "parse.go"],
  [("lookup", "fragment.go GetReferenceType, GetReferenceAnnotationType"), ("registration", "raml.go PutTypeIntoFragment, unwrap.go unwrapTypes")],
  ["RAML.GetReferencedType", "RAML.GetReferencedAnnotationType", "RAML.GetFragment", "RAML.GetTypeFromFragmentPtr", "RAML.GetShapes"])

p("C25", "Models of one process do not influence each other",
  "Parsing, unwrapping, validating and converting yields the same model, the same errors and the same verdicts as in a fresh process, whatever was parsed before, including earlier contents of the same files; models that were made earlier stay as they are. "
  "Goroutines may parse and use separate models at the same time without data races and with the same results.",
  ["histories", "schedules"], "all histories of parsed files with changes in between, all interleavings of goroutines with models of their own",
  "Tests parse fixed files one after another and never compare with a fresh process.",
  ["parse.go", "raml.go", "rdt_visitor.go", "jsonschemaconv.go", "shape.go"],
  [("state of a model", "raml.go RAML, New"), ("expression parser", "rdt_visitor.go, shape.go parseTypeExpression")],
  ["ParseFromPath", "RAML.UnwrapShapes", "RAML.ValidateShapes", "BaseShape.Validate", "JSONSchemaConverter.Convert"])

p("C26", "A fragment is what its first line says and fits the place that uses it",
  "A file is loaded as Library, DataType or NamedExample if and only if its first line is exactly the RAML 1.0 header of this kind (trailing spaces aside). "
  "`uses` takes libraries only, types take data types only, `examples` takes named examples only, whichever declaration refers to the file, by whatever spelling of the path, and however often; every other header or kind is rejected in all modes. Once accepted, the model holds the fragment under its location with its content.",
  ["inputs"], "all first lines, places of reference, spellings of paths and repeated references",
  "Tests cover a few wrong headers for single places.",
  ["parse.go", "fragment.go", "shape.go", "example.go"],
  [("headers", "parse.go ReadHead, IdentifyFragment"), ("kinds", "parse.go CheckFragmentKind, parseLibrary, parseDataType, parseNamedExample")],
  ["ParseFromPath", "ParseFromString", "RAML.GetFragment"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
