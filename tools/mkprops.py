import json
def f(*a): return [{"name":n,"where":w} for n,w in a]
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title)); 
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":f(*mech)}})
I=["inputs"]; IC=["inputs","configurations"]; PIC=["programs","inputs","configurations"]
p("C01","Result models admit exactly the responses the schema allows",
"For every operation and fragment over a schema, each unconditionally selected field becomes one model attribute whose annotation mirrors the schema type at every depth: optional exactly where GraphQL is nullable, a list (or tuple, when freezing converts lists) exactly where GraphQL has a list, and the mapped scalar, the generated enum or the nested model at the leaf. A nullable field may be absent (defaults to None) and a non-null field is required, so every response a conforming server sends validates without losing a selected value, and a response with null or nothing in a non-null position is rejected.",
PIC,"all schemas, all valid documents over them (fields selected without @skip/@include), all wrapping depths of list and non-null, all freeze configurations",
"Type wrappers nest without bound and each of them meets every leaf kind, selection shape and option; the tests sample a few schemas and mostly only check that code is produced.",
["turms/recurse.py","turms/utils.py","turms/plugins/operations.py","turms/plugins/fragments.py"],
[("recurse_annotation","turms/recurse.py"),("type_field_node","turms/recurse.py"),("generate_operation","turms/plugins/operations.py"),("generate_fragment","turms/plugins/fragments.py"),("recurse_outputtype_annotation","turms/utils.py")])
p("C02","Arguments and input models accept and omit exactly what GraphQL does",
"Every operation variable and every input-object field becomes one attribute whose annotation mirrors its GraphQL type; it is required exactly when the type is non-null and no default is declared, and otherwise defaults to None without the schema's default being baked in. Serialising an instance by alias without unset fields therefore yields exactly the values the caller supplied, under their GraphQL names, and a required value that is missing is rejected.",
PIC,"all variable definitions and input object types: every nesting of list and non-null, every leaf kind, with or without (null or non-null) defaults, recursive inputs included",
"Nullability, default and nesting combine freely per field and recursively across input types; tests cover single combinations.",
["turms/plugins/operations.py","turms/plugins/inputs.py","turms/utils.py"],
[("generate_operation","turms/plugins/operations.py"),("recurse_type_annotation","turms/utils.py"),("generate_input_annotation","turms/plugins/inputs.py"),("generate_input_field_annotation","turms/plugins/inputs.py"),("generate_input_field_value","turms/plugins/inputs.py"),("generate_input_type","turms/plugins/inputs.py")])
p("C03","Renaming never changes what goes over the wire",
"Under every chain of stylers, a generated attribute is a valid Python identifier that is not a keyword, and whenever it differs from the GraphQL response key (the alias if one is given), argument or input-field name, the attribute carries that GraphQL name as its alias. Class names come from applying the configured stylers in order, and every reference to a class uses the same name as its definition.",
IC,"all GraphQL names and field aliases, all Python keywords, all styler chains (including user-written ones)",
"Names, keywords and styler compositions are unbounded; a wrong alias only surfaces when real data is exchanged.",
["turms/registry.py","turms/recurse.py","turms/plugins/operations.py","turms/plugins/inputs.py","turms/plugins/objects.py","turms/stylers/default.py","turms/stylers/snake_case.py","turms/stylers/capitalize.py","turms/stylers/appender.py"],
[("ClassRegistry.generate_node_name","turms/registry.py"),("ClassRegistry.generate_parameter_name","turms/registry.py"),("ClassRegistry.style_*_class","turms/registry.py"),("target_from_node","turms/utils.py"),("type_field_node","turms/recurse.py")])
p("C04","Every generated module is closed: all names it uses are bound",
"Whatever plugins, options and documents are combined, the generated module can be imported on its own: every name that annotations, bases, defaults and function bodies use is imported once, defined by an emitted class, or emitted as a builtin helper. A class that refers to another before its definition does so by forward reference and is rebuilt at the end of the module (unless forwards are skipped), so all models are usable after import.",
PIC,"all schemas, documents, plugin selections in a valid order and options that affect emitted references (scalars, bases, markers, sentinels)",
"Which imports are needed depends on the combination of features reached by a particular schema and document; only a whole-space argument shows none is forgotten.",
["turms/registry.py","turms/run.py","turms/recurse.py","turms/plugins/inputs.py","turms/plugins/funcs.py","turms/parsers/polyfill.py"],
[("ClassRegistry.register_import","turms/registry.py"),("ClassRegistry.generate_imports","turms/registry.py"),("ClassRegistry.generate_builtins","turms/registry.py"),("ClassRegistry.generate_forward_refs","turms/registry.py"),("ClassRegistry.reference_*","turms/registry.py"),("generate_ast","turms/run.py"),("polyfill_python_seven","turms/parsers/polyfill.py")])
p("C05","The embedded document is the user's operation, complete and self-contained",
"The document stored with each operation parses and validates against the schema, contains the operation as written plus every fragment reachable through spreads at any depth exactly once and no other definition. The only change is that __typename is requested, at most once more, in every nested object selection and fragment; arguments, aliases, directives, variables and defaults stay as written.",
PIC,"all documents: any fragment graph, any nesting of fields, inline fragments and spreads, any formatting or comments",
"Reachability over fragment graphs is unbounded and depends on names, nesting and sharing that samples do not reach.",
["turms/utils.py","turms/plugins/operations.py","turms/plugins/fragments.py"],
[("replace_iteratively","turms/utils.py"),("find_fragment_spreads","turms/utils.py"),("add_typename_recursively","turms/utils.py"),("auto_add_typename_field_to_fragment_str","turms/utils.py"),("ClassRegistry.register_fragment_document","turms/registry.py")])
p("C06","Fragments are emitted after everything they depend on",
"Whatever the order of fragments in and across the documents, each fragment is emitted exactly once and after every fragment it uses directly, through nested fields or through inline fragments, so that the classes it inherits from or refers to exist when it is defined.",
PIC,"all acyclic fragment dependency graphs and all definition orders",
"The number of graphs and orders explodes; tests fix one order each.",
["turms/plugins/fragments.py"],
[("find_fragment_dependencies_recursive","turms/plugins/fragments.py"),("build_recursive_dependency_graph","turms/plugins/fragments.py"),("topological_sort","turms/plugins/fragments.py"),("reorder_definitions","turms/plugins/fragments.py")])
p("C07","Generation is deterministic",
"The generated text is a function of configuration, schema and documents alone: repeating the generation, in the same or another process, with another hash seed or after other projects were generated, yields byte-identical output.",
["inputs","configurations","histories"],"all projects, all interpreter hash seeds, all histories of earlier generations in the process",
"Set iteration order and leaked module state only show under another hash seed or history; a test runs under one.",
["turms/registry.py","turms/run.py","turms/utils.py","turms/parsers/polyfill.py","turms/plugins/fragments.py"],
[("ClassRegistry.generate_imports","turms/registry.py"),("ClassRegistry.generate_builtins","turms/registry.py"),("ClassRegistry.generate_forward_refs","turms/registry.py"),("replace_iteratively","turms/utils.py"),("polyfill_python_seven","turms/parsers/polyfill.py")])
p("C08","Abstract selections discriminate every possible concrete type",
"For a selection on an interface, the generated alternatives are one class per implementing object type, each pinned to its own __typename and carrying the interface-level fields plus the fields selected for that type only; with the catch-all enabled an unknown type still parses to the common fields. For a selection on a union, each selected member becomes one alternative pinned to its __typename with exactly its own fields, so a response parses to the class of its concrete type.",
PIC,"all interfaces and unions with any number of implementations, all mixes of direct fields, inline fragments and spreads on object types, in operations and in fragments",
"Each implementation and each selection shape is a separate path, and confusion between two of them needs a particular response.",
["turms/recurse.py","turms/plugins/fragments.py","turms/utils.py","turms/registry.py"],
[("recurse_annotation","turms/recurse.py"),("generate_fragment","turms/plugins/fragments.py"),("generate_typename_field","turms/utils.py"),("generate_generic_typename_field","turms/utils.py"),("ClassRegistry.get_interface_fragment_implementation_or_none","turms/registry.py")])
p("C09","Pipeline stages run in configured order and failures name their component",
"Plugins, then parsers, then processors run each exactly once in configured order, every stage receiving precisely the previous stage's result; imports and helpers come before plugin output and forward-reference rebuilds come last (and only unless skipped). When any plugin, parser or processor raises, generation stops with a generation error that names the failing component and keeps the cause.",
["configurations","fault_sequences"],"all lists of plugins, parsers and processors, and any one of them failing with any exception",
"The claim is about every list and every failing position, with third-party components included.",
["turms/run.py"],
[("generate_ast","turms/run.py"),("parse_ast","turms/run.py"),("process_code","turms/run.py"),("generate_code","turms/run.py"),("generate","turms/run.py")])
p("C10","Projects are isolated and failures are reported",
"In a run over several projects, each project whose generation succeeds is written to its own output file with exactly the generated code, a project whose generation fails leaves its existing files untouched, and no failure keeps the other projects from being generated (only strict mode stops at the first). The run reports failure exactly when some failing project asks to exit on error (or strict mode is on); schema and configuration dumps are written exactly when enabled.",
["configurations","fault_sequences"],"all sets of projects, every subset of them failing at any generation step, every combination of dump and exit options",
"The number of failure subsets and option combinations is exponential; tests run single projects.",
["turms/cli/main.py","turms/run.py"],
[("generate_projects","turms/cli/main.py"),("gen","turms/run.py"),("write_code_to_file","turms/run.py"),("write_schema_to_file","turms/run.py"),("write_project","turms/run.py"),("with_projects","turms/cli/main.py")])
p("C11","Merging keeps hand-written code and adds everything new",
"Merging new output into an existing module keeps every existing statement in its order, including comments, hand-written bodies of functions and methods and unknown members; existing functions and annotated attributes take over the generated signature (with its decorators and the lines above it) or annotation. Every generated class, function, method and annotated attribute is present exactly once afterwards, and merging the same output again changes nothing.",
["programs"],"all pairs of existing and generated modules (top-level classes and functions, one level of class members)",
"It quantifies over pairs of programs; insertion positions depend on the interleaving of old and new definitions.",
["turms/processors/merge.py"],
[("merge_code","turms/processors/merge.py"),("merge_class","turms/processors/merge.py"),("merge_functions","turms/processors/merge.py"),("merge_statements","turms/processors/merge.py"),("MergeProcessor.run","turms/processors/merge.py")])
p("C12","Model options reach exactly the models they select",
"A generated model is frozen exactly when freezing is enabled, its kind is listed and the type is not excluded and, if an include list is given, included; the configured model options and per-type additional settings follow the same selection with exactly the configured values. Options that are not set are not emitted, for both supported pydantic versions.",
IC,"all kinds of models, all type names, all combinations of enabled/types/include/exclude and option values",
"The combinations of selection lists, kinds and options are far beyond what tests enumerate.",
["turms/utils.py","turms/recurse.py","turms/plugins/inputs.py","turms/plugins/fragments.py","turms/plugins/operations.py","turms/plugins/objects.py"],
[("generate_config_dict","turms/utils.py"),("generate_config_class_pydantic","turms/utils.py"),("generate_pydantic_config","turms/utils.py"),("generate_arguments_config","turms/plugins/operations.py")])
p("C13","Generated enums mirror schema enums value for value",
"Every emitted enum is a string enum with exactly one member per schema value, in schema order, whose runtime value is exactly the GraphQL value even where the member name had to be escaped, so that serialising and parsing a member is lossless. Emitted is every enum of the schema that passes the configured underscore and reference filters, exactly once, under its styled name.",
IC,"all enum types and value names (keywords and reserved enum names included), all filter settings",
"Value names that collide with Python are rare in samples, and losing one member goes unnoticed until it is received.",
["turms/plugins/enums.py","turms/registry.py"],
[("generate_enums","turms/plugins/enums.py"),("ClassRegistry.generate_enum","turms/registry.py"),("ClassRegistry.reference_enum","turms/registry.py")])
p("C14","Generated functions send exactly what the caller passed",
"A generated function takes the configured extra arguments, one required parameter per required variable and one optional parameter per other variable, and hands its proxy the extra arguments, the matching operation class, and a payload holding exactly the variables the caller supplied, keyed by GraphQL name: unsupplied ones are absent while an explicit None is sent. It returns (or, for subscriptions, yields) the proxy's result, unwrapped to the single field when collapsing is on, and is asynchronous exactly when its definition says so.",
PIC,"all operations and variable definitions, all function definitions, extra arguments, coercions, expansion and collapse settings (no variable named like the function's own locals 'variables' and 'event')",
"Presence and absence of each optional argument gives exponentially many calls per function.",
["turms/plugins/funcs.py"],
[("generate_parameters","turms/plugins/funcs.py"),("generate_variable_assignments","turms/plugins/funcs.py"),("generate_operation_func","turms/plugins/funcs.py"),("genereate_sync_call","turms/plugins/funcs.py"),("genereate_async_call","turms/plugins/funcs.py"),("genereate_sync_iterator","turms/plugins/funcs.py"),("genereate_async_iterator","turms/plugins/funcs.py"),("get_definitions_for_onode","turms/plugins/funcs.py")])
p("C15","Input factories build the input the caller described",
"For every generated plain input model there is one factory whose required parameters are exactly the fields that are non-null without default, and whose result carries exactly the supplied fields under their GraphQL names, leaving unsupplied ones unset and keeping an explicit None.",
PIC,"all input object types that are modelled as a class (neither oneOf nor tagged union), all supplied/unsupplied combinations (no field named like the factory's own local 'data')",
"Exponentially many supplied/unsupplied combinations per factory.",
["turms/plugins/input_funcs.py","turms/plugins/funcs.py"],
[("generate_input_func","turms/plugins/input_funcs.py"),("generate_input_funcs","turms/plugins/input_funcs.py"),("generate_input_type_params","turms/plugins/funcs.py")])
p("C16","Pruning keeps every type the documents need and drops the rest",
"With pruning enabled, the emitted enums and inputs are exactly those reachable from the documents: through variable types, transitively through input fields and through members of a referenced tagged union, and through every selected field of operations, fragments and inline fragments. Without pruning every type of the schema that passes the name filters is emitted.",
PIC,"all schemas with arbitrary (also cyclic) input graphs and all documents",
"Transitive closure over cyclic graphs has unboundedly many shapes.",
["turms/referencer.py","turms/plugins/enums.py","turms/plugins/inputs.py"],
[("create_reference_registry_from_documents","turms/referencer.py"),("recurse_find_references","turms/referencer.py"),("recurse_type_annotation","turms/referencer.py"),("generate_enums","turms/plugins/enums.py"),("generate_inputs","turms/plugins/inputs.py")])
p("C17","Scalars map to their configured Python types everywhere",
"Every scalar reference in results, arguments, inputs and functions uses the configured Python type, user definitions overriding the defaults, with a dotted type imported and referred to by its last component; coercible scalars and inputs apply to function and factory parameters only. A scalar without mapping fails generation with an error naming it instead of emitting a wrong type.",
IC,"all scalar names, all scalar and coercion maps, global and per plugin",
"The override and fallback rules apply to arbitrary user maps at every place a scalar can occur.",
["turms/registry.py","turms/plugins/funcs.py","turms/utils.py"],
[("ClassRegistry.reference_scalar","turms/registry.py"),("generate_variable_annotation","turms/plugins/funcs.py"),("generate_input_annotation","turms/plugins/funcs.py"),("coercible_input_union","turms/plugins/funcs.py")])
p("C18","Schemas, documents and configurations are loaded completely and once",
"Every schema source of a project contributes exactly once and every document file matched by the pattern is read in sorted order and kept apart from its neighbours; an empty match, an unreadable source or an unsupported type is an error. Exactly one recognised configuration file is selected in a folder (none or several is an error), is read by its file type, and yields every project it defines or exactly the selected one.",
["inputs","configurations"],"all lists and maps of schema sources, all sets of document files and contents, all folder contents",
"File sets, their contents and boundaries between concatenated files vary without bound.",
["turms/run.py","turms/helpers.py","turms/utils.py"],
[("build_schema_from_schema_type","turms/run.py"),("load_dsl_from_glob","turms/helpers.py"),("load_introspection_from_glob","turms/helpers.py"),("parse_documents","turms/utils.py"),("scan_folder_for_single_config","turms/run.py"),("load_projects_from_configpath","turms/run.py"),("get_file_loader","turms/run.py")])
p("C19","oneOf and tagged-union inputs serialise to the wire form they stand for",
"A value of a oneOf input always serialises to an object with exactly the one chosen field, and nothing but its declared alternatives is accepted; a oneOf declaration with a non-null or defaulted field is rejected. A member of a tagged input union always carries its discriminator with its own key on the wire, the union parses to the member named by the discriminator, and conflicting declarations are rejected.",
PIC,"all oneOf types (scalar, enum, list, input and duplicate members) and all sets of union memberships",
"The emitted form depends on all members jointly; tests exercise a few.",
["turms/plugins/inputs.py","turms/utils.py"],
[("generate_oneof_wrapper_input","turms/plugins/inputs.py"),("generate_oneof_direct_union","turms/plugins/inputs.py"),("get_oneof_member_map","turms/plugins/inputs.py"),("validate_oneof_input_type","turms/plugins/inputs.py"),("is_oneof_input_type","turms/utils.py"),("generate_inputs","turms/plugins/inputs.py"),("generate_input_type","turms/plugins/inputs.py")])
p("C20","Deprecations and schema defaults are recorded faithfully",
"A field, input field or variable carries a deprecation marker exactly when the schema deprecates it, with that reason, and a default marker exactly when a non-null default is declared, with that default; the marker never changes the type or the requiredness. The configured marker classes are used when given, and folding this metadata into the documentation follows the corresponding switch.",
IC,"all deprecation reasons and default values (scalars, enums, lists, objects), all marker overrides",
"Default values are arbitrary nested literals; a dropped or altered one is visible only on inspection.",
["turms/utils.py","turms/registry.py","turms/plugins/operations.py","turms/plugins/inputs.py","turms/recurse.py"],
[("annotate_field_metadata","turms/utils.py"),("compose_field_documentation","turms/utils.py"),("parse_value_node","turms/utils.py"),("ClassRegistry.reference_graphql_default","turms/registry.py"),("ClassRegistry.reference_deprecated","turms/registry.py")])
p("C21","Configured base classes end up on exactly the models they are configured for",
"Every generated model inherits the base classes configured for its kind (falling back to the general object bases) and the additional bases configured for its GraphQL type, all of them imported, in an order Python can linearise; no model receives a base configured for another kind or type.",
IC,"all kinds of models, all configured base lists and type names",
"Which bases apply depends on kind, type and fallbacks in combination.",
["turms/utils.py","turms/plugins/operations.py","turms/plugins/fragments.py","turms/recurse.py","turms/plugins/inputs.py"],
[("get_additional_bases_for_type","turms/utils.py"),("get_interface_bases","turms/utils.py"),("get_query_bases","turms/plugins/operations.py"),("get_mutation_bases","turms/plugins/operations.py"),("get_subscription_bases","turms/plugins/operations.py"),("get_arguments_bases","turms/plugins/operations.py"),("get_fragment_bases","turms/plugins/fragments.py")])
p("C22","Schema object models mirror the schema's types and hierarchy",
"The object generator emits one model per object and interface type of the schema (subject to the underscore filters) with one attribute per field, typed, defaulted and aliased as the schema says; each object inherits the models of the interfaces it implements directly. A reference to an interface or union admits exactly its possible types, and an interface nobody implements is an error unless configured otherwise.",
PIC,"all schemas with any interface hierarchy, unions and recursive types",
"Type graphs and hierarchies are unbounded, including diamonds and cycles.",
["turms/plugins/objects.py","turms/utils.py","turms/registry.py"],
[("generate_types","turms/plugins/objects.py"),("generate_object_field_annotation","turms/plugins/objects.py"),("interface_is_extended_by_other_interfaces","turms/utils.py"),("ClassRegistry.reference_interface","turms/registry.py"),("ClassRegistry.inherit_interface","turms/registry.py")])
p("C23","Invalid documents never produce code",
"A document set that violates the GraphQL specification against the schema is rejected with an error listing the violations before any class is generated, and a valid one is never rejected. The rules enforced are all specified rules except exactly those the configuration omits; an unknown rule name in the configuration is an error.",
PIC,"all documents and schemas, all subsets of omitted rules",
"Every rule and every omission list is a separate case; tests exercise a handful.",
["turms/utils.py","turms/config.py","turms/rules.py"],
[("parse_documents","turms/utils.py"),("GeneratorConfig.get_document_rules","turms/config.py"),("specified_rules_map","turms/rules.py")])
p("C24","The strawberry scaffold mirrors the schema",
"The server scaffold declares every enum, input, interface and object type and every directive of the schema with all of their values, fields and arguments, each annotated with the Python type its GraphQL type denotes, nullable ones optional; renamed fields keep their GraphQL name.",
PIC,"all schemas with any nesting of list and non-null types over every kind of leaf",
"Every wrapper depth and leaf kind occurs in field, argument and input positions.",
["turms/plugins/strawberry.py"],
[("generate_object_field_annotation","turms/plugins/strawberry.py"),("generate_types","turms/plugins/strawberry.py"),("generate_inputs","turms/plugins/strawberry.py"),("default_generate_enums","turms/plugins/strawberry.py"),("default_generate_directives","turms/plugins/strawberry.py")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import re
for x in P:
    n=len(re.findall(r"[.](?=\s|$)",x["statement"])); 
    if n>3: print("sentences",x["id"],n)
