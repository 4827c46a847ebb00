"""levels and notes per property -> levels.json (read by mkmanifest.py and mkdesign.py)"""
import json, os

T = "contracts on the real functions, every obligation discharged by symbolic execution with z3/cvc5 (vf)"
B = "; bounded oracle as labelled stand-in for what no unit covers"
ASSUME = "Trusted: vf's models of Python and of graphql-core's nodes (DESIGN.md 1), z3, cvc5. "

P = {
    "C01": ("proof", "Proved for all inputs: annotation, requiredness, alias and position of every selected field of operations, fragments and nested selections (recurse_annotation, generate_operations, generate_fragments). "
                     "Composition of these contracts into 'every conforming response validates' (pydantic's part) is checked boundedly, as are the shapes listed as known-unsupported in DESIGN.md 4."),
    "C02": ("proof", "Proved for all inputs: annotation and requiredness of operation variables and input fields, defaults not baked in, one attribute per field, for schemas without @unionElementOf. The serialisation by pydantic and tagged unions are bounded."),
    "C03": ("proof", "Proved: the registry's node/parameter/class names for every styler chain (applied in order, escaped when keyword or not identifier), alias exactly when renamed in every generator, references use the styled names. Stylers themselves are arbitrary functions of a string in these proofs (their own bodies are bounded)."),
    "C04": ("exploration", "Proved per function: every typing/pydantic name a generated annotation, base or body uses is registered for import or as builtin; forward references are recorded and rebuilt. That the whole module is closed (ordering of definitions across plugins, emission of the import statements) is bounded: generated modules are imported."),
    "C05": ("proof", "Proved for all documents: the reachable fragments (exactly once, none else), __typename added only where missing, everything else kept. print_ast of graphql-core is external; the printed text is parsed, validated and compared boundedly."),
    "C06": ("exploration", "Proved: dependencies of a fragment are those it uses directly, through fields and inline fragments; the generator emits the fragments in the order topological_sort gives. topological_sort and the recursive dependency search are checked exhaustively for small graphs only (bounded)."),
    "C07": ("exploration", "Proved: registered imports, builtins and forward references are emitted in an order that does not depend on set order. Byte-identity over hash seeds, processes and history is bounded (generation in several processes)."),
    "C08": ("proof", "Proved: classes per implementing type and per union member, their bases, pinned __typename, own fields, catch-all member (recurse_annotation, generate_fragments). Parsing to the right class by pydantic is bounded."),
    "C09": ("proof", "Proved: the order of plugins, parsers and processors, that each receives the previous result, the position of imports, builtins and rebuilds, and that a failure becomes a generation error naming the component with its cause (generate_ast, generate_code, instantiate)."),
    "C10": ("proof", "Proved: per project generation, writing, reporting and exit status for any sequence of failures (generate, gen, write_*). File system and console are externals; the interplay is also bounded."),
    "C11": ("exploration", "Proved: merge_functions, merge_statements, retrieve_symbol_name, MergeProcessor.run. merge_class and merge_code (position arithmetic on libcst trees) are bounded."),
    "C12": ("proof", "Proved: freeze and options selection per kind and type, content of ConfigDict/class Config for both versions, additional config, and that each generator attaches it to each of its models."),
    "C13": ("proof", "Proved for all schemas and options: one class per enum passing the filters, one member per value, in order, value untouched, name escaped; member lookup at run time is Python's enum (bounded)."),
    "C14": ("proof", "Proved: parameters, requiredness, payload, proxy call, collapse, return annotation, sync/async for every definition and operation. The docstring is assumed pure; execution of the generated function is bounded."),
    "C15": ("proof", "Proved: one factory per plain input, parameters, required ones, payload keys. Execution of the factories is bounded."),
    "C16": ("proof", "Proved: the reference search (one induction contract assumed: the recursive closure over input fields), the filters of the enum and input generators. Exactness over whole schemas is also bounded."),
    "C17": ("proof", "Proved: reference_scalar (user map over defaults, import, unmapped is an error) and its use at every leaf; coercible types for parameters only."),
    "C18": ("proof", "Proved: schema sources (files, globs, urls, lists), documents (sorted, separated, empty is an error), configuration discovery and parsing. Network and file system are externals."),
    "C19": ("exploration", "Proved: oneOf detection, validation, wrapper classes, union aliases, selection of members. The direct-union template and tagged unions are bounded."),
    "C20": ("proof", "Proved: markers exactly when deprecated / defaulted, values, documentation folding, for fields, inputs and variables."),
    "C21": ("proof", "Proved: bases per kind, per type, per interface, order and imports in every generator; linearisability by Python is bounded."),
    "C22": ("exploration", "Proved: field annotations. generate_types (sorting by a computed key, interface unions) is bounded."),
    "C23": ("proof", "Proved: rules enforced are the specified rules except the omitted ones, violations raise before anything is generated, documents without violations pass. graphql.validate is external."),
    "C24": ("exploration", "Proved: enums, inputs, scalars, directives, applied directives, annotations, the plugin. generate_types (sorting by a computed key) is bounded."),
}
json.dump({k: {"level": l, "technique": T + B, "note": ASSUME + n} for k, (l, n) in P.items()}, open(os.path.join(os.path.dirname(__file__), "levels.json"), "w"), indent=1)
