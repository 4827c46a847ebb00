"""which oracles decide which property on generated inputs (bounded)

PROPS[pid] = [(name, module, case function, check function, quick, thorough)]
case functions take a seed; names with a dot are resolved in bounded.<module>
"""
import random


def pipeline(seed):
    from .gen import pipeline_case

    return pipeline_case(seed)


def batch(seed):
    from . import o_config, o_funcs, o_oneof, o_straw, o_types
    from .gen import pipeline_case

    r = random.Random(seed)
    out = []
    makers = [pipeline_case, pipeline_case, o_funcs.funcs_case, o_types.enum_case, o_types.pruning_case, o_types.meta_case, o_types.objects_case,
              o_straw.straw_case, o_config.bases_case, o_config.config_case, o_oneof.oneof_case]
    for i in range(8):
        try:
            c = r.choice(makers)(seed * 100 + i)
        except RuntimeError:
            continue
        if isinstance(c, dict) and "sdl" in c and "plugins" in c:
            out.append({k: v for k, v in c.items() if k in ("sdl", "docs", "cfg", "pcfg", "plugins", "stylers", "parsers")})
    return {"batch": out}


P = "props.pipeline"
PROPS = {
    "C01": [("responses", "o_results", "results_case", "check_responses", 700, 8000)],
    "C02": [("arguments", "o_inputs", P, "check_arguments", 700, 8000)],
    "C03": [("names", "o_module", P, "check_names", 700, 8000), ("scaffold names", "o_straw", "straw_case", "check_scaffold", 60, 1500)],
    "C04": [("module", "o_module", P, "check_module", 250, 5000), ("funcs", "o_module", "o_funcs.funcs_case", "check_module", 60, 2000),
            ("bases", "o_config", "bases_case", "check_bases", 60, 1500), ("objects", "o_types", "objects_case", "check_objects", 60, 1500)],
    "C05": [("documents", "o_module", P, "check_documents", 700, 8000)],
    "C06": [("fragment order", "o_module", P, "check_fragment_order", 500, 8000),
            ("every graph of up to four fragments", "o_module", "graph_case", "check_fragment_order", 572, 20000)],
    "C07": [("hash seeds", "o_module", "props.batch", "check_determinism", 6, 60)],
    "C08": [("responses", "o_results", "results_case", "check_responses", 700, 8000)],
    "C09": [("stages", "o_run", "stages_case", "check_stages", 400, 20000)],
    "C10": [("projects", "o_run", "projects_case", "check_projects", 80, 2500)],
    "C11": [("merge", "o_merge", "merge_case", "check_merge", 500, 20000)],
    "C12": [("options", "o_config", "config_case", "check_options", 700, 8000)],
    "C13": [("enums", "o_types", "enum_case", "check_enums", 800, 8000)],
    "C14": [("functions", "o_funcs", "funcs_case", "check_funcs", 150, 4000)],
    "C15": [("factories", "o_funcs", "funcs_case", "check_factories", 200, 5000)],
    "C16": [("pruning", "o_types", "pruning_case", "check_pruning", 800, 8000)],
    "C17": [("scalars", "o_types", "scalar_case", "check_scalars", 150, 4000), ("unmapped", "o_types", "unmapped_case", "check_unmapped", 100, 3000),
            ("functions", "o_funcs", "funcs_case", "check_funcs", 60, 2000), ("factories", "o_funcs", "funcs_case", "check_factories", 60, 2000)],
    "C18": [("sources", "o_run", "sources_case", "check_sources", 150, 5000), ("documents", "o_run", "docs_case", "check_docfiles", 200, 10000),
            ("configuration files", "o_run", "config_files_case", "check_config_files", 150, 8000)],
    "C19": [("oneOf", "o_oneof", "oneof_case", "check_oneof", 600, 8000), ("rejected", "o_oneof", "bad_case", "check_rejected", 20, 200)],
    "C20": [("metadata", "o_types", "meta_case", "check_metadata", 600, 8000)],
    "C21": [("bases", "o_config", "bases_case", "check_bases", 600, 8000)],
    "C22": [("objects", "o_types", "objects_case", "check_objects", 600, 8000), ("orphans", "o_types", "orphan_case", "check_orphans", 60, 1000)],
    "C23": [("validation", "o_run", "validation_case", "check_validation", 250, 10000)],
    "C24": [("scaffold", "o_straw", "straw_case", "check_scaffold", 200, 5000)],
}


def resolve(mod, name):
    import importlib

    if "." in name:
        mod, name = name.split(".")
    return getattr(importlib.import_module("bounded." + mod), name)
