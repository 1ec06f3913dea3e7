import importlib
MAP, KIND = {}, {}


def _add(module, kind, *props):
    for p in props:
        MAP[p], KIND[p] = module, kind


_add("props_sim", "sim", "C01", "C02", "C03", "C04")
_add("props_ind", "ind", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23")
_add("props_ctor", "ctor", "C14", "C15")
_add("props_frame", "frame", "C10", "C11", "C13")
_add("props_api", "api", "C07", "C08", "C12")
_add("props_life", "life", "C06", "C27")
_add("props_value", "value", "C09")
_add("props_simargs", "args", "C05")
_add("props_graph", "graph", "C28", "C29")
_add("props_sig", "sig", "C24", "C25", "C26")


def run(prop):
    return importlib.import_module(MAP[prop]).run(prop)
