"""The properties: which histories are generated and which findings belong to them."""
from . import engine, scopes
from .histories import *     # noqa
from .histories import many
from .cases import *         # noqa

FUNCS = {"LattTrace": engine.lattice_history, "ToolTrace": engine.query_case}


class Part:
    def __init__(self, name, items=None, own=".", module="LattTrace", model=None):
        self.name = name
        self.items = items
        self.own = own
        self.module = module
        self.func = FUNCS.get(module)
        self.model = model
        self.info = {}


class Prop:
    def __init__(self, parts, level="model_checking", assumptions=()):
        self.parts = parts
        self.level = level
        self.assumptions = list(assumptions)


def lattice_parts(pid, own, *makes):
    """makes: (function, quick count, thorough count)"""
    def parts(tier, seed):
        for name, model in scopes.parts(pid, tier):
            yield Part(name, own=own, model=model)
        for make, q, t in makes:
            yield Part(make.__name__, many(pid, seed, q if tier == "quick" else t, make), own)
    return parts


def tool_parts(pid, *makes):
    def parts(tier, seed):
        for name, model in scopes.tool_parts(pid, tier):
            yield Part(name, module="ToolTrace", model=model)
        for make, q, t in makes:
            yield Part(make.__name__, many(pid, seed, q if tier == "quick" else t, make), ".", "ToolTrace")
    return parts


# Findings of the build itself, which other properties leave to C05
NOBUILD = r"^(?!(build: build: |new:))"

PROPS = {
    "C03": Prop(lattice_parts("C03", r"^(new|atom|con|cons|ana|nb): |recording", (h_ana, 240, 2400), (h_ana_deep, 40, 400), (h_four_ana, 10, 100))),
    "C04": Prop(lattice_parts("C04", r".", (h_config, 300, 3000))),
    "C05": Prop(lattice_parts("C05", r"build: (?!sampled (n|a|u|c|l))|raw: |sites|positions|num_sites|recording", (h_build, 260, 2600), (h_build_large, 16, 120), (h_raw, 100, 1000), (h_four, 10, 100), (h_huge, 2, 6))),
    "C06": Prop(lattice_parts("C06", NOBUILD, (h_nb, 200, 2000), (h_nb_large, 12, 80), (h_nb_many, 2, 2), (h_byte, 6, 24), (h_four, 10, 100), (h_huge, 2, 6))),
    "C07": Prop(lattice_parts("C07", NOBUILD, (h_per, 240, 2400), (h_byte_per, 6, 24), (h_four_per, 10, 80), (h_huge_per, 2, 5))),
    "C08": Prop(lattice_parts("C08", NOBUILD, (h_views, 160, 1600), (h_views_large, 8, 60), (h_byte_views, 6, 24), (h_four_views, 6, 60), (h_huge_views, 2, 5))),
    "C09": Prop(lattice_parts("C09", NOBUILD, (h_remove, 200, 2000), (h_remove_large, 8, 60), (h_byte_remove, 6, 24), (h_four_remove, 8, 80), (h_huge_remove, 2, 4))),
    "C10": Prop(lattice_parts("C10", NOBUILD, (h_join, 260, 2600), (h_conn, 80, 800), (h_byte_join, 6, 24), (h_four_grow, 8, 80), (h_huge_join, 1, 3))),
    "C11": Prop(lattice_parts("C11", NOBUILD, (h_copy, 240, 2400), (h_differ, 120, 600))),
    "C12": Prop(lattice_parts("C12", r"^query: |sampled (sites|lookups)|recording", (h_query, 300, 3000), (h_query_large, 8, 60), (h_four_query, 8, 80), (h_huge, 2, 4))),
    "C18": Prop(lattice_parts("C18", r".", (h_preset, 390, 2600), (h_named, 80, 800))),
    "C01": Prop(tool_parts("C01", (h_coords, 400, 4000))),
    "C02": Prop(tool_parts("C02", (h_recip, 400, 4000))),
    "C13": Prop(tool_parts("C13", (h_shape, 300, 3000))),
    "C14": Prop(tool_parts("C14", (h_cell, 200, 2000))),
    "C15": Prop(tool_parts("C15", (h_path, 400, 4000))),
    "C16": Prop(tool_parts("C16", (h_atoms, 400, 4000), (h_lookup, 100, 1000))),
    "C17": Prop(tool_parts("C17", (h_helpers, 300, 3000))),
}


def get(pid):
    return PROPS[pid]
