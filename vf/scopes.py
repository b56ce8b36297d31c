"""Scopes of the exhaustive models MCLattice.tla and MCTools.tla and the replay of their behaviours.

A scope holds menus (bases, atoms, shapes, ...); TLC explores all behaviours over them up to
a depth and prints every transition with a path to it. The paths become histories."""
import json
import os
import tempfile

from . import tlc


def box(lo, hi, q=1, mn=0):
    return dict(sh=dict(k="box", q=q, lo=lo, hi=hi), mn=mn, dim=len(lo))


def prim(lo, n):
    """n cells along each axis from lo (no atoms on the upper faces)"""
    return dict(sh=dict(k="prim", q=13, lo=[13 * x for x in lo], hi=[13 * x + 13 * m - 1 for x, m in zip(lo, n)]),
                mn=0, dim=len(lo))


def base(B, W=None, unit=1, ctor="array"):
    return dict(B=B, W=W or [1] * len(B), unit=str(float(unit)), ctor=ctor)


def atom(*pos, name="A"):
    return dict(name=name, pos=list(pos))


def join(ax, side, size=1, num=1):
    return dict(ax=ax, side=side, size=size, num=num)


def scope(ops, depth, bases, atoms, configured=True, cs=(1,), nbs=(0,), shapes=(), bper=((),), axes=((),), gone=(),
          sorts=(), joins=(), copies=(), maxatoms=2, maxsites=40):
    return dict(ops=list(ops), depth=depth, bases=bases, atoms=atoms, configured=configured, cs=list(cs),
                nbs=list(nbs), shapes=list(shapes), bper=[list(x) for x in bper], axes=[list(x) for x in axes],
                gone=[list(x) for x in gone], sorts=list(sorts), joins=list(joins), copies=list(copies),
                maxatoms=maxatoms, maxsites=maxsites)


CHAIN = base([[1]])
CHAIN3 = base([[3]], unit=0.5)
SQUARE = base([[1, 0], [0, 1]])
RECT = base([[2, 0], [0, 3]], unit=0.7)
SKEW = base([[2, 0], [1, 2]])
HEX = base([[3, 1], [3, -1]], [1, 3], 0.5, "list")
CUBE = base([[1, 0, 0], [0, 1, 0], [0, 0, 1]])
FCC = base([[1, 1, 0], [1, 0, 1], [0, 1, 1]], unit=0.5)


class Model:
    """Model and the histories of its transitions."""

    def __init__(self, sc, obs=(), module="MCLattice"):
        self.sc, self.obs, self.module = sc, list(obs), module

    def run(self):
        d = tempfile.mkdtemp(prefix="scope_")
        f = os.path.join(d, "scope.json")
        with open(f, "w") as h:
            json.dump(self.sc, h)
        try:
            return tlc.check_model(self.module, self.module + ".cfg", dict(SCOPE=f), workers=1)
        finally:
            os.remove(f)
            os.rmdir(d)

    def histories(self, out):
        paths = [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"PATH|')]
        pre = set()
        keys = [tuple(json.dumps(st, sort_keys=True) for st in p) for p in paths]
        for k in keys:
            for i in range(1, len(k)):
                pre.add(k[:i])
        hist = []
        for p, k in zip(paths, keys):
            if k in pre:
                continue
            h = [dict(st) for st in p]
            names = set()
            if self.module == "MCTools":
                for st in h:
                    names.add(st.get("o", ""))
                    st["obs"] = sorted(names - {""})
                hist.append(h)
                continue
            for i, st in enumerate(h):
                names.add(st["o"])
                st["obs"] = []
                if i >= len(h) - 2:
                    st["obs"] = [[x, self.obs] for x in sorted(names)]
            hist.append(h)
        return hist


# ------------------------------------------------------------------------------------
# Scopes per property: name -> (scope for the quick tier, scope for the thorough tier)

def ranges(*rs):
    out = [[]]
    for r in rs:
        out = [x + [y] for x in out for y in r]
    return out


def boxes(los, sizes, q=1):
    return [box(lo, [a + b for a, b in zip(lo, s)], q) for lo in los for s in sizes]


def circles(cs, r2s, q=2, i2=None):
    out = []
    for c in cs:
        for r2 in r2s:
            sh = dict(k="circle", q=q, c=c, r2=r2)
            if i2 is not None:
                sh.update(k="donut", i2=i2)
            out.append(dict(sh=sh, mn=0, dim=len(c)))
    return out


def subsets(d):
    return [[k for k in range(d) if m >> k & 1] for m in range(2 ** d)]


ALL = ["build", "per", "remove", "sort", "repeat", "extend"]
SORTS = [dict(ax=0, rev=False), dict(ax=1, rev=True), dict(ax=2, rev=False)]
J1 = [join(1, 1, 4), join(1, -1, 4, 2)]
J2 = [join(1, 1, 2), join(2, -1, 3), join(2, 1, 3, 2)]
TWO1 = [atom(0), atom(1, name="B")]
TWO2 = [atom(0, 0), atom(1, 1, name="B")]
ONE1, ONE2, ONE3 = [atom(0)], [atom(0, 0)], [atom(0, 0, 0)]


def finite(kind, ops, depth, **kw):
    """A small lattice of each kind, for operations on finite lattices."""
    if kind == "chain":
        a = dict(bases=[CHAIN3], atoms=TWO1, cs=(2,), shapes=[box([0], [10]), prim([-2], [3])], axes=[[], [0]],
                 bper=[[], [0]], gone=[[0], [1, 3]], sorts=SORTS, joins=J1)
    elif kind == "rect":
        a = dict(bases=[RECT], atoms=TWO2, shapes=[box([0, 0], [3, 4]), prim([0, -1], [2, 2])],
                 axes=[[], [0], [1], [1, 0]], gone=[[0], [1, 2]], sorts=SORTS, joins=J2)
    elif kind == "skew":
        a = dict(bases=[SKEW], atoms=ONE2, cs=(2,), shapes=[prim([0, 0], [3, 3]), prim([-1, 0], [2, 3])],
                 axes=[[], [0], [0, 1]], gone=[[0, 2], [3]], sorts=SORTS, joins=J2)
    elif kind == "hex":
        a = dict(bases=[HEX], atoms=[atom(0, 0), atom(2, 0)], shapes=[box([0, -1], [9, 2]), prim([0, 0], [3, 2])],
                 axes=[[], [1], [0, 1]], gone=[[0], [2, 5]], sorts=SORTS, joins=[join(1, 1, 6), join(2, -1, 2)])
    elif kind == "cube":
        a = dict(bases=[CUBE], atoms=ONE3, cs=(2,), shapes=[box([0, 0, 0], [2, 1, 1]), prim([0, 0, 0], [3, 3, 1])],
                 axes=[[], [0], [0, 1], [0, 1, 2]], gone=[[0], [1, 4]], sorts=SORTS,
                 joins=[join(3, 1, 1), join(1, -1, 1)])
    a.update(kw)
    return scope(ops, depth, **a)


OBS = dict(
    C03=["cfg", "ana"],
    C04=["cfg", "ana", "built", "sites", "all"],
    C05=["sites", "n", "pos"],
    C06=["sites", "dvals", "all", "dist"],
    C07=["sites", "dvals", "all", "dist", "reg", "perf", "per", "pax", "mind"],
    C08=["sites", "dvals", "all", "dist", "uniq", "near", "unear", "iter", "uiter", "pairs", "upairs", "chk", "adj", "dmap",
         "csr", "bsr"],
    C09=["sites", "n", "pos", "dvals", "all", "dist", "reg", "perf", "per", "pax", "pairs"],
    C10=["sites", "n", "pos", "dvals", "all", "dist", "pax", "perf"],
    C11=["cfg", "ana", "built", "sites", "pos", "dvals", "all", "dist", "pairs", "adj", "pax", "perf", "dmap"],
    C12=["sites"],
)


def scopes(pid, tier):
    """(name, scope) of the models of a property."""
    q = tier == "quick"
    if pid == "C03":
        ops = ["atom", "con", "cons", "nb"]
        for n, b, at in (("chain", CHAIN3, [atom(0), atom(1)]), ("skew", SKEW, [atom(0, 0), atom(1, 1)]),
                         ("hex", HEX, [atom(0, 0), atom(2, 0)])):
            yield n, scope(ops, 3 if q else 4, [b], at, configured=False, cs=(1, 2), nbs=(0, 2))
        yield "bases", scope(["nb"], 1, [base([[2 * a, 2 * b], [2 * c, 2 * d]]) for a in (1, 2) for b in (-1, 0, 2)
                                         for c in (-1, 0, 1) for d in (1, 3) if a * d != b * c],
                             TWO2, cs=(3,))
        if not q:
            yield "bases3d", scope(["nb"], 1, [base([[a, b, 0], [0, c, d], [e, 0, 1]]) for a in (1, 2) for b in (-1, 0, 1)
                                              for c in (1, 2) for d in (0, 1) for e in (-1, 0, 1)
                                              if a * c + b * d * e], [atom(0, 0, 0)], cs=(3,))
    elif pid == "C04":
        ops = ["atom", "con", "cons", "ana", "nb", "build", "per", "baddim"]
        at = [atom(0), atom(1, name="B")]
        yield "chain", scope(ops, 4 if q else 5, [CHAIN3], at, configured=False, cs=(0, 1), nbs=(0, 1),
                             shapes=[box([0], [9])], axes=[[], [0]])
        if not q:
            yield "square", scope(ops, 5, [SQUARE], [atom(0, 0)], configured=False, cs=(0, 1, 2), nbs=(0, 1),
                                  shapes=[box([0, 0], [2, 2]), prim([0, 0], [2, 2])], axes=[[], [0], [1, 0]], maxatoms=1)
    elif pid in ("C05", "C06"):
        k = 1 if q else 2
        c = (1,) if pid == "C05" else (2,)
        yield "chain", scope(["build"], 1, [CHAIN3], TWO1, cs=c,
                             shapes=boxes(ranges(range(-4, 4)), ranges(range(1, 12)))
                             + boxes(ranges(range(-4, 3)), ranges(range(1, 15, 3)), 2)
                             + [prim([a], [n]) for a in range(-3, 3) for n in range(1, 5)])
        yield "skew", scope(["build"], 1, [SKEW], TWO2, cs=c,
                            shapes=boxes(ranges(range(-k, k + 1), range(-k, k + 1)), ranges(range(1, 6, 2), range(0, 6, 2)))
                            + [prim([a, b], [n, m]) for a in range(-k, 1) for b in range(0, k + 1) for n in range(1, 4)
                               for m in range(1, 4)]
                            + circles(ranges(range(-1, 3), (0, 3)), (4, 16, 17, 50))
                            + circles(ranges(range(-1, 1), (0, 1)), (16, 50), i2=9))
        yield "hex", scope(["build"], 1, [HEX], [atom(0, 0), atom(2, 0)], cs=c,
                           shapes=boxes(ranges(range(-k, k + 1, 2), (0, 1)), ranges(range(3, 9, 2), range(0, 5, 2)))
                           + [prim([a, b], [n, m]) for a in (-1, 0) for b in (0, 2) for n in (1, 3) for m in (1, 2)])
        yield "fcc", scope(["build"], 1, [FCC], ONE3, cs=c,
                           shapes=boxes([[0, 0, 0], [-1, 0, 2]], ranges((1, 2), (0, 2, 3), (1, 3)))
                           + [prim([a, 0, 0], [n, m, 2]) for a in (-1, 0) for n in (1, 2) for m in (1, 2)])
        yield "dangling", scope(["build"], 2, [RECT], TWO2, cs=c,
                                shapes=[box([0, 0], [a, b], mn=m) for a in (3, 4, 5) for b in (3, 4) for m in (0, 1, 2, 3)])
    elif pid == "C07":
        ops = ["build", "per"]
        for n in ("chain", "rect", "skew", "hex", "cube"):
            d = dict(chain=1, cube=3).get(n, 2)
            yield n, finite(n, ops, 3 if q else 4, axes=subsets(d), bper=subsets(d))
        yield "sizes", scope(ops, 2, [SQUARE], ONE2, cs=(2,), axes=[[0], [1], [0, 1]], bper=[[]],
                             shapes=boxes([[0, 0]], ranges(range(1, 6), range(1, 5)))
                             + [prim([0, 0], [n, m]) for n in range(2, 6) for m in range(2, 5)])
    elif pid == "C08":
        for n in ("chain", "rect") if q else ("chain", "rect", "skew", "hex", "cube"):
            yield n, finite(n, ALL, 3)
    elif pid == "C09":
        ops = ["build", "per", "remove", "sort"]
        for n in ("chain", "rect", "cube") if q else ("chain", "rect", "skew", "hex", "cube"):
            yield n, finite(n, ops, 4 if n == "chain" or not q else 3, gone=[[0], [1, 3], [4, 2, 0]])
    elif pid == "C10":
        for n in ("chain", "rect", "hex") if q else ("chain", "rect", "skew", "hex", "cube"):
            ops = ["build", "per", "repeat", "extend"] + (["copy", "append"] if n != "hex" else [])
            yield n, finite(n, ops, 3 if q or n != "chain" else 4, copies=["copy"])
        yield "sections", finite("rect", ["build", "extend"], 2,
                                 joins=[join(a, s, z) for a in (1, 2) for s in (1, -1) for z in (2, 3, 4, 5, 6)])
    elif pid == "C11":
        ops = ["copy", "fromdict", "param", "eq", "cons", "atom", "build", "per", "remove", "sort", "repeat"]
        yield "chain", scope(ops, 3 if q else 4, [CHAIN3], ONE1 + [atom(1)], cs=(1, 2), nbs=(1,), shapes=[box([0], [7])],
                             axes=[[0]], gone=[[1]], sorts=SORTS[:1], joins=J1[:1], copies=["copy", "pickle", "dump"])
        yield "rect", finite("rect", ["copy", "build", "per", "remove", "eq", "param"], 3 if q else 4,
                             copies=["deepcopy"], shapes=[box([0, 0], [3, 4])], axes=[[], [0]], gone=[[0]])
    elif pid == "C12":
        for n in ("chain", "rect", "hex") if q else ("chain", "rect", "skew", "hex", "cube"):
            yield n, finite(n, ALL + ["query"], 3)


def parts(pid, tier):
    for name, sc in scopes(pid, tier):
        yield "model_" + name, Model(sc, OBS[pid])


# ------------------------------------------------------------------------------------
def tools(kind, **kw):
    return dict(dict(kind=kind, unit="1.0", depth=1, dim=2, bz=False), **kw)


def tool_scopes(pid, tier):
    q = tier == "quick"
    if pid == "C01":
        yield "bases1d", tools("basis", dim=1, entries=4, range=9, q=4, unit="0.7")
        yield "bases2d", tools("basis", dim=2, entries=2, range=2 if q else 3, q=2, unit="1.0")
        if not q:
            yield "bases2d_small", tools("basis", dim=2, entries=2, range=3, q=3, unit="0.02")
            yield "bases3d", tools("basis", dim=3, entries=1, range=1, q=2, unit="1.3")
    elif pid == "C02":
        yield "bases1d", tools("recip", dim=1, entries=6, unit="0.7")
        yield "bases2d", tools("recip", dim=2, entries=2 if q else 4, unit="1.3")
        yield "numbers", tools("number", entries=3 if q else 5)
        if not q:
            yield "bases3d", tools("recip", dim=3, entries=1)
    elif pid == "C13":
        for d in (1, 2):
            for k in ("box", "circle", "donut"):
                yield k + str(d), tools("shape", shape=k, dim=d, B=[[1, 0], [0, 1]][:d] if d > 1 else [[1]], range=4 if d == 2 else 6,
                                        eps="0.0", unit="0.5")
        yield "hull", tools("shape", shape="hull", dim=2, B=[[1, 0], [0, 1]], range=3, corners=3 if q else 5, eps="1e-9")
        yield "prim", tools("shape", shape="prim", dim=2, B=[[2, 0], [1, 2]], range=5, eps="1e-9")
        if not q:
            for n, B in (("prim_left", [[0, 1], [1, 0]]), ("prim_neg", [[-1, 2], [2, 1]]), ("prim_flat", [[3, 0], [2, 1]])):
                yield n, tools("shape", shape="prim", dim=2, B=B, range=6, eps="1e-9")
            yield "circle3", tools("shape", shape="circle", dim=3, B=[[1, 0, 0], [0, 1, 0], [0, 0, 1]], range=3, eps="0.0")
            yield "box3", tools("shape", shape="box", dim=3, B=[[1, 0, 0], [0, 1, 0], [0, 0, 1]], range=2, eps="0.0")
    elif pid == "C14":
        yield "cells1d", tools("cell", dim=1, entries=5, range=9, q=3, bz=True)
        yield "cells2d", tools("cell", dim=2, entries=1 if q else 2, range=4, q=3, bz=True)
        if not q:
            yield "cells3d", tools("cell", dim=3, entries=1, range=2, q=2, bz=False)
    elif pid == "C15":
        pts = dict(points=[[0, 0, 0], [1, 2, 3]] + ([] if q else [[1, 0, 0]]), names=["", "X"], ms=[1, 4])
        yield "paths", tools("path", depth=3, dims=[0, 1, 2, 3], unit="0.5", nameseqs=[["K", ""]] if q else [[], ["K", ""]], **pts)
    elif pid == "C16":
        yield "atoms", tools("atom", depth=2 if q else 3, keys=["color", "spin"], vals=["", "7"])
    elif pid == "C17":
        yield "arguments", tools("helper")


def tool_parts(pid, tier):
    for name, sc in tool_scopes(pid, tier):
        yield "model_" + name, Model(sc, module="MCTools")
