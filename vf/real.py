"""Drives real lattpy objects through histories of operations and records what they do.

A history is a list of steps (dictionaries with an operation, its arguments and the
observations to make afterwards). Everything is passed to and read from lattpy through
its public interface. Coordinates are integers on the grid of the specification:
real coordinate = unit * sqrt(W) * x. Recorded values are snapped back to the grid,
values off the grid become OFF, so that the specification sees the difference.
"""
import os
import copy
import math
import pickle
import random
import signal
import tempfile
import warnings
import numpy as np

OFF = -999999


class Timeout(BaseException):
    pass


def ints(a):
    return np.asarray(a).astype(np.int64).tolist()


class Grid:
    """Mapping between real coordinates and the integer grid of a lattice."""

    def __init__(self, unit, W):
        self.unit = unit
        self.s = unit * np.sqrt(np.asarray(W, dtype=float))

    def real(self, x, q=1):
        return np.asarray(x, dtype=float) * self.s / q

    def snap(self, pos, q=1):
        y = np.asarray(pos, dtype=float) / self.s * q
        if y.size == 0:
            return y.tolist()
        r = np.round(y)
        ok = np.isfinite(y) & (np.abs(np.where(np.isfinite(y), y - r, 1)) < 1e-3) & (np.abs(y) < 1e6)
        return np.where(ok, r, OFF).astype(np.int64).tolist()

    def sq(self, d):
        """Squared distances in grid units"""
        y = np.square(np.asarray(d, dtype=float) / self.unit)
        if y.size == 0:
            return y.tolist()
        r = np.round(y)
        # accuracy of the distance itself: 1e-5 (relative to the unit)
        tol = 1e-4 * (1 + 2 * np.sqrt(np.abs(np.where(np.isfinite(y), y, 0))))
        ok = np.isfinite(y) & (np.abs(np.where(np.isfinite(y), y - r, 9)) < tol) & (np.abs(y) < 1e9)
        return np.where(ok, r, OFF).astype(np.int64).tolist()

    def nsnap(self, n):
        y = np.asarray(n, dtype=float)
        if y.size == 0:
            return y.tolist()
        r = np.round(y)
        ok = np.isfinite(y) & (np.abs(np.where(np.isfinite(y), y - r, 1)) < 1e-3) & (np.abs(y) < 1e6)
        return np.where(ok, r, OFF).astype(np.int64).tolist()


class Obj:
    """A lattice object with its grid and the arrays it was created from."""

    def __init__(self, latt, grid, sources=None):
        self.latt = latt
        self.grid = grid
        self.sources = sources if sources is not None else []
        self.watch = []


def excname(e):
    name = type(e).__name__
    try:
        if not str(e) and name.endswith("Error") and type(e).__module__.startswith("lattpy"):
            return name + " without message"
    except BaseException:
        return name + " with unreadable message"
    return name


# ------------------------------------------------------------------------------------
# Shapes and callbacks

def real_shape(lp, gr, st):
    """Arguments (shape, pos) of build for a shape record."""
    sh = st["sh"]
    q = sh["q"]
    if sh["k"] == "box":
        lo, hi = gr.real(sh["lo"], q), gr.real(sh["hi"], q)
        size = hi - lo
        how = st.get("as", "list")
        if how == "shape":
            return lp.Shape(size, pos=lo), None
        if how == "origin":      # lo is zero
            return (size.tolist() if len(size) > 1 else float(size[0])), None
        return size.tolist(), lo.tolist()
    if sh["k"] == "prim":
        lo, hi = np.array(sh["lo"]) / q, np.array(sh["hi"]) / q
        size = hi - lo
        if st.get("as") == "int":
            return [int(x) for x in size], [int(x) for x in lo]
        if st.get("as") == "origin":
            return [int(x) if float(x).is_integer() else x for x in size], None
        return size.tolist(), lo.tolist()
    if sh["k"] == "circle":
        return lp.Circle(gr.real(sh["c"], q), gr.unit * math.sqrt(sh["r2"]) / q), None
    if sh["k"] == "donut":
        ro, ri = gr.unit * math.sqrt(sh["r2"]) / q, gr.unit * math.sqrt(sh["i2"]) / q
        return lp.Donut(gr.real(sh["c"], q), ro, ri), None
    if sh["k"] == "hull":
        return lp.ConvexHull(gr.real(sh["pts"], q)), None
    raise ValueError(sh["k"])


def real_callback(gr, cb):
    if cb["k"] == "none":
        return None
    c, m, r = np.array(cb["c"]), cb["m"], cb["r"]

    def callback(indices, positions):
        if cb["k"] == "ind":
            v = np.asarray(indices).astype(np.int64) @ c
        else:
            v = np.asarray(gr.snap(positions), dtype=np.int64).reshape(len(indices), -1) @ c
        return v >= r if m == 0 else v % m != r
    return callback


# ------------------------------------------------------------------------------------
# Observations

def nlist(x):
    return [int(i) for i in np.atleast_1d(x)]


def observe(ob, fields):
    """Observations of an object: a record of the requested views."""
    latt, gr = ob.latt, ob.grid
    v = {}
    built = getattr(latt, "shape", None) is not None
    if "cfg" in fields:
        con = latt.todict()["connections"]
        v["cfg"] = dict(vec=gr.snap(np.asarray(latt.vectors).reshape(latt.dim, latt.dim)), names=[a.name for a in latt.atoms],
                        apos=[gr.snap(p) for p in latt.atom_positions],
                        mass=[int(round(a.get("mass", 1))) for a in latt.atoms],
                        con=[] if con is None else ints(con))
    if "ana" in fields:
        try:
            latt.get_neighbors(alpha=0)
            ok = True
        except IndexError:
            ok = True
        except Exception:
            ok = False
        if ok:
            dist = [[gr.sq(d) for d in row if d > 0] for row in np.asarray(latt.distances)]
            base = [[[gr.sq(d), x] for d, ind in nb.items() for x in ints(ind)] for nb in latt.base_neighbors]
            v["ana"] = dict(num=ints(latt.num_neighbors), dist=dist, numd=int(latt.num_distances), base=base)
        else:
            v["noana"] = True
    if not built:
        if "built" in fields:
            v["built"] = False
        return v
    if "built" in fields:
        v["built"] = True
    data = latt.data
    n = int(latt.num_sites)
    rng = range(n)
    if "sites" in fields:
        v["sites"] = ints(latt.indices)
    if "n" in fields:
        v["n"] = n
    if "pos" in fields:
        v["pos"] = gr.snap(latt.positions)
    dv = np.asarray(data.distvals)
    dv = dv[np.isfinite(dv)]
    if "dvals" in fields:
        v["dvals"] = gr.sq(dv)
    if "all" in fields:
        v["all"] = [nlist(latt.neighbors(i)) for i in rng]
    if "dist" in fields:
        v["dist"] = [[nlist(latt.neighbors(i, k)) for i in rng] for k in range(len(dv))]
    if "uniq" in fields:
        v["uniq"] = [nlist(latt.neighbors(i, unique=True)) for i in rng]
    if "near" in fields:
        v["near"] = [nlist(latt.nearest_neighbors(i)) for i in rng]
    if "unear" in fields:
        v["unear"] = [nlist(latt.nearest_neighbors(i, unique=True)) for i in rng]
    if "iter" in fields:
        v["iter"] = [[i, int(j), int(k)] for i in rng for k, nb in latt.iter_neighbors(i) for j in nb]
    if "uiter" in fields:
        v["uiter"] = [[i, int(j), int(k)] for i in rng
                      for k, nb in latt.iter_neighbors(i, unique=True) for j in nb]
    if "pairs" in fields:
        p, d = latt.neighbor_pairs()
        v["pairs"] = [[int(a), int(b), int(k)] for (a, b), k in zip(p, d)]
    if "upairs" in fields:
        p, d = latt.neighbor_pairs(unique=True)
        v["upairs"] = [[int(a), int(b), int(k)] for (a, b), k in zip(p, d)]
    if "chk" in fields:
        m = min(n, 6)
        idx = sorted(set([0, n - 1] + [(7 * i) % n for i in range(m)]))
        v["chk"] = []
        for i in idx:
            for j in rng if n <= 40 else idx:
                r = latt.check_neighbors(i, j)
                v["chk"].append([i, j, -1 if r is None else int(r)])
    if "adj" in fields:
        a = latt.adjacency_matrix()
        c = a.tocoo()
        v["adj"] = dict(shape=list(a.shape), e=[[int(i), int(j), int(x)] for i, j, x in zip(c.row, c.col, c.data)])
    if "dmap" in fields:
        v["dmap"] = observe_map(latt, latt.dmap(), len(dv))
    if "csr" in fields or "bsr" in fields:
        m = latt.dmap()
        for f in ("csr", "bsr"):
            if f not in fields:
                continue
            vals = np.zeros(m.size, dtype=np.int64)
            for a in range(latt.num_base):
                vals[m.onsite(a)] = 100 + a
            for k in range(len(dv)):
                vals[m.hopping(k)] = 1 + k
            pad = n % 3 == 1         # a larger matrix with complex entries
            if f == "csr":
                mat = m.build_csr(vals * (1 + 2j), shape=(n + 1, n + 1)) if pad else m.build_csr(vals, dtype=[None, "float32"][n % 2])
            else:
                blocks = np.zeros((m.size, 2, 2), dtype=np.int64)
                for a in range(2):
                    for b in range(2):
                        blocks[:, a, b] = vals + 1000 * (2 * a + b)
                mat = m.build_bsr(blocks * (1 + 2j), shape=(2 * n, 2 * n)) if pad else m.build_bsr(blocks, dtype=[None, "float32"][n % 2])
            c = mat.tocoo()
            dat = c.data
            if pad:
                dat = np.where(dat.imag == 2 * dat.real, dat.real, -1)
            cut = int(pad and f == "csr")
            v[f] = dict(shape=[x - cut for x in mat.shape], e=[[int(i), int(j), int(x)] for i, j, x in zip(c.row, c.col, dat) if x])
    if "reg" in fields:
        v["reg"] = [nlist(data.get_neighbors(i, periodic=False)) for i in rng]
    if "perf" in fields:
        v["perf"] = [nlist(data.get_neighbors(i, periodic=True)) for i in rng]
    if "uper" in fields:
        v["uper"] = [[nlist(data.get_neighbors(i, periodic=p, unique=True)) for i in rng] for p in (False, True)]
    if "per" in fields:
        out = []
        for i in rng:
            for k in range(len(dv)):
                m = data.neighbor_mask(i, k, periodic=True)
                for j, nv, ax in zip(data.neighbors[i, m], data.pnvecs[i, m], data.paxes[i, m]):
                    out.append([[i, int(j), k], ints(nv), sorted({int(x) for x in ax if x < latt.dim})])
        v["per"] = out
    if "samp" in fields:
        v["samp"] = observe_some(latt, gr, n, len(dv))
    if "pax" in fields:
        v["pax"] = list(dict.fromkeys(nlist(latt.periodic_axes)))     # (an axis may be named twice)
    if "mind" in fields:
        if len(np.atleast_1d(latt.periodic_axes)):
            sites = sorted({0, n // 2, n - 1})
            v["mind"] = [[i, gr.sq(latt.minimum_distances(i))] for i in sites]
    return v


def observe_some(latt, gr, n, K):
    """Some sites of a large lattice in all views."""
    idx = {0, 1, n - 2, n - 1} | {7919 * i % n for i in range(8)}
    for b in (1 << 7, 1 << 8, 1 << 15, 1 << 16):
        idx |= {b - 1, b, b + 1, n - b}
    pairs, dist = latt.neighbor_pairs()
    pairs, dist = np.asarray(pairs), np.asarray(dist)
    adj = latt.adjacency_matrix().tocsr()
    m = latt.dmap()
    vals = np.zeros(m.size, dtype=np.int64)
    for a in range(latt.num_base):
        vals[m.onsite(a)] = 100 + a
    for k in range(K):
        vals[m.hopping(k)] = 1 + k
    csr = m.build_csr(vals).tocsr()
    out = []
    for i in sorted(x for x in idx if 0 <= x < n):
        mask = pairs[:, 0] == i
        row = lambda mat: [[int(c), int(x)] for c, x in zip(mat[i].indices, mat[i].data)]
        s = latt.indices[i]
        x = latt.position(i)
        find = [latt.superindex_from_pos(x), latt.superindex_from_index(s)]
        out.append(dict(i=i, s=ints(s), x=gr.snap(x), find=[-1 if f is None else int(f) for f in find],
                        nb=[[int(j), k] for k in range(K) for j in latt.neighbors(i, k)],
                        it=[[int(j), int(k)] for k, nb in latt.iter_neighbors(i) for j in nb],
                        uniq=nlist(latt.neighbors(i, unique=True)),
                        pairs=[[int(j), int(k)] for j, k in zip(pairs[mask, 1], dist[mask])],
                        adj=row(adj), csr=row(csr)))
    return out


def observe_map(latt, m, K):
    ind = [tuple(map(int, x)) for x in np.asarray(m.indices).T]
    rows, cols = nlist(m.rows) if m.size else [], nlist(m.cols) if m.size else []
    if [(a, b) for a, b in zip(rows, cols)] != ind:
        ind = []      # rows/cols disagree with the indices: reported as missing pairs
    pick = lambda mask: [list(ind[i]) for i in np.where(np.asarray(mask))[0] if i < len(ind)]
    return dict(size=int(m.size), on=[pick(m.onsite(a)) for a in range(latt.num_base)],
                ona=pick(m.onsite()), hop=[pick(m.hopping(k)) for k in range(K)],
                hopa=pick(m.hopping()), hopn=int(np.sum(m.hopping(K))))


# ------------------------------------------------------------------------------------
# Operations

def periods(latt, axes):
    out = []
    for ax in axes:
        items = latt.periodic_translation_vectors([int(ax)], latt.primitive)
        out.append(ints(items[0][1]))
    return out


def bonds(gr, neighbors, distances, n):
    """[i, j, squared distance] of the slots that hold a neighbor (others hold n or no distance)."""
    out = []
    for i, (js, ds) in enumerate(zip(np.asarray(neighbors), np.asarray(distances))):
        out += [[i, int(j), gr.sq(d)] for j, d in zip(js, ds) if np.isfinite(d) or j < n]
    return out


def near(x):
    """Next integers, OFF if there is none."""
    return [int(round(v)) if np.isfinite(v) and abs(v - round(v)) < 1e-4 else OFF for v in np.ravel(x).tolist()]


class Machine:
    def __init__(self, lp):
        self.lp = lp
        self.objs = {}
        self.joins = 0

    def run(self, st):
        """Executes a step; returns the recorded step."""
        rec = {k: v for k, v in st.items() if k not in ("obs", "src")}
        rec["exc"] = ""
        try:
            getattr(self, "op_" + st["op"])(st, rec)
        except Timeout:
            rec["exc"] = "Timeout"
        except Exception as e:
            rec["exc"] = excname(e)
            rec["msg"] = str(type(e)) + ": " + _safe(e)
        rec.setdefault("res", {})
        rec["vs"] = []
        for name, fields in st.get("obs", []):
            if name in self.objs:
                try:
                    rec["vs"].append(dict(o=name, v=observe(self.objs[name], fields)))
                except Timeout:
                    rec["vs"].append(dict(o=name, v=dict(failed="Timeout")))
                except Exception as e:
                    rec["vs"].append(dict(o=name, v=dict(failed=excname(e) + " " + _safe(e)[:200])))
        return rec

    # -- configuration
    def op_new(self, st, rec):
        lp = self.lp
        gr = Grid(float(st["unit"]), st["W"])
        B = np.array(st["B"])
        basis = B * gr.s
        how = st.get("ctor", "array")
        src = []
        cls = lp.Lattice
        if how == "array":
            arg = np.array(basis)
            src = [arg]
            latt = cls(arg)
        elif how == "list":
            latt = cls(basis.tolist())
        elif how == "basis":
            arg = lp.LatticeBasis(np.array(basis))
            src = [arg.vectors]
            latt = cls(arg)
        elif how == "scalar":
            latt = cls(float(basis[0, 0]))
        elif how == "int":
            arg = np.array(np.round(basis), dtype=np.int64)
            src = [arg]
            latt = cls(arg)
        else:
            name, args = how[0], how[1:]
            latt = getattr(cls, name)(*args)
        self.objs[st["o"]] = Obj(latt, gr, src)
        rec.pop("ctor", None)
        rec.pop("unit", None)

    def op_atom(self, st, rec):
        ob = self.objs[st["o"]]
        gr = ob.grid
        rec["id"] = -1
        kw = {}
        if st.get("mass", 1) != 1 or st.get("setmass"):
            kw["mass"] = float(st["mass"])
        rec["mass"] = st.get("mass", 1)
        pos = gr.real(st["pos"]) if len(st["pos"]) == len(gr.s) else np.array(st["pos"], dtype=float)
        via = st.get("via", "cart")
        args = {}
        if via == "prim":
            pos = ob.latt.itransform(pos)
            args["primitive"] = True
        name = st["name"]
        atom = name
        if "share" in st:
            # an atom of another lattice
            atom, kw = self.objs[st["share"][0]].latt.atoms[st["share"][1]], {}
            rec.pop("share")
        elif via == "obj":
            atom = self.lp.Atom(name, **kw)
            kw = {}
        if via == "none" and not np.any(pos):
            a = ob.latt.add_atom(atom=atom, neighbors=st["nb"], **kw)
        else:
            pos = np.array(pos)
            ob.sources.append(pos)
            a = ob.latt.add_atom(pos, atom, neighbors=st["nb"], **args, **kw)
        rec["id"] = int(a.index)
        rec["res"] = dict(name=a.name)
        rec.pop("via", None)

    def _ref(self, latt, places, by):
        if by == "name":
            return latt.atoms[places[0]].name
        if by == "atom":
            return latt.atoms[places[0]]
        return int(places[0])

    def op_con(self, st, rec):
        latt = self.objs[st["o"]].latt
        if latt.num_base == 0:
            latt.add_connection("A", "A", st["c"], analyze=st["an"])
            return
        a, b = self._ref(latt, st["as"], st["by"]), self._ref(latt, st["bs"], st["by"])
        if st["c"] == 1 and not st["an"]:
            latt.add_connection(a, b)
        else:
            latt.add_connection(a, b, st["c"], analyze=st["an"])

    def op_cons(self, st, rec):
        latt = self.objs[st["o"]].latt
        if st["c"] == 1 and st["an"]:
            latt.add_connections()
        else:
            latt.add_connections(st["c"], analyze=st["an"])

    def op_ana(self, st, rec):
        self.objs[st["o"]].latt.analyze()

    def op_nb(self, st, rec):
        ob = self.objs[st["o"]]
        latt, gr = ob.latt, ob.grid
        n, a = st["n"], st["alpha"]
        res = dict(nb=[], pos=[], vec=[], vec0=[], fw=[])
        m = st.get("m") or [1 + i for i in range(len(n))]
        at = (n,) if any(n) or not st.get("default") else (None,)
        kv = np.pi / 2 * np.array(m) / gr.s
        ways = [lambda: latt.get_neighbors(*at, a), lambda: latt.get_neighbor_positions(*at, a), lambda: latt.get_neighbor_vectors(a),
                lambda: latt.fourier_weights(kv, a)]
        errs = []
        for way in ways:       # all of them with or without an analysis
            try:
                way()
                errs.append("")
            except IndexError:
                errs.append("")
            except Exception as e:
                errs.append(type(e).__name__)
        if len(set(errs)) > 1:
            raise AssertionError(f"different errors {errs}")
        k = 0
        while True:
            try:
                ind = latt.get_neighbors(*at, a, k)
            except IndexError:
                break
            res["nb"].append(gr.nsnap(ind))
            res["pos"].append(gr.snap(latt.get_neighbor_positions(*at, a, k)))
            res["vec"].append(gr.snap(latt.get_neighbor_vectors(a, k)))
            res["vec0"].append(gr.snap(latt.get_neighbor_vectors(a, k, include_zero=True)))
            w = complex(latt.fourier_weights(kv if k % 2 else kv.tolist(), a, k))
            res["fw"].append(near([w.real, w.imag]))
            k += 1
            if k > 60:
                break
        res["dflt"] = []
        if k:                  # the nearest neighbors by default, those of the first atom
            for args in ((*at, a), ()):
                try:
                    w = complex(latt.fourier_weights(kv, *args[1:]))
                    res["dflt"].append([gr.nsnap(latt.get_neighbors(*args)), gr.snap(latt.get_neighbor_positions(*args)),
                                        gr.snap(latt.get_neighbor_vectors(*args[1:])), near([w.real, w.imag])])
                except IndexError:
                    res["dflt"].append([])
        rec["res"] = res
        rec["m"] = m

    # -- ready-made lattices
    def op_preset(self, st, rec):
        lp = self.lp
        u = float(st["unit"])
        how, k, names, c = st["how"], st["k"], st["names"], st["c"]
        W = dict(simple_hexagonal=[1, 3], honeycomb=[1, 3], graphene=[1, 3]).get(how)
        W = W or (st["W"] if how == "kwargs" else [1] * (3 if how == "nacl_structure" else len(k)))
        gr = Grid(u, W)
        at = [lp.Atom(n) if st.get("objs") else n for n in names]
        kw = {}
        if c > 0 and how != "kwargs" and not st.get("default"):
            kw["neighbors"] = c
        if st.get("noname"):     # the default atoms
            at = [None] * len(names)
        if how == "kwargs":
            pos = gr.real(st["pos"])
            keys = [tuple(p) if len(p) > 1 else float(p[0]) for p in pos.tolist()]
            cons = c
            if not c:
                cons = {(names[a[0]], names[b[0]]): n for a, b, n in st["pairs"]}
            if st["build"]:
                kw["shape"] = real_shape(lp, gr, st)[0]
                if st["per"]:
                    kw["periodic"] = st["per"] if len(st["per"]) > 1 or not st["scalar"] else st["per"][0]
            latt = lp.Lattice(np.array(st["B"]) * gr.s, atoms=dict(zip(keys, at)), cons=cons, **kw)
            if st["build"]:
                rec["res"] = dict(sites=ints(latt.indices), ps=periods(latt, st["per"]), kept=True)
        elif how == "finite_hypercubic":
            s, pos = real_shape(lp, gr, st)
            if st.get("as") == "shape" and not st["prim"]:
                s = lp.Shape(gr.real(st["sh"]["hi"]) - gr.real(st["sh"]["lo"]), gr.real(st["sh"]["lo"]))
            elif len(k) == 1:
                s = float(np.ravel(s)[0])
            if st["per"]:
                kw["periodic"] = st["per"]
            latt = lp.finite_hypercubic(s, u * k[0], at[0], primitive=st["prim"], **kw)
            rec["res"] = dict(sites=ints(latt.indices), ps=periods(latt, st["per"]), kept=True)
        elif how in ("simple_chain", "simple_square", "simple_cubic"):
            latt = getattr(lp, how)(u * k[0], at[0], **kw)
        elif how == "simple_rectangular":
            latt = lp.simple_rectangular(u * k[0], u * k[1], at[0], **kw)
        elif how == "alternating_chain":
            latt = lp.alternating_chain(4 * u * k[0], at[0], at[1], st["x0"] / 4, **kw)
        elif how == "simple_hexagonal":
            latt = lp.simple_hexagonal(2 * u, at[0], **kw)
        elif how == "honeycomb":
            latt = lp.honeycomb(2 * u, at[0])
        elif how == "graphene":
            latt = lp.graphene(2 * u)
        else:
            latt = lp.nacl_structure(2 * u, **kw) if st.get("noname") else lp.nacl_structure(2 * u, at[0], at[1], **kw)
        self.objs[st["o"]] = Obj(latt, gr, [])
        rec["ids"] = [int(a.index) for a in latt.atoms]
        rec.pop("unit", None)

    def op_named(self, st, rec):
        how, k, u = st["how"], st["k"], float(st["unit"])
        W = [1] * len(k)
        if how == "oblique":
            f1, f2, W = {30: (math.sqrt(3), 2, [3, 1]), 45: (1, math.sqrt(2), [1, 1]), 60: (1, 2, [1, 3]), 90: (1, 1, [1, 1]),
                         120: (1, 2, [1, 3]), 135: (1, math.sqrt(2), [1, 1])}[st["deg"]]
            args = [math.radians(st["deg"]), u * k[0] * f1, u * k[1] * f2]
        elif how in ("hexagonal", "hexagonal3d"):
            W = [1, 3] + [1] * (how == "hexagonal3d")
            args = [2 * u * k[0]] + [float(x) for x in k[1:]]
        elif how in ("fcc", "bcc"):
            W = [1, 1, 1]
            args = [2 * u * k[0]]
        elif how == "hypercubic":
            args = [len(k), u * k[0]]
        else:
            args = [u * x for x in (k if how == "rectangular" else k[:1])]
        if st.get("default"):       # constants of 1
            args = args[:1] if how in ("oblique", "hypercubic") else []
        kw = {}
        if st["c"]:
            d = len(W)
            kw = dict(atoms={(0.0,) * d if d > 1 else 0.0: "A"}, cons={("A", "A"): st["c"]} if st["c"] % 2 else st["c"])
        latt = getattr(self.lp.Lattice, how)(*args, **kw)
        self.objs[st["o"]] = Obj(latt, Grid(u, W), [])
        rec["ids"] = [int(a.index) for a in latt.atoms]
        rec.pop("unit", None)

    # -- the parts of a build
    def op_raw(self, st, rec):
        ob = self.objs[st["o"]]
        latt, gr = ob.latt, ob.grid
        shape, pos = real_shape(self.lp, gr, st)
        kw = dict(primitive=True) if st["prim"] else {}
        if pos is not None:
            kw["pos"] = pos
        if st.get("dtype"):
            kw["dtype"] = np.dtype(st["dtype"])
        cells = latt.build_translation_vectors(shape, **kw)
        ind, p = latt.build_indices(shape, return_pos=True, **kw)
        nb, dist = latt.compute_neighbors(ind, p)
        rec.setdefault("pts", [])
        mask = []
        if rec["pts"]:
            args = {} if pos is None else dict(pos=pos)
            mask = [bool(x) for x in latt.check_points(gr.real(rec["pts"], st["sh"]["q"]), shape, **args)]
        rec["res"] = dict(inside=mask, cells=ints(cells), sites=ints(ind), pos=gr.snap(p), nb=bonds(gr, nb, dist, len(ind)))

    def op_conn(self, st, rec):
        ob = self.objs[st["o"]]
        pairs, dist = ob.latt.compute_connections(self.objs[st["p"]].latt)
        rec["res"] = dict(pairs=[[int(a), int(b), ob.grid.sq(d)] for (a, b), d in zip(pairs, dist)])

    def op_djoin(self, st, rec):
        ob = self.objs[st["o"]]
        d = ob.latt.data.append(self.objs[st["p"]].latt.data, copy=True)
        n = len(d.indices)
        dist = np.append(d.distvals, np.inf)[np.asarray(d.distances)]
        rec["res"] = dict(sites=ints(d.indices), pos=ob.grid.snap(d.positions), nb=bonds(ob.grid, d.neighbors, dist, n))

    # -- finite lattices
    def op_build(self, st, rec):
        ob = self.objs[st["o"]]
        latt, gr = ob.latt, ob.grid
        if st["baddim"]:
            d = latt.dim + 1
            latt.build([2.0] * d)
            return
        shape, pos = real_shape(self.lp, gr, st)
        kw = {}
        if st["prim"]:
            kw["primitive"] = True
        if pos is not None:
            kw["pos"] = pos
        if st["mn"]:
            kw["min_neighbors"] = st["mn"]
        if st.get("jobs"):
            kw["num_jobs"] = st["jobs"]
        if st.get("dtype"):
            kw["dtype"] = np.dtype(st["dtype"])
        if st.get("loose"):
            kw["check"] = False
        cb = real_callback(gr, st["cb"])
        if cb is not None:
            kw["callback"] = cb
        if st.get("arrays"):
            shape = np.array(shape) if isinstance(shape, list) else shape
            kw.update({k: np.array(v, dtype=float) for k, v in kw.items() if k == "pos"})
        before = [np.array(x) for x in (shape, kw.get("pos", 0)) if not isinstance(x, self.lp.shape.AbstractShape)]
        if st["per"]:
            kw["periodic"] = st["per"] if len(st["per"]) > 1 or not st.get("scalar") else st["per"][0]
        latt.build(shape, **kw)
        after = [np.array(x) for x in (shape, kw.get("pos", 0)) if not isinstance(x, self.lp.shape.AbstractShape)]
        kept = all(np.array_equal(x, y) for x, y in zip(before, after))
        rec["res"] = dict(sites=ints(latt.indices), ps=periods(latt, st["per"]), kept=kept)

    def op_per(self, st, rec):
        latt = self.objs[st["o"]].latt
        axes = st["axes"]
        how = st.get("how", "list")
        if not axes:
            arg = None if how != "bool" else False
        elif how == "bool":
            arg = True
        elif how == "scalar" and len(axes) == 1:
            arg = axes[0]
        elif how == "array":
            arg = np.array(axes)
        elif how == "dup":
            arg = list(axes) + list(axes[:1])
        else:
            arg = list(axes)
        latt.set_periodic(arg)
        rec["res"] = dict(ps=periods(latt, axes))

    def op_remove(self, st, rec):
        latt = self.objs[st["o"]].latt
        if "pick" in st:     # [seed, fraction or count, form]: chosen among the current sites
            seed, m, form = rec.pop("pick")
            r = random.Random(seed)
            n = int(latt.num_sites)
            m = max(1, int(m * n)) if m < 1 else int(m)
            gone = r.sample(range(n), max(0, min(m, n - 2)))
            if form == "last":
                gone = list(range(n - len(gone), n))
            elif form == "first":
                gone = list(range(len(gone)))
            raw = list(gone)
            rec["gone"] = gone
            if not gone:
                return
            if form == "scalar":
                rec["gone"], raw = gone[:1], gone[0]
            elif form == "dup":
                raw = gone + gone[:2]
            elif form == "neg":
                raw = [g - n for g in gone]
            elif form == "array":
                raw = np.array(gone)
            elif form == "sorted":
                raw = sorted(gone)
        else:
            raw = list(st["gone"])
        latt.data.remove(raw)

    def op_sort(self, st, rec):
        latt = self.objs[st["o"]].latt
        if "pick" in st:
            rec.pop("pick")
            perm = list(range(int(latt.num_sites)))
            random.Random(st["pick"]).shuffle(perm)
            st = dict(st, perm=perm)
            rec["perm"] = perm
        if st["ax"]:
            latt.data.sort(ax=st["ax"] - 1, **(dict(reverse=True) if st["rev"] else {}))
        else:
            latt.data.sort(indices=np.array(st["perm"]), reverse=st["rev"])
        rec["res"] = dict(sites=ints(latt.indices))

    def _sortargs(self, st):
        """Arguments of a join; every other one leaves out those that are the default."""
        kw = dict(ax=st["ax"] - 1, side=st["side"], sort_ax=st["sort"] - 1 if st["sort"] else None, sort_reverse=st["rev"])
        self.joins += 1
        dflt = dict(ax=0, side=1, sort_ax=None, sort_reverse=False) if self.joins % 2 else {}
        return {k: v for k, v in kw.items() if k not in dflt or dflt[k] != v}

    def op_append(self, st, rec):
        latt, other = self.objs[st["o"]].latt, self.objs[st["p"]].latt
        latt.append(other, **self._sortargs(st))
        rec["res"] = dict(sites=ints(latt.indices))

    def op_extend(self, st, rec):
        ob = self.objs[st["o"]]
        latt, gr = ob.latt, ob.grid
        ax = st["ax"] - 1
        size = st["size"] / st["q"]
        if not latt.primitive:
            size = size * gr.s[ax]
        latt.extend(size, **self._sortargs(st))
        rec["res"] = dict(sites=ints(latt.indices))

    def op_repeat(self, st, rec):
        latt = self.objs[st["o"]].latt
        kw = self._sortargs(st)
        latt.repeat(*([st["num"]] if st["num"] != 1 or "ax" in kw else []), **kw)
        rec["res"] = dict(sites=ints(latt.indices))

    # -- copies
    def op_copy(self, st, rec):
        src = self.objs[st["p"]]
        how = st.get("how", "copy")
        latt = src.latt
        if how == "copy":
            new = latt.copy()
        elif how == "deepcopy":
            new = copy.deepcopy(latt)
        elif how == "pickle":
            new = pickle.loads(pickle.dumps(latt))
        else:
            d = tempfile.mkdtemp()
            f = os.path.join(d, "x.latt")
            try:
                latt.dump(f)
                new = type(latt).load(f)
            finally:
                if os.path.exists(f):
                    os.remove(f)
                os.rmdir(d)
        self.objs[st["o"]] = Obj(new, src.grid)
        rec.pop("how", None)

    def op_fromdict(self, st, rec):
        src = self.objs[st["p"]]
        d = src.latt.todict()
        new = type(src.latt).fromdict(d)
        ob = Obj(new, src.grid)
        ob.sources = [d["vectors"], d["connections"]] + [np.asarray(p) for p in d["positions"]]
        ob.watch = list(d["atoms"])
        self.objs[st["o"]] = ob

    def op_eq(self, st, rec):
        a, b = self.objs[st["o"]].latt, self.objs[st["p"]].latt
        e, h = a == b, hash(a) == hash(b)
        if bool(e) != bool(b == a) or (e and not h):
            raise AssertionError("comparison not symmetric or hashes differ")
        rec["res"] = dict(eq=bool(e))

    def op_mut(self, st, rec):
        """Changes everything the object was created from (must have no effect)."""
        ob = self.objs[st["o"]]
        for a in ob.sources:
            try:
                a[...] = a * 3 + 7
            except (ValueError, TypeError):
                pass
        for atom in ob.watch:
            atom["mass"] = 99.0
        rec["op"] = "view"

    def op_dcopy(self, st, rec):
        """Changes a copy of the stored data (must have no effect on the object)."""
        ob = self.objs[st["o"]]
        d = ob.latt.data.copy()
        rec["op"] = "dcopy"
        rec["res"] = dict(sites=ints(d.indices), pos=ob.grid.snap(d.positions), nb=[nlist(d.get_neighbors(i)) for i in range(d.num_sites)])
        k = st["k"] % 5
        if k == 0:
            d.remove([0])
        elif k == 1:
            d.sort(indices=np.arange(d.num_sites)[::-1])
        elif k == 2:
            d.remove_periodic()
        elif k == 3:
            d.indices[...] = 7
            d.positions[...] = 7.0
            d.neighbors[...] = 0
            d.distances[...] = 0
            d.distvals[...] = 7.0
        else:
            d.reset()

    def op_param(self, st, rec):
        """Changes a parameter of an atom of the object, visible in this object only."""
        ob = self.objs[st["o"]]
        ob.latt.atoms[st["a"]]["mass"] = float(st["mass"])

    def op_view(self, st, rec):
        pass

    def op_query(self, st, rec):
        """Lookups and selections, chosen among the current sites."""
        ob = self.objs[st["o"]]
        latt, gr = ob.latt, ob.grid
        r = random.Random(rec.pop("pick"))
        d, n = latt.dim, int(latt.num_sites)
        data = latt.data
        pos = np.array(data.positions)
        x = np.array(gr.snap(pos), dtype=np.int64).reshape(n, d)
        ind = ints(data.indices)
        some = sorted({0, n - 1} | {r.randrange(n) for _ in range(4)})
        num = lambda i: -1 if i is None else int(i)
        res = {}
        res["at"] = [[i, gr.snap(latt.position(i)), int(latt.alpha(i)), latt.atom(i).name] for i in some]
        # Lookups: hits, and misses next to a site or in another cell
        near = [0] * d
        near[r.randrange(d)] = r.choice([-1, 1])
        jump = [r.randint(-3, 3) for _ in range(d)]
        fp = [x[i].tolist() for i in some]
        fp += [(x[i] + near).tolist() for i in some[:3]]
        fp += [gr.snap(latt.transform(np.array(jump)) + gr.real(x[i])) for i in some[:3]]
        res["frompos"] = [[y, num(latt.superindex_from_pos(self._arg(r, gr.real(y))))] for y in fp]
        fi = [ind[i] for i in some]
        fi += [[a + b for a, b in zip(ind[i], jump)] + [ind[i][-1]] for i in some[:3]]
        fi += [ind[i][:-1] + [r.randrange(-1, latt.num_base + 1)] for i in some[:3]]
        far = [0] * (d + 1)
        far[r.randrange(d)] = r.choice([-1, 1]) * r.choice([256, 512, 65536])
        fi += [[a + b for a, b in zip(ind[i], far)] for i in some[:2]]
        res["fromind"] = [[y, num(latt.superindex_from_index(self._arg(r, np.array(y))))] for y in fi]
        s = gr.s.min()
        i = r.choice(some)
        moved = gr.real(x[i]) + 0.25 * s * np.array([r.choice([-1, 1]) for _ in range(d)])
        res["tol"] = [[x[i].tolist(), True, num(latt.superindex_from_pos(moved, atol=0.4 * s))],
                      [x[i].tolist(), False, num(latt.superindex_from_pos(moved, atol=0.1 * s))],
                      [x[i].tolist(), True, num(latt.superindex_from_pos(gr.real(x[i]) + 4e-5))],
                      [x[i].tolist(), False, num(latt.superindex_from_pos(gr.real(x[i]) - 2e-3))]]
        # Extents
        res["lim"] = [gr.snap(latt.limits()), gr.snap(data.get_limits())]
        res["shape"] = gr.snap(latt.shape)
        f = [r.randint(-2, 6) for _ in range(d)]
        res["rel"] = [[f, gr.snap(latt.relative_position(np.array(f) / 4), 4)]]
        k = r.randint(0, 4)
        res["rel"].append([[k] * d, gr.snap(latt.relative_position(k / 4), 4)])
        res["center"] = gr.snap(latt.center(), 2)
        m = sum(int(round(latt.atoms[j[-1]].get("mass", 1))) for j in ind)
        res["cog"] = gr.snap(latt.center_of_gravity(), m) if m else [0] * d
        res["cells"] = int(latt.num_cells)
        cell = abs(np.linalg.det(np.array(latt.vectors, dtype=float).reshape(d, d)))
        res["vol"] = gr.nsnap(latt.volume() / cell)
        res["ilim"] = ints(data.get_index_limits())
        res["clim"] = [ints(data.get_cell_limits()), ints(data.get_translation_limits())]
        res["sub"] = [gr.snap(data.get_positions(a)) for a in range(latt.num_base)]
        # Selections; bounds in half grid units, NONE: unlimited
        NONE = 999999
        exact = np.all(pos * 1024 == np.round(pos * 1024)) and np.abs(pos).max() < 1e6 if n else False
        exact = exact and bool(np.all(gr.real(x) == pos)) and bool(np.all(gr.s * 1024 == np.round(gr.s * 1024)))

        def bound(ax, lower):
            lo, hi = int(x[:, ax].min()), int(x[:, ax].max())
            k = r.random()
            if k < 0.25:
                return NONE, None
            if k < 0.6:
                h = 2 * r.randint(lo - 1, hi) + 1
                return h, float(h * gr.s[ax] / 2)
            c = int(x[r.randrange(n), ax])
            same = pos[x[:, ax] == c, ax]
            return 2 * c, float(same.min() if lower else same.max())

        def bounds(lower):
            k = r.random()
            if k < 0.15:
                return [NONE] * d, None
            b = [bound(ax, lower) for ax in range(d)]
            if k < 0.3:
                m = r.randrange(0, d)
                b = b[:m]
            out = [y[0] for y in b] + [NONE] * (d - len(b))
            vals = [y[1] for y in b]
            return out, vals if r.random() < 0.7 or None in vals else np.array(vals)
        res["find"], res["mask"] = [], []
        for _ in range(4):
            (a, am), (b, bm) = bounds(True), bounds(False)
            inv = r.random() < 0.35
            res["find"].append([a, b, inv, nlist(data.find_sites(am, bm, invert=inv))])
            res["mask"].append([a, b, inv, gr.snap(data.positions[data.site_mask(am, bm, inv)])])
        res["outer"] = []
        for _ in range(3):
            ax = r.randrange(d)
            w = int(x[:, ax].max() - x[:, ax].min())
            h = r.choice([0, 1, 2 * r.randint(0, max(1, w)) + 1, 2 * r.randint(0, w + 1)])
            if h % 2 == 0 and h and not exact:
                h += 1
            res["outer"].append([ax + 1, h, nlist(data.find_outer_sites(ax, h * gr.s[ax] / 2))])
        rec["res"] = res

    @staticmethod
    def _arg(r, a):
        k = r.randrange(3)
        return a if k == 0 else a.tolist() if k == 1 else tuple(a.tolist())


def _safe(e):
    try:
        return str(e)
    except BaseException:
        return "?"


def _alarm(signum, frame):
    raise Timeout()


def run_history(lp, hist, limit=20):
    """Runs one history, returns the recorded steps."""
    m = Machine(lp)
    out = []
    signal.signal(signal.SIGPROF, _alarm)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for st in hist:
            signal.setitimer(signal.ITIMER_PROF, limit)     # processor time
            try:
                rec = m.run(st)
            except Timeout:
                rec = {k: v for k, v in st.items() if k not in ("obs", "src")}
                rec.update(exc="Timeout", res={}, vs=[])
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            out.append(rec)
            if rec["exc"] == "Timeout":
                break
            if st["op"] in ("new", "named", "preset", "copy", "fromdict") and rec["exc"]:
                break
    return out
