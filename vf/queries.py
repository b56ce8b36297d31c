"""Drives bases, shapes, paths, atoms and helper functions of lattpy and records
what they answer (module ToolTrace of the specification). See real.py."""
import math
import signal
import warnings
import numpy as np

from .real import OFF, Timeout, excname, _safe, _alarm, ints

TOL = 1e-6


def snap(y, tol=TOL, big=1e8):
    """Integers next to the values, OFF if there is none."""
    y = np.asarray(y, dtype=float)
    if y.size == 0:
        return y.tolist()
    r = np.round(y)
    ok = np.isfinite(y) & (np.abs(np.where(np.isfinite(y), y - r, 1)) < tol * (1 + np.abs(y) * 1e-3)) & (np.abs(y) < big)
    return np.where(ok, r, OFF).astype(np.int64).tolist()


def root(d, unit=1.0):
    """Squares of lengths as integers."""
    y = np.asarray(d, dtype=float) / unit
    return snap(np.sign(y) * y * y, 1e-5)


def common(pts, top=20000, tol=1e-5):
    """The smallest integer q for which q times the points are integers."""
    for q in range(1, top):
        y = pts * q
        if np.all(np.abs(y - np.round(y)) < tol * math.sqrt(q)):
            return q
    return 1


def mkbasis(lp, st, cls=None):
    cls = cls or lp.LatticeBasis
    s = st["unit"] * np.sqrt(np.asarray(st["W"], dtype=float))
    vecs = np.array(st["B"]) * s
    how = st.get("ctor", "array")
    if isinstance(how, (list, tuple)):
        return getattr(cls, how[0])(*how[1:]), s
    if how == "list":
        return cls(vecs.tolist()), s
    if how == "scalar":
        return cls(float(vecs[0, 0])), s
    if how == "int":
        return cls(np.array(np.round(vecs), dtype=np.int64)), s
    if how == "basis":
        return cls(lp.LatticeBasis(vecs)), s
    return cls(vecs), s


def digits(v):
    neg = v < 0
    m = -v - 1 if neg else v
    dg = []
    while m:
        dg.append(m & 0xffff)
        m >>= 16
    return dict(neg=bool(neg), dg=dg)


class Tools:
    def __init__(self, lp):
        self.lp = lp
        self.objs = {}
        self.seen = set()

    def run(self, st):
        st = dict(st)
        for k in ("unit", "eps", "scale"):      # decimals of the models are strings
            if k in st:
                st[k] = float(st[k])
        rec = {k: v for k, v in st.items() if k not in ("obs", "unit", "ctor", "form")}
        rec["exc"] = ""
        rec["res"] = {}
        rec["vs"] = []
        rec.setdefault("o", "-")
        try:
            getattr(self, "op_" + st["op"])(st, rec)
            for name in st.get("obs", []):
                if name in self.objs:
                    rec["vs"].append(dict(o=name, v=self.observe(self.objs[name])))
        except Timeout:
            rec["exc"] = "Timeout"
        except Exception as e:
            rec["exc"] = excname(e)
            rec["msg"] = str(type(e)) + ": " + _safe(e)
        return rec

    # -- bases
    def op_transform(self, st, rec):
        b, s = mkbasis(self.lp, st)
        q = st["q"]
        f = np.array(st["f"]) / q
        x = b.transform(f)
        x1 = [b.transform(p.tolist()) for p in f]
        rec["res"] = dict(x=snap(x / s * q), x1=snap(np.array(x1) / s * q), back=snap(b.itransform(x) * q))
        if st.get("deep"):     # more than one axis of points
            y = b.transform(np.array([f, f]))
            rec["res"]["x1"] = snap(y[1] / s * q)

    def op_itransform(self, st, rec):
        b, s = mkbasis(self.lp, st)
        q = st["q"]
        det = abs(round(np.linalg.det(np.array(st["B"], dtype=float))))
        x = np.array(st["x"]) * s / q
        f = b.itransform(x)
        f1 = [b.itransform(tuple(p)) for p in x]
        rec["res"] = dict(f=snap(f * q * det), f1=snap(np.array(f1) * q * det), back=snap(b.transform(f) / s * q))

    def op_translate(self, st, rec):
        b, s = mkbasis(self.lp, st)
        q = st["q"]
        x = np.array(st["x"]) * s / q
        x1 = [b.translate(n, x.tolist()) for n in st["n"]]
        rec["res"] = dict(x=snap(b.translate(st["n"], x) / s * q), x1=snap(np.array(x1) / s * q),
                          x0=snap(b.translate(np.array(st["n"])) / s))

    def op_itranslate(self, st, rec):
        b, s = mkbasis(self.lp, st)
        q = st["q"]
        x = np.array(st["x"]) * s / q
        n, r = b.itranslate(x)
        one = [b.itranslate(p.tolist() if b.dim > 1 or i % 2 else float(p[0])) for i, p in enumerate(x)]
        rec["res"] = dict(n=snap(n), r=snap(r / s * q), n1=snap(np.array([o[0] for o in one])),
                          r1=snap(np.array([o[1] for o in one]) / s * q))

    def op_estimate(self, st, rec):
        b, s = mkbasis(self.lp, st, self.lp.Lattice)
        x = np.array(st["x"]) * s / st["q"]
        if b.dim == 1 and st.get("form") == "scalar":
            n = [np.reshape(b.estimate_index(float(p[0])), -1) for p in x]
        else:
            n = [b.estimate_index(p.tolist()) for p in x]
        rec["res"] = dict(n=snap(np.array(n)))

    def op_position(self, st, rec):
        b, s = mkbasis(self.lp, st, self.lp.Lattice)
        for i, p in enumerate(st["apos"]):
            b.add_atom(np.array(p) * s, "ABCDE"[i])
        x = b.get_positions(st["s"])
        x1 = [b.get_position(t[:-1] if b.dim > 1 else t[0], t[-1]) for t in st["s"]]
        rec["res"] = dict(x=snap(x / s), x1=snap(np.array(x1) / s))

    def op_recip(self, st, rec):
        b, s = mkbasis(self.lp, st)
        det = abs(round(np.linalg.det(np.array(st["B"], dtype=float))))
        v = b.reciprocal_vectors(check=bool(st.get("form")))
        r = b.reciprocal_lattice()
        rr = r.reciprocal_lattice()
        f = s * det / (2 * np.pi)
        rec["res"] = dict(b=snap(v * f), lat=snap(r.vectors * f), back=snap(rr.vectors / s))

    def op_isrecip(self, st, rec):
        b, s = mkbasis(self.lp, st)
        # dual vectors from the definition
        v = 2 * np.pi * np.linalg.inv(np.array(st["B"]) * s).T
        rec["res"] = dict(ok=bool(b.is_reciprocal(np.array(st["m"]) / st["q"] @ v)))

    def op_cell(self, st, rec):
        b, s = mkbasis(self.lp, st)
        rec["res"] = dict(vol=snap(b.cell_volume / np.prod(s)), size=snap(b.cell_size / s),
                          norms=root(b.norms, st["unit"]), B=snap(b.vectors / s), dim=int(b.dim))

    def op_number(self, st, rec):
        b, s = mkbasis(self.lp, st)
        sh = st["shape"]
        n = np.array(st["n"])
        si = b.get_cell_superindex(n, sh)
        si1 = [b.get_cell_superindex(x, sh) for x in st["n"]]
        back = b.get_cell_index(np.asarray(si), sh)
        back1 = [b.get_cell_index(int(x) if i % 2 else np.int64(x), sh) for i, x in enumerate(np.ravel(si))]
        rec["res"] = dict(si=ints(si), si1=ints(np.array(si1)), n=ints(back), n1=ints(np.array(back1)))

    def _cell(self, cell, s, st, rec):
        x = np.array(st["x"]) * s / st["q"]
        inside = [bool(i) for i in np.atleast_1d(cell.check(x))]
        single = [bool(np.all(cell.check(p))) for p in x]
        v = np.asarray(cell.vertices, dtype=float) / s
        q = common(v)
        d = len(s)
        org, cor, edg, fac = cell.symmetry_points()
        to = lambda a, f: [] if a is None else snap(np.reshape(np.asarray(a, dtype=float), (-1, d)) / s * f, 1e-3)
        rec["res"] = dict(inside=inside, single=single, q=q, vert=snap(v * q, 1e-3),
                          lim=snap((np.asarray(cell.limits).T / s).T * q, 1e-3),
                          size=snap(np.asarray(cell.size) / s * q, 1e-3),
                          sym=dict(origin=snap(org), corners=to(cor, q), edges=to(edg, 2 * q), faces=to(fac, 60 * q)))

    def op_ws(self, st, rec):
        b, s = mkbasis(self.lp, st)
        self._cell(b.wigner_seitz_cell(), s, st, rec)

    def _recip(self, st):
        W = np.array(st["W"])
        det = abs(round(np.linalg.det(np.array(st["B"], dtype=float))))
        pw = int(np.prod(W))
        return 2 * np.pi / (det * st["unit"] * math.sqrt(pw)) * np.sqrt(pw // W)

    def op_bz(self, st, rec):
        b, s = mkbasis(self.lp, st)
        self._cell(b.brillouin_zone(), self._recip(st), st, rec)

    def _grid(self, cell, s, st, rec):
        d = len(s)
        num, end, step, off = st["num"], st["end"], st["step"], st["off"]
        v = np.asarray(cell.vertices, dtype=float) / s
        q = common(v)
        den = [2 * n - 1 if step else n - 1 if end else n for n in num]
        m = math.lcm(*den)
        arg = num
        if step:
            arg = [2 * float(x) * (1 + off / 2) / n for x, n in zip(cell.size, den)]
        if st.get("form") and np.allclose(arg, arg[0], rtol=1e-12):
            arg = arg[0]
        kw = dict(endpoint=True) if end and not step else {}
        if off:
            kw["offset"] = off / 2
        lin = cell.arange(arg, **kw) if step else cell.linspace(arg, **kw)
        name = "steps" if step else "nums"
        to = lambda a: snap(np.array(a).T / s * q * m * 2, 1e-3)
        full = np.array(cell.meshgrid(**{name: arg}, check=False, **kw)).reshape(d, -1)
        part = np.array(cell.meshgrid(arg, **kw) if not step else cell.meshgrid(steps=arg, **kw)).reshape(d, -1)
        nan = np.isnan(part)
        keep = ~nan.any(axis=0)
        if np.any(nan.any(axis=0) != nan.all(axis=0)):
            raise AssertionError("points in part")
        rec["res"] = dict(q=q, m=m, lim=snap((np.asarray(cell.limits).T / s).T * q, 1e-3),
                          lin=[snap(np.asarray(x) / s[k] * q * den[k] * 2, 1e-3) for k, x in enumerate(lin)],
                          all=to(full), kept=to(part[:, keep]))

    def op_wsgrid(self, st, rec):
        b, s = mkbasis(self.lp, st)
        self._grid(b.wigner_seitz_cell(), s, st, rec)

    def op_bzgrid(self, st, rec):
        b, s = mkbasis(self.lp, st)
        self._grid(b.brillouin_zone(), self._recip(st), st, rec)

    def op_rot(self, st, rec):
        from lattpy import spatial as sp
        a = [t * np.pi / 2 for t in st["t"]]
        deg = [t * 90.0 for t in st["t"]]
        p = np.array(st["p"], dtype=float)
        if st.get("form"):
            p3 = sp.rotate3d(p, *a, degree=False)
            p2 = sp.rotate2d(p[:, :2], a[2], degree=False)
        else:
            p3 = [sp.rotate3d(x, *deg) for x in p]
            p2 = [sp.rotate2d(x[:2], deg[2]) for x in p]
        rec["res"] = dict(x=snap(sp.rx(a[0])), y=snap(sp.ry(a[1])), z=snap(sp.rz(a[2])), rot=snap(sp.rot(*a)),
                          p3=snap(p3), p2=snap(p2))

    def op_lengths(self, st, rec):
        ln, u = st["len"], st["unit"]
        ang = [{-1: 120.0, 0: 90.0, 1: 60.0}[c] for c in st["cos2"]]
        v = self.lp.compute_vectors(*[x * u for x in ln], **dict(zip(("alpha", "beta", "gamma"), ang)))
        v = np.array(v, dtype=float).reshape(len(ln), len(ln)) / u
        tri = bool(np.all(np.abs(np.triu(v, 1)) < 1e-9) and np.all(np.diag(v) > 0))
        rec["res"] = dict(gram=snap(2 * v @ v.T), tri=tri)

    # -- shapes (no weights; coordinates y = unit * integer / q)
    def op_shape(self, st, rec):
        lp = self.lp
        sh, u = st["sh"], st["unit"]
        B = np.array(st["B"], dtype=float)
        form = st.get("form", 0)
        d = len(B)
        if sh["k"] == "box":
            lo, hi = np.array(sh["lo"]) * u, np.array(sh["hi"]) * u
            if form and not np.any(lo):
                s = lp.Shape((hi - lo).tolist() if d > 1 else float(hi[0]))
            else:
                s = lp.Shape(hi - lo, pos=lo if form else lo.tolist())
        elif sh["k"] == "prim":
            lo, hi = np.array(sh["lo"]) * u, np.array(sh["hi"]) * u
            s = lp.Shape((hi - lo).tolist(), pos=lo.tolist(), basis=B if form else B.tolist())
        elif sh["k"] == "circle":
            s = lp.Circle(np.array(sh["c"]) * u if form else [x * u for x in sh["c"]], sh["r"] * u)
        elif sh["k"] == "donut":
            s = lp.Donut([x * u for x in sh["c"]], sh["r"] * u, sh["i"] * u)
        else:
            s = lp.ConvexHull(np.array(sh["pts"]) * u)
        y = np.array(st["y"]) * u
        t = st["t"] * u + st["eps"]
        rec.pop("eps")
        inside = s.contains(y) if st.get("notol") else s.contains(y, tol=t)
        rec["res"] = dict(inside=[bool(i) for i in inside], lim=snap(np.asarray(s.limits()) / u), dim=int(s.dim))

    # -- helpers
    def op_grid(self, st, rec):
        ax = None if st["ax"] == 0 else st["ax"] - 1
        kw = dict(dtype=st["dt"]) if st.get("dt") else {}
        if ax == 0 and st.get("form"):
            v = self.lp.vindices(st["lim"], **kw)
        else:
            v = self.lp.vindices(st["lim"], sort_axis=ax, **kw)
        rec["res"] = dict(v=snap(v))

    def op_range(self, st, rec):
        q = st["q"]
        ax = None if st["ax"] == 0 else st["ax"] - 1
        # whole numbers are given as such where asked, next to fractional ones
        whole = dict(int=lambda a: True, mix=lambda a: all(x % q == 0 for x in a)).get(st.get("form"), lambda a: False)
        conv = lambda a: [x // q for x in a] if whole(a) else [x / q for x in a]  # noqa
        lo, hi, step = conv(st["lo"]), conv(st["hi"]), conv(st["step"])
        how = st.get("how", 3)
        if how == 1:
            v = self.lp.vrange(hi, sort_axis=ax)
        elif how == 2:
            v = self.lp.vrange(lo, hi, sort_axis=ax)
        elif how == 4:
            v = self.lp.vrange(lo, hi, step=step[0], sort_axis=ax)
        elif how == 5:
            v = self.lp.vrange(lo, hi, step[0], sort_axis=ax)
        elif how == 6:
            v = self.lp.vrange(lo[0], hi[0], step[0], sort_axis=ax)
        else:
            v = self.lp.vrange(lo, hi, step, sort_axis=ax)
        rec["res"] = dict(v=snap(np.asarray(v) * q))

    def op_weave(self, st, rec):
        arrs = [np.array(a, dtype=t) for a, t in zip(st["arrays"], st["types"])]
        rec.pop("types")
        rec["res"] = dict(v=snap(self.lp.interweave(arrs), big=1e9))

    def op_chain(self, st, rec):
        from lattpy.utils import chain
        items = list(st["items"])
        if st.get("form") == "tuple":
            items = tuple(items)
        v = chain(items, st["cycle"]) if st["cycle"] or st.get("form") else chain(items)
        rec["res"] = dict(v=[list(x) for x in v])

    def op_table(self, st, rec):
        from lattpy.utils import create_lookup_table
        a = np.array(st["a"]) * st["scale"]
        rec.pop("scale")
        if st.get("form") == "int":
            a = np.array(st["a"])
        sh = st.get("shape")
        rec.pop("shape", None)
        if sh:
            a = a.reshape(sh)
        kw = dict(dtype=st["dt"]) if st.get("dt") else {}
        vals, ind = create_lookup_table(a, **kw)
        f = 1 if st.get("form") == "int" else st["scale"]
        if np.shape(ind) != a.shape:
            raise AssertionError("shape of the indices")
        rec["res"] = dict(vals=snap(np.asarray(vals) / f), ind=ints(np.ravel(ind)))

    def op_dtype(self, st, rec):
        from lattpy.utils import min_dtype
        vals = [int(v) for v in st["vals"]]
        arg = vals
        if st.get("form") == "array":
            arg = np.array(vals)
        elif len(vals) == 1 and st.get("form") == "scalar":
            arg = vals[0]
        t = np.dtype(min_dtype(arg, signed=st["signed"]))
        rec["vals"] = [digits(v) for v in vals]
        rec["res"] = dict(kind=t.kind, bits=8 * t.itemsize)

    def op_measure(self, st, rec):
        u, v = np.array(st["u"]) * st["unit"], np.array(st["v"]) * st["unit"]
        rec["res"] = dict(d=root(self.lp.distances(u, v), st["unit"]),
                          d1=root([self.lp.distance(a, b) for a, b in zip(u, v)], st["unit"]))

    def op_vectors(self, st, rec):
        v = np.array(st["B"]) * st["unit"]
        rec["res"] = dict(vol=snap(self.lp.cell_volume(v) / st["unit"] ** len(v)),
                          size=snap(self.lp.cell_size(v) / st["unit"]))

    def op_lookup(self, st, rec):
        lp = self.lp
        d = len(st["pos"][0])
        latt = lp.Lattice(np.eye(d) * 100 if d > 1 else 100.0)
        for n, p in zip(st["names"], st["pos"]):
            latt.add_atom(p, n)
        at = latt.atoms
        where = lambda a: [i for i, b in enumerate(at) if b is a][0]
        names = sorted(set(st["names"]))
        N = range(len(at))
        dic = latt.get_base_atom_dict(atleast2d=bool(st.get("form")) and d > 1)
        rec["res"] = dict(
            byname=[[n, [int(i) for i in latt.get_alpha(n)]] for n in names + ["nobody"]],
            byatom=[int(latt.get_alpha(a)) for a in at],
            byindex=[int(latt.get_alpha(i)) for i in N],
            atoms=[where(latt.get_atom(i)) for i in N] if st.get("form") else [where(latt.get_atom(np.int64(i))) for i in N],
            atname=[[n, where(latt.get_atom(n))] for n in names],
            dict=[[getattr(k, "name", k), [snap(p) for p in v]] for k, v in dic.items()])
        try:
            latt.get_atom("nobody")
            rec["res"]["byname"].append(["nobody", [99]])
        except ValueError:
            pass

    # -- dispersion paths (coordinates unit * integer)
    def op_path(self, st, rec):
        P = self.lp.DispersionPath
        self.objs[st["o"]] = ("path", P(st["dim"]) if st["dim"] else P(), st["unit"])

    def op_ppreset(self, st, rec):
        P = self.lp.DispersionPath
        f = getattr(P, st["how"] + "_path")
        self.objs[st["o"]] = ("path", f(np.pi / st["unit"]) if st["unit"] != np.pi else f(), st["unit"])

    def _path(self, st):
        return self.objs[st["o"]][1], self.objs[st["o"]][2]

    def op_padd(self, st, rec):
        p, u = self._path(st)
        how = st.get("form", "add")
        if how in ("gamma", "x", "m", "r"):
            a = np.pi / u
            r = p.gamma() if how == "gamma" else getattr(p, how)(a)
        elif st["name"]:
            r = p.add([x * u for x in st["p"]], st["name"])
        else:
            buf = np.array(st["p"]) * u
            r = p.add(buf)
            buf[...] = 7.25  # the caller may use its array for something else
        if r is not p:
            raise AssertionError("path is not returned")

    def op_padds(self, st, rec):
        p, u = self._path(st)
        pts = [[x * u for x in q] for q in st["ps"]]
        if not st["names"] and pts and len({len(q) for q in pts}) == 1:
            pts = np.array(pts)
        r = p.add_points(pts, st["names"]) if st["names"] else p.add_points(pts)
        if isinstance(pts, np.ndarray):
            pts[...] = 7.25
        if r is not p:
            raise AssertionError("path is not returned")

    def op_pcycle(self, st, rec):
        p, u = self._path(st)
        if p.cycle() is not p:
            raise AssertionError("path is not returned")

    def op_pbuild(self, st, rec):
        p, u = self._path(st)
        m = st["m"]
        v = p.build(m) if st.get("form") else p.build(n_sect=m)
        t, lab = p.get_ticks()
        rec["res"] = dict(vecs=snap(np.asarray(v) / u * max(1, m - 1)), ticks=ints(t), labels=[str(x) for x in lab])

    # -- atoms
    def _fresh(self, a):
        i = a.index
        ok = isinstance(i, int) and i not in self.seen
        self.seen.add(i)
        return bool(ok)

    def op_atom(self, st, rec):
        kw = dict(st["params"])
        if kw.get("color") == "None":
            kw.pop("color")
        if kw.get("radius") == "0.2":
            kw.pop("radius")
        if st["weight"] != "1.0":
            kw["weight"] = st["weight"]
        a = self.lp.Atom(st["name"], **kw) if st["name"] else self.lp.Atom(**kw)
        self.objs[st["o"]] = ("atom", a)
        rec["fresh"] = self._fresh(a)

    def op_acopy(self, st, rec):
        a = self.objs[st["src"]][1]
        b = a.copy() if st.get("form") else __import__("copy").copy(a)
        self.objs[st["o"]] = ("atom", b)
        rec["fresh"] = self._fresh(b) and b is not a

    def op_aop(self, st, rec):
        a = self.objs[st["o"]][1]
        k, v, how = st["key"], st["v"], st["how"]
        res = rec["res"] = dict(v="", b=False)
        if how == "getitem":
            res["v"] = str(a[k])
        elif how == "getattr":
            res["v"] = str(getattr(a, k))
        elif how == "get":
            res["v"] = str(a.get(k, v))
        elif how == "in":
            res["b"] = bool(k in a)
        elif how == "setitem":
            a[k] = v
        elif how == "setattr":
            setattr(a, k, v)
        elif how == "delitem":
            del a[k]
        elif how == "pop":
            res["v"] = str(a.pop(k, v))
        elif how == "update":
            a.update({k: v})
        elif how == "mutate":       # changes a value in place
            if k not in a:
                a[k] = [0]
            a[k].append(v)
            rec["v"] = str(a[k])

    def op_aeq(self, st, rec):
        a = self.objs[st["o"]][1]
        other = st["other"]
        b = other
        if st.get("p"):
            b = self.objs[st["p"]][1]
        e = a == b
        if bool(e) != bool(b == a) or bool(a != b) == bool(e):
            raise AssertionError("comparison is not symmetric")
        rec["res"] = dict(eq=bool(e), hash=hash(a) == hash(other) == hash(b))

    # -- observations
    def observe(self, ob):
        if ob[0] == "path":
            p, u = ob[1], ob[2]
            v = dict(t="path", pts=[snap(np.asarray(x, dtype=float) / u) for x in p.points], n=int(p.num_points),
                     labels=[str(x) for x in p.labels], dim=int(p.dim))
            same = len({len(x) for x in p.points}) == 1
            if len(p.points) > 1 and same:
                v["dist"] = root(p.distances(), u)
                v["edges"] = [[snap(np.asarray(a, dtype=float) / u), snap(np.asarray(b, dtype=float) / u)] for a, b in p.edges()]
                d0 = float(np.linalg.norm(np.asarray(p.points[1], dtype=float) - p.points[0]))
                if d0 > 0:
                    v["scale"] = root(np.asarray(p.scales()) * d0 / u)
            return v
        a = ob[1]
        keys = [str(k) for k in a]
        d = a.dict()
        return dict(t="atom", name=a.name, weight=str(a.weight), keys=keys, vals=[str(a[k]) for k in keys], len=len(a),
                    dname=d["name"], dkeys=sorted(d), dvals=[str(d[k]) for k in keys])


def run_case(lp, case, limit=20):
    m = Tools(lp)
    out = []
    signal.signal(signal.SIGPROF, _alarm)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for st in case:
            signal.setitimer(signal.ITIMER_PROF, limit)     # processor time
            try:
                rec = m.run(st)
            except Timeout:
                rec = {k: v for k, v in st.items() if k not in ("obs", "unit", "ctor", "form")}
                rec.update(exc="Timeout", res={}, vs=[])
                rec.setdefault("o", "-")
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            out.append(rec)
            if rec["exc"] == "Timeout" or (rec["exc"] and st["op"] in ("path", "atom", "acopy")):
                break
    return out
