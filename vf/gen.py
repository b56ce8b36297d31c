"""Generates histories: seeded, wide ranges of lattices, shapes and operations."""
import math
import random

# View fields
CFG = ["cfg", "ana", "built"]
SITES = ["sites", "n", "pos"]
NB = ["dvals", "all", "dist"]
VIEWS = ["uniq", "near", "unear", "uper", "iter", "uiter", "pairs", "upairs", "chk", "adj", "dmap", "csr", "bsr"]
PER = ["reg", "perf", "per", "pax", "mind"]
FULL = CFG + SITES + NB + VIEWS + PER


def minor(B, r, c):
    return [[x for k, x in enumerate(row) if k != c] for i, row in enumerate(B) if i != r]


def det(B):
    if len(B) == 1:
        return B[0][0]
    if len(B) == 2:
        return B[0][0] * B[1][1] - B[0][1] * B[1][0]
    if len(B) == 4:
        return sum((-1) ** k * B[0][k] * det(minor(B, 0, k)) for k in range(4))
    a, b, c = B
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0])
            + a[2] * (b[0] * c[1] - b[1] * c[0]))


def adj(B):
    d = det(B)
    s = 1 if d > 0 else -1
    if len(B) == 1:
        return [[s]]
    if len(B) == 2:
        return [[s * B[1][1], -s * B[0][1]], [-s * B[1][0], s * B[0][0]]]

    if len(B) == 4:
        return [[s * (-1) ** (i + k) * det(minor(B, k, i)) for k in range(4)] for i in range(4)]

    def C(r1, c1, r2, c2):
        return B[r1][c1] * B[r2][c2] - B[r1][c2] * B[r2][c1]
    M = [[C(1, 1, 2, 2), -C(0, 1, 2, 2), C(0, 1, 1, 2)],
         [-C(1, 0, 2, 2), C(0, 0, 2, 2), -C(0, 0, 1, 2)],
         [C(1, 0, 2, 1), -C(0, 0, 2, 1), C(0, 0, 1, 1)]]
    return [[s * x for x in r] for r in M]


def frac(B, x):
    """Numerators (over |det B|) of the lattice coordinates of x."""
    a = adj(B)
    return [sum(x[i] * a[i][k] for i in range(len(B))) for k in range(len(B))]


def matvec(n, B):
    return [sum(n[i] * B[i][k] for i in range(len(B))) for k in range(len(B))]


NAMED = [   # ctor, B, W, unit for a = 1
    (("chain", 1.0), [[1]], [1], 1.0),
    (("square", 1.0), [[1, 0], [0, 1]], [1, 1], 1.0),
    (("square", 0.5), [[1, 0], [0, 1]], [1, 1], 0.5),
    (("rectangular", 2.0, 1.0), [[2, 0], [0, 1]], [1, 1], 1.0),
    (("rectangular", 1.0, 3.0), [[1, 0], [0, 3]], [1, 1], 1.0),
    (("oblique", math.pi / 4, 1.0, math.sqrt(2)), [[1, 0], [1, 1]], [1, 1], 1.0),
    (("oblique", math.pi / 3, 2.0, 2.0), [[2, 0], [1, 1]], [1, 3], 1.0),
    (("oblique", 2 * math.pi / 3, 1.0, 1.0), [[2, 0], [-1, 1]], [1, 3], 0.5),
    (("hexagonal", 1.0), [[3, 1], [3, -1]], [1, 3], 0.5),
    (("hexagonal", 2.0), [[3, 1], [3, -1]], [1, 3], 1.0),
    (("hexagonal3d", 1.0, 2.0), [[3, 1, 0], [3, -1, 0], [0, 0, 2]], [1, 3, 1], 0.5),
    (("hexagonal3d", 1.0, 1.0), [[3, 1, 0], [3, -1, 0], [0, 0, 1]], [1, 3, 1], 0.5),
    (("sc", 1.0), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [1, 1, 1], 1.0),
    (("sc", 2.0), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [1, 1, 1], 2.0),
    (("fcc", 1.0), [[1, 1, 0], [1, 0, 1], [0, 1, 1]], [1, 1, 1], 0.5),
    (("bcc", 1.0), [[1, 1, 1], [1, -1, 1], [-1, 1, 1]], [1, 1, 1], 0.5),
    (("hypercubic", 1, 1.0), [[1]], [1], 1.0),
    (("hypercubic", 2, 1.5), [[1, 0], [0, 1]], [1, 1], 1.5),
    (("hypercubic", 4, 1.0), [[int(i == j) for j in range(4)] for i in range(4)], [1] * 4, 1.0),
    (("hypercubic", 3, 1.0), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [1, 1, 1], 1.0),
]
UNITS = [1.0, 1.0, 0.5, 0.7, 2.0, 1.42, 3.1, 1.0, 0.5, 0.7, 2.0, 1.42, 3.1, 0.05, 12.5, 250.0]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.wide = False        # shapes beyond 16 bit indices

    # -- geometry
    def unit(self, units=UNITS):
        """A length of the grid; some make distances with a five behind the last decimal the library keeps."""
        r = self.r
        if r.random() < 0.9:
            return r.choice(units)
        return (r.randint(300000, 3000000) + 0.5) * 1e-6 / r.choice([1, 1, 2, 3])

    def basis(self, dim=None, kind=None, scale=None, maxdet=60):
        """A basis: dict(B, W, unit, ctor)."""
        r = self.r
        dim = dim or r.choice([1, 2, 2, 2, 3])
        kind = kind or r.choice(["named", "named", "diag", "axis", "random", "random"])
        if kind == "named":
            c, B, W, u = r.choice([x for x in NAMED if len(x[1]) == dim])
            f = scale or r.choice([1, 2, 2, 3] if dim < 3 else [1, 2])
            if abs(det(B)) * f ** dim > maxdet:
                f = 1
            B = [[f * x for x in row] for row in B]
            return dict(B=B, W=list(W), unit=u / f, ctor=list(c))
        W = [1] * dim
        if dim > 1 and kind in ("diag", "axis") and r.random() < 0.15:
            # axes of nearly the same length
            w = r.choice({2: [100, 300], 3: [40, 60]}.get(dim, [8, 12]))      # (TLC computes with 32 bit)
            W = [w + r.randint(0, 2) for _ in range(dim)]
            unit = r.choice([1.0, 1.0, 2.0]) / math.sqrt(w)
            B = [[(2 if i == j else 0) for j in range(dim)] for i in range(dim)]
            return dict(B=B, W=W, unit=unit, ctor=r.choice(["array", "list", "basis"]))
        if dim > 1 and r.random() < 0.25:
            W = [r.choice([1, 1, 2, 3, 5]) for _ in range(dim)]
        while True:
            if kind == "diag":
                B = [[(r.choice([1, 2, 2, 3, 4]) if i == j else 0) for j in range(dim)] for i in range(dim)]
            elif kind == "axis":
                # diagonal with one skewed vector
                B = [[(r.choice([2, 2, 3]) if i == j else 0) for j in range(dim)] for i in range(dim)]
                if dim > 1:
                    i, j = r.sample(range(dim), 2)
                    B[i][j] = r.choice([-2, -1, 1, 2])
            else:
                m = {1: 4, 2: 3, 3: 2, 4: 1}[dim]
                B = [[r.randint(-m, m) for _ in range(dim)] for _ in range(dim)]
            d = abs(det(B))
            if d == 0 or d > maxdet:
                continue
            # not too flat: the shortest height must not be tiny
            if max(abs(x) for row in adj(B) for x in row) > 4 * max(d, 2):
                continue
            break
        ctor = "array"
        unit = self.unit()
        if dim == 1 and r.random() < 0.4:
            ctor = "scalar"
        elif r.random() < 0.3:
            ctor = r.choice(["list", "basis"])
        if unit in (1.0, 2.0) and all(w == 1 for w in W) and r.random() < 0.3:
            ctor = "int"
        return dict(B=B, W=W, unit=unit, ctor=ctor)

    def new(self, g, o="a", obs=None):
        return dict(op="new", o=o, B=g["B"], W=g["W"], unit=g["unit"], ctor=g["ctor"],
                    obs=[[o, obs]] if obs else [])

    # -- atoms
    def atom_positions(self, g, na, spread=0.25):
        """Distinct positions, not equivalent by lattice translations."""
        r, B = self.r, g["B"]
        d, dt = len(B), abs(det(B))
        if na > dt:
            na = dt
        out = []
        tries = 0
        while len(out) < na:
            tries += 1
            if tries > 400:
                break
            if not out and r.random() < 0.7:
                x = [0] * d
            else:
                # grid point of the unit cell (or outside of it)
                m = max(sum(abs(B[i][k]) for i in range(d)) for k in range(d))
                x = [r.randint(-m, m) for _ in range(d)]
                f = frac(B, x)
                if r.random() > spread:
                    n = [-(v // dt) for v in f]
                    x = [a + b for a, b in zip(x, matvec(n, B))]
            if any(all((v % dt) == 0 for v in frac(B, [a - b for a, b in zip(x, y)])) for y in out):
                continue
            out.append(x)
        return out

    def atoms(self, g, na=None, o="a", names=None, nb=0, obs=None, mass=False):
        r = self.r
        na = na or r.choice([1, 1, 2, 2, 3])
        pos = self.atom_positions(g, na)
        names = names or r.choice([["A", "B", "C"], ["A", "A", "B"], ["A", "B", "A"], ["B", "A", "C"]])
        out = []
        for i, p in enumerate(pos):
            via = "none" if not any(p) and r.random() < 0.3 else r.choice(["cart", "cart", "prim", "obj"])
            st = dict(op="atom", o=o, name=names[i], pos=p, nb=nb if i == len(pos) - 1 else 0, via=via,
                      mass=r.choice([1, 2, 3, 7, 0]) if mass else 1, obs=[[o, obs]] if obs else [])
            out.append(st)
        return out, pos, names[:len(pos)]

    def connections(self, pos, names, o="a", cmax=2, obs=None, an=None, cons=None):
        """Steps configuring connections; the last one analyses."""
        r = self.r
        n = len(pos)
        if cons is None:
            cons = n == 1 or r.random() < 0.4
        if cons:
            c = r.randint(1, cmax)
            if r.random() < 0.8:
                return [dict(op="cons", o=o, c=c, an=True, obs=[[o, obs]] if obs else [])]
            return [dict(op="cons", o=o, c=c, an=False, obs=[]),
                    dict(op="ana", o=o, obs=[[o, obs]] if obs else [])]
        out = []
        places = list(range(n))
        some = False
        for i in places:
            for j in places:
                if j < i:
                    continue
                c = r.choice([0] + list(range(1, cmax + 1)))
                if c == 0 and not (i == n - 1 and j == n - 1 and not some):
                    continue
                c = max(c, 1)
                some = True
                by = r.choice(["index", "index", "name"])
                if by == "name":
                    a = [k for k in places if names[k] == names[i]]
                    b = [k for k in places if names[k] == names[j]]
                else:
                    a, b = [i], [j]
                if r.random() < 0.3:
                    a, b = b, a
                out.append(dict(op="con", o=o, **{"as": a}, bs=b, c=c, by=by, an=False, obs=[]))
        if r.random() < 0.3:
            out[-1]["an"] = True
            out[-1]["obs"] = [[o, obs]] if obs else []
        else:
            out.append(dict(op="ana", o=o, obs=[[o, obs]] if obs else []))
        return out

    # -- shapes
    def nsites(self, g, na, lo, hi, q):
        v = 1.0
        for a, b in zip(lo, hi):
            v *= (b - a) / q + 1
        return v * na / abs(det(g["B"]))

    def box(self, g, na, target=30, far=0.15, q=None, thin=0.2):
        """A box in Cartesian coordinates with about `target` sites."""
        r = self.r
        d = len(g["B"])
        q = q or r.choice([1, 1, 1, 2, 3])
        vol = max(1.0, target * abs(det(g["B"])) / na)
        side = vol ** (1.0 / d)
        f = [r.uniform(0.4, 1.9) for _ in range(d)]
        if d > 1 and r.random() < thin:
            k = r.randrange(d)
            f[k] = r.choice([0.0, 0.3, 3.0])
        size = [max(0, int(round(side * x * q))) for x in f]
        k = r.random()
        if k < 0.35:
            lo = [0] * d
        elif k < 1 - far:
            lo = [r.randint(-6 * q, 6 * q) for _ in range(d)]
        else:
            m = r.choice([3000, 70000]) if self.wide else 3000
            lo = [r.randint(-m, m) for _ in range(d)]
        return dict(k="box", q=q, lo=lo, hi=[a + b for a, b in zip(lo, size)])

    def prim(self, g, na, target=30, q=None, far=0.1):
        r = self.r
        d = len(g["B"])
        q = q or r.choice([1, 1, 1, 2])
        side = max(1.0, target / na) ** (1.0 / d)
        size = [max(1, int(round(side * r.uniform(0.5, 1.7)))) for _ in range(d)]
        if q > 1:
            size = [s * q + r.choice([0, 0, 1]) for s in size]
        k = r.random()
        if k < 0.4:
            lo = [0] * d
        elif k < 1 - far:
            lo = [r.randint(-4 * q, 4 * q) for _ in range(d)]
        else:
            m = r.choice([300, 40000]) if self.wide else 300
            lo = [q * r.randint(-m, m) for _ in range(d)]
        return dict(k="prim", q=q, lo=lo, hi=[a + b for a, b in zip(lo, size)])

    def round_shape(self, g, na, target=30):
        r = self.r
        d = len(g["B"])
        W = g["W"]
        vol = max(2.0, target * abs(det(g["B"])) / na) * math.sqrt(math.prod(W))
        rad = {1: vol / 2, 2: math.sqrt(vol / math.pi), 3: (vol / 4.2) ** (1 / 3)}[d] * r.uniform(0.7, 1.3)
        q = r.choice([1, 1, 2])
        c = [r.randint(-5 * q, 5 * q) for _ in range(d)] if r.random() < 0.6 else [0] * d
        if self.wide and r.random() < 0.15:
            c = [r.randint(-40000, 40000) for _ in range(d)]
        # radii that meet sites exactly are wanted
        r2 = max(1, int(rad * rad * q * q))
        if r.random() < 0.35:
            i2 = max(1, int(r2 * r.uniform(0.05, 0.6)))
            return dict(k="donut", q=q, c=c, r2=r2, i2=i2)
        return dict(k="circle", q=q, c=c, r2=r2)

    def hull(self, g, na, target=30):
        r = self.r
        d = len(g["B"])
        vol = max(4.0, 2.2 * target * abs(det(g["B"])) / na)
        m = max(2, int(vol ** (1.0 / d)))
        q = r.choice([1, 1, 2]) if d == 2 else 1
        for _ in range(50):
            n = r.choice([3, 4, 5, 6]) if d == 2 else r.choice([4, 5, 6])
            o = [r.randint(-4, 4) for _ in range(d)]
            pts = [[q * (o[k] + r.randint(0, m)) for k in range(d)] for _ in range(n)]
            if d == 2:
                ok = any(abs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])) > 3 * q * q
                         for a in pts for b in pts for c in pts)
            else:
                ok = any(abs(det([[x - y for x, y in zip(p, pts[0])] for p in (a, b, c)])) > 6
                         for a in pts for b in pts for c in pts)
            if ok:
                return dict(k="hull", q=q, pts=pts)
        return self.box(g, na, target)

    def shape(self, g, na, target=30, kinds=None):
        r = self.r
        d = len(g["B"])
        kinds = kinds or ["box", "box", "box", "prim", "prim", "round", "hull"]
        k = r.choice([x for x in kinds if not (x == "hull" and d == 1)])
        if k == "round" and d == 1:
            k = "box"
        return getattr(self, {"round": "round_shape"}.get(k, k))(g, na, target)

    def callback(self, g):
        r = self.r
        d = len(g["B"])
        k = r.choice(["ind", "pos"])
        c = [r.randint(-1, 2) for _ in range(d + (k == "ind"))]
        if not any(c):
            c[0] = 1
        if r.random() < 0.6:
            m = r.choice([2, 3, 4])
            return dict(k=k, c=c, m=m, r=r.randrange(m))
        return dict(k=k, c=c, m=0, r=r.randint(-3, 3))

    def build(self, g, sh, o="a", cb=None, mn=0, per=(), obs=None, jobs=None, dtype=None):
        r = self.r
        prim = sh["k"] == "prim"
        st = dict(op="build", o=o, sh=sh, cb=cb or dict(k="none"), mn=mn, prim=prim, per=list(per),
                  baddim=False, obs=[[o, obs]] if obs else [])
        if sh["k"] == "box":
            st["as"] = "origin" if not any(sh["lo"]) and r.random() < 0.6 else r.choice(["list", "shape"])
        elif prim:
            if not any(sh["lo"]) and r.random() < 0.6:
                st["as"] = "origin"
            elif sh["q"] == 1:
                st["as"] = r.choice(["int", "float"])
        if len(per) == 1 and r.random() < 0.5:
            st["scalar"] = True
        if jobs is None:
            jobs = r.choice([None, None, 1, 2, -1])
        if jobs:
            st["jobs"] = jobs
        if dtype:
            st["dtype"] = dtype
        if r.random() < 0.3:
            st["arrays"] = True
        return st

    def dtype(self):
        return self.r.choice([None] * 6 + ["int64", "int32"])

    # -- complete starts
    def start(self, dim=None, na=None, cmax=2, kind=None, obs=None, maxdet=60, o="a", mass=False, scale=None):
        g = self.basis(dim, kind, scale, maxdet)
        h = [self.new(g, o)]
        st, pos, names = self.atoms(g, na, o, mass=mass)
        h += st
        h += self.connections(pos, names, o, cmax, obs)
        return g, pos, names, h
