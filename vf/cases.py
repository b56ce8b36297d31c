"""Generates calls and histories for ToolTrace (bases, shapes, paths, atoms, helpers)."""
import math
from .gen import Gen, det, adj, frac, matvec     # noqa

QS = [1, 1, 2, 3, 4, 7]


def common_args(g):
    return dict(B=g["B"], W=g["W"], unit=g["unit"], ctor=g["ctor"])


def flip(G, g):
    """Sometimes exchanges or inverts vectors (left-handed bases)."""
    r = G.r
    B = [list(v) for v in g["B"]]
    if len(B) > 1 and r.random() < 0.3:
        i, j = r.sample(range(len(B)), 2)
        B[i], B[j] = B[j], B[i]
        return dict(g, B=B, ctor="array")
    if r.random() < 0.2:
        i = r.randrange(len(B))
        B[i] = [-x for x in B[i]]
        return dict(g, B=B, ctor="array")
    return g


def num(r, wide=False):
    return r.randint(-4000, 4000) if wide else r.randint(-12, 12)


def h_coords(G, i):
    r = G.r
    g = flip(G, G.basis(dim=4 if r.random() < 0.08 else None, maxdet=60))
    d = len(g["B"])
    a = common_args(g)
    wide = r.random() < 0.2
    pt = lambda: [num(r, wide) for _ in range(d)]
    pts = lambda: [pt() for _ in range(r.choice([1, 2, 3, 4, 6]))]
    q = r.choice(QS)
    apos = G.atom_positions(g, r.choice([1, 2, 3]))
    s = [pt() + [r.randrange(len(apos))] for _ in range(r.randint(1, 5))]
    h = [dict(op="transform", f=pts(), q=r.choice(QS), deep=r.random() < 0.3, **a),
         dict(op="itransform", x=pts(), q=q, **a),
         dict(op="translate", x=pt(), q=q, n=pts(), **a),
         dict(op="itranslate", x=pts(), q=r.choice(QS), **a),
         dict(op="estimate", x=pts(), q=r.choice([1, 3, 4, 5]), form=r.choice(["", "scalar"]), **a),
         dict(op="position", apos=apos, s=s, **a)]
    if not wide:
        # next to the boundaries of a cell
        q = r.choice([1000, 10000])
        near = [[c * q + r.choice([-1, 0, 0, 1]) for c in matvec([r.randint(-3, 3) for _ in range(d)], g["B"])]
                for _ in range(3)]
        h += [dict(op="itranslate", x=near, q=q, **a), dict(op="estimate", x=near, q=q, form="", **a)]
    r.shuffle(h)
    return h


def h_recip(G, i):
    r = G.r
    g = flip(G, G.basis(dim=4 if r.random() < 0.1 else None, maxdet=30))
    d = len(g["B"])
    a = common_args(g)
    q = r.choice([1, 2, 3])
    one = [[q if i == j else 0 for j in range(d)] for i in range(d)]
    ms = [one]
    for _ in range(3):
        m = [list(x) for x in one]
        k = r.randrange(4)
        if k == 0:      # a single wrong entry
            m[r.randrange(d)][r.randrange(d)] += r.choice([-q, -1, 1, q])
        elif k == 1:
            m = [[x * r.choice([1, -1, 2]) for x in row] for row in m]
        elif k == 2:
            r.shuffle(m)
        else:
            m = [[r.choice([0, 0, q, -q]) for _ in range(d)] for _ in range(d)]
        ms.append(m)
    shape = [r.choice([1, 2, 3, 5, 7, 11]) for _ in range(d)]
    if r.random() < 0.2:
        shape = [r.choice([13, 40, 300, 1000] if d < 4 else [7, 13, 40]) for _ in range(d)]
    n = [[r.randrange(x) for x in shape] for _ in range(r.choice([1, 2, 5, 8]))]
    if all(x <= 5 for x in shape) and r.random() < 0.5:
        n = [[]]
        for x in shape:
            n = [u + [v] for u in n for v in range(x)]
    h = [dict(op="cell", **a)]
    if d < 4:
        h += [dict(op="recip", form=r.choice([0, 1]), **a)] + [dict(op="isrecip", m=m, q=q, **a) for m in ms]
    h += [dict(op="number", shape=shape, n=n, **a)]
    if all(w == 1 for w in g["W"]):
        h.append(dict(op="vectors", B=g["B"], unit=g["unit"]))
    d = r.choice([1, 2, 3])
    k = r.randint(1, 5)
    h.append(dict(op="measure", u=[[num(r) for _ in range(d)] for _ in range(k)],
                  v=[[num(r) for _ in range(d)] for _ in range(k)], unit=r.choice([1.0, 0.5, 1.3])))
    return h


def cell_fits(B, W, q):
    """Numbers of the specification stay below 32 bit."""
    d, dt = len(B), abs(det(B))
    pw = math.prod(W)
    ln = [sum(w * x * x for w, x in zip(W, v)) for v in B]
    top = sum(ln)
    # corners: |y| <= sqrt(top)/2, denominators up to 2*pw*dt
    den = 2 * pw * dt
    rng = math.sqrt(top / min(W)) * 2
    num_ = den * rng
    return (num_ ** 2 * max(W) * d < 1.5e9 and top * (max(W) * rng) ** (d - 1) * 2 * d < 1.5e9
            and (q * rng * 2) ** 2 * max(W) * d < 1.5e9)


def recip_of(B, W):
    A = adj(B)
    d = len(B)
    return [[A[i][j] for i in range(d)] for j in range(d)], [math.prod(W) // w for w in W]


def h_cell(G, i):
    r = G.r
    while True:
        g = flip(G, G.basis(maxdet=r.choice([8, 12, 30])))
        q = r.choice([2, 3, 4, 5])
        B2, W2 = recip_of(g["B"], g["W"])
        ops = [x for x, ok in (("ws", cell_fits(g["B"], g["W"], q)), ("bz", cell_fits(B2, W2, q))) if ok]
        if ops:
            break
    a = common_args(g)
    h = []
    for op in ops:
        B = g["B"] if op == "ws" else B2
        d = len(B)
        m = max(abs(x) for v in B for x in v)
        x = [[0] * d]
        for _ in range(14):
            k = r.random()
            if k < 0.5:     # around the origin
                x.append([r.randint(-m * q, m * q) // r.choice([1, 2, 3]) for _ in range(d)])
            elif k < 0.8:   # around half of a lattice vector
                v = matvec([r.choice([-1, 0, 0, 1]) for _ in range(d)], B)
                x.append([c * q // 2 + r.choice([-1, 0, 1]) for c in v])
            else:           # far away
                x.append([r.randint(-3 * m * q, 3 * m * q) for _ in range(d)])
        h.append(dict(op=op, x=x, q=q, **a))
        den = 2 * abs(det(B)) * math.prod(g["W"] if op == "ws" else W2)
        if den * m * 6 * 3 * max(W2) < 4000:
            small = den * m * 6 * 3 * max(W2) < 1500
            num_ = [r.choice([2, 3, 4, 5])] * d
            if d == 2 and r.random() < 0.4:
                num_ = [r.choice([2, 3, 4]), r.choice([2, 3, 6])]
            step = small and r.random() < 0.4
            if step:
                num_ = [r.choice([2, 3])] * d
            h.append(dict(op=op + "grid", num=num_, end=r.random() < 0.4, form=r.choice([0, 1]), step=step,
                          off=r.choice([0, 0, 1, 2]) if small else 0, **a))
    return h


# ------------------------------------------------------------------------------------
def shape_points(r, d, lim, sh, n=18):
    out = []
    for _ in range(n):
        out.append([r.randint(a - 3, b + 3) if r.random() < 0.6 else r.choice([a, b, a - 1, b + 1, (a + b) // 2])
                    for a, b in lim])
    return out


def h_shape(G, i):
    r = G.r
    h = []
    for _ in range(4):
        k = r.choice(["box", "box", "prim", "circle", "donut", "hull", "hull"])
        d = r.choice([1, 2, 2, 3])
        if k == "hull" and d == 1:
            d = 2
        big = r.random() < 0.15
        c = lambda m=9: r.randint(-m, m) * (40 if big else 1)
        B = [[1 if i == j else 0 for j in range(d)] for i in range(d)]
        exact = r.random() < 0.6
        unit = r.choice([1.0, 0.5, 0.25, 2.0, 2.0 ** -14]) if exact else r.choice([0.1, 0.3, 1.7, 1 / 3, 1e-4])
        eps = 0.0 if exact else 1e-9
        t = r.choice([0, 0, 0, 1, 2])
        if k in ("box", "prim"):
            lo = [c() if r.random() < 0.8 else 0 for _ in range(d)]
            if r.random() < 0.2:
                lo = [0] * d
            hi = [x + r.choice([0, 1, 2, 3, 5, 8, 12]) for x in lo]
            sh = dict(k=k, q=1, lo=lo, hi=hi)
            if k == "prim":
                g = flip(G, dict(G.basis(dim=d, kind=r.choice(["diag", "axis", "random"]), maxdet=12), W=[1] * d))
                B = [list(v) for v in g["B"]]
                cs = [[]]
                for a, b in zip(lo, hi):
                    cs = [x + [y] for x in cs for y in (a, b)]
                cs = [matvec(x, B) for x in cs]
                lim = [(min(x[j] for x in cs), max(x[j] for x in cs)) for j in range(d)]
                eps = 1e-9      # the inverse of the basis is rounded
            else:
                lim = list(zip(lo, hi))
        elif k in ("circle", "donut"):
            ce = [c() for _ in range(d)]
            ro = r.choice([1, 2, 3, 5, 5, 10, 13])
            sh = dict(k=k, q=1, c=ce, r=ro)
            if k == "donut":
                sh["i"] = r.randint(0, ro)
            lim = [(x - ro, x + ro) for x in ce]
        else:
            while True:
                n = r.randint(d + 1, 7 if d == 2 else 6)
                pts = [[c(6) for _ in range(d)] for _ in range(n)]
                if any(abs(det([[x - y for x, y in zip(pts[j], pts[0])] for j in js])) > 0 for js in combos(n, d)):
                    break
            sh = dict(k=k, q=1, pts=pts)
            lim = [(min(p[j] for p in pts), max(p[j] for p in pts)) for j in range(d)]
            eps = 1e-9
        y = shape_points(r, d, lim, sh)
        if k == "hull":
            y += [list(p) for p in sh["pts"]]
            y += [[(a + b) // 2 for a, b in zip(*r.sample(sh["pts"], 2))] for _ in range(4)]
        if k in ("circle", "donut"):
            R = [sh["r"]] + ([sh["i"]] if k == "donut" else [])
            for rr in R:
                j = r.randrange(d)
                y.append([x + (rr if m == j else 0) for m, x in enumerate(sh["c"])])
                if d > 1 and rr % 5 == 0:
                    y.append([x + [3 * rr // 5, -4 * rr // 5, 0][m] for m, x in enumerate(sh["c"])])
                y.append([x - (rr + 1 if m == j else 0) for m, x in enumerate(sh["c"])])
                y.append([x - (rr - 1 if m == j else 0) for m, x in enumerate(sh["c"])])
        st = dict(op="shape", sh=sh, B=B, y=y, t=t, unit=unit, eps=eps, form=r.choice([0, 1]))
        if t == 0 and eps == 0.0 and exact and r.random() < 0.5:
            st["notol"] = True
        if t == 0 and k in ("donut", "hull") and r.random() < 0.5:
            st["notol"] = True
        h.append(st)
    return h


def combos(n, d):
    import itertools
    return itertools.combinations(range(1, n), d)


# ------------------------------------------------------------------------------------
def h_path(G, i):
    r = G.r
    units = [1.0, 0.5, math.pi, 1.3]
    h = []
    names = "ab"[:r.choice([1, 1, 2])]
    dims, npts, d0 = {}, {}, {}
    for o in names:
        dim = r.choice([0, 0, 1, 2, 3])
        dims[o] = dim
        d0[o] = dim or r.choice([1, 2, 3])
        npts[o] = 0
        h.append(dict(op="path", o=o, dim=dim, unit=r.choice(units), obs=[o]))
        if r.random() < 0.15:
            how = r.choice(["chain", "square", "cubic"])
            dims[o] = d0[o] = dict(chain=1, square=2, cubic=3)[how]
            npts[o] = 5 if how == "cubic" else 3 if how == "chain" else 4
            h.append(dict(op="ppreset", o=o, how=how, unit=h[-1]["unit"], obs=[o]))
    # points have at least the dimension of the path
    def pt(o):
        d = d0[o]
        n = r.randint(d, 3) if dims[o] else d
        return [r.randint(-6, 6) for _ in range(n)]
    for _ in range(r.randint(3, 9)):
        o = r.choice(names)
        k = r.random()
        if npts[o] == 0 and k > 0.7:
            k = 0.1
        if k < 0.3:
            h.append(dict(op="padd", o=o, p=pt(o), name=r.choice(["", "", "G", "X", "K"])))
            npts[o] += 1
        elif k < 0.5:
            f = r.choice(["gamma", "x", "m", "r"])
            if not dims[o] and npts[o] == 0:
                d0[o] = 3
            p = dict(gamma=[0, 0, 0], x=[1, 0, 0], m=[1, 1, 0], r=[1, 1, 1])[f]
            nm = dict(gamma=r"$\Gamma$", x="$X$", m="$M$", r="$R$")[f]
            h.append(dict(op="padd", o=o, p=p, name=nm, form=f))
            npts[o] += 1
        elif k < 0.7:
            n = r.randint(1, 4)
            ps = [pt(o) for _ in range(n)]
            nm = [r.choice(["A", "B", "M'", ""]) for _ in range(n)] if r.random() < 0.6 else []
            h.append(dict(op="padds", o=o, ps=ps, names=nm))
            npts[o] += n
        elif k < 0.8:
            h.append(dict(op="pcycle", o=o))
            npts[o] += 1
        elif npts[o] > 1:
            h.append(dict(op="pbuild", o=o, m=r.choice([1, 2, 3, 5, 11]), form=r.choice([0, 1])))
        h[-1]["obs"] = list(names)
    for o in names:
        if npts[o] > 1:
            h.append(dict(op="pbuild", o=o, m=r.choice([2, 3, 4, 7, 30]), obs=list(names)))
    return h


KEYS = ["color", "radius", "mass", "spin", "weight", "t_x"]


def h_atoms(G, i):
    r = G.r
    h = []
    live = {}
    for o in "abc"[:r.randint(1, 3)]:
        nm = r.choice(["A", "B", "", "C1"])
        par = {"color": "None", "radius": "0.2"}
        for k in KEYS:
            if k != "weight" and r.random() < 0.3:
                par[k] = r.choice(["1", "x", "2.5"])
        w = r.choice(["1.0", "2", "0.5"])
        h.append(dict(op="atom", o=o, name=nm, weight=w, params=par))
        live[o] = nm or "A"
    free = list("defgh")
    for _ in range(r.randint(6, 16)):
        o = r.choice(sorted(live))
        k = r.random()
        if k < 0.75:
            how = r.choice(["getitem", "getattr", "get", "in", "setitem", "setitem", "setattr", "setattr",
                            "delitem", "delitem", "pop", "update"])
            key = r.choice(KEYS)
            if how in ("getattr", "setattr") and key == "weight":
                key = "mass"
            if r.random() < 0.1:
                how, key = "mutate", "bag"
            h.append(dict(op="aop", o=o, how=how, key=key, v=r.choice(["1", "7", "y", "z"])))
        elif k < 0.87 and free:
            n = free.pop(0)
            h.append(dict(op="acopy", o=n, src=o, form=r.choice([0, 1])))
            live[n] = live[o]
        else:
            p = r.choice(sorted(live) + [None, None])
            other = live[p] if p else r.choice(["A", "B", "C1", "zz"])
            h.append(dict(op="aeq", o=o, other=other, p=p or ""))
    for st in h:
        st["obs"] = sorted(live)
    return h


def h_lookup(G, i):
    r = G.r
    h = []
    for _ in range(3):
        d = r.choice([1, 2, 3])
        n = r.randint(1, 6)
        names = [r.choice("AABC") for _ in range(n)]
        pos = []
        while len(pos) < n:
            p = [r.randint(0, 9) for _ in range(d)]
            if p not in pos:
                pos.append(p)
        h.append(dict(op="lookup", names=names, pos=pos, form=r.choice([0, 1])))
    return h


# ------------------------------------------------------------------------------------
EDGES = [0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65535, 65536, 65537,
         2 ** 31 - 2, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 40, 2 ** 62, 2 ** 63 - 2]


def h_helpers(G, i):
    r = G.r
    h = []
    # index grids
    d = r.choice([1, 2, 3])
    size = {1: [0, 1, 3, 20, 150, 300], 2: [0, 1, 2, 5, 12, 20], 3: [1, 2, 3, 5]}[d]
    lim = []
    for _ in range(d):
        a = r.choice([0, 0, -1, -3, 4, -100, 120, -127, -128, -130, 125, 127, 250, -32768, 32760, -40000, 65530, 70000])
        lim.append([a, a + r.choice(size)])
    h.append(dict(op="grid", lim=lim, ax=r.randint(0, d), form=r.choice([0, 1])))
    # vector ranges
    q = r.choice([1, 1, 2, 4])
    lo = [r.randint(-8, 8) for _ in range(d)]
    hi = [a + r.choice([0, 1, 2, 5, 7]) * r.choice([1, q]) for a in lo]
    step = [r.choice([1, 2, 3, q]) for _ in range(d)]
    how = r.choice([1, 2, 3, 3, 4, 5] + ([6] if d == 1 else []))
    form = "int" if q == 1 and r.random() < 0.6 else r.choice(["float", "mix"])
    if form == "mix" and r.random() < 0.7:
        lo, hi = [a - a % q for a in lo], [a - a % q + (b - a) * q for a, b in zip(lo, hi)]
    if how == 1:
        hi = [abs(b) for b in hi]
        lo = [0] * d
    if how in (1, 2):
        step = [q] * d
    if how in (4, 5):
        step = [step[0]] * d
    h.append(dict(op="range", lo=lo, hi=hi, step=step, q=q, ax=r.randint(0, d), how=how, form=form))
    # interweave
    m, n, w = r.randint(1, 4), r.randint(1, 5), r.randint(1, 3)
    types = [r.choice(["int64", "int32", "float64", "int16", "int64"]) for _ in range(m)]
    arrs = [[[r.randint(-30000, 30000) if t == "int16" else r.choice([r.randint(-99, 99), r.randint(-100000, 100000)])
              for _ in range(w)] for _ in range(n)] for t in types]
    h.append(dict(op="weave", arrays=arrs, types=types))
    # chains
    items = [r.randint(0, 9) for _ in range(r.choice([1, 2, 3, 6]))]
    h.append(dict(op="chain", items=items, cycle=r.random() < 0.5, form=r.choice(["", "tuple", "flag"])))
    # lookup tables
    n = r.choice([1, 3, 10, 60])
    a = [r.randint(-n, n) for _ in range(n)]
    if i % 10 == 0:
        a = list(range(r.choice([254, 255, 256, 257, 300, 600])))
        r.shuffle(a)
        a += a[:7]
    st = dict(op="table", a=a, scale=r.choice([1.0, 0.5, 1.0 / 3, 2.7]), form=r.choice(["int", "float"]))
    if len(a) % 2 == 0 and r.random() < 0.4:
        st["shape"] = [2, len(a) // 2]
    if r.random() < 0.3:
        st["dt"] = r.choice(["uint8", "int8", "int32", "uint16"])
    h.append(st)
    # rotations, vectors of given lengths and angles
    h.append(dict(op="rot", t=[r.randint(-4, 6) for _ in range(3)], form=r.choice([0, 1]),
                  p=[[num(r) for _ in range(3)] for _ in range(r.randint(1, 3))]))
    d = r.choice([1, 2, 3])
    while True:
        cs = [r.choice([-1, 0, 0, 1]) for _ in range({1: 0, 2: 1, 3: 3}[d])]
        if d < 3 or 4 + cs[0] * cs[1] * cs[2] - sum(c * c for c in cs) > 0:
            break
    h.append(dict(op="lengths", len=[r.randint(1, 5) for _ in range(d)], cos2=cs, unit=r.choice([1.0, 0.5, 1.7, 0.03])))
    # data types
    for _ in range(6):
        signed = r.random() < 0.5
        k = r.choice([1, 1, 2, 3])
        vals = []
        for _ in range(k):
            v = r.choice(EDGES)
            if r.random() < 0.5:
                v = -v - r.choice([0, 1, 1])
            vals.append(v)
        h.append(dict(op="dtype", vals=[str(v) for v in vals], signed=signed,
                      form=r.choice(["scalar", "array", "list"])))
    return h
