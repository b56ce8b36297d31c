"""Histories for the properties of lattice objects (checked by LattTrace.tla)."""
from .gen import Gen, CFG, SITES, NB, VIEWS, PER, FULL, det, matvec


def many(pid, seed, n, make, **kw):
    """n histories from make(Gen, i)."""
    out = []
    for i in range(n):
        h = make(Gen(f"{pid}/{seed}/{make.__name__}/{i}"), i, **kw)
        if h:
            out.append(h)
    return out


# ------------------------------------------------------------------------------------
# C03 analysis

def h_ana(G, i, cmax=3):
    r = G.r
    g, pos, names, h = G.start(cmax=cmax, obs=CFG)
    d, na = len(g["B"]), len(pos)
    for _ in range(2):
        n = [0] * d if r.random() < 0.3 else [r.randint(-9, 9) for _ in range(d)]
        if r.random() < 0.1:
            n = [r.randint(-400, 400) for _ in range(d)]
        h.append(dict(op="nb", o="a", n=n, alpha=r.randrange(na), default=r.random() < 0.5))
    return h


def h_ana_deep(G, i):
    """Many distances."""
    r = G.r
    dim = r.choice([1, 1, 2, 2, 3])
    g, pos, names, h = G.start(dim=dim, na=r.choice([1, 1, 2]), cmax={1: 25, 2: 9, 3: 5}[dim], obs=CFG, maxdet=12)
    h.append(dict(op="nb", o="a", n=[r.randint(-3, 3) for _ in range(dim)], alpha=r.randrange(len(pos))))
    return h


# ------------------------------------------------------------------------------------
# C04 configuration

def h_config(G, i):
    r = G.r
    g = G.basis(maxdet=20)
    B = g["B"]
    d = len(B)
    obs = CFG + ["sites", "all"]
    h = [G.new(g, obs=obs)]
    pool = G.atom_positions(g, 5, spread=0.5)
    used, prims = [], []
    nnames = ["A", "B", "A", "C"]
    names = []
    for _ in range(r.randint(6, 12)):
        k = r.random()
        ok = [p for p in pool if p not in used]
        n = len(used)
        if k < 0.22 or (n == 0 and k < 0.6):
            again = used and r.random() < 0.25
            if again:
                p = r.choice(used)
            elif ok:
                p = ok[0]
            else:
                continue
            st = dict(op="atom", o="a", name=r.choice(nnames), pos=p, nb=r.choice([0, 0, 1, 2]),
                      via=r.choice(["cart", "cart", "prim", "obj"]), mass=1)
            if again and p in prims:       # the same numbers again
                st["via"] = "prim"
            elif again and st["via"] == "prim":
                st["via"] = "cart"
            elif st["via"] == "prim":
                prims.append(p)
            if r.random() < 0.08:
                st["pos"] = list(p) + [0]
                st["via"] = "cart"
            elif p not in used:
                used.append(p)
                names.append(st["name"])
        elif k < 0.32:
            st = dict(op="cons", o="a", c=r.choice([0, 1, 1, 2, 3]), an=r.random() < 0.5)
        elif k < 0.45 and n:
            a, b = r.randrange(n), r.randrange(n)
            by = r.choice(["index", "name", "atom"])
            if by != "name":
                aa, bb = [a], [b]
            else:
                aa = [x for x in range(n) if names[x] == names[a]]
                bb = [x for x in range(n) if names[x] == names[b]]
            st = dict(op="con", o="a", **{"as": aa}, bs=bb, c=r.choice([0, 1, 1, 2]), an=r.random() < 0.5, by=by)
        elif k < 0.47:
            st = dict(op="con", o="a", **{"as": [0]}, bs=[0], c=1, an=r.random() < 0.5, by="index") if not n else None
        elif k < 0.6:
            st = dict(op="ana", o="a")
        elif k < 0.7:
            st = dict(op="nb", o="a", n=[r.randint(-2, 2) for _ in range(d)], alpha=r.randrange(max(n, 1)))
        elif k < 0.85:
            sh = G.shape(g, max(n, 1), 10)
            st = G.build(g, sh, jobs=1)
            if r.random() < 0.15:
                st["baddim"] = True
        else:
            st = dict(op="per", o="a", axes=[r.randrange(d)] if r.random() < 0.8 else [], how=r.choice(["list", "scalar"]))
        if st is None:
            continue
        st.setdefault("obs", [])
        st["obs"] = [["a", obs]]
        h.append(st)
    return h


# ------------------------------------------------------------------------------------
# C05 building

def h_build(G, i, target=30):
    r = G.r
    G.wide = True
    g, pos, names, h = G.start(cmax=1)
    na = len(pos)
    for _ in range(r.choice([1, 2, 2, 3])):
        sh = G.shape(g, na, target * r.choice([0.2, 1, 1, 1.5]))
        cb = G.callback(g) if r.random() < 0.25 else None
        mn = r.choice([1, 2, 3]) if sh["k"] != "prim" and r.random() < 0.2 else 0
        h.append(G.build(g, sh, cb=cb, mn=mn, obs=SITES, dtype=G.dtype()))
    return h


def h_build_large(G, i):
    r = G.r
    g, pos, names, h = G.start(cmax=1, maxdet=20)
    sh = G.shape(g, len(pos), r.choice([270, 400, 600]), ["box", "prim"])
    h.append(G.build(g, sh, obs=SITES))
    return h


# ------------------------------------------------------------------------------------
# C06 neighbours of a built lattice

def h_nb(G, i, target=25):
    r = G.r
    G.wide = True
    g, pos, names, h = G.start(cmax=3, maxdet=30)
    na = len(pos)
    for _ in range(r.choice([1, 1, 2])):
        sh = G.shape(g, na, target * r.choice([0.3, 1, 1, 1.4]))
        cb = G.callback(g) if r.random() < 0.15 else None
        mn = r.choice([1, 2]) if sh["k"] != "prim" and r.random() < 0.15 else 0
        h.append(G.build(g, sh, cb=cb, mn=mn, obs=SITES + NB, dtype=G.dtype()))
    if r.random() < 0.12:       # without checking the sites
        h.append(dict(G.build(g, G.shape(g, na, 6), obs=SITES + NB), loose=True))
    return h


def h_nb_large(G, i):
    """More sites than fit into one byte."""
    r = G.r
    g, pos, names, h = G.start(cmax=1, na=r.choice([1, 2]), maxdet=12)
    sh = G.shape(g, len(pos), r.choice([262, 300]), ["box", "prim"])
    h.append(G.build(g, sh, obs=["n", "all", "dvals", "dist"]))
    return h


def h_nb_many(G, i):
    """Many distances (more than fit into a signed byte)."""
    c = [131, 260][i % 2]
    n = c + 3
    g = dict(B=[[1]], W=[1], unit=1.0, ctor=["chain", 1.0])
    return [G.new(g), dict(op="atom", o="a", name="A", pos=[0], nb=0, via="none", mass=1, obs=[]),
            dict(op="cons", o="a", c=c, an=True, obs=[]),
            G.build(g, dict(k="box", q=1, lo=[0], hi=[n if i % 2 == 0 else 100]), obs=["n", "dvals", "all", "iter", "adj"])]


# ------------------------------------------------------------------------------------
# C07 periodic boundaries

def h_per(G, i, target=20):
    r = G.r
    kind = r.choice(["named", "diag", "diag", "axis", "random"])
    g, pos, names, h = G.start(cmax=2, kind=kind, maxdet=30)
    d, na = len(g["B"]), len(pos)
    obs = ["sites"] + NB + PER
    kinds = ["box", "box", "prim", "prim"] if r.random() < 0.8 else ["round", "hull", "box"]
    sh = G.shape(g, na, target * r.choice([0.6, 1, 1.4]), kinds)
    per = r.sample(range(d), r.randint(1, d)) if r.random() < 0.4 else []
    h.append(G.build(g, sh, per=per, obs=obs))
    for _ in range(r.randint(1, 3)):
        k = r.random()
        if k < 0.7:
            axes = r.sample(range(d), r.randint(1, d))
            how = r.choice(["list", "list", "scalar", "scalar", "dup", "array"])
            if sorted(axes) == list(range(d)) and r.random() < 0.4:
                axes, how = sorted(axes), "bool"
            h.append(dict(op="per", o="a", axes=axes, how=how, obs=[["a", obs]]))
            if r.random() < 0.2:
                h.append(dict(h[-1]))
        elif k < 0.85:
            h.append(dict(op="per", o="a", axes=[], how=r.choice(["none", "bool"]), obs=[["a", obs]]))
        else:
            h.append(G.build(g, G.shape(g, na, target, ["box", "prim"]), obs=obs))
    return h


# ------------------------------------------------------------------------------------
# C08 views, C09 remove and sort

def remove_step(G, obs, o="a"):
    r = G.r
    m = r.choice([1, 1, 2, 0.1, 0.3, 0.5])
    form = r.choice(["list", "list", "sorted", "array", "dup", "neg", "last", "first", "scalar"])
    return dict(op="remove", o=o, pick=[r.randrange(10 ** 6), m, form], gone=[], obs=[[o, obs]])


def sort_step(G, d, obs, o="a"):
    r = G.r
    st = dict(op="sort", o=o, ax=0, rev=r.random() < 0.4, perm=[], obs=[[o, obs]])
    if r.random() < 0.5:
        st["ax"] = r.randint(1, d + 1)
    else:
        st["pick"] = r.randrange(10 ** 6)
    return st


def per_step(G, d, obs, o="a", off=0.25):
    r = G.r
    if r.random() < off:
        return dict(op="per", o=o, axes=[], how=r.choice(["none", "bool"]), obs=[[o, obs]])
    return dict(op="per", o=o, axes=r.sample(range(d), r.randint(1, d)), how=r.choice(["list", "list", "scalar", "scalar", "dup"]), obs=[[o, obs]])


def grow_step(G, g, d, prim, obs, o="a"):
    r = G.r
    ax = r.randint(1, d)
    srt = r.choice([0, 0, 0, r.randint(1, d)])
    st = dict(o=o, ax=ax, side=r.choice([1, 1, -1]), sort=srt, rev=bool(srt and r.random() < 0.4), obs=[[o, obs]])
    if r.random() < 0.5:
        st.update(op="repeat", num=r.choice([1, 1, 2]))
    else:
        q = 1
        size = r.randint(1, 3) if prim else r.randint(1, 2) * max(abs(B[ax - 1]) for B in g["B"]) + r.choice([0, 0, 1])
        if prim:
            size = r.choice([1, 2, 3])
        if r.random() < 0.4:
            q = r.choice([2, 3])
            size = size * q + r.choice([-1, 1])
        st.update(op="extend", size=size, q=q)
    return st


def h_views(G, i, target=14, obs=None, ops=("per", "remove", "sort", "grow", "build"), steps=(2, 5)):
    r = G.r
    obs = obs or ["sites"] + NB + VIEWS
    kind = r.choice(["named", "diag", "diag", "axis", "random"])
    g, pos, names, h = G.start(cmax=2, kind=kind, maxdet=30)
    d, na = len(g["B"]), len(pos)
    sh = G.shape(g, na, target * r.choice([0.6, 1, 1.4]), ["box", "box", "prim", "round"])
    per = r.sample(range(d), r.randint(1, d)) if r.random() < 0.5 else []
    h.append(G.build(g, sh, per=per, obs=obs))
    prim = sh["k"] == "prim"
    grown = 0
    for _ in range(r.randint(*steps)):
        k = r.choice(ops)
        if k == "per":
            h.append(per_step(G, d, obs))
        elif k == "remove":
            h.append(remove_step(G, obs))
        elif k == "sort":
            h.append(sort_step(G, d, obs))
        elif k == "grow":
            if grown:
                continue
            grown += 1
            h.append(grow_step(G, g, d, prim, obs))
        else:
            sh = G.shape(g, na, target * 0.7, ["box", "prim"])
            prim = sh["k"] == "prim"
            grown = 0
            h.append(G.build(g, sh, obs=obs))
    return h


def h_views_large(G, i):
    """More sites than fit into a byte; map and matrices."""
    r = G.r
    g, pos, names, h = G.start(cmax=1, na=r.choice([1, 2]), dim=r.choice([1, 2]), maxdet=8)
    d = len(g["B"])
    sh = G.shape(g, len(pos), 265, ["box", "prim"])
    obs = ["n", "all", "iter", "pairs", "upairs", "adj", "csr", "chk", "dmap"]
    h.append(G.build(g, sh, obs=obs))
    h.append(remove_step(G, obs))
    return h


def h_remove(G, i):
    return h_views(G, i, target=16, obs=SITES + NB + PER + ["pairs"], ops=("remove", "remove", "sort", "sort", "per"))


def h_remove_large(G, i):
    r = G.r
    g, pos, names, h = G.start(cmax=1, na=1, dim=r.choice([1, 2]), maxdet=8, kind=r.choice(["named", "diag"]))
    d = len(g["B"])
    obs = ["sites", "n", "all", "dvals"]
    h.append(G.build(g, G.shape(g, len(pos), 270, ["box", "prim"]), obs=[]))
    h.append(remove_step(G, obs))
    h.append(sort_step(G, d, obs))
    return h


# ------------------------------------------------------------------------------------
# C10 append, extend, repeat

def h_join(G, i, target=12):
    r = G.r
    kind = r.choice(["named", "diag", "diag", "axis", "axis", "random"])
    g, pos, names, h = G.start(cmax=2, kind=kind, maxdet=24)
    d, na = len(g["B"]), len(pos)
    obs = SITES + NB + ["pax", "perf"]
    prim = r.random() < 0.5
    kinds = ["prim"] if prim else ["box"]

    def shape(t):
        sh = G.shape(g, na, t, kinds)
        if not prim:
            return sh
        return dict(sh, q=1, lo=[x // sh["q"] for x in sh["lo"]],
                    hi=[x // sh["q"] + max(1, (y - x) // sh["q"]) for x, y in zip(sh["lo"], sh["hi"])])
    sh = shape(target * r.choice([0.5, 1, 1.3]))
    per = r.sample(range(d), r.randint(1, d)) if r.random() < 0.3 else []
    h.append(G.build(g, sh, per=per, obs=["sites"]))
    if r.random() < 0.2:
        h.append(remove_step(G, obs))
    mode = r.choice(["append", "append", "grow", "grow", "both"])
    if mode != "grow":
        if r.random() < 0.25:
            other = "a"      # with itself
            h.append(dict(op="copy", o="b", p="a", how="copy", obs=[]))
            other = "b"
        else:
            # the other lattice: of the same configuration, moved or of another size
            h.append(dict(op="copy", o="b", p="a", how="copy", obs=[]))
            ax = r.randrange(d)
            sh2 = dict(sh, lo=list(sh["lo"]), hi=list(sh["hi"]))
            if r.random() < 0.5:
                grow = r.choice([1, 2, 3]) * (1 if prim else max(abs(B[ax]) for B in g["B"]))
                sh2["hi"][ax] = max(sh2["lo"][ax], sh2["lo"][ax] + grow * sh["q"])
            st = G.build(g, sh2, o="b", per=[0] if r.random() < 0.3 else [])
            h.append(st)
            other = "b"
        ax = ax + 1 if mode and 'ax' in dir() else r.randint(1, d)
        srt = r.choice([0, 0, r.randint(1, d)])
        h.append(dict(op="append", o="a", p=other, ax=ax, side=r.choice([1, 1, -1]), sort=srt,
                      rev=bool(srt and r.random() < 0.4), obs=[["a", obs], ["b", ["sites", "all", "pax", "perf"]]]))
    if mode != "append":
        h.append(grow_step(G, g, d, prim, obs))
        if r.random() < 0.3:
            h.append(per_step(G, d, obs + PER, off=0))
        if r.random() < 0.3:
            h.append(grow_step(G, g, d, prim, obs))
    elif r.random() < 0.4:
        h.append(per_step(G, d, obs + PER, off=0))
    return h


# ------------------------------------------------------------------------------------
# C11 copies

def h_copy(G, i, target=10):
    r = G.r
    obs = CFG + SITES + NB + ["pairs", "adj", "pax", "perf", "dmap"]
    kind = r.choice(["named", "diag", "axis", "random"])
    g, pos, names, h = G.start(cmax=2, kind=kind, maxdet=24, mass=r.random() < 0.5)
    d, na = len(g["B"]), len(pos)
    built = r.random() < 0.8
    if built:
        sh = G.shape(g, na, target, ["box", "prim", "round"])
        per = r.sample(range(d), r.randint(1, d)) if r.random() < 0.4 else []
        h.append(G.build(g, sh, per=per, obs=obs))
        prim = sh["k"] == "prim"
        if r.random() < 0.3:
            h.append(remove_step(G, obs))
    if r.random() < 0.25:
        h.append(dict(op="mut", o="a", obs=[["a", obs]]))
    both = [["a", obs], ["b", obs]]
    if r.random() < 0.3:
        h.append(dict(op="fromdict", o="b", p="a", obs=both))
        bbuilt = False
    else:
        h.append(dict(op="copy", o="b", p="a", how=r.choice(["copy", "copy", "deepcopy", "pickle", "dump"]), obs=both))
        bbuilt = built
    h.append(dict(op="eq", o="a", p="b", obs=[]))
    nb = dict(a=na, b=na)
    isb = dict(a=built, b=bbuilt)
    free = [p for p in G.atom_positions(g, 6, spread=0.5) if p not in pos]
    for _ in range(r.randint(1, 4)):
        o = r.choice("ab")
        k = r.choice(["param", "mut", "atom", "cons", "build", "remove", "sort", "per", "copy", "eq", "dcopy"])
        if k == "param":
            st = dict(op="param", o=o, a=r.randrange(na), mass=r.choice([2, 5, 9]))
        elif k == "mut":
            st = dict(op="mut", o=o)
        elif k == "atom":
            if not free:
                continue
            st = dict(op="atom", o=o, name="Z", pos=free.pop(), nb=r.choice([0, 1]), via="cart", mass=1)
        elif k == "cons":
            st = dict(op="cons", o=o, c=r.choice([1, 2]), an=True)
        elif k == "build":
            st = G.build(g, G.shape(g, na, target, ["box", "prim"]), o=o)
        elif k == "dcopy":
            if not isb[o]:
                continue
            st = dict(op="dcopy", o=o, k=r.randrange(5))
        elif k in ("remove", "sort", "per"):
            if not isb[o]:
                continue
            st = dict(remove=remove_step, sort=lambda G, b, o: sort_step(G, d, b, o),
                      per=lambda G, b, o: per_step(G, d, b, o))[k](G, obs, o=o)
        elif k == "copy":
            st = dict(op="copy", o="c", p=o, how=r.choice(["copy", "deepcopy", "pickle"]))
        else:
            st = dict(op="eq", o="a", p="b")
        st["obs"] = both
        h.append(st)
    h.append(dict(op="eq", o="a", p="b", obs=[]))
    return h


def h_differ(G, i):
    """Two separately created lattices; equal only if created from the same atoms."""
    r = G.r
    obs = CFG
    g, pos, names, h = G.start(cmax=2, maxdet=24)
    h2 = [dict(st, o="b") for st in h]
    k = r.choice(["basis", "pos", "con", "atom", "name", "none"])
    fine = 1
    if k in ("basis", "pos") and len(g["B"]) < 3 and not isinstance(g["ctor"], list) and r.random() < 0.6:
        # the same lattice on a finer grid: small differences
        fine = r.choice([100, 250, 1000])
        g = dict(g, B=[[fine * x for x in v] for v in g["B"]], unit=g["unit"] / fine)
        for st in h:
            if st["op"] == "new":
                st.update(B=g["B"], unit=g["unit"], ctor="array")
            elif st["op"] == "atom":
                st["pos"] = [fine * x for x in st["pos"]]
        h = [dict(st, obs=[]) for st in h if st["op"] in ("new", "atom")]
        h2 = [dict(st, o="b") for st in h]
    out = []
    share, num = r.random() < 0.7 and k not in ("name", "atom"), 0
    for st in h2:
        st = dict(st)
        if st["op"] == "atom":
            if share:
                st["share"] = ["a", num]
            num += 1
        if st["op"] == "new" and k == "basis":
            B = [list(x) for x in st["B"]]
            j = r.randrange(len(B))
            B[j][j] += r.choice([1, 2])
            if abs(det(B)) in (0,) or isinstance(st["ctor"], list):
                return None
            st["B"] = B
            st["ctor"] = "array"
            dt = abs(det(B))
            g = dict(g, B=B)
        if k == "name" and st["op"] == "atom":
            st["name"] = st["name"] + "x"
        if k == "pos" and st["op"] == "atom" and st is not h2[0]:
            st["pos"] = [x + a // fine for x, a in zip(st["pos"], matvec([1] * len(g["B"]), g["B"]))]
            st["via"] = "cart"
        if k == "con" and st["op"] == "cons":
            st["c"] = st["c"] + 1
        if k == "name" and st["op"] == "con":
            st["by"] = "index"
            st["as"], st["bs"] = st["as"][:1], st["bs"][:1]
        out.append(st)
    h = h + out
    h.append(dict(op="eq", o="a", p="b", obs=[["a", obs], ["b", obs]]))
    return h


# ------------------------------------------------------------------------------------
# C12 lookups and selections

def h_query(G, i, target=16):
    r = G.r
    kind = r.choice(["named", "diag", "diag", "axis", "random"])
    g, pos, names, h = G.start(cmax=1, kind=kind, maxdet=30, mass=r.random() < 0.6)
    d, na = len(g["B"]), len(pos)
    q = lambda: dict(op="query", o="a", pick=r.randrange(10 ** 9), obs=[])
    sh = G.shape(g, na, target * r.choice([0.3, 1, 1.4]), ["box", "box", "prim", "prim", "round", "hull"])
    h.append(G.build(g, sh, obs=["sites"]))
    h.append(q())
    prim = sh["k"] == "prim"
    grown = 0
    for _ in range(r.randint(1, 3)):
        k = r.choice(["remove", "sort", "grow", "per", "build", "param"])
        if k == "remove":
            st = remove_step(G, ["sites"])
        elif k == "sort":
            st = sort_step(G, d, ["sites"])
        elif k == "per":
            st = per_step(G, d, ["sites"])
        elif k == "param":
            st = dict(op="param", o="a", a=r.randrange(na), mass=r.choice([2, 3, 5, 0]), obs=[])
        elif k == "build":
            sh = G.shape(g, na, target, ["box", "prim"])
            prim, grown = sh["k"] == "prim", 0
            st = G.build(g, sh, obs=["sites"])
        else:
            if grown:
                continue
            grown = 1
            st = grow_step(G, g, d, prim, ["sites"])
        h += [st, q()]
    return h


def h_query_large(G, i):
    r = G.r
    g, pos, names, h = G.start(cmax=1, na=r.choice([1, 2]), dim=r.choice([1, 2]), maxdet=8, mass=True)
    h.append(G.build(g, G.shape(g, len(pos), 280, ["box", "prim"]), obs=[]))
    h.append(dict(op="query", o="a", pick=r.randrange(10 ** 9), obs=[]))
    return h


# ------------------------------------------------------------------------------------
# C18 ready-made lattices

PRESETS = ["simple_chain", "alternating_chain", "simple_square", "simple_rectangular", "simple_hexagonal", "honeycomb",
           "graphene", "simple_cubic", "nacl_structure", "finite_hypercubic", "kwargs", "kwargs",
           "kwargs"]


def preset(G, how, o="a", obs=()):
    r = G.r
    unit = G.unit([1.0, 0.5, 0.7, 1.3, 2.0, 0.05, 20.0])
    k = [r.choice([1, 1, 2, 3])]
    nm = lambda n: [r.choice(["A", "B", "C", "Cu"]) for _ in range(n)]
    st = dict(op="preset", o=o, how=how, unit=unit, c=r.choice([1, 1, 2, 3]), pairs=[], x0=0, build=False,
              objs=r.random() < 0.4, obs=[[o, list(obs)]])
    n = 2 if how in ("alternating_chain", "honeycomb", "graphene", "nacl_structure") else 1
    st["names"] = nm(n)
    if how in ("simple_square", "simple_cubic"):
        k = k * (2 if how == "simple_square" else 3)
    elif how == "simple_rectangular":
        k = [r.choice([1, 2, 3, 5]), r.choice([1, 2, 3])]
    elif how == "alternating_chain":
        st["x0"] = r.choice([0, 0, 1, -1, 2, 5])
    elif how in ("honeycomb", "graphene"):
        st["c"] = 0
        st["names"] = st["names"][:1] * 2 if how == "honeycomb" else ["C1", "C2"]
        k = [1, 1]
    elif how == "simple_hexagonal":
        k = [1, 1]
    elif how == "nacl_structure":
        st["c"] = min(2, st["c"])
        k = [1, 1, 1]
    elif how == "finite_hypercubic":
        d = r.choice([1, 2, 2, 3])
        k = k[:1] * d
        g = dict(B=[[k[0] if i == j else 0 for j in range(d)] for i in range(d)], W=[1] * d, unit=unit)
        prim = r.random() < 0.5
        if prim:
            n_ = [r.choice([1, 2, 3, 4, 5]) if d < 3 else r.choice([1, 2, 3]) for _ in range(d)]
            st["sh"] = dict(k="prim", q=1, lo=[0] * d, hi=n_)
            st["as"] = "origin"
        else:
            lo = [0] * d
            st["as"] = r.choice(["origin", "shape"])
            if st["as"] == "shape":
                lo = [r.randint(-5, 5) for _ in range(d)]
            st["sh"] = dict(k="box", q=1, lo=lo, hi=[a + k[0] * r.choice([1, 2, 3, 4]) for a in lo])
        st.update(prim=prim, cb=dict(k="none"), mn=0, baddim=False, build=True,
                  per=sorted(r.sample(range(d), r.randint(0, d))) if r.random() < 0.5 else [])
    elif how == "kwargs":
        g = G.basis(maxdet=20)
        pos = G.atom_positions(g, r.choice([1, 2, 2, 3]))
        st.update(B=g["B"], W=g["W"], unit=g["unit"], pos=pos)
        names = ["A", "B", "C"][:len(pos)]
        st["names"] = names
        if r.random() < 0.6:
            st["c"] = 0
            ps = [[[i], [j], r.choice([1, 1, 2])] for i in range(len(pos)) for j in range(i, len(pos)) if r.random() < 0.6]
            if r.random() < 0.3:
                ps = [[b, a, n] for a, b, n in ps]
            st["pairs"] = ps or [[[0], [0], 1]]
        d = len(g["B"])
        k = [1] * d
        if r.random() < 0.5:        # also the finite lattice
            for _ in range(20):
                p = pos[0]
                orig = min(p) >= 0 and r.random() < 0.6
                lo = [0] * d if orig else [x - r.randint(0, 6) for x in p]
                sh = dict(k="box", q=1, lo=lo, hi=[x + r.randint(1, 9) for x in p])
                if 1 < G.nsites(g, len(pos), sh["lo"], sh["hi"], 1) < 45:
                    st.update(sh=sh, prim=False, cb=dict(k="none"), mn=0, baddim=False, build=True,
                              per=r.choice([[], [0], sorted(r.sample(range(d), r.randint(0, d)))]))
                    st["as"] = r.choice(["origin", "origin", "shape"]) if orig else "shape"
                    st["scalar"] = r.random() < 0.6
                    break
    if how in ("simple_chain", "simple_square", "simple_cubic", "simple_hexagonal", "alternating_chain", "nacl_structure",
               "simple_rectangular", "finite_hypercubic") and r.random() < 0.2:
        st.update(default=True, c=2 if how == "simple_rectangular" else 1)
    if how not in ("kwargs", "graphene") and r.random() < 0.2:
        st.update(noname=True, objs=False, names=["Na", "Cl"] if how == "nacl_structure" else ["A"] * len(st["names"]))
    st["k"] = k
    return st


def h_preset(G, i):
    r = G.r
    how = PRESETS[i % len(PRESETS)]
    st = preset(G, how, obs=CFG + ["sites", "n", "pos", "all", "dist", "dvals", "pax", "perf"])
    d = len(st["k"])
    h = [st]
    na = len(st["names"])
    for _ in range(2):
        h.append(dict(op="nb", o="a", n=[r.randint(-4, 4) for _ in range(d)], alpha=r.randrange(na),
                      m=[r.randint(-3, 3) for _ in range(d)]))
    if not st["build"] and how != "kwargs" and r.random() < 0.5:
        n_ = [r.choice([2, 3]) for _ in range(d)]
        h.append(dict(op="build", o="a", sh=dict(k="prim", q=13, lo=[0] * d, hi=[13 * x - 1 for x in n_]), cb=dict(k="none"),
                      mn=0, prim=True, per=[], baddim=False, obs=[["a", ["sites", "pos", "all", "dist", "dvals"]]]))
    return h


NAMES = ["chain", "square", "rectangular", "oblique", "hexagonal", "hexagonal3d", "sc", "fcc", "bcc", "hypercubic"]


def h_named(G, i):
    """Ready-made bases."""
    r = G.r
    how = NAMES[i % len(NAMES)]
    k = [r.choice([1, 2, 3])] * {"square": 2, "sc": 3, "hypercubic": r.choice([1, 2, 3])}.get(how, 1)
    if how in ("rectangular", "oblique", "hexagonal3d"):
        k = [r.choice([1, 2, 3]), r.choice([1, 2, 3])]
    st = dict(op="named", o="a", how=how, k=k, unit=r.choice([1.0, 0.5, 0.7, 1.3, 20.0]), deg=0, c=0, obs=[["a", CFG]])
    if how == "oblique":
        st["deg"] = r.choice([30, 45, 60, 90, 120, 135])
    if r.random() < 0.3:
        u = 0.5 if how in ("hexagonal", "hexagonal3d", "fcc", "bcc") else 1.0
        if how != "oblique" or st["deg"] == 90:
            st.update(default=True, k=[1] * len(k), unit=u)
    d = {"chain": 1, "hypercubic": len(k)}.get(how, 2 if how in ("square", "rectangular", "oblique", "hexagonal") else 3)
    c = r.choice([1, 2, 3]) if d < 3 else r.choice([1, 2])
    h = [st]
    if r.random() < 0.4:        # atom and connections passed to the class method
        st["c"] = c
    else:
        h.append(dict(op="atom", o="a", name="A", pos=[0] * d, nb=c, via="none", mass=1, obs=[["a", CFG]]))
    h.append(dict(op="nb", o="a", n=[r.randint(-4, 4) for _ in range(d)], alpha=0, m=[r.randint(-3, 3) for _ in range(d)]))
    return h


# ------------------------------------------------------------------------------------
# Parts of a build, joined data

def h_raw(G, i):
    G.wide = True
    g, pos, names, h = G.start(cmax=2, maxdet=20)
    for _ in range(2):
        sh = G.shape(g, len(pos), 25)
        b = G.build(g, sh)
        st = dict(op="raw", o="a", sh=sh, prim=b["prim"])
        if "as" in b:
            st["as"] = b["as"]
        t = G.dtype()
        if t:
            st["dtype"] = t
        pts = some_points(G.r, g, sh)
        if pts:
            st["pts"] = pts
        h.append(st)
    return h


def some_points(r, g, sh):
    """Points (units of 1/q) in, around and on the boundary of a shape, far enough from it otherwise."""
    fine = float(g["unit"]) / sh["q"]
    if sh["k"] == "box":
        ax = lambda a, b: r.choice([a - 1, a, a + 1, b - 1, b, b + 1, r.randint(min(a, b) - 3, max(a, b) + 3)])
        return [[ax(a, b) for a, b in zip(sh["lo"], sh["hi"])] for _ in range(25)] if fine > 5e-3 else []
    if sh["k"] in ("circle", "donut"):
        R = int(sh["r2"] ** 0.5) + 2
        if fine / (2 * R) < 5e-3:
            return []
        return [[c + r.randint(-R, R) for c in sh["c"]] for _ in range(25)]
    return []


def h_conn(G, i):
    r = G.r
    g, pos, names, h = G.start(cmax=2, maxdet=20)
    h.append(G.build(g, G.shape(g, len(pos), 14)))
    h.append(dict(op="copy", o="b", p="a", how="copy"))
    h.append(G.build(g, G.shape(g, len(pos), 14), o="b"))
    if r.random() < 0.4:
        h.append(dict(op="remove", o=r.choice("ab"), pick=[r.randrange(10 ** 6), 0.3, "list"]))
    if r.random() < 0.3:
        h.append(dict(op="per", o=r.choice("ab"), axes=[0]))
    h.append(dict(op="djoin", o="a", p="b", obs=[["a", ["sites", "all"]], ["b", ["sites", "all"]]]))
    h.append(dict(op="conn", o="a", p="b"))
    h.append(dict(op="conn", o="b", p="a"))
    return h


# ------------------------------------------------------------------------------------
# Four dimensions

def h_four(G, i, ops=(), obs=SITES + NB):
    r = G.r
    g = G.basis(dim=4, kind=r.choice(["named", "diag", "axis"]), scale=1, maxdet=24)
    h = [G.new(g)]
    st, pos, names = G.atoms(g, r.choice([1, 1, 2]))
    h += st
    h += G.connections(pos, names, cmax=2)
    h.append(dict(op="nb", o="a", n=[r.randint(-4, 4) for _ in range(4)], alpha=r.randrange(len(pos)),
                  m=[r.randint(-3, 3) for _ in range(4)]))
    if "ana" in ops:
        return h
    sh = G.shape(g, len(pos), 24, ["box", "prim"])
    h.append(G.build(g, sh, obs=obs))
    for k in ops:
        if k == "per":
            h.append(per_step(G, 4, obs, off=0))
        elif k == "remove":
            h += [remove_step(G, obs), sort_step(G, 4, obs)]
        elif k == "grow":
            h.append(grow_step(G, g, 4, sh["k"] == "prim", obs))
        elif k == "query":
            h.append(dict(op="query", o="a", pick=r.randrange(10 ** 9), obs=[]))
    return h


def h_four_ana(G, i):
    return h_four(G, i, ["ana"])


def h_four_per(G, i):
    return h_four(G, i, ["per"], ["sites"] + NB + PER)


def h_four_views(G, i):
    return h_four(G, i, ["per"], ["sites"] + NB + VIEWS)


def h_four_remove(G, i):
    return h_four(G, i, ["per"] * (i % 2) + ["remove"], SITES + NB + PER)


def h_four_grow(G, i):
    return h_four(G, i, ["grow"])


def h_four_query(G, i):
    return h_four(G, i, ["query"])


# ------------------------------------------------------------------------------------
# Numbers of sites around the limits of one byte

BYTE = [256, 255, 257, 128, 127, 129]


def byte_start(G, n, o="a"):
    """A chain (or ladder) of n sites."""
    r = G.r
    if n % 2 == 0 and r.random() < 0.4:
        g = dict(B=[[2]], W=[1], unit=r.choice([1.0, 0.7]), ctor="array")
        pos, cells = [[0], [1]], n // 2
    else:
        g = dict(B=[[1]], W=[1], unit=r.choice([1.0, 0.7]), ctor="array")
        pos, cells = [[0]], n
    h = [G.new(g, o)]
    for k, p in enumerate(pos):
        h.append(dict(op="atom", o=o, name="AB"[k], pos=p, nb=0, via="cart", mass=1, obs=[]))
    h.append(dict(op="cons", o=o, c=1, an=True, obs=[]))
    return g, h, dict(k="prim", q=13, lo=[0], hi=[13 * cells - 1])


def h_byte(G, i, ops=()):
    r = G.r
    n = BYTE[i % len(BYTE)]
    obs = ["sites", "n", "all", "dist", "dvals"]
    ops = [r.choice(k) if isinstance(k, tuple) else k for k in ops]
    if "views" in ops:
        obs += ["iter", "pairs", "upairs", "adj", "csr", "dmap"]
        ops.remove("views")
    extra = 3 if "remove" in ops else 0
    first = n + extra
    if "repeat" in ops:
        first = n // 2
    elif "append" in ops:
        first = n - r.choice([2, 4, 30])
    g, h, sh = byte_start(G, first)
    h.append(G.build(g, sh, obs=obs))
    for k in ops:
        if k == "per":
            obs = obs + PER
            st = dict(op="per", o="a", axes=[0], how="list", obs=[["a", obs]])
        elif k == "remove":
            st = dict(op="remove", o="a", pick=[r.randrange(10 ** 6), extra, "list"], gone=[], obs=[["a", obs]])
        elif k == "sort":
            st = dict(op="sort", o="a", ax=0, rev=False, perm=[], pick=r.randrange(10 ** 6), obs=[["a", obs]])
        elif k == "repeat":
            st = dict(op="repeat", o="a", num=1, ax=1, side=r.choice([1, -1]), sort=0, rev=False, obs=[["a", obs]])
        else:
            na = len(h) - 3
            h.append(dict(op="copy", o="b", p="a", how="copy", obs=[]))
            h.append(G.build(g, dict(sh, hi=[13 * ((n - first) // na) - 1]), o="b"))
            st = dict(op="append", o="a", p="b", ax=1, side=1, sort=0, rev=False, obs=[["a", obs]])
        h.append(st)
    return h


def h_byte_per(G, i):
    return h_byte(G, i, ["per"] + ["sort"] * (i % 2))


def h_byte_views(G, i):
    return h_byte(G, i, ["views", ("per", "sort", "remove")])


def h_byte_remove(G, i):
    return h_byte(G, i, ["per"] * (i % 2) + ["remove", "sort"])


def h_byte_join(G, i):
    return h_byte(G, i, [("append", "repeat")])


# ------------------------------------------------------------------------------------
# Lattices with more sites than 16 bit integers can count (only some sites are compared in all views)

HUGE = [   # basis, atoms, cells: beyond 2**15 and 2**16 sites
    ([[1]], [[0]], [65536]), ([[2, 0], [0, 1]], [[0, 0]], [182, 181]), ([[1]], [[0]], [32800]),
    ([[3]], [[0], [1]], [16500]), ([[1, 0], [1, 2]], [[0, 0]], [300, 220]), ([[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 0], [1, 0, 0]], [26, 26, 26]),
]


def h_huge(G, i, ops=()):
    r = G.r
    B, pos, n = HUGE[i % len(HUGE)]
    d = len(B)
    g = dict(B=B, W=[1] * d, unit=r.choice([1.0, 0.7]), ctor="array")
    obs = ["n", "dvals", "samp"]
    h = [G.new(g)]
    for k, p in enumerate(pos):
        h.append(dict(op="atom", o="a", name="AB"[k], pos=p, nb=0, via="cart", mass=1, obs=[]))
    h.append(dict(op="cons", o="a", c=1, an=True, obs=[]))
    lo = [r.choice([0, -3, -x // 2]) for x in n]
    h.append(G.build(g, dict(k="prim", q=13, lo=[13 * x for x in lo], hi=[13 * (x + y) - 1 for x, y in zip(lo, n)]), jobs=-1, obs=obs))
    for k in ops:
        k = r.choice(k) if isinstance(k, tuple) else k
        if k == "per":
            st = per_step(G, d, obs, off=0)
        elif k == "remove":
            st = dict(op="remove", o="a", pick=[r.randrange(10 ** 6), 7, "list"], gone=[], obs=[["a", obs]])
        elif k == "sort":
            st = dict(sort_step(G, d, obs), rev=False, ax=0, pick=r.randrange(10 ** 6))
        elif k == "append":
            h.append(dict(op="copy", o="b", p="a", how="copy", obs=[]))
            st = dict(op="append", o="a", p="b", ax=1, side=1, sort=0, rev=False, obs=[["a", obs]])
        elif k == "repeat":
            st = dict(op="repeat", o="a", num=1, ax=1, side=r.choice([1, -1]), sort=0, rev=False, obs=[["a", obs]])
        h.append(st)
    return h


def h_huge_per(G, i):
    return h_huge(G, i + 1, ["per"])


def h_huge_views(G, i):
    return h_huge(G, i + 1, [("per", "remove")])


def h_huge_remove(G, i):
    return h_huge(G, i, ["remove", "sort"])


def h_huge_join(G, i):
    return h_huge(G, [2, 3, 1][i % 3], [("append", "repeat")])
