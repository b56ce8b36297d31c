-------------------------------- MODULE Tools --------------------------------
(* State machines of dispersion paths (C15) and atoms (C16), and the helper  *)
(* functions (C17).                                                          *)
EXTENDS Regions

------------------------------------------------------------------------------
(* Dispersion paths: [dim, pts, labels, m]. Points are integer multiples of  *)
(* a unit length; a path of dimension 0 takes that of its first point.       *)
NewPath(dim) == [dim |-> dim, pts |-> <<>>, labels |-> <<>>, m |-> 0]
Clip(p, dim) == IF Len(p) > dim THEN SubSeq(p, 1, dim) ELSE p
AddPoint(o, p, name) ==
  LET d == IF o.dim = 0 THEN Len(p) ELSE o.dim IN
  [o EXCEPT !.dim = d, !.pts = Append(o.pts, Clip(p, d)),
            !.labels = Append(o.labels, IF name = "" THEN ToString(Len(o.pts)) ELSE name)]
RECURSIVE AddAll(_, _, _, _)
AddAll(o, ps, names, i) ==
  IF i > Len(ps) THEN o
  ELSE AddAll(AddPoint(o, ps[i], IF i <= Len(names) THEN names[i] ELSE ""), ps, names, i + 1)
Cycle(o) == [o EXCEPT !.pts = Append(o.pts, o.pts[1]), !.labels = Append(o.labels, o.labels[1])]
\* Ready-made paths, in units of pi/a
RECURSIVE AddNamed(_, _, _)
AddNamed(o, s, i) == IF i > Len(s) THEN o ELSE AddNamed(AddPoint(o, s[i][1], s[i][2]), s, i + 1)
HSGamma == <<<<0, 0, 0>>, "$\\Gamma$">>
HSX == <<<<1, 0, 0>>, "$X$">>
HSM == <<<<1, 1, 0>>, "$M$">>
HSR == <<<<1, 1, 1>>, "$R$">>
PathPreset(how) ==
  CASE how = "chain" -> Cycle(AddNamed(NewPath(1), <<HSX, HSGamma>>, 1))
    [] how = "square" -> Cycle(AddNamed(NewPath(2), <<HSGamma, HSX, HSM>>, 1))
    [] how = "cubic" -> AddNamed(NewPath(3), <<HSGamma, HSX, HSM, HSGamma, HSR>>, 1)
Sections(o) == Len(o.pts) - 1
DSq(u, v) == SumSeq([i \in 1..Len(u) |-> (u[i] - v[i]) * (u[i] - v[i])])
\* Vector k (from 0) of section s, in units of 1/(m-1)
PathVec(o, m, s, k) ==
  LET a == o.pts[s]
      b == o.pts[s + 1]
  IN IF m = 1 THEN a ELSE [i \in 1..Len(a) |-> (m - 1 - k) * a[i] + k * b[i]]
PathVecs(o, m) ==
  [j \in 1..(m * Sections(o)) |-> PathVec(o, m, ((j - 1) \div m) + 1, (j - 1) % m)]
PathBuildBad(o, st) ==
  Cl("path vectors", st.res.vecs = PathVecs(o, st.m)) \cup
  Cl("ticks", st.res.ticks = [i \in 1..Len(o.pts) |-> (i - 1) * st.m]) \cup
  Cl("tick labels", st.res.labels = o.labels)
PathView(o, v) ==
  Cl("path points", v.pts = o.pts /\ v.n = Len(o.pts)) \cup
  Cl("path labels", v.labels = o.labels) \cup
  Cl("path dimension", v.dim = o.dim) \cup
  If(Has(v, "dist"),
     Cl("section lengths", v.dist = [i \in 1..Sections(o) |-> DSq(o.pts[i], o.pts[i + 1])])) \cup
  If(Has(v, "edges"),
     Cl("path edges", v.edges = [i \in 1..Sections(o) |-> <<o.pts[i], o.pts[i + 1]>>])) \cup
  If(Has(v, "scale"),     \* squared ratios times the first squared length
     Cl("section scales", v.scale = [i \in 1..Sections(o) |-> DSq(o.pts[i], o.pts[i + 1])]))

------------------------------------------------------------------------------
(* Atoms: [name, weight, params] with params a function from keys to values  *)
NewAtom(name, weight, params) ==
  [name |-> IF name = "" THEN "A" ELSE name, weight |-> weight, params |-> params]
AtomStep(o, st) ==      \* [o, bad]
  LET has == st.key \in DOMAIN o.params
      same(v) == Cl("parameter value", st.exc = "" /\ st.res.v = v)
      ok == Cl("raised " \o st.exc, st.exc = "")
      keep(bad) == [o |-> o, bad |-> bad]
      set == [o EXCEPT !.params = (st.key :> st.v) @@ o.params]
      del == [o EXCEPT !.params = [k \in (DOMAIN o.params) \ {st.key} |-> o.params[k]]]
  IN
  CASE st.how = "getitem" -> keep(IF has THEN same(o.params[st.key])
                                  ELSE Cl("missing parameter", st.exc = "KeyError"))
    [] st.how = "getattr" -> keep(IF has THEN same(o.params[st.key])
                                  ELSE Cl("missing parameter", st.exc = "AttributeError"))
    [] st.how = "get" -> keep(IF has THEN same(o.params[st.key]) ELSE same(st.v))
    [] st.how = "in" -> keep(Cl("parameter test", st.exc = "" /\ st.res.b = has))
    [] st.how = "setitem" -> [o |-> set, bad |-> ok]
    [] st.how = "setattr" -> IF has THEN [o |-> set, bad |-> ok]
                             ELSE keep(Cl("new attribute", st.exc \in {"AttributeError"}))
    [] st.how = "delitem" -> IF has THEN [o |-> del, bad |-> ok]
                             ELSE keep(Cl("missing parameter", st.exc = "KeyError"))
    [] st.how = "pop" -> IF has THEN [o |-> del, bad |-> same(o.params[st.key])]
                         ELSE keep(same(st.v))
    [] st.how \in {"update", "mutate"} -> [o |-> set, bad |-> ok]
AtomView(o, v) ==
  Cl("atom name", v.name = o.name) \cup
  Cl("atom weight", v.weight = (IF "weight" \in DOMAIN o.params THEN o.params["weight"] ELSE o.weight)) \cup
  Cl("atom parameters", SetOf(v.keys) = DOMAIN o.params /\ NoDup(v.keys) /\
     v.len = Cardinality(DOMAIN o.params) /\
     \A i \in 1..Len(v.keys) : v.vals[i] = o.params[v.keys[i]] /\ v.dvals[i] = v.vals[i]) \cup
  Cl("atom dictionary", v.dname = o.name /\ SetOf(v.dkeys) = (DOMAIN o.params) \cup {"index", "name"})

\* Lookups within a unit cell: names of the atoms in order
PlacesOf(names, x) == {i - 1 : i \in {j \in 1..Len(names) : names[j] = x}}
LookupStep(st) ==
  LET N == Len(st.names) IN
  Cl("places by name", \A i \in 1..Len(st.res.byname) :
       SameSeq(st.res.byname[i][2], PlacesOf(st.names, st.res.byname[i][1]))) \cup
  Cl("place by atom", st.res.byatom = [i \in 1..N |-> i - 1]) \cup
  Cl("place by index", st.res.byindex = [i \in 1..N |-> i - 1]) \cup
  Cl("atom by index", st.res.atoms = [i \in 1..N |-> i - 1]) \cup
  Cl("atom by name", \A i \in 1..Len(st.res.atname) :
       st.res.atname[i][2] \in PlacesOf(st.names, st.res.atname[i][1])) \cup
  Cl("positions by name", \A i \in 1..Len(st.res.dict) :
       st.res.dict[i][2] = SelectSeq([j \in 1..N |-> IF st.names[j] = st.res.dict[i][1]
                                                     THEN st.pos[j] ELSE <<>>],
                                     LAMBDA p : p # <<>>)) \cup
  Cl("positions by name", SameSeq([i \in 1..Len(st.res.dict) |-> st.res.dict[i][1]], SetOf(st.names)))

------------------------------------------------------------------------------
(* Helpers *)
OrderedBy(s, ax) == \A i \in 1..(Len(s) - 1) : s[i][ax] <= s[i + 1][ax]
GridStep(st) ==      \* limits [lo, hi) per axis
  LET d == Len(st.lim)
      want == Prod3(d, Vec(d, LAMBDA i : st.lim[i][1]..(st.lim[i][2] - 1)))
  IN Cl("index grid", SameSeq(st.res.v, want)) \cup
     Cl("order of the index grid", st.ax = 0 \/ OrderedBy(st.res.v, st.ax))
\* start, stop, step in units of 1/q
RangeStep(st) ==
  LET d == Len(st.lo)
      num(i) == IF st.hi[i] <= st.lo[i] THEN 0 ELSE CeilDiv(st.hi[i] - st.lo[i], st.step[i])
      want == Prod3(d, Vec(d, LAMBDA i : {st.lo[i] + k * st.step[i] : k \in 0..(num(i) - 1)}))
  IN Cl("vector range", SameSeq(st.res.v, want)) \cup
     Cl("order of the vector range", st.ax = 0 \/ OrderedBy(st.res.v, st.ax))
WeaveStep(st) ==
  LET M == Len(st.arrays)
      N == Len(st.arrays[1])
  IN Cl("interwoven arrays",
        st.res.v = [i \in 1..(M * N) |-> st.arrays[((i - 1) % M) + 1][((i - 1) \div M) + 1]])
ChainStep(st) ==
  LET N == Len(st.items)
      open == [i \in 1..(N - 1) |-> <<st.items[i], st.items[i + 1]>>]
  IN Cl("chain", st.res.v = IF st.cycle THEN Append(open, <<st.items[N], st.items[1]>>) ELSE open)
TableStep(st) ==
  LET vals == st.res.vals IN
  Cl("values of the lookup table", SetOf(vals) = SetOf(st.a) /\
     \A i \in 1..(Len(vals) - 1) : vals[i] < vals[i + 1]) \cup
  Cl("lookup table", SameLen(st.res.ind, st.a) /\ All(st.a, LAMBDA i :
     /\ st.res.ind[i] + 1 \in 1..Len(vals)
     /\ vals[st.res.ind[i] + 1] = st.a[i]))
\* Magnitudes as digits of base 2^16, lowest first: m < 2^b
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Below(dg, b) ==
  /\ \A i \in 1..Len(dg) : (i - 1 > b \div 16) => dg[i] = 0
  /\ (Len(dg) >= (b \div 16) + 1) => dg[(b \div 16) + 1] < Pow2(b % 16)
\* value [neg, dg] with dg the digits of |v| or, if negative, of |v| - 1
Holds(kind, bits, v) ==
  IF kind = "u" THEN ~v.neg /\ Below(v.dg, bits) ELSE kind = "i" /\ Below(v.dg, bits - 1)
DtypeStep(st) ==
  Cl("data type cannot hold the values", All(st.vals, LAMBDA i :
       Holds(st.res.kind, st.res.bits, st.vals[i]))) \cup
  Cl("data type is not signed", st.signed => st.res.kind = "i")
\* Rotations by quarter turns: rows of the matrices
Cos4(k) == <<1, 0, -1, 0>>[(k % 4) + 1]
Sin4(k) == <<0, 1, 0, -1>>[(k % 4) + 1]
RotX(k) == <<<<1, 0, 0>>, <<0, Cos4(k), -Sin4(k)>>, <<0, Sin4(k), Cos4(k)>>>>
RotY(k) == <<<<Cos4(k), 0, Sin4(k)>>, <<0, 1, 0>>, <<-Sin4(k), 0, Cos4(k)>>>>
RotZ(k) == <<<<Cos4(k), -Sin4(k), 0>>, <<Sin4(k), Cos4(k), 0>>, <<0, 0, 1>>>>
MatMul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> SumSeq([k \in 1..Len(b) |-> a[i][k] * b[k][j]])]]
Rot3(t) == MatMul(MatMul(RotZ(t[3]), RotY(t[2])), RotX(t[1]))
RotStep(st) ==
  LET r == st.res IN
  Cl("rotation matrices", r.x = RotX(st.t[1]) /\ r.y = RotY(st.t[2]) /\ r.z = RotZ(st.t[3])) \cup
  Cl("general rotation", r.rot = Rot3(st.t)) \cup
  Cl("rotated points", r.p3 = MatMul(st.p, Rot3(st.t)) /\
     r.p2 = [i \in 1..Len(st.p) |-> SubSeq(MatMul(<<<<st.p[i][1], st.p[i][2], 0>>>>, RotZ(st.t[3]))[1], 1, 2)])
\* Vectors of given lengths and angles (2 cos: -1, 0, 1): their products, doubled
LengthsStep(st) ==
  LET d == Len(st.len)
      \* angle between the vectors i and j
      c(i, j) == CASE d = 2 -> st.cos2[1]
                   [] {i, j} = {2, 3} -> st.cos2[1]
                   [] {i, j} = {1, 3} -> st.cos2[2]
                   [] {i, j} = {1, 2} -> st.cos2[3]
  IN Cl("lengths and angles of vectors", st.res.gram =
        [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN 2 * st.len[i] * st.len[i]
                                         ELSE st.len[i] * st.len[j] * c(i, j)]]) \cup
     Cl("orientation of vectors", st.res.tri)
MeasureStep(st) ==
  Cl("distance", st.res.d = [i \in 1..Len(st.u) |-> DSq(st.u[i], st.v[i])]) \cup
  Cl("distance of a single pair", st.res.d1 = [i \in 1..Len(st.u) |-> DSq(st.u[i], st.v[i])])
VectorsStep(st) ==
  LET g == MkGeom(st.B, [i \in 1..Len(st.B) |-> 1]) IN
  Cl("volume of vectors", st.res.vol = g.det) \cup
  Cl("size of vectors", st.res.size = CellSize(g))
=============================================================================
