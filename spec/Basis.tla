------------------------------- MODULE Basis --------------------------------
(* What a lattice basis must answer: conversion of coordinates (C01),        *)
(* reciprocal lattice, cell and numbering (C02), Wigner-Seitz cells (C14).   *)
(* Points are given as integers in units of 1/q of the grid (x) or of the    *)
(* lattice coordinates (f).                                                  *)
EXTENDS Views

All(s, P(_)) == \A i \in 1..Len(s) : P(i)
SameLen(s, t) == Len(s) = Len(t)

------------------------------------------------------------------------------
(* Coordinates *)
Transform(g, f) == T(g, f)                 \* f/q -> x/q
ITransform(g, x) == FracN(g, x)            \* x/q -> f/(q det)
OnBoundary(g, q, x) == \E k \in 1..g.dim : FracN(g, x)[k] % (q * g.det) = 0
Floor(g, q, x) == Vec(g.dim, LAMBDA k : FloorDiv(FracN(g, x)[k], q * g.det))
Tie(g, q, x) == \E k \in 1..g.dim : (2 * FracN(g, x)[k] + q * g.det) % (2 * q * g.det) = 0
Nearest(g, q, x) ==
  Vec(g.dim, LAMBDA k : FloorDiv(2 * FracN(g, x)[k] + q * g.det, 2 * q * g.det))

TransformStep(g, st) ==
  Cl("transform", st.res.x = [i \in 1..Len(st.f) |-> Transform(g, st.f[i])]) \cup
  Cl("transform of a single point",
     st.res.x1 = [i \in 1..Len(st.f) |-> Transform(g, st.f[i])]) \cup
  Cl("back transform", st.res.back = [i \in 1..Len(st.f) |-> st.f[i]])
ITransformStep(g, st) ==
  Cl("itransform", st.res.f = [i \in 1..Len(st.x) |-> ITransform(g, st.x[i])]) \cup
  Cl("itransform of a single point",
     st.res.f1 = [i \in 1..Len(st.x) |-> ITransform(g, st.x[i])]) \cup
  Cl("back transform", st.res.back = [i \in 1..Len(st.x) |-> st.x[i]])
TranslateStep(g, st) ==
  LET y(i) == VAdd(st.x, VScale(st.q, T(g, st.n[i]))) IN
  Cl("translate", st.res.x = [i \in 1..Len(st.n) |-> y(i)]) \cup
  Cl("translate by a single vector", st.res.x1 = [i \in 1..Len(st.n) |-> y(i)]) \cup
  Cl("translate the origin", st.res.x0 = [i \in 1..Len(st.n) |-> T(g, st.n[i])])
ITranslateStep(g, st) ==
  LET ok(n, r, x) ==
        /\ VAdd(VScale(st.q, T(g, n)), r) = x
        /\ ~OnBoundary(g, st.q, x) => n = Floor(g, st.q, x)
      all(n, r) == SameLen(n, st.x) /\ SameLen(r, st.x) /\
                   All(st.x, LAMBDA i : ok(n[i], r[i], st.x[i]))
  IN Cl("itranslate", all(st.res.n, st.res.r)) \cup
     Cl("itranslate of a single point", all(st.res.n1, st.res.r1))
EstimateStep(g, st) ==
  Cl("estimated index", SameLen(st.res.n, st.x) /\ All(st.x, LAMBDA i :
     Tie(g, st.q, st.x[i]) \/ st.res.n[i] = Nearest(g, st.q, st.x[i])))
PositionStep(g, st) ==
  LET want == [i \in 1..Len(st.s) |-> PosOf(g, st.apos, st.s[i])] IN
  Cl("positions of sites", st.res.x = want) \cup
  Cl("position of a site", st.res.x1 = want)

------------------------------------------------------------------------------
(* Reciprocal lattice: b_j has the components 2 pi adj[i][j] / (det s_i).     *)
(* It is a lattice on the grid of the inverse weights.                       *)
Recip(g) ==
  LET pw == ProdW(g) IN
  MkGeom([j \in 1..g.dim |-> Vec(g.dim, LAMBDA i : g.adj[i][j])],
         Vec(g.dim, LAMBDA i : pw \div g.W[i]))
RecipStep(g, st) ==
  LET b == [j \in 1..g.dim |-> Vec(g.dim, LAMBDA i : g.adj[i][j])] IN
  Cl("reciprocal vectors", st.res.b = b) \cup
  Cl("reciprocal lattice", st.res.lat = b) \cup
  Cl("reciprocal of the reciprocal lattice", st.res.back = g.B)
\* The vectors v_j = sum_k m[j][k] b_k / q
IsRecipStep(g, st) ==
  Cl("reciprocity check", st.res.ok =
     (\A i, j \in 1..g.dim : st.m[i][j] = (IF i = j THEN st.q ELSE 0)))
CellStep(g, st) ==
  Cl("cell volume", st.res.vol = g.det) \cup
  Cl("cell size", st.res.size = CellSize(g)) \cup
  Cl("vector lengths", st.res.norms = [i \in 1..g.dim |-> D(g, g.B[i])]) \cup
  Cl("basis vectors", st.res.B = g.B /\ st.res.dim = g.dim)

RowMajor(shape, n) ==
  CASE Len(n) = 1 -> n[1]
    [] Len(n) = 2 -> n[1] * shape[2] + n[2]
    [] Len(n) = 3 -> (n[1] * shape[2] + n[2]) * shape[3] + n[3]
    [] Len(n) = 4 -> ((n[1] * shape[2] + n[2]) * shape[3] + n[3]) * shape[4] + n[4]
NumberStep(g, st) ==
  LET want == [i \in 1..Len(st.n) |-> RowMajor(st.shape, st.n[i])] IN
  Cl("cell numbers", st.res.si = want) \cup
  Cl("cell number of a single cell", st.res.si1 = want) \cup
  Cl("cells of numbers", st.res.n = st.n) \cup
  Cl("cell of a single number", st.res.n1 = st.n)

------------------------------------------------------------------------------
(* Wigner-Seitz cell. All vectors that bound it satisfy D(v) <= sum_i D(b_i): *)
(* the covering radius of a lattice is at most half the root of that sum.    *)
WSVectors(g) ==
  LET top == SumSeq([i \in 1..g.dim |-> D(g, g.B[i])]) IN
  {T(g, n) : n \in CellsNear(g, Zero(g.dim), top)} \ {Zero(g.dim)}
WSInside(g, V, q, x) == \A v \in V : D(g, x) < D(g, VSub(x, VScale(q, v)))
WSOutside(g, V, q, x) == \E v \in V : D(g, x) > D(g, VSub(x, VScale(q, v)))
\* Corners of the cell among the points with d faces: exact solutions y/den
WSCorner(g, V, q, y) ==
  /\ ~WSOutside(g, V, q, y)
  /\ Cardinality({v \in V : D(g, y) = D(g, VSub(y, VScale(q, v)))}) >= g.dim
\* The vectors of the faces
Faces(g, V) == {v \in V : \A w \in V \ {v} :
                  D(g, v) < D(g, VSub(v, VScale(2, w)))}
\* Corners as solutions of  w.v y = D(v)/2  for d faces: reduced fractions num/den
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, Abs(a) % Abs(b))
GcdVec(d, v) == CASE Len(v) = 1 -> Gcd(d, v[1])
                  [] Len(v) = 2 -> Gcd(Gcd(d, v[1]), v[2])
                  [] Len(v) = 3 -> Gcd(Gcd(Gcd(d, v[1]), v[2]), v[3])
Solve(g, vs) ==
  LET m == [i \in 1..g.dim |-> Vec(g.dim, LAMBDA k : g.W[k] * vs[i][k])]
      dt == 2 * SignedDet(m)
      a == Adjugate(m)
      num == Vec(g.dim, LAMBDA k : SumSeq([i \in 1..g.dim |-> D(g, vs[i]) * a[k][i]]))
      c == Sgn(dt) * GcdVec(dt, num)
  IN [den |-> dt \div c, num |-> Vec(g.dim, LAMBDA k : Sgn(c) * (num[k] \div Abs(c)))]
Tuples(d, V) == CASE d = 1 -> {<<v>> : v \in V}
                  [] d = 2 -> {<<v, w>> : v, w \in V}
                  [] d = 3 -> {<<u, v, w>> : u, v, w \in V}
Independent(vs) == SignedDet(vs) # 0
Corners14(g, V, F) ==
  {s \in {Solve(g, vs) : vs \in {t \in Tuples(g.dim, F) : Independent(t)}} :
     WSCorner(g, V, s.den, s.num)}
\* The corners (in units of 1/q) on the face v
FaceCorners(g, q, vs, v) ==
  {y \in SetOf(vs) : D(g, y) = D(g, VSub(y, VScale(q, v)))}
VSum(S) == LET d == Len(CHOOSE y \in S : TRUE)
               RECURSIVE add(_)
               add(T0) == IF T0 = {} THEN Zero(d) ELSE
                          LET y == CHOOSE z \in T0 : TRUE IN VAdd(y, add(T0 \ {y}))
           IN add(S)

WSStep(h, st) ==       \* h: the lattice (or reciprocal lattice)
  LET V == WSVectors(h)
      F == Faces(h, V)
      q == st.res.q
      vs == st.res.vert                    \* in units of 1/q
      want == Corners14(h, V, F)
      on == [v \in F |-> FaceCorners(h, q, vs, v)]
      edges == {e \in {{y, z} : y, z \in SetOf(vs)} : Cardinality(e) = 2 /\
                  Cardinality({v \in F : e \subseteq on[v]}) >= h.dim - 1}
  IN Cl("points of the cell", SameLen(st.res.inside, st.x) /\ All(st.x, LAMBDA i :
          /\ WSInside(h, V, st.q, st.x[i]) => st.res.inside[i]
          /\ WSOutside(h, V, st.q, st.x[i]) => ~st.res.inside[i])) \cup
     Cl("single points of the cell", st.res.single = st.res.inside) \cup
     Cl("corners of the cell", \A i \in 1..Len(vs) : WSCorner(h, V, q, vs[i])) \cup
     Cl("corners of the cell missing", \A s \in want :
          q % s.den = 0 /\ VScale(q \div s.den, s.num) \in SetOf(vs)) \cup
     Cl("limits of the cell", vs # <<>> /\
        st.res.lim = Vec(h.dim, LAMBDA k : <<MinOf({vs[i][k] : i \in 1..Len(vs)}),
                                             MaxOf({vs[i][k] : i \in 1..Len(vs)})>>)) \cup
     Cl("size of the cell",
        st.res.size = Vec(h.dim, LAMBDA k : st.res.lim[k][2] - st.res.lim[k][1])) \cup
     Cl("symmetry points of the cell",
        /\ st.res.sym.origin = Zero(h.dim)
        /\ SetOf(st.res.sym.corners) = SetOf(vs)
        /\ SetOf(st.res.sym.edges) =            \* in units of 1/(2 q)
             (IF h.dim = 1 THEN {} ELSE {VSum(e) : e \in edges})
        /\ SetOf(st.res.sym.faces) =            \* in units of 1/(60 q)
             (IF h.dim < 3 THEN {} ELSE
              {VScale(60 \div Cardinality(on[v]), VSum(on[v])) : v \in F}))

\* Grids over the cell: num[k] values along axis k; end: the upper limit is one of them,
\* step: with a step of 2/(2 num[k] - 1) of the size of the cell. The limits are enlarged by
\* off halves. Values in units of 1/(2 q den[k]), points (kept: those of the cell) of 1/(2 q m)
WSGridStep(h, st) ==
  LET V == WSVectors(h)
      r == st.res
      den(k) == IF st.step THEN 2 * st.num[k] - 1 ELSE IF st.end THEN st.num[k] - 1 ELSE st.num[k]
      val(k, j) == (2 + st.off) * (den(k) * r.lim[k][1]
                                   + (j - 1) * (IF st.step THEN 2 ELSE 1) * (r.lim[k][2] - r.lim[k][1]))
      all == Prod3(h.dim, Vec(h.dim, LAMBDA k : {(r.m \div den(k)) * val(k, j) : j \in 1..st.num[k]}))
      qm == 2 * r.q * r.m
  IN Cl("grid values of the cell", r.lin = Vec(h.dim, LAMBDA k : [j \in 1..st.num[k] |-> val(k, j)])) \cup
     Cl("points of the grid", SameSeq(r.all, all)) \cup
     Cl("points of the grid in the cell", NoDup(r.kept) /\ SetOf(r.kept) \subseteq all /\ \A y \in all :
          /\ WSInside(h, V, qm, y) => y \in SetOf(r.kept)
          /\ WSOutside(h, V, qm, y) => y \notin SetOf(r.kept))
=============================================================================
