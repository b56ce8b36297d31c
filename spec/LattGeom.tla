------------------------------ MODULE LattGeom ------------------------------
(* Exact integer geometry of Bravais lattices.                              *)
(*                                                                          *)
(* A geometry is a record  g = [dim, B, W, det, adj]:                       *)
(*   B    the basis vectors (rows) on an integer grid,                      *)
(*   W    one positive weight per axis; the squared length of a grid vector *)
(*        x is D(x) = W[1] x[1]^2 + ... (so hexagonal and other irrational  *)
(*        lattices are exact as well: real coordinate = unit*sqrt(W)*x),    *)
(*   det  |det B|, adj the adjugate with x = f B  <=>  det f = x adj.       *)
(* A site is a tuple <<n1,..,nd,alpha>> (alpha counts from 0).              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == -MinOf({-x : x \in S})
\* (Counting makes TLC sort a set: membership is then fast)
Norm(S) == IF Cardinality(S) >= 0 THEN S ELSE {}
SetOf(s) == Norm({s[i] : i \in 1..Len(s)})
FloorDiv(a, b) == a \div b                     \* TLC: floor for b > 0
CeilDiv(a, b) == -((-a) \div b)
RECURSIVE SumFrom(_, _)
SumFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumFrom(s, i + 1)
SumSeq(s) == SumFrom(s, 1)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o Sorted(S \ {m})
FirstK(s, k) == SubSeq(s, 1, Min2(k, Len(s)))
RankIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

\* Isqrt(n): the floor of the square root
RECURSIVE Bisect(_, _, _)
Bisect(n, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN
                          IF m * m <= n THEN Bisect(n, m, hi) ELSE Bisect(n, lo, m)
Isqrt(n) == Bisect(n, 0, 46341)

------------------------------------------------------------------------------
(* Vectors of length 1..4 as tuples *)
Vec(d, F(_)) == CASE d = 1 -> <<F(1)>>
                  [] d = 2 -> <<F(1), F(2)>>
                  [] d = 3 -> <<F(1), F(2), F(3)>>
                  [] d = 4 -> <<F(1), F(2), F(3), F(4)>>
Zero(d) == Vec(d, LAMBDA i : 0)
VAdd(u, v) == CASE Len(u) = 1 -> <<u[1] + v[1]>>
                [] Len(u) = 2 -> <<u[1] + v[1], u[2] + v[2]>>
                [] Len(u) = 3 -> <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
                [] Len(u) = 4 -> <<u[1] + v[1], u[2] + v[2], u[3] + v[3], u[4] + v[4]>>
VSub(u, v) == CASE Len(u) = 1 -> <<u[1] - v[1]>>
                [] Len(u) = 2 -> <<u[1] - v[1], u[2] - v[2]>>
                [] Len(u) = 3 -> <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
                [] Len(u) = 4 -> <<u[1] - v[1], u[2] - v[2], u[3] - v[3], u[4] - v[4]>>
VScale(k, v) == CASE Len(v) = 1 -> <<k * v[1]>>
                  [] Len(v) = 2 -> <<k * v[1], k * v[2]>>
                  [] Len(v) = 3 -> <<k * v[1], k * v[2], k * v[3]>>
                  [] Len(v) = 4 -> <<k * v[1], k * v[2], k * v[3], k * v[4]>>
VNeg(v) == VScale(-1, v)
Dot(u, v) == CASE Len(u) = 1 -> u[1] * v[1]
               [] Len(u) = 2 -> u[1] * v[1] + u[2] * v[2]
               [] Len(u) = 3 -> u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
               [] Len(u) = 4 -> u[1] * v[1] + u[2] * v[2] + u[3] * v[3] + u[4] * v[4]
Unit(d, k) == Vec(d, LAMBDA i : IF i = k THEN 1 ELSE 0)

Minor(B, r, c) ==      \* without row r and column c
  [i \in 1..(Len(B) - 1) |-> LET row == B[IF i < r THEN i ELSE i + 1] IN
     [k \in 1..(Len(B) - 1) |-> row[IF k < c THEN k ELSE k + 1]]]
RECURSIVE SignedDet(_)
SignedDet(B) ==
  CASE Len(B) = 1 -> B[1][1]
    [] Len(B) = 2 -> B[1][1] * B[2][2] - B[1][2] * B[2][1]
    [] Len(B) = 3 -> B[1][1] * (B[2][2] * B[3][3] - B[2][3] * B[3][2])
                   - B[1][2] * (B[2][1] * B[3][3] - B[2][3] * B[3][1])
                   + B[1][3] * (B[2][1] * B[3][2] - B[2][2] * B[3][1])
    [] Len(B) = 4 -> B[1][1] * SignedDet(Minor(B, 1, 1)) - B[1][2] * SignedDet(Minor(B, 1, 2))
                   + B[1][3] * SignedDet(Minor(B, 1, 3)) - B[1][4] * SignedDet(Minor(B, 1, 4))

\* Adjugate: adj[i][k] = det * inverse[i][k]
Adjugate(B) ==
  CASE Len(B) = 1 -> << <<1>> >>
    [] Len(B) = 2 -> << <<B[2][2], -B[1][2]>>, <<-B[2][1], B[1][1]>> >>
    [] Len(B) = 3 ->
       LET C(r1, c1, r2, c2) == B[r1][c1] * B[r2][c2] - B[r1][c2] * B[r2][c1] IN
       << << C(2,2,3,3), -C(1,2,3,3),  C(1,2,2,3)>>,
          <<-C(2,1,3,3),  C(1,1,3,3), -C(1,1,2,3)>>,
          << C(2,1,3,2), -C(1,1,3,2),  C(1,1,2,2)>> >>
    [] Len(B) = 4 ->
       Vec(4, LAMBDA i : Vec(4, LAMBDA k :
         (IF (i + k) % 2 = 0 THEN 1 ELSE -1) * SignedDet(Minor(B, k, i))))

Prod3(d, R) == CASE d = 1 -> {<<a>> : a \in R[1]}
                 [] d = 2 -> {<<a, b>> : a \in R[1], b \in R[2]}
                 [] d = 3 -> {<<a, b, c>> : a \in R[1], b \in R[2], c \in R[3]}
                 [] d = 4 -> {<<a, b, c, e>> : a \in R[1], b \in R[2], c \in R[3], e \in R[4]}
\* A short lattice vector (only bounds searches)
Comb(B, n) == CASE Len(B) = 1 -> VScale(n[1], B[1])
                [] Len(B) = 2 -> VAdd(VScale(n[1], B[1]), VScale(n[2], B[2]))
                [] Len(B) = 3 -> VAdd(VAdd(VScale(n[1], B[1]), VScale(n[2], B[2])),
                                      VScale(n[3], B[3]))
                [] Len(B) = 4 -> VAdd(VAdd(VScale(n[1], B[1]), VScale(n[2], B[2])),
                                      VAdd(VScale(n[3], B[3]), VScale(n[4], B[4])))
WNorm(W, x) == SumSeq([i \in 1..Len(x) |-> W[i] * x[i] * x[i]])
ShortVec(B, W) ==
  LET vs == {Comb(B, n) : n \in Prod3(Len(B), Vec(Len(B), LAMBDA i : -2..2))}
            \ {Zero(Len(B))}
      m == MinOf({WNorm(W, v) : v \in vs})
  IN CHOOSE v \in vs : WNorm(W, v) = m

MkGeom(B, W) ==
  LET sd == SignedDet(B) IN LET s == IF sd < 0 THEN -1 ELSE 1 IN LET a == Adjugate(B) IN
  [dim |-> Len(B), B |-> B, W |-> W, det |-> Abs(sd),
   adj |-> [i \in 1..Len(B) |-> VScale(s, a[i])], short |-> ShortVec(B, W)]

Col(g, k) == Vec(g.dim, LAMBDA i : g.adj[i][k])

\* Lattice vector of n (any integers, also for numerators of rational coordinates)
T(g, n) == CASE g.dim = 1 -> VScale(n[1], g.B[1])
             [] g.dim = 2 -> VAdd(VScale(n[1], g.B[1]), VScale(n[2], g.B[2]))
             [] g.dim = 3 -> VAdd(VAdd(VScale(n[1], g.B[1]), VScale(n[2], g.B[2])),
                                  VScale(n[3], g.B[3]))
             [] g.dim = 4 -> Comb(g.B, n)
\* Numerators (over det) of the lattice coordinates of a grid vector
FracN(g, x) == Vec(g.dim, LAMBDA k : Dot(x, Col(g, k)))
\* Squared length
D(g, x) == CASE g.dim = 1 -> g.W[1] * x[1] * x[1]
             [] g.dim = 2 -> g.W[1] * x[1] * x[1] + g.W[2] * x[2] * x[2]
             [] g.dim = 3 -> g.W[1] * x[1] * x[1] + g.W[2] * x[2] * x[2]
                           + g.W[3] * x[3] * x[3]
             [] g.dim = 4 -> WNorm(g.W, x)
\* Weighted product u.v
WDot(g, u, v) == Dot(Vec(g.dim, LAMBDA i : g.W[i] * u[i]), v)
ProdW(g) == CASE g.dim = 1 -> g.W[1] [] g.dim = 2 -> g.W[1] * g.W[2]
              [] g.dim = 3 -> g.W[1] * g.W[2] * g.W[3]
              [] g.dim = 4 -> g.W[1] * g.W[2] * g.W[3] * g.W[4]
Diagonal(g) == \A i, k \in 1..g.dim : i # k => g.B[i][k] = 0

------------------------------------------------------------------------------
(* All cells n with D(T(n) + delta) <= dmax. The coordinate f_k of a vector  *)
(* of squared length D satisfies (det f_k)^2 <= D * sum_i adj[i][k]^2/W[i].  *)
RECURSIVE Grow(_, _, _, _, _, _)
Grow(n, step, det, f, pw, lim) ==
  IF ((n + step) * det + f) * ((n + step) * det + f) * pw <= lim
  THEN Grow(n + step, step, det, f, pw, lim) ELSE n
\* Two ways to enumerate: cells in the box of admissible coordinates, or grid points
\* in the box around the ball; the one with fewer candidates is used.
Centre(g, f) == -((2 * f + g.det) \div (2 * g.det))        \* nearest to 0
CellsNear(g, delta, dmax) ==
  LET pw == ProdW(g)
      fd == FracN(g, delta)
      S(k) == LET c == Col(g, k) IN
              Dot(Vec(g.dim, LAMBDA i : c[i] * c[i]), Vec(g.dim, LAMBDA i : pw \div g.W[i]))
      lo == Vec(g.dim, LAMBDA k : Grow(Centre(g, fd[k]), -1, g.det, fd[k], pw, dmax * S(k)))
      hi == Vec(g.dim, LAMBDA k : Grow(Centre(g, fd[k]), 1, g.det, fd[k], pw, dmax * S(k)))
      r == Vec(g.dim, LAMBDA i : Isqrt(dmax \div g.W[i]))
      size(a, b) == LET w == Vec(g.dim, LAMBDA k : b[k] - a[k] + 1) IN
                    w[1] * (IF g.dim > 1 THEN w[2] ELSE 1) * (IF g.dim > 2 THEN w[3] ELSE 1)
                         * (IF g.dim > 3 THEN w[4] ELSE 1)
  IN IF size(lo, hi) <= size(VNeg(r), r)
     THEN {n \in Prod3(g.dim, Vec(g.dim, LAMBDA k : lo[k]..hi[k])) :
             D(g, VAdd(T(g, n), delta)) <= dmax}
     ELSE LET xs == {x \in Prod3(g.dim, Vec(g.dim, LAMBDA k : (-r[k])..r[k])) : D(g, x) <= dmax}
              fs == {FracN(g, VSub(x, delta)) : x \in xs}
          IN {Vec(g.dim, LAMBDA k : f[k] \div g.det) :
                f \in {h \in fs : \A k \in 1..g.dim : h[k] % g.det = 0}}

\* The c smallest distinct positive squared distances from 0 to the points T(n)+delta,
\* and the cells of these points: <<n, D>>
DistTop(g, delta, c) ==      \* an upper bound of the c-th distance
  Sorted({D(g, VAdd(VScale(j, g.short), delta)) : j \in (-c)..c} \ {0})[c]
Near(g, delta, c) ==
  IF c = 0 THEN {} ELSE
  LET all == {<<n, D(g, VAdd(T(g, n), delta))>> : n \in CellsNear(g, delta, DistTop(g, delta, c))}
      ds == SetOf(FirstK(Sorted({x[2] : x \in all} \ {0}), c))
  IN {x \in all : x[2] \in ds}

\* Analysis of atoms at apos with connection numbers con: distances per pair and
\* the offsets <<dn, beta, D>> of the neighbours of each atom
Analysis(g, apos, con) ==
  LET N == Len(apos)
      near == [a \in 1..N |-> [b \in 1..N |-> Near(g, VSub(apos[b], apos[a]), con[a][b])]]
  IN [dm |-> [a \in 1..N |-> [b \in 1..N |-> {x[2] : x \in near[a][b]}]],
      off |-> [a \in 1..N |-> UNION {{<<x[1], b - 1, x[2]>> : x \in near[a][b]} : b \in 1..N}]]

------------------------------------------------------------------------------
(* Sites *)
Cell(s) == SubSeq(s, 1, Len(s) - 1)
Alpha(s) == s[Len(s)]
Site(n, a) == Append(n, a)
PosOf(g, apos, s) == VAdd(T(g, Cell(s)), apos[Alpha(s) + 1])
Shift(s, n) == Append(VAdd(Cell(s), n), Alpha(s))

\* The configured relation on a set of sites: <<s, t, D>>
Hop(s, q) == Append(VAdd(Cell(s), q[1]), q[2])
RelFrom(off, a, S) ==    \* (large sets: TLC joins them fast with \cup, not with UNION)
  {<<p[1], Hop(p[1], p[2]), p[2][3]>> :
     p \in {r \in {s \in S : Alpha(s) = a - 1} \X off[a] : Hop(r[1], r[2]) \in S}}
RECURSIVE CupTo(_, _)
CupTo(F(_), k) == IF k = 0 THEN {} ELSE Norm(CupTo(F, k - 1)) \cup F(k)
RelOf(off, S) == Norm(CupTo(LAMBDA a : RelFrom(off, a, S), Len(off)))

------------------------------------------------------------------------------
(* Shapes. Coordinates of shapes are given in units of 1/q of the grid.      *)
(*  box    [k, q, lo, hi]              lo <= q x <= hi  (grid vector x)      *)
(*  prim   [k, q, lo, hi]              lo <= q f <= hi  (lattice coord. f)   *)
(*  circle [k, q, c, r2]               D(q x - c) <= r2                      *)
(*  donut  [k, q, c, r2, i2]           i2 <= D(q x - c) <= r2                *)
(*  hull   [k, q, pts]                 q x in the hull of pts                *)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Orient2(a, b, c) == Sgn((b[1]-a[1])*(c[2]-a[2]) - (b[2]-a[2])*(c[1]-a[1]))
Orient3(a, b, c, p) == Sgn(SignedDet(<<VSub(b, a), VSub(c, a), VSub(p, a)>>))
InTri(p, a, b, c) ==
  LET o == Orient2(a, b, c) IN
  /\ o # 0 /\ Orient2(a, b, p) * o >= 0 /\ Orient2(b, c, p) * o >= 0
  /\ Orient2(c, a, p) * o >= 0
InTet(p, a, b, c, d) ==
  LET o == Orient3(a, b, c, d) IN
  /\ o # 0 /\ Orient3(a, b, c, p) * o >= 0 /\ Orient3(a, b, p, d) * o >= 0
  /\ Orient3(a, p, c, d) * o >= 0 /\ Orient3(p, b, c, d) * o >= 0
InHull(pts, p) ==
  LET N == Len(pts) IN
  IF Len(p) = 2
  THEN \E i, j, k \in 1..N : i < j /\ j < k /\ InTri(p, pts[i], pts[j], pts[k])
  ELSE \E i, j, k, l \in 1..N : i < j /\ j < k /\ k < l
                                /\ InTet(p, pts[i], pts[j], pts[k], pts[l])

\* y = q x is the point in units of 1/q of the grid
InShapeQ(g, sh, y) ==
  CASE sh.k = "box" -> \A i \in 1..g.dim : sh.lo[i] <= y[i] /\ y[i] <= sh.hi[i]
    [] sh.k = "prim" -> LET f == FracN(g, y) IN
         \A i \in 1..g.dim : sh.lo[i] * g.det <= f[i] /\ f[i] <= sh.hi[i] * g.det
    [] sh.k = "circle" -> D(g, VSub(y, sh.c)) <= sh.r2
    [] sh.k = "donut" -> LET d == D(g, VSub(y, sh.c)) IN sh.i2 <= d /\ d <= sh.r2
    [] sh.k = "hull" -> InHull(sh.pts, y)
InShape(g, sh, x) == InShapeQ(g, sh, VScale(sh.q, x))
\* Without the upper faces of a box in lattice coordinates
InShapeOpen(g, sh, x) ==
  IF sh.k # "prim" THEN InShape(g, sh, x) ELSE
  LET f == FracN(g, VScale(sh.q, x)) IN
  \A i \in 1..g.dim : sh.lo[i] * g.det <= f[i] /\ f[i] < sh.hi[i] * g.det

Corners(d, lo, hi) == Prod3(d, Vec(d, LAMBDA i : {lo[i], hi[i]}))

\* A box lo..hi (units of 1/q) of the grid that encloses the shape
Enclosing(g, sh) ==
  CASE sh.k = "box" -> <<sh.lo, sh.hi>>
    [] sh.k = "prim" ->
         LET cs == {T(g, c) : c \in Corners(g.dim, sh.lo, sh.hi)} IN
         <<Vec(g.dim, LAMBDA i : MinOf({c[i] : c \in cs})),
           Vec(g.dim, LAMBDA i : MaxOf({c[i] : c \in cs}))>>
    [] sh.k \in {"circle", "donut"} ->
         LET r == Vec(g.dim, LAMBDA i : Isqrt(sh.r2 \div g.W[i]) + 1) IN
         <<VSub(sh.c, r), VAdd(sh.c, r)>>
    [] sh.k = "hull" ->
         <<Vec(g.dim, LAMBDA i : MinOf({sh.pts[j][i] : j \in 1..Len(sh.pts)})),
           Vec(g.dim, LAMBDA i : MaxOf({sh.pts[j][i] : j \in 1..Len(sh.pts)}))>>

\* All cells n for which T(n) + p can lie in the box lo..hi (units of 1/q)
CellsInBox(g, q, lo, hi, p) ==
  LET cs == {FracN(g, VSub(c, VScale(q, p))) : c \in Corners(g.dim, lo, hi)}
      Rng(k) == CeilDiv(MinOf({c[k] : c \in cs}), q * g.det)..
                FloorDiv(MaxOf({c[k] : c \in cs}), q * g.det)
  IN Prod3(g.dim, Vec(g.dim, Rng))

\* The grid points of the box lo..hi (units of 1/q) that are lattice points shifted by p
PointsInBox(g, q, lo, hi, p) ==
  LET Rng(k) == CeilDiv(lo[k], q)..FloorDiv(hi[k], q)
      pts == {FracN(g, VSub(x, p)) : x \in Prod3(g.dim, Vec(g.dim, Rng))}
  IN {Vec(g.dim, LAMBDA k : f[k] \div g.det) :
        f \in {h \in pts : \A k \in 1..g.dim : h[k] % g.det = 0}}
Volume(d, q, lo, hi) ==
  LET w(k) == FloorDiv(hi[k], q) - CeilDiv(lo[k], q) + 1 IN
  CASE d = 1 -> w(1) [] d = 2 -> w(1) * w(2) [] d = 3 -> w(1) * w(2) * w(3)
    [] d = 4 -> w(1) * w(2) * w(3) * w(4)
\* Cells with a site p in the box: found from the grid or from the cells, whichever is less
CellsFor(g, q, lo, hi, p) ==
  LET cs == {FracN(g, VSub(c, VScale(q, p))) : c \in Corners(g.dim, lo, hi)}
      a == Vec(g.dim, LAMBDA k : MinOf({c[k] : c \in cs}))
      b == Vec(g.dim, LAMBDA k : MaxOf({c[k] : c \in cs}))
  IN IF Volume(g.dim, q * g.det, a, b) <= Volume(g.dim, q, lo, hi)
     THEN CellsInBox(g, q, lo, hi, p) ELSE PointsInBox(g, q, lo, hi, p)

SitesWhere(g, apos, sh, In(_, _, _)) ==
  LET e == Enclosing(g, sh) IN
  Norm(CupTo(LAMBDA a : {Append(n, a - 1) : n \in
            {m \in CellsFor(g, sh.q, e[1], e[2], apos[a]) :
               In(g, sh, VAdd(T(g, m), apos[a]))}}, Len(apos)))

------------------------------------------------------------------------------
(* Extents and periods *)
Extent(g, S) ==   \* of the lattice points of a set of sites
  LET ps == {T(g, Cell(s)) : s \in S} IN
  Vec(g.dim, LAMBDA i : MaxOf({p[i] : p \in ps}) - MinOf({p[i] : p \in ps}))
IndexExtent(S) ==
  LET cs == {Cell(s) : s \in S} IN
  Vec(Len(CHOOSE c \in cs : TRUE),
      LAMBDA i : MaxOf({c[i] : c \in cs}) - MinOf({c[i] : c \in cs}))
CellSize(g) ==
  Vec(g.dim, LAMBDA i : LET vs == {g.B[k][i] : k \in 1..g.dim} \cup {0} IN
                        MaxOf(vs) - MinOf(vs))

\* Lattice vectors (cells) along ax with lo < length <= hi
AxisVecs(g, ax, lo, hi) ==
  {n \in CellsInBox(g, 1, Vec(g.dim, LAMBDA i : IF i = ax THEN lo + 1 ELSE 0),
                          Vec(g.dim, LAMBDA i : IF i = ax THEN hi ELSE 0), Zero(g.dim)) :
     \A i \in 1..g.dim : LET v == T(g, n)[i] IN
        IF i = ax THEN lo < v /\ v <= hi ELSE v = 0}
\* The period of the sites S along ax. Lattice coordinates: the number of cells along
\* the axis. Cartesian coordinates: the lattice vector along the axis that is longer
\* than the extent of the lattice points, if there is a single one up to one cell size
\* and the lattice vector nearest to the middle of that range is unambiguous.
PeriodSet(g, S, prim, ax) ==
  IF prim THEN {Vec(g.dim, LAMBDA i : IF i = ax THEN IndexExtent(S)[i] + 1 ELSE 0)}
  ELSE LET ext == Extent(g, S)[ax]
           cs == CellSize(g)[ax]
           vs == AxisVecs(g, ax, ext, ext + cs) IN
       IF Cardinality(vs) # 1 THEN {} ELSE
       {n \in vs : \A k \in 1..g.dim :
          2 * Abs((3 * (T(g, n)[ax] - ext) - 2 * cs) * g.adj[ax][k]) < 3 * g.det}
PeriodClean(g, S, prim, ax) == PeriodSet(g, S, prim, ax) # {}
PeriodOk(g, S, prim, ax, n) ==
  LET ps == PeriodSet(g, S, prim, ax) IN ps # {} => n \in ps

\* All shifts by combinations -1, 0, 1 of the periods (a sequence of cells)
Images(d, ps) ==
  IF Len(ps) = 0 THEN {Zero(d)} ELSE
  {Comb(ps, m) :
   m \in Prod3(Len(ps), Vec(Len(ps), LAMBDA i : -1..1))}

\* Periodic relation <<s, t, D>>: some image of s is at a configured distance of t
PeriodicPairs(g, apos, off, S, ps, rel) ==
  LET im == Images(g.dim, ps) \ {Zero(g.dim)}
      from(a) == {<<p[1], Hop(Shift(p[1], p[2]), p[3]), p[3][3]>> :
                    p \in {r \in {s \in S : Alpha(s) = a - 1} \X im \X off[a] :
                             Hop(Shift(r[1], r[2]), r[3]) \in S}}
      all == Norm(CupTo(from, Len(off)))
      regular == Norm({<<r[1], r[2]>> : r \in rel})
      new == {r \in all : <<r[1], r[2]>> \notin regular}
  IN IF Cardinality({<<r[1], r[2]>> : r \in new}) = Cardinality(new) THEN new ELSE
     {r \in new : \A q \in new : (q[1] = r[1] /\ q[2] = r[2]) => r[3] <= q[3]}
MinDist(g, apos, ps, s, t) ==
  MinOf({D(g, VSub(VAdd(PosOf(g, apos, s), T(g, m)), PosOf(g, apos, t))) :
         m \in Images(g.dim, ps)})

=============================================================================
