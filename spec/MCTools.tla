------------------------------- MODULE MCTools -------------------------------
(* Exhaustive models of bases, shapes, cells, paths, atoms and helpers over  *)
(* the menus of a scope (see MCLattice). The state machines (paths, atoms)   *)
(* are explored to a depth, the functions on all small arguments. Every      *)
(* transition is printed with a path to it and replayed on the               *)
(* implementation. The invariants are facts the definitions must satisfy.    *)
EXTENDS Tools, Json, IOUtils

S == JsonDeserialize(IOEnv.SCOPE)
VARIABLES objs, path, last
vars == <<objs, path, last>>
View0 == <<objs, last>>

Emit(p) == PrintT("PATH|" \o ToJson(p))
Names == DOMAIN objs
Do(x, st, o) ==
  /\ objs' = (x :> o) @@ objs
  /\ path' = Append(path, st)
  /\ last' = <<st.op, x>>
  /\ Emit(path')

------------------------------------------------------------------------------
(* Dispersion paths *)
PathNext ==
  \/ /\ path = <<>>
     /\ \E d \in SetOf(S.dims) : Do("a", [op |-> "path", o |-> "a", dim |-> d, unit |-> S.unit], NewPath(d))
  \/ /\ path # <<>>
     /\ LET o == objs["a"] IN
        \/ \E p \in SetOf(S.points), n \in SetOf(S.names) :
             Do("a", [op |-> "padd", o |-> "a", p |-> p, name |-> n], AddPoint(o, p, n))
        \/ \E p, q \in SetOf(S.points), n \in SetOf(S.nameseqs) :
             Do("a", [op |-> "padds", o |-> "a", ps |-> <<p, q>>, names |-> n], AddAll(o, <<p, q>>, n, 1))
        \/ o.pts # <<>> /\ Do("a", [op |-> "pcycle", o |-> "a"], Cycle(o))
        \/ Len(o.pts) > 1 /\ \E m \in SetOf(S.ms) :
             Do("a", [op |-> "pbuild", o |-> "a", m |-> m], [o EXCEPT !.m = m])
PathOk == S.kind = "path" => \A x \in Names : LET o == objs[x] IN
  /\ Len(o.pts) = Len(o.labels)
  /\ \A i \in 1..Len(o.pts) : Len(o.pts[i]) <= o.dim
  /\ (o.m > 1 /\ Len(o.pts) > 1) => LET v == PathVecs(o, o.m) IN
       /\ Len(v) = o.m * Sections(o)
       /\ \A s \in 1..Sections(o) :
            /\ v[(s - 1) * o.m + 1] = [i \in 1..Len(o.pts[s]) |-> (o.m - 1) * o.pts[s][i]]
            /\ v[s * o.m] = [i \in 1..Len(o.pts[s]) |-> (o.m - 1) * o.pts[s + 1][i]]

------------------------------------------------------------------------------
(* Atoms *)
Hows == {"getitem", "getattr", "get", "in", "setitem", "setattr", "delitem", "pop", "update"}
Std == ("color" :> "None") @@ ("radius" :> "0.2")
Val(o, how, key, v) ==    \* the step with the answer the specification expects
  [op |-> "aop", o |-> "x", how |-> how, key |-> key, v |-> v,
   exc |-> IF key \in DOMAIN o.params THEN "" ELSE
           CASE how = "getitem" -> "KeyError" [] how = "delitem" -> "KeyError"
             [] how \in {"getattr", "setattr"} -> "AttributeError" [] OTHER -> "",
   res |-> [v |-> IF key \in DOMAIN o.params THEN o.params[key] ELSE v, b |-> key \in DOMAIN o.params]]
AtomNext ==
  \/ /\ path = <<>>
     /\ Do("a", [op |-> "atom", o |-> "a", name |-> "A", weight |-> "1.0", params |-> Std],
           NewAtom("A", "1.0", Std))
  \/ \E x \in Names : LET o == objs[x] IN
     \/ \E how \in Hows, key \in SetOf(S.keys), v \in SetOf(S.vals) :
          LET r == AtomStep(o, Val(o, how, key, v)) IN
          /\ r.bad = {}
          /\ Do(x, [op |-> "aop", o |-> x, how |-> how, key |-> key, v |-> v], r.o)
     \/ LET y == IF x = "a" THEN "b" ELSE "a" IN
        Do(y, [op |-> "acopy", o |-> y, src |-> x], o)
     \/ \E y \in Names : Do(x, [op |-> "aeq", o |-> x, other |-> objs[y].name, p |-> y], o)
     \/ "b" \notin Names /\ Do("b", [op |-> "atom", o |-> "b", name |-> "B", weight |-> "2", params |-> Std],
                               NewAtom("B", "2", Std))

------------------------------------------------------------------------------
(* Functions: all small arguments *)
Span(m) == (-m)..m
RECURSIVE Seqs(_, _)
Seqs(X, n) == IF n = 0 THEN {<<>>} ELSE {<<x>> \o s : x \in X, s \in Seqs(X, n - 1)}
Mats(d, m) == {B \in Seqs(Seqs(Span(m), d), d) : SignedDet(B) # 0}
Points(d, m) == Prod3(d, Vec(d, LAMBDA i : Span(m)))
List(X) == LET RECURSIVE f(_)
               f(Y) == IF Y = {} THEN <<>> ELSE LET y == CHOOSE z \in Y : TRUE IN <<y>> \o f(Y \ {y})
           IN f(X)
Geom(b) == [B |-> b, W |-> [i \in 1..Len(b) |-> 1], unit |-> S.unit, ctor |-> "array"]
One(d, q) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN q ELSE 0]]
BasisCase(b) ==
  LET d == Len(b)
      g == Geom(b)
      ps == List(Points(d, S.range)) IN
  <<[op |-> "transform", f |-> ps, q |-> S.q] @@ g,
    [op |-> "itransform", x |-> ps, q |-> S.q] @@ g,
    [op |-> "translate", x |-> Vec(d, LAMBDA i : i), q |-> S.q, n |-> ps] @@ g,
    [op |-> "itranslate", x |-> ps, q |-> S.q] @@ g,
    [op |-> "estimate", x |-> ps, q |-> S.q] @@ g>>
RecipCase(b) ==
  LET d == Len(b)
      g == Geom(b)
      \* all single wrong entries
      off == {[One(d, 2) EXCEPT ![i][j] = @ + c] : i, j \in 1..d, c \in {-2, 1}}
      ms == <<One(d, 2)>> \o List(off) IN
  <<[op |-> "recip"] @@ g, [op |-> "cell"] @@ g>> \o
  [i \in 1..Len(ms) |-> [op |-> "isrecip", m |-> ms[i], q |-> 2] @@ g] \o
  <<[op |-> "vectors", B |-> b, unit |-> S.unit]>>
NumberCase(sh) ==
  <<[op |-> "number", shape |-> sh, n |-> List(Prod3(Len(sh), [i \in 1..Len(sh) |-> 0..(sh[i] - 1)]))]
    @@ Geom(One(Len(sh), 1))>>
CellCase(b) ==
  <<[op |-> "ws", x |-> List(Points(Len(b), S.range)), q |-> S.q] @@ Geom(b)>> \o
  (IF S.bz THEN <<[op |-> "bz", x |-> List(Points(Len(b), S.range)), q |-> S.q] @@ Geom(b)>> ELSE <<>>)
ShapeCase(sh) ==
  LET d == S.dim
      m == S.range IN
  <<[op |-> "shape", sh |-> sh, B |-> S.B, y |-> List(Points(d, m)), t |-> 0, unit |-> S.unit,
     eps |-> S.eps],
    [op |-> "shape", sh |-> sh, B |-> S.B, y |-> List(Points(d, m)), t |-> 1, unit |-> S.unit,
     eps |-> S.eps]>>
Boxes(d, k) == {[k |-> k, q |-> 1, lo |-> lo, hi |-> VAdd(lo, s)] :
                lo \in Points(d, 1), s \in Prod3(d, Vec(d, LAMBDA i : 0..2))}
Shapes == CASE S.shape \in {"box", "prim"} -> Boxes(S.dim, S.shape)
            [] S.shape = "circle" -> {[k |-> "circle", q |-> 1, c |-> c, r |-> r] : c \in Points(S.dim, 1), r \in 0..3}
            [] S.shape = "donut" -> {[k |-> "donut", q |-> 1, c |-> c, r |-> x[1], i |-> x[2]] :
                                     c \in Points(S.dim, 1), x \in {<<1, 0>>, <<1, 1>>, <<2, 1>>, <<3, 1>>, <<3, 2>>}}
            [] S.shape = "hull" ->
                 LET P == Prod3(S.dim, Vec(S.dim, LAMBDA i : 0..2))
                     ok(X) == LET s == List(X) IN
                              \E i, j, k \in 1..Len(s) : Orient2(s[i], s[j], s[k]) # 0
                 IN {[k |-> "hull", q |-> 1, pts |-> List(X)] : X \in {Y \in SUBSET P :
                       Cardinality(Y) \in 3..S.corners /\ ok(Y)}}
GridCases ==
  {<<[op |-> "grid", lim |-> [i \in 1..Len(lo) |-> <<lo[i], lo[i] + s[i]>>], ax |-> ax]>> :
     <<lo, s, ax>> \in {x \in (Points(1, 2) \cup Points(2, 1)) \X
                              (Seqs(0..3, 1) \cup Seqs(0..3, 2)) \X (0..2) :
                        Len(x[1]) = Len(x[2]) /\ x[3] <= Len(x[1])}}
RangeCases ==
  {<<[op |-> "range", lo |-> lo, hi |-> VAdd(lo, s), step |-> st, q |-> 2, ax |-> ax, how |-> 3]>> :
     <<lo, s, st, ax>> \in {x \in (Points(1, 2) \cup Points(2, 1)) \X (Seqs(0..4, 1) \cup Seqs({0, 1, 3}, 2))
                                  \X (Seqs(1..3, 1) \cup Seqs({1, 2}, 2)) \X (0..2) :
                            Len(x[1]) = Len(x[2]) /\ Len(x[1]) = Len(x[3]) /\ x[4] <= Len(x[1])}}
ListCases ==
  {<<[op |-> "chain", items |-> s, cycle |-> c]>> : s \in UNION {Seqs(1..2, n) : n \in 1..4}, c \in BOOLEAN} \cup
  {<<[op |-> "table", a |-> s, scale |-> 1, form |-> "int"]>> : s \in UNION {Seqs({-1, 0, 2}, n) : n \in 1..4}}
WeaveCases ==
  {<<[op |-> "weave", arrays |-> a, types |-> t]>> :
     <<a, t>> \in {x \in (UNION {Seqs(Seqs(Seqs({1, 300}, 1), n), 2) : n \in 1..2}) \X Seqs({"int16", "float64"}, 2) : TRUE}}

Cases ==
  CASE S.kind = "basis" -> {BasisCase(b) : b \in Mats(S.dim, S.entries)}
    [] S.kind = "recip" -> {RecipCase(b) : b \in Mats(S.dim, S.entries)}
    [] S.kind = "number" -> {NumberCase(sh) : sh \in UNION {Seqs(1..S.entries, d) : d \in 1..3}}
    [] S.kind = "cell" -> {CellCase(b) : b \in Mats(S.dim, S.entries)}
    [] S.kind = "shape" -> {ShapeCase(sh) : sh \in Shapes}
    [] S.kind = "helper" -> GridCases \cup RangeCases \cup ListCases \cup WeaveCases
CaseNext == /\ path = <<>>
            /\ \E c \in Cases : path' = c /\ Emit(c) /\ objs' = objs /\ last' = c

------------------------------------------------------------------------------
Init == objs = [x \in {} |-> 0] /\ path = <<>> /\ last = <<>>
Next == CASE S.kind = "path" -> Len(path) <= S.depth /\ PathNext
          [] S.kind = "atom" -> Len(path) <= S.depth /\ AtomNext
          [] OTHER -> CaseNext
Spec == Init /\ [][Next]_vars

(* Facts about the definitions, for each of the arguments *)
G0 == MkGeom(path[1].B, path[1].W)
Small == Points(G0.dim, 1)
BasisOk == (S.kind \in {"basis", "recip"} /\ path # <<>>) => LET g == G0 IN
  /\ \A n \in Small : FracN(g, T(g, n)) = VScale(g.det, n)
  /\ \A x \in Small : T(g, FracN(g, x)) = VScale(g.det, x)
  /\ \A x \in Small : \A k \in 1..g.dim :
       LET rest == VSub(x, T(g, Floor(g, 1, x))) IN FracN(g, rest)[k] \in 0..(g.det - 1)
  /\ \A n \in Small : Nearest(g, 3, VScale(3, T(g, n))) = n
  \* dual vectors
  /\ \A i, j \in 1..g.dim : Dot(g.B[i], Recip(g).B[j]) = (IF i = j THEN g.det ELSE 0)
NumberOk == (S.kind = "number" /\ path # <<>>) => LET st == path[1] IN
  {RowMajor(st.shape, st.n[i]) : i \in 1..Len(st.n)} = 0..(Len(st.n) - 1)
CellOk == (S.kind = "cell" /\ path # <<>>) => LET g == G0 V == WSVectors(g) IN
  /\ WSInside(g, V, 1, Zero(g.dim))
  \* the cells around the lattice points do not overlap, and are symmetric
  /\ \A x \in Points(g.dim, 1) : WSInside(g, V, 2, x) =>
       (WSInside(g, V, 2, VNeg(x)) /\ \A v \in V : ~WSInside(g, V, 2, VSub(x, VScale(2, v))))
  /\ Cardinality(Corners14(g, V, Faces(g, V))) >= 2
ShapeOk == (S.kind = "shape" /\ path # <<>>) =>
  LET st == path[1]
      g == MkGeom(st.B, [i \in 1..Len(st.B) |-> 1])
      lim == Limits(g, st.sh) IN
  \A i \in 1..Len(st.y) : LET y == st.y[i] IN
    /\ Must(g, st.sh, y, 0) => \A k \in 1..g.dim : lim[k][1] <= y[k] /\ y[k] <= lim[k][2]
    /\ ~(Must(g, st.sh, y, 0) /\ Off(g, st.sh, y, 0))
    /\ Must(g, st.sh, y, 0) => Must(g, st.sh, y, 1)
AtomOk == S.kind = "atom" => \A x \in Names : objs[x].name \in {"A", "B"}
Apart == [][(S.kind = "atom" /\ last' # last) => \A x \in Names : x # last'[2] => objs'[x] = objs[x]]_vars
=============================================================================
