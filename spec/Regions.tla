------------------------------ MODULE Regions -------------------------------
(* The regions described by shapes (C13). Weights are 1; points, sizes and   *)
(* the tolerance t are integers in units of 1/q.                             *)
EXTENDS Basis

Sq(x) == x * x
\* Contained with tolerance: TRUE / FALSE where the description decides it
Must(g, sh, y, t) ==
  CASE sh.k = "box" -> \A i \in 1..g.dim : sh.lo[i] - t <= y[i] /\ y[i] <= sh.hi[i] + t
    [] sh.k = "circle" -> D(g, VSub(y, sh.c)) <= Sq(sh.r + t)
    [] sh.k = "donut" -> LET d == D(g, VSub(y, sh.c)) IN
                         Sq(Max2(0, sh.i - t)) <= d /\ d <= Sq(sh.r + t)
    [] OTHER -> InShapeQ(g, sh, y)
\* Out of the region and of its surroundings
Off(g, sh, y, t) ==
  CASE sh.k \in {"box", "circle", "donut"} -> ~Must(g, sh, y, t)
    [] t = 0 -> ~InShapeQ(g, sh, y)
    [] OTHER -> FALSE
Limits(g, sh) ==
  CASE sh.k \in {"circle", "donut"} ->
         Vec(g.dim, LAMBDA i : <<sh.c[i] - sh.r, sh.c[i] + sh.r>>)
    [] OTHER -> LET e == Enclosing(g, sh) IN Vec(g.dim, LAMBDA i : <<e[1][i], e[2][i]>>)
ShapeStep(st) ==
  LET g == MkGeom(st.B, [i \in 1..Len(st.B) |-> 1]) IN
  Cl("points of the shape", SameLen(st.res.inside, st.y) /\ All(st.y, LAMBDA i :
     /\ Must(g, st.sh, st.y[i], st.t) => st.res.inside[i]
     /\ Off(g, st.sh, st.y[i], st.t) => ~st.res.inside[i])) \cup
  Cl("limits of the shape", st.res.lim = Limits(g, st.sh)) \cup
  Cl("dimension of the shape", st.res.dim = g.dim)
=============================================================================
