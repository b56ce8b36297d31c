------------------------------ MODULE Lattice -------------------------------
(* The state of a lattice object and its transitions.                       *)
(*                                                                          *)
(* An object is a record with                                               *)
(*   g, atoms, apos, con   the configuration (basis, atoms, connections),   *)
(*   ana, dm, off          the analysis (distances and neighbour offsets),  *)
(*   built, sites, rel, dvals, prim, boff   the finite lattice,             *)
(*   paxes, ps, prel       the periodic boundaries,                         *)
(*   cut                   sites were removed since the last build.         *)
(* Every operation maps an object (and what it leaves open, such as the     *)
(* order of the sites) to [o, exc]: the new object and the set of           *)
(* admissible exceptions ({""}: none).                                      *)
EXTENDS LattGeom

NewObj(g) ==
  [g |-> g, atoms |-> <<>>, apos |-> <<>>, con |-> <<>>,
   ana |-> FALSE, dm |-> <<>>, off |-> <<>>,
   built |-> FALSE, sites |-> <<>>, rel |-> {}, dvals |-> <<>>, prim |-> FALSE,
   boff |-> <<>>, paxes |-> <<>>, ps |-> <<>>, prel |-> {}, cut |-> FALSE]

Done(o) == [o |-> o, exc |-> {""}]
Fail(o, e) == [o |-> o, exc |-> e]

------------------------------------------------------------------------------
(* Configuration *)
NoCon(o) == \A i \in 1..Len(o.con) : \A j \in 1..Len(o.con) : o.con[i][j] = 0

Analyze(o) ==
  IF Len(o.atoms) = 0 THEN Fail(o, {"NoAtomsError"})
  ELSE IF NoCon(o) THEN Fail(o, {"NoConnectionsError"})
  ELSE LET a == Analysis(o.g, o.apos, o.con) IN
       Done([o EXCEPT !.ana = TRUE, !.dm = a.dm, !.off = a.off])

\* With analysis: a failing analysis leaves the connections as they were set
Then(o, analyze) == IF analyze THEN Analyze(o) ELSE Done(o)

AddConnections(o, c, analyze) ==
  IF Len(o.atoms) = 0 THEN Fail(o, {"NoAtomsError", "AttributeError", "TypeError"})
  ELSE Then([o EXCEPT !.con = [i \in 1..Len(o.con) |-> [j \in 1..Len(o.con) |-> c]],
                      !.ana = FALSE], analyze)

\* as, bs: the (0-based) places of the two atoms
AddConnection(o, as, bs, c, analyze) ==
  IF Len(o.atoms) = 0    \* there is no such atom: nothing to set
  THEN Fail(o, {"NoAtomsError", "AttributeError", "TypeError", "IndexError", "ValueError"}
               \cup (IF analyze THEN {} ELSE {""}))
  ELSE
  LET hit(i, j) == \/ (\E a \in SetOf(as), b \in SetOf(bs) : i = a + 1 /\ j = b + 1)
                   \/ (\E a \in SetOf(as), b \in SetOf(bs) : j = a + 1 /\ i = b + 1)
  IN Then([o EXCEPT !.con = [i \in 1..Len(o.con) |-> [j \in 1..Len(o.con) |->
                                IF hit(i, j) THEN c ELSE o.con[i][j]]],
                    !.ana = FALSE], analyze)

AddAtom(o, name, id, mass, pos, nb) ==
  IF Len(pos) # o.g.dim THEN Fail(o, {"ValueError"})
  ELSE IF \E i \in 1..Len(o.apos) : o.apos[i] = pos
       THEN Fail(o, {"SiteOccupiedError"})
  ELSE LET n == Len(o.atoms) + 1
           p == [o EXCEPT !.atoms = Append(o.atoms, [name |-> name, id |-> id, mass |-> mass]),
                          !.apos = Append(o.apos, pos),
                          !.con = [i \in 1..n |-> [j \in 1..n |-> 0]],
                          !.ana = FALSE]
       IN IF nb = 0 THEN Done(p) ELSE AddConnections(p, nb, TRUE)

\* May neighbours be queried; which error else
NeedAnalysis(o) == IF o.ana THEN {""} ELSE {"NotAnalyzedError"}
NeedBuild(o) == IF o.built THEN {""} ELSE {"NotBuiltError"}
CanBuild(o) ==
  IF o.ana THEN {""}
  ELSE IF Len(o.atoms) = 0 THEN {"NoAtomsError", "NoConnectionsError", "NotAnalyzedError"}
  ELSE IF NoCon(o) THEN {"NoConnectionsError"} ELSE {"NotAnalyzedError"}

------------------------------------------------------------------------------
(* Finite lattices *)
DVals(rel) == Sorted({r[3] : r \in rel})
Restrict(rel, S) == Norm({r \in rel : r[1] \in S /\ r[2] \in S})
Degree(rel, s) == Cardinality({r \in rel : r[1] = s})

\* Admissible site sets of a build lie between BuildMust and BuildMay
Accepted(o, cb, s) ==
  LET v == IF cb.k = "ind" THEN SumSeq([i \in 1..Len(s) |-> cb.c[i] * s[i]])
           ELSE Dot(cb.c, PosOf(o.g, o.apos, s))
  IN CASE cb.k = "none" -> TRUE
       [] cb.m = 0 -> v >= cb.r
       [] OTHER -> v % cb.m # cb.r
AcceptedBy(o, cb, S) == IF cb.k = "none" THEN S ELSE {s \in S : Accepted(o, cb, s)}
BuildMay(o, sh, cb) == AcceptedBy(o, cb, SitesWhere(o.g, o.apos, sh, InShape))
BuildMust(o, sh, cb) == AcceptedBy(o, cb, SitesWhere(o.g, o.apos, sh, InShapeOpen))
MinNeighbors(o, S, m) ==
  IF m = 0 THEN S ELSE LET rel == RelOf(o.off, S) IN {s \in S : Degree(rel, s) >= m}

\* The lattice with the given sequence of sites
WithSites(o, sites, prim) ==
  LET rel == RelOf(o.off, SetOf(sites)) IN
  [o EXCEPT !.built = TRUE, !.sites = sites, !.rel = rel, !.dvals = DVals(rel),
            !.prim = prim, !.boff = o.off, !.paxes = <<>>, !.ps = <<>>, !.prel = {},
            !.cut = FALSE]

\* Periodic boundaries with the periods ps of the axes (0-based) axes
SetPeriodic(o, axes, ps) ==
  [o EXCEPT !.paxes = axes, !.ps = ps,
            !.prel = PeriodicPairs(o.g, o.apos, o.off, SetOf(o.sites), ps, o.rel)]
UnsetPeriodic(o) == [o EXCEPT !.paxes = <<>>, !.ps = <<>>, !.prel = {}]
\* Periodic neighbours have distances that occur in the lattice and join two sites
PeriodicRegular(o) ==
  \A r \in o.prel : r[1] # r[2] /\ r[3] \in SetOf(o.dvals)

Remove(o, gone) ==   \* gone: set of (1-based) places
  LET keep == SelectSeq([i \in 1..Len(o.sites) |-> i], LAMBDA i : i \notin gone)
      sites == [i \in 1..Len(keep) |-> o.sites[keep[i]]]
      S == SetOf(sites)
  IN [o EXCEPT !.sites = sites, !.rel = Restrict(o.rel, S),
               !.prel = Restrict(o.prel, S), !.cut = TRUE]
Reorder(o, perm) ==  \* perm: new place -> old place (1-based)
  [o EXCEPT !.sites = [i \in 1..Len(perm) |-> o.sites[perm[i]]]]

Total(o) == o.rel \cup o.prel

------------------------------------------------------------------------------
(* Joined lattices: the sites that are added *)
Moved(S, n) == Norm({Shift(s, n) : s \in S})
Sign(side) == IF side > 0 THEN 1 ELSE -1
\* The lattice with the sites S2 is moved next to the sites of o; the period of the
\* lower of the two (PeriodSet must not be empty)
AppendSites(o, S2, ax, side) ==
  Moved(S2, VScale(Sign(side),
    CHOOSE n \in PeriodSet(o.g, IF side > 0 THEN SetOf(o.sites) ELSE S2, o.prim, ax) : TRUE))
RepeatSites(o, ax, side, num) ==
  LET n == CHOOSE n \in PeriodSet(o.g, SetOf(o.sites), o.prim, ax) : TRUE IN
  CupTo(LAMBDA k : Moved(SetOf(o.sites), VScale(Sign(side) * k, n)), num)
\* The section that is added: as wide as the lattice, of the given size along the axis
Section(o, ax, size, q, upper) ==
  LET S == SetOf(o.sites)
      x(s) == PosOf(o.g, o.apos, s)
      y(s) == IF o.prim THEN FracN(o.g, x(s)) ELSE x(s)     \* units of 1/u
      u == IF o.prim THEN o.g.det ELSE 1
      lo == Vec(o.g.dim, LAMBDA i : MinOf({y(s)[i] : s \in S}))
      hi == Vec(o.g.dim, LAMBDA i : MaxOf({y(s)[i] : s \in S}))
      in(z) == \A i \in 1..o.g.dim :
                 /\ lo[i] <= z[i]
                 /\ IF i # ax THEN z[i] <= hi[i]
                    ELSE IF upper THEN q * (z[i] - lo[i]) <= u * size
                    ELSE q * (z[i] - lo[i]) < u * size
      \* a box that holds the section
      top == Vec(o.g.dim, LAMBDA i : IF i # ax THEN hi[i]
                                     ELSE lo[i] + CeilDiv(u * size, q))
      box == [k |-> IF o.prim THEN "prim" ELSE "box", q |-> u, lo |-> lo, hi |-> top]
  IN {s \in SitesWhere(o.g, o.apos, box, InShape) : in(y(s))}

------------------------------------------------------------------------------
(* Invariants of a lattice object *)
Symmetric(r) == \A x \in r : <<x[2], x[1], x[3]>> \in r
ObjOk(o) ==
  /\ Len(o.atoms) = Len(o.apos)
  /\ \A i, j \in 1..Len(o.apos) : i # j => o.apos[i] # o.apos[j]
  /\ \A i, j \in 1..Len(o.con) : o.con[i][j] = o.con[j][i]
  /\ o.ana => /\ \A a \in 1..Len(o.off) : \A q \in o.off[a] :
                   <<VNeg(q[1]), a - 1, q[3]>> \in o.off[q[2] + 1]
              /\ \A a, b \in 1..Len(o.dm) :
                   /\ o.dm[a][b] = o.dm[b][a]
                   /\ Cardinality(o.dm[a][b]) = o.con[a][b]
  /\ o.built =>
       /\ Cardinality(SetOf(o.sites)) = Len(o.sites)
       /\ Symmetric(o.rel) /\ Symmetric(o.prel)
       /\ \A r \in o.rel : r[1] # r[2] /\ r[3] \in SetOf(o.dvals)
                           /\ r[3] = D(o.g, VSub(PosOf(o.g, o.apos, r[1]),
                                                 PosOf(o.g, o.apos, r[2])))
       /\ \A r \in Total(o) : r[1] \in SetOf(o.sites) /\ r[2] \in SetOf(o.sites)
       /\ \A r \in o.rel : \A q \in Total(o) : (r[1] = q[1] /\ r[2] = q[2]) => r = q
       /\ \A i \in 1..(Len(o.dvals) - 1) : o.dvals[i] < o.dvals[i + 1]
       /\ (o.paxes = <<>>) => (o.prel = {})
=============================================================================
