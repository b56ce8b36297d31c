------------------------------ MODULE LattTrace -----------------------------
(* Checks recorded histories of real lattice objects against Lattice.tla.   *)
(* The file named by TRACES holds one history per line: a sequence of steps *)
(* [op, o, exc, args.., res, v]. Each step is an operation with the         *)
(* exception it raised ("" if none), what it left open (res) and the        *)
(* observations made after it (v). A verdict is printed for every history.  *)
EXTENDS Views, Presets, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, objs, skipped
vars == <<tr, l, objs, skipped>>

------------------------------------------------------------------------------
\* Result of a step: object, failed clauses, skip (the rest is not judged)
Res(o, bad) == [o |-> o, bad |-> bad, skip |-> FALSE]
Skip(o, bad) == [o |-> o, bad |-> bad, skip |-> TRUE]

\* Outcome r = [o, exc] of a deterministic operation
Outcome(o, st, r) ==
  IF st.exc \in r.exc THEN Res(r.o, {})
  ELSE Res(o, {"raised " \o st.exc})
Raises(o, st, e) ==   \* the operation had to raise one of e
  IF st.exc \in e THEN Res(o, {}) ELSE Res(o, {"expected error, got " \o st.exc})
Bad(o, st) == Res(o, {"raised " \o st.exc})

AdoptSites(o, st, prim) == WithSites(o, st.res.sites, prim)

\* Periods ps[i] of the axes axes[i] (from 0) observed on the real object
PeriodsOk(o, axes, ps) ==
  Len(axes) = Len(ps) /\ \A i \in 1..Len(axes) :
     PeriodOk(o.g, SetOf(o.sites), o.prim, axes[i] + 1, ps[i])
PeriodicStep(o, axes, st) ==
  IF axes = <<>> THEN Res(UnsetPeriodic(o), {})
  ELSE IF ~o.ana \/ o.off # o.boff THEN Skip(o, {})
  ELSE LET p == SetPeriodic(o, axes, st.res.ps) IN
       IF ~PeriodsOk(o, axes, st.res.ps) THEN Res(p, {"period vectors"})
       ELSE IF PeriodicRegular(p) THEN Res(p, {}) ELSE Skip(p, {})

BuildStep(o, st) ==
  IF "" \notin CanBuild(o) THEN Raises(o, st, CanBuild(o))
  ELSE IF st.baddim THEN Raises(o, st, {"ValueError"})
  ELSE
  LET may == BuildMay(o, st.sh, st.cb)
      must == IF st.prim THEN BuildMust(o, st.sh, st.cb) ELSE may
      smay == MinNeighbors(o, may, st.mn)
      smust == IF st.mn = 0 THEN must ELSE smay
      loose == Has(st, "loose")       \* no check: the sites around the shape as well
  IN IF smay = {} \/ (smust = {} /\ st.exc # "")
     THEN Skip(o, IF st.exc = "" /\ ~loose /\ Len(st.res.sites) > 0 THEN {"build: additional sites"} ELSE {})
     ELSE IF st.exc # "" THEN Bad(o, st)
     ELSE LET got == SetOf(st.res.sites)
              p == AdoptSites(o, st, st.prim) IN
          IF ~(smust \subseteq got) THEN Res(o, {"build: missing sites"})
          ELSE IF ~loose /\ ~(got \subseteq smay) THEN Res(o, {"build: additional sites"})
          ELSE IF ~NoDup(st.res.sites) THEN Res(o, {"build: repeated sites"})
          ELSE IF ~st.res.kept THEN Res(o, {"build: changed its arguments"})
          ELSE IF st.per = <<>> THEN Res(p, {}) ELSE PeriodicStep(p, st.per, st)

\* Sites of a region and their neighbours, without a lattice being built
RawStep(o, st) ==
  LET may == BuildMay(o, st.sh, [k |-> "none"])
      must == IF st.prim THEN BuildMust(o, st.sh, [k |-> "none"]) ELSE may
      cells(In(_, _, _)) == {Cell(s) : s \in SitesWhere(o.g, <<Zero(o.g.dim)>>, st.sh, In)}
      cmay == cells(InShape)
      cmust == IF st.prim THEN cells(InShapeOpen) ELSE cmay
      r == st.res
      S == SetOf(r.sites)
      p == WithSites(o, r.sites, st.prim)
      ix == Places(p)
  IN IF ~o.ana \/ may = {} \/ (must = {} /\ st.exc # "") THEN Skip(o, {})
     ELSE IF st.exc # "" THEN Bad(o, st)
     ELSE IF ~(NoDup(r.sites) /\ must \subseteq S /\ S \subseteq may) THEN Res(o, {"sites of a region"})
     ELSE Res(o,
       Cl("check of points", st.pts = <<>> \/ r.inside = [i \in 1..Len(st.pts) |-> InShapeQ(o.g, st.sh, st.pts[i])]) \cup
       Cl("translation vectors", NoDup(r.cells) /\ cmust \subseteq SetOf(r.cells) /\ SetOf(r.cells) \subseteq cmay) \cup
       Cl("positions", r.pos = [i \in 1..Len(r.sites) |-> PosOf(o.g, o.apos, r.sites[i])]) \cup
       Cl("neighbors of the sites", NoDup(r.nb) /\
          SetOf(r.nb) = {<<ix[x[1]] - 1, ix[x[2]] - 1, x[3]>> : x \in p.rel}))

SortedBy(s, ax, rev) ==
  \A i \in 1..(Len(s) - 1) : IF rev THEN s[i][ax] >= s[i + 1][ax] ELSE s[i][ax] <= s[i + 1][ax]
SortStep(o, st) ==
  LET s == st.res.sites
      N == Len(o.sites)
      perm == [i \in 1..N |-> st.perm[IF st.rev THEN N + 1 - i ELSE i] + 1]
      ok == IF st.ax > 0 THEN NoDup(s) /\ SetOf(s) = SetOf(o.sites) /\ SortedBy(s, st.ax, st.rev)
            ELSE s = Reorder(o, perm).sites
  IN Res([o EXCEPT !.sites = s], Cl("sorted order", ok))

\* Append the sites: news is the set of admissible additions
JoinStep(o, st, ok) ==
  LET s == st.res.sites IN
  IF ~NoDup(s) THEN Res(o, {"join: repeated sites"})
  ELSE IF ~(SetOf(o.sites) \subseteq SetOf(s)) THEN Res(o, {"join: sites lost"})
  ELSE IF ~ok THEN Res(o, {"join: wrong sites"})
  ELSE Res(AdoptSites(o, st, o.prim),
           IF st.sort = 0 THEN {} ELSE Cl("sorted order", SortedBy(s, st.sort, st.rev)))
New(o, st) == SetOf(st.res.sites) \ SetOf(o.sites)
Judgeable(o) == o.ana /\ o.off = o.boff
AppendStep(o, p, st) ==
  LET S1 == SetOf(o.sites)
      S2 == SetOf(p.sites)
      ps == PeriodSet(o.g, IF st.side > 0 THEN S1 ELSE S2, o.prim, st.ax)
  IN IF ~Judgeable(o) \/ o.off # p.boff THEN Skip(o, {})
     ELSE IF st.exc # "" THEN Bad(o, st)
     ELSE IF ps # {}
     THEN LET m == AppendSites(o, S2, st.ax, st.side) IN
          IF m \cap S1 # {} THEN Skip(o, {}) ELSE JoinStep(o, st, New(o, st) = m)
     ELSE Skip(o, {})
ExtendStep(o, st) ==
  LET S1 == SetOf(o.sites)
      add == New(o, st)
      ps == IF st.exc # "" \/ add = {} THEN {}
            ELSE PeriodSet(o.g, IF st.side > 0 THEN S1 ELSE add, o.prim, st.ax)
      may == Section(o, st.ax, st.size, st.q, TRUE)
      must == IF o.prim THEN Section(o, st.ax, st.size, st.q, FALSE) ELSE may
  IN IF ~Judgeable(o) \/ o.cut \/ must = {} THEN Skip(o, {})
     ELSE IF st.exc # "" THEN Bad(o, st)
     ELSE IF PeriodSet(o.g, S1, o.prim, st.ax) = {} THEN Skip(o, {})
     ELSE IF add = {} THEN Res(o, {"join: no new sites"})
     ELSE IF ps = {} THEN Skip(o, {})
     ELSE LET n == CHOOSE n \in ps : TRUE
              S2 == Moved(add, IF st.side > 0 THEN VNeg(n) ELSE n)
          IN JoinStep(o, st, must \subseteq S2 /\ S2 \subseteq may)
RepeatStep(o, st) ==
  IF ~Judgeable(o) \/ PeriodSet(o.g, SetOf(o.sites), o.prim, st.ax) = {} THEN Skip(o, {})
  ELSE IF st.exc # "" THEN Bad(o, st)
  ELSE JoinStep(o, st, New(o, st) = RepeatSites(o, st.ax, st.side, st.num))

\* The sum of exp(i k v) over the vectors with k v = pi/2 m v: real and imaginary part
Fourier(m, V) ==
  LET num(j) == Cardinality({v \in V : Dot(m, v) % 4 = j}) IN <<num(0) - num(2), num(1) - num(3)>>
\* Neighbours of the infinite lattice: all distances of one site, in order
NbStep(o, st) ==
  IF ~o.ana THEN Raises(o, st, {"NotAnalyzedError"})
  ELSE IF st.exc # "" THEN Bad(o, st)
  ELSE LET a == st.alpha + 1
           ds == AtomDists(o, a)
           s == Append(st.n, st.alpha)
           off(d) == {q \in o.off[a] : q[3] = d}
           nb(d) == {Append(VAdd(st.n, q[1]), q[2]) : q \in off(d)}
           x == PosOf(o.g, o.apos, s)
           r == st.res
       IN Res(o,
          Cl("number of distances", Len(r.nb) = Len(ds)) \cup
          If(Len(r.nb) = Len(ds),
             Cl("neighbors of the infinite lattice",
                \A k \in 1..Len(ds) : SameSeq(r.nb[k], nb(ds[k]))) \cup
             Cl("neighbor positions", \A k \in 1..Len(ds) :
                SameSeq(r.pos[k], {PosOf(o.g, o.apos, t) : t \in nb(ds[k])})) \cup
             Cl("neighbor vectors", \A k \in 1..Len(ds) :
                SameSeq(r.vec[k], {VSub(PosOf(o.g, o.apos, t), x) : t \in nb(ds[k])})) \cup
             Cl("neighbor vectors with zero", \A k \in 1..Len(ds) :
                SameSeq(r.vec0[k], {VSub(PosOf(o.g, o.apos, t), x) : t \in nb(ds[k])}
                                   \cup {Zero(o.g.dim)})) \cup
             If(Len(ds) > 0, Cl("neighbors by default",
                /\ r.dflt[1] = <<r.nb[1], r.pos[1], r.vec[1], r.fw[1]>>
                /\ LET q == {w \in o.off[1] : w[3] = AtomDists(o, 1)[1]}
                       t == {Append(w[1], w[2]) : w \in q}
                       v == {VSub(PosOf(o.g, o.apos, w), o.apos[1]) : w \in t} IN
                   AtomDists(o, 1) = <<>> \/
                     (/\ SameSeq(r.dflt[2][1], t)
                      /\ SameSeq(r.dflt[2][2], {PosOf(o.g, o.apos, w) : w \in t})
                      /\ SameSeq(r.dflt[2][3], v)
                      /\ r.dflt[2][4] = Fourier(st.m, v)))) \cup
             Cl("Fourier weights", \A k \in 1..Len(ds) :
                r.fw[k] = Fourier(st.m, {VSub(PosOf(o.g, o.apos, t), x) : t \in nb(ds[k])}))))

\* Lookups, extents and selections (places count from 0, -1: nothing found)
NONE == 999999
QueryStep(o, st) ==
  LET N == Len(o.sites)
      d == o.g.dim
      ix == Places(o)
      x == [i \in 1..N |-> PosOf(o.g, o.apos, o.sites[i])]
      at(y) == LET S == {i \in 1..N : x[i] = y} IN IF S = {} THEN -1 ELSE MinOf(S) - 1
      place(s) == IF s \in SetOf(o.sites) THEN ix[s] - 1 ELSE -1
      lo == Vec(d, LAMBDA a : MinOf({x[i][a] : i \in 1..N}))
      hi == Vec(d, LAMBDA a : MaxOf({x[i][a] : i \in 1..N}))
      ilo == [a \in 1..(d + 1) |-> MinOf({o.sites[i][a] : i \in 1..N})]
      ihi == [a \in 1..(d + 1) |-> MaxOf({o.sites[i][a] : i \in 1..N})]
      mass(i) == o.atoms[Alpha(o.sites[i]) + 1].mass
      wsum(a) == SumSeq([i \in 1..N |-> mass(i) * x[i][a]])
      cells == {Cell(o.sites[i]) : i \in 1..N}
      in(i, mn, mx) == \A a \in 1..d : (mn[a] = NONE \/ mn[a] <= 2 * x[i][a])
                                     /\ (mx[a] = NONE \/ 2 * x[i][a] <= mx[a])
      sel(q) == {i \in 1..N : in(i, q[1], q[2]) # q[3]}
      outer(ax, h) == {i \in 1..N : \/ 2 * (x[i][ax] - lo[ax]) < h
                                    \/ 2 * (hi[ax] - x[i][ax]) < h}
      inc(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
      r == st.res
  IN IF st.exc # "" THEN Bad(o, st) ELSE Res(o,
     Cl("site: position, sublattice, atom", \A k \in 1..Len(r.at) : LET q == r.at[k] IN
        /\ q[2] = x[q[1] + 1] /\ q[3] = Alpha(o.sites[q[1] + 1])
        /\ q[4] = o.atoms[q[3] + 1].name) \cup
     Cl("lookup of positions", \A k \in 1..Len(r.frompos) : r.frompos[k][2] = at(r.frompos[k][1])) \cup
     Cl("lookup of indices", \A k \in 1..Len(r.fromind) : r.fromind[k][2] = place(r.fromind[k][1])) \cup
     Cl("lookup with tolerance", \A k \in 1..Len(r.tol) :
        r.tol[k][3] = IF r.tol[k][2] THEN at(r.tol[k][1]) ELSE -1) \cup
     Cl("limits", \A k \in 1..Len(r.lim) : r.lim[k] = <<lo, hi>>) \cup
     Cl("shape", o.cut \/ r.shape = VSub(hi, lo)) \cup
     Cl("relative positions", \A k \in 1..Len(r.rel) :
        \A a \in 1..d : r.rel[k][2][a] = 4 * lo[a] + r.rel[k][1][a] * (hi[a] - lo[a])) \cup
     Cl("center", r.center = VAdd(lo, hi)) \cup
     Cl("center of gravity", \A a \in 1..d : r.cog[a] = wsum(a)) \cup
     Cl("number of cells", r.cells = Cardinality(cells)) \cup
     Cl("volume", r.vol = Cardinality(cells)) \cup
     Cl("index limits", r.ilim = <<ilo, ihi>>) \cup
     Cl("cell limits", \A k \in 1..Len(r.clim) :
        r.clim[k] = <<SubSeq(ilo, 1, d), SubSeq(ihi, 1, d)>>) \cup
     Cl("positions of a sublattice", Len(r.sub) = Len(o.atoms) /\ \A a \in 1..Len(o.atoms) :
        r.sub[a] = LET s == SelectSeq([i \in 1..N |-> i], LAMBDA i : Alpha(o.sites[i]) = a - 1)
                   IN [i \in 1..Len(s) |-> x[s[i]]]) \cup
     Cl("selected sites", \A k \in 1..Len(r.find) : LET q == r.find[k] IN
        inc(q[4]) /\ SetOf(q[4]) = {i - 1 : i \in sel(q)}) \cup
     Cl("mask of sites", \A k \in 1..Len(r.mask) : LET q == r.mask[k] IN
        SameSeq(q[4], {x[i] : i \in sel(q)})) \cup
     Cl("outer sites", \A k \in 1..Len(r.outer) : LET q == r.outer[k] IN
        inc(q[3]) /\ SetOf(q[3]) = {i - 1 : i \in outer(q[1], q[2])}))

\* Neighbours in another finite lattice of the same structure
ConnStep(o, p, st) ==
  LET ix == Places(o)
      jx == Places(p)
      pos(s) == PosOf(o.g, o.apos, s)
      all == {<<s, t, D(o.g, VSub(pos(s), pos(t)))>> : s \in SetOf(o.sites), t \in SetOf(p.sites)}
      num(X) == {<<ix[x[1]] - 1, jx[x[2]] - 1, x[3]>> : x \in X}
      must == {x \in all : x[3] > 0 /\ <<VSub(Cell(x[2]), Cell(x[1])), Alpha(x[2]), x[3]>> \in o.off[Alpha(x[1]) + 1]}
  IN IF ~Judgeable(o) \/ o.off # p.boff THEN Skip(o, {})
     ELSE IF st.exc # "" THEN Bad(o, st)
     ELSE Res(o, Cl("connections of two lattices",
            SameSeq(st.res.pairs, num(must))))
\* Joined data: the sites of both with their regular neighbours
DataStep(o, p, st) ==
  LET N == Len(o.sites)
      r == st.res
      trip(q, k) == LET ix == Places(q) IN {<<ix[x[1]] - 1 + k, ix[x[2]] - 1 + k, x[3]>> : x \in q.rel}
  IN IF st.exc # "" THEN Bad(o, st) ELSE Res(o,
     Cl("joined data: sites", r.sites = o.sites \o p.sites) \cup
     Cl("joined data: positions", r.pos = [i \in 1..(N + Len(p.sites)) |->
          PosOf(o.g, o.apos, (o.sites \o p.sites)[i])]) \cup
     Cl("joined data: neighbors", NoDup(r.nb) /\ SetOf(r.nb) = trip(o, 0) \cup trip(p, N)))

\* Equality of two objects
Config(o) == <<o.g, [i \in 1..Len(o.atoms) |-> o.atoms[i].name], o.apos, o.con>>
EqStep(o, p, st) ==
  LET same == /\ o.g = p.g /\ o.atoms = p.atoms /\ o.apos = p.apos /\ o.con = p.con
              /\ o.built = p.built /\ o.sites = p.sites /\ ~o.cut /\ ~p.cut
  IN IF st.exc # "" THEN Bad(o, st)
     ELSE Res(o, Cl("equal lattices differ", same => st.res.eq) \cup
                 Cl("different lattices equal", (Config(o) # Config(p)) => ~st.res.eq))

Step(st) ==
  LET o == IF st.op = "new" THEN NewObj(MkGeom(st.B, st.W))
           ELSE IF st.op = "named" THEN NamedObj(st)
           ELSE IF st.op = "preset" THEN PresetObj(st).o ELSE objs[st.o]
      src(x) == objs[x]
  IN
  CASE st.op \in {"new", "named"} -> IF st.exc # "" THEN Bad(o, st) ELSE Res(o, {})
    [] st.op = "preset" -> IF st.exc # "" THEN Bad(o, st)
                           ELSE IF st.build THEN BuildStep(o, st) ELSE Res(o, {})
    [] st.op = "raw" -> RawStep(o, st)
    [] st.op = "conn" -> ConnStep(o, src(st.p), st)
    [] st.op = "djoin" -> DataStep(o, src(st.p), st)
    [] st.op = "atom" -> Outcome(o, st, AddAtom(o, st.name, st.id, st.mass, st.pos, st.nb))
    [] st.op = "con" -> Outcome(o, st, AddConnection(o, st.as, st.bs, st.c, st.an))
    [] st.op = "cons" -> Outcome(o, st, AddConnections(o, st.c, st.an))
    [] st.op = "ana" -> Outcome(o, st, Analyze(o))
    [] st.op = "nb" -> NbStep(o, st)
    [] st.op = "build" -> BuildStep(o, st)
    [] st.op = "per" ->
         IF ~o.built THEN Raises(o, st, {"NotBuiltError"})
         ELSE IF st.exc # "" THEN Bad(o, st) ELSE PeriodicStep(o, st.axes, st)
    [] st.op = "remove" ->
         IF st.exc # "" THEN Bad(o, st) ELSE Res(Remove(o, {x + 1 : x \in SetOf(st.gone)}), {})
    [] st.op = "sort" -> IF st.exc # "" THEN Bad(o, st) ELSE SortStep(o, st)
    [] st.op = "append" -> AppendStep(o, src(st.p), st)
    [] st.op = "extend" -> ExtendStep(o, st)
    [] st.op = "repeat" -> RepeatStep(o, st)
    [] st.op = "copy" -> IF st.exc # "" THEN Bad(src(st.p), st) ELSE Res(src(st.p), {})
    [] st.op = "fromdict" ->
         LET p == src(st.p) IN
         Outcome(p, st, Analyze([NewObj(p.g) EXCEPT !.atoms = p.atoms, !.apos = p.apos,
                                                    !.con = p.con]))
    [] st.op = "param" -> IF st.exc # "" THEN Bad(o, st)
                          ELSE Res([o EXCEPT !.atoms[st.a + 1].mass = st.mass], {})
    [] st.op = "query" -> QueryStep(o, st)
    [] st.op = "eq" -> EqStep(o, src(st.p), st)
    [] st.op = "dcopy" ->
         IF st.exc # "" THEN Bad(o, st)
         ELSE Res(o, Cl("copied data", /\ st.res.sites = o.sites
                                       /\ st.res.pos = [i \in 1..Len(o.sites) |-> PosOf(o.g, o.apos, o.sites[i])]
                                       /\ SameLists(Len(o.sites), st.res.nb, Pairs2(Triples(o, Total(o))))))
    [] st.op = "view" -> IF st.exc # "" THEN Bad(o, st) ELSE Res(o, {})

\* The observations of a step are made on the objects named in vs: name -> view
Observed(os, vs) == UNION {View(os[vs[i].o], vs[i].v) : i \in 1..Len(vs)}

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ objs = [x \in {} |-> 0]
        /\ skipped = FALSE

Next ==
  LET st == Traces[tr].steps[l]
      r == Step(st)
      os == (st.o :> r.o) @@ objs
      bad == IF r.bad # {} \/ r.skip THEN r.bad ELSE Observed(os, st.vs)
      last == l = Len(Traces[tr].steps)
  IN /\ l <= Len(Traces[tr].steps)
     /\ ~skipped
     /\ tr' = tr
     /\ l' = l + 1
     /\ objs' = os
     /\ skipped' = (r.skip \/ bad # {})
     /\ (bad # {}) => PrintT("BAD|" \o ToString(tr) \o "|" \o ToString(l) \o "|" \o ToString(bad))
     /\ (r.skip /\ bad = {}) => PrintT("SKIP|" \o ToString(tr) \o "|" \o ToString(l))
     /\ (last /\ bad = {} /\ ~r.skip) => PrintT("END|" \o ToString(tr) \o "|" \o ToString(l))

Spec == Init /\ [][Next]_vars
TraceView == <<tr, l>>
=============================================================================
