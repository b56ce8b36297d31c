------------------------------- MODULE Views --------------------------------
(* What every observation of a lattice object must show. An observation is  *)
(* a record v; each field that is present is compared with the state of the *)
(* object, and the names of the fields that disagree are returned.          *)
EXTENDS Lattice

Has(r, f) == f \in DOMAIN r
Cl(name, ok) == IF ok THEN {} ELSE {name}
If(c, S) == IF c THEN S ELSE {}
Range0(n) == 0..(n - 1)
NoDup(s) == Cardinality(SetOf(s)) = Len(s)
RECURSIVE SumLen(_, _)
SumLen(ss, i) == IF i > Len(ss) THEN 0 ELSE Len(ss[i]) + SumLen(ss, i + 1)

\* The pairs of the lattice as <<i, j, k>>: places (from 0) and distance index
Places(o) == LET S == SetOf(o.sites) IN
             [s \in S |-> CHOOSE i \in 1..Len(o.sites) : o.sites[i] = s]
Triples(o, rel) ==
  LET ix == Places(o) IN {<<ix[r[1]] - 1, ix[r[2]] - 1, RankIn(o.dvals, r[3]) - 1>> : r \in rel}
Pairs2(X) == {<<x[1], x[2]>> : x \in X}

\* lists[i+1]: neighbours j of site i, without repetition
SameLists(N, lists, P) ==   \* P: set of <<i, j>>
  /\ Len(lists) = N
  /\ \A i \in 1..N : NoDup(lists[i])
  /\ \A i \in 1..N : \A m \in 1..Len(lists[i]) : <<i - 1, lists[i][m]>> \in P
  /\ SumLen(lists, 1) = Cardinality(P)
SameSeq(s, X) == NoDup(s) /\ SetOf(s) = X

------------------------------------------------------------------------------
CfgView(o, v) ==
  Cl("cfg.vectors", v.vec = o.g.B) \cup
  Cl("cfg.atoms", v.names = [i \in 1..Len(o.atoms) |-> o.atoms[i].name]) \cup
  Cl("cfg.masses", v.mass = [i \in 1..Len(o.atoms) |-> o.atoms[i].mass]) \cup
  Cl("cfg.positions", v.apos = o.apos) \cup
  Cl("cfg.connections", v.con = o.con)

\* Neighbours per atom and distance of the infinite lattice around cell 0
AtomDists(o, a) == Sorted({q[3] : q \in o.off[a]})
AnaView(o, v) ==
  IF ~o.ana THEN {"analysis of an old configuration"} ELSE
  Cl("ana.num_neighbors", v.num = [a \in 1..Len(o.off) |-> Cardinality(o.off[a])]) \cup
  Cl("ana.distances", v.dist = [a \in 1..Len(o.off) |-> AtomDists(o, a)]) \cup
  Cl("ana.num_distances", v.numd = MaxOf(UNION {SetOf(o.con[i]) : i \in 1..Len(o.con)})) \cup
  Cl("ana.base_neighbors", Len(v.base) = Len(o.off) /\ \A a \in 1..Len(o.off) :
     SameSeq(v.base[a], {<<q[3], Append(q[1], q[2])>> : q \in o.off[a]}))

------------------------------------------------------------------------------
\* Some sites of a large lattice with their neighbours <<j, distance index>> in every view
Sampled(o, q) ==
  LET N == Len(o.sites)
      nb(s) == {<<r[2], RankIn(o.dvals, r[3]) - 1>> :
                  r \in {x \in o.rel : x[1] = s} \cup {x \in o.prel : x[1] = s}}
      same(list, X) == /\ \A m \in 1..Len(list) : list[m][1] \in Range0(N)
                       /\ NoDup(list)
                       /\ {<<o.sites[list[m][1] + 1], list[m][2]>> : m \in 1..Len(list)} = X
      at(f(_, _)) == \A k \in 1..Len(q) : f(q[k], o.sites[q[k].i + 1])
  IN Cl("sampled sites", at(LAMBDA r, s : r.s = s /\ r.x = PosOf(o.g, o.apos, s))) \cup
     Cl("sampled lookups", at(LAMBDA r, s : r.find = <<r.i, r.i>>)) \cup
     UNION {LET r == q[k]
                s == o.sites[r.i + 1]
                X == nb(s)
            IN Cl("sampled neighbors", same(r.nb, X)) \cup
               Cl("sampled neighbor iterator", same(r.it, X)) \cup
               Cl("sampled neighbor pairs", same(r.pairs, X)) \cup
               Cl("sampled unique neighbors",
                  {<<r.uniq[m]>> : m \in 1..Len(r.uniq)} =
                  {<<r.nb[m][1]>> : m \in {n \in 1..Len(r.nb) : r.nb[n][1] > r.i}}) \cup
               Cl("sampled adjacency matrix", same(r.adj, {<<x[1], x[2] + 1>> : x \in X})) \cup
               Cl("sampled csr matrix", same(r.csr, {<<s, 100 + Alpha(s)>>} \cup {<<x[1], x[2] + 1>> : x \in X}))
            : k \in 1..Len(q)}

------------------------------------------------------------------------------
View(o, v) ==
  LET N == Len(o.sites)
      tot == Triples(o, Total(o))
      reg == Triples(o, o.rel)
      per == Triples(o, o.prel)
      K == Len(o.dvals)
      nn(X, k) == {<<x[1], x[2]>> : x \in {y \in X : y[3] = k}}
      up(X) == {x \in X : x[1] < x[2]}
  IN
  If(Has(v, "cfg"), CfgView(o, v.cfg)) \cup
  If(Has(v, "ana"), AnaView(o, v.ana)) \cup
  If(Has(v, "noana"), Cl("analysis", ~o.ana)) \cup
  If(Has(v, "built"), Cl("built", v.built = o.built)) \cup
  If(Has(v, "failed"), {"observation: " \o v.failed}) \cup
  If(Has(v, "sites"), Cl("sites", v.sites = o.sites)) \cup
  If(Has(v, "n"), Cl("num_sites", v.n = N)) \cup
  If(Has(v, "pos"), Cl("positions", v.pos = [i \in 1..N |-> PosOf(o.g, o.apos, o.sites[i])])) \cup
  If(Has(v, "dvals"), Cl("distance values", v.dvals = o.dvals)) \cup
  If(Has(v, "all"), Cl("neighbors", SameLists(N, v.all, Pairs2(tot)))) \cup
  If(Has(v, "dist"), Cl("neighbors by distance",
       Len(v.dist) = K /\ \A k \in 1..K : SameLists(N, v.dist[k], nn(tot, k - 1)))) \cup
  If(Has(v, "uniq"), Cl("unique neighbors", SameLists(N, v.uniq, Pairs2(up(tot))))) \cup
  If(Has(v, "near"), Cl("nearest neighbors", SameLists(N, v.near, nn(tot, 0)))) \cup
  If(Has(v, "unear"), Cl("unique nearest neighbors", SameLists(N, v.unear, nn(up(tot), 0)))) \cup
  If(Has(v, "iter"), Cl("neighbor iterator", SameSeq(v.iter, tot))) \cup
  If(Has(v, "uiter"), Cl("unique neighbor iterator", SameSeq(v.uiter, up(tot)))) \cup
  If(Has(v, "pairs"), Cl("neighbor pairs", SameSeq(v.pairs, tot))) \cup
  If(Has(v, "upairs"), Cl("unique neighbor pairs", SameSeq(v.upairs, up(tot)))) \cup
  If(Has(v, "chk"), Cl("neighbor check",
       \A m \in 1..Len(v.chk) : LET c == v.chk[m] IN
         IF c[3] = -1 THEN <<c[1], c[2]>> \notin Pairs2(tot) ELSE c \in tot)) \cup
  If(Has(v, "adj"), Cl("adjacency matrix",
       /\ v.adj.shape = <<N, N>>
       /\ SameSeq(v.adj.e, {<<x[1], x[2], x[3] + 1>> : x \in tot}))) \cup
  If(Has(v, "dmap"),
       Cl("data map size", v.dmap.size = N + Cardinality(tot)) \cup
       Cl("data map on-site", Len(v.dmap.on) = Len(o.atoms) /\
          \A a \in 1..Len(o.atoms) :
            SameSeq(v.dmap.on[a], {<<i, i>> : i \in {j \in Range0(N) : Alpha(o.sites[j + 1]) = a - 1}})) \cup
       Cl("data map on-site", SameSeq(v.dmap.ona, {<<i, i>> : i \in Range0(N)})) \cup
       Cl("data map pairs", Len(v.dmap.hop) = K /\
          \A k \in 1..K : SameSeq(v.dmap.hop[k], nn(tot, k - 1))) \cup
       Cl("data map pairs", SameSeq(v.dmap.hopa, Pairs2(tot))) \cup
       Cl("data map pairs", v.dmap.hopn = 0)) \cup
  If(Has(v, "csr"), Cl("csr matrix", v.csr.shape = <<N, N>> /\ SameSeq(v.csr.e,
       {<<i, i, 100 + Alpha(o.sites[i + 1])>> : i \in Range0(N)} \cup
       {<<x[1], x[2], 1 + x[3]>> : x \in tot}))) \cup
  If(Has(v, "bsr"), Cl("bsr matrix", v.bsr.shape = <<2 * N, 2 * N>> /\ SameSeq(v.bsr.e,
       {<<2 * x[1] + a, 2 * x[2] + b, x[3] + 1000 * (2 * a + b)>> : a, b \in 0..1,
         x \in {<<i, i, 100 + Alpha(o.sites[i + 1])>> : i \in Range0(N)} \cup
               {<<y[1], y[2], 1 + y[3]>> : y \in tot}}))) \cup
  If(Has(v, "reg"), Cl("regular neighbors", SameLists(N, v.reg, Pairs2(reg)))) \cup
  If(Has(v, "perf"), Cl("periodic neighbors", SameLists(N, v.perf, Pairs2(per)))) \cup
  If(Has(v, "uper"), Cl("unique regular neighbors", SameLists(N, v.uper[1], {x \in Pairs2(reg) : x[1] < x[2]})) \cup
                     Cl("unique periodic neighbors", SameLists(N, v.uper[2], {x \in Pairs2(per) : x[1] < x[2]}))) \cup
  If(Has(v, "per"), Cl("periodic neighbors",
       SameSeq([i \in 1..Len(v.per) |-> v.per[i][1]], per))) \cup
  If(Has(v, "per"), Cl("periodic translation vectors",
       \A i \in 1..Len(v.per) :
          LET x == v.per[i][1] IN
          /\ x[1] \in Range0(N) /\ x[2] \in Range0(N)
          /\ v.per[i][2] \in Images(o.g.dim, o.ps)
          /\ D(o.g, VSub(VAdd(PosOf(o.g, o.apos, o.sites[x[1] + 1]), T(o.g, v.per[i][2])),
                         PosOf(o.g, o.apos, o.sites[x[2] + 1]))) = o.dvals[x[3] + 1])) \cup
  If(Has(v, "per"), Cl("axes of periodic neighbors",
       \A i \in 1..Len(v.per) : \E c \in [1..Len(o.ps) -> {-1, 0, 1}] :
          /\ SetOf(v.per[i][3]) = {o.paxes[k] : k \in {k \in 1..Len(o.ps) : c[k] # 0}}
          /\ v.per[i][2] = Vec(o.g.dim, LAMBDA a : SumSeq([k \in 1..Len(o.ps) |-> c[k] * o.ps[k][a]])))) \cup
  If(Has(v, "samp"), Sampled(o, v.samp)) \cup
  If(Has(v, "pax"), Cl("periodic axes", v.pax = o.paxes)) \cup
  If(Has(v, "mind") /\ ~o.cut, Cl("minimum distances",
       \A m \in 1..Len(v.mind) : LET q == v.mind[m] IN
         q[2] = [j \in 1..N |-> MinDist(o.g, o.apos, o.ps, o.sites[q[1] + 1], o.sites[j])])) \cup
  {}
=============================================================================
