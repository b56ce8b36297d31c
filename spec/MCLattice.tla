------------------------------ MODULE MCLattice -----------------------------
(* Exhaustive model of lattice objects: every behaviour of the operations   *)
(* of Lattice.tla over the menus of a scope (a JSON file: bases, atoms,     *)
(* shapes, axes, ...), up to a depth. TLC checks the invariants of the      *)
(* objects in all of them. Every transition is printed with a path to it,   *)
(* so that all of them are replayed on the implementation.                  *)
EXTENDS Lattice, Json, IOUtils

S == JsonDeserialize(IOEnv.SCOPE)

VARIABLES objs,   \* name -> object
          path,   \* the operations so far
          last    \* the last operation (of which kind, whether refused)
vars == <<objs, path, last>>
View == <<objs, last>>

Op(x) == x \in SetOf(S.ops)
Names == DOMAIN objs
Emit(p) == PrintT("PATH|" \o ToJson(p))

\* Sites of a set in increasing order (the order in which the model keeps them)
Less(s, t) == \E i \in 1..Len(s) : s[i] < t[i] /\ \A j \in 1..(i - 1) : s[j] = t[j]
RECURSIVE InOrder(_)
InOrder(X) == IF X = {} THEN <<>> ELSE
  LET m == CHOOSE x \in X : \A y \in X \ {x} : Less(x, y) IN <<m>> \o InOrder(X \ {m})

\* Step st of object x with outcome [o, exc]
Do(x, st, r) ==
  /\ objs' = (x :> r.o) @@ objs
  /\ path' = Append(path, st)
  /\ last' = <<st.op, x, "" \in r.exc>>
  /\ Emit(path')

------------------------------------------------------------------------------
NewA ==
  /\ path = <<>>
  /\ \E i \in 1..Len(S.bases) : LET b == S.bases[i] IN
     Do("a", [op |-> "new", o |-> "a", B |-> b.B, W |-> b.W, unit |-> b.unit, ctor |-> b.ctor],
        Done(NewObj(MkGeom(b.B, b.W))))

AddAtomA(x) == Op("atom") /\ \E i \in 1..Len(S.atoms), k \in 1..Len(S.nbs) :
  LET a == S.atoms[i] IN
  /\ Len(objs[x].atoms) < S.maxatoms \/ \E j \in 1..Len(objs[x].apos) : objs[x].apos[j] = a.pos
  /\ Do(x, [op |-> "atom", o |-> x, name |-> a.name, pos |-> a.pos, nb |-> S.nbs[k],
            via |-> "cart", mass |-> 1],
        AddAtom(objs[x], a.name, 0, 1, a.pos, S.nbs[k]))

ConsA(x) == Op("cons") /\ \E k \in 1..Len(S.cs), an \in BOOLEAN :
  Do(x, [op |-> "cons", o |-> x, c |-> S.cs[k], an |-> an], AddConnections(objs[x], S.cs[k], an))
ConA(x) == Op("con") /\ \E k \in 1..Len(S.cs), an \in BOOLEAN :
  \E i, j \in 0..Max2(0, Len(objs[x].atoms) - 1) :
    /\ i <= j
    /\ Do(x, [op |-> "con", o |-> x, as |-> <<i>>, bs |-> <<j>>, c |-> S.cs[k], an |-> an, by |-> "index"],
          AddConnection(objs[x], <<i>>, <<j>>, S.cs[k], an))
AnaA(x) == Op("ana") /\ Do(x, [op |-> "ana", o |-> x], Analyze(objs[x]))
NbA(x) == Op("nb") /\ objs[x].atoms # <<>> /\
  Do(x, [op |-> "nb", o |-> x, n |-> Zero(objs[x].g.dim), alpha |-> 0, default |-> TRUE],
     Fail(objs[x], NeedAnalysis(objs[x])))

NoCb == [k |-> "none", c |-> <<0>>, m |-> 0, r |-> 0]
BuildA(x) == Op("build") /\ \E k \in 1..Len(S.shapes), j \in 1..Len(S.bper) :
  LET w == S.shapes[k]
      o == objs[x]
      st == [op |-> "build", o |-> x, sh |-> w.sh, prim |-> w.sh.k = "prim", mn |-> w.mn, cb |-> NoCb,
             per |-> S.bper[j], baddim |-> FALSE]
      sites == MinNeighbors(o, BuildMust(o, w.sh, NoCb), w.mn)
      p == WithSites(o, InOrder(sites), st.prim)
      ps == [i \in 1..Len(st.per) |-> CHOOSE n \in PeriodSet(o.g, sites, st.prim, st.per[i] + 1) : TRUE]
  IN /\ Len(S.bases) > 1 => w.dim = o.g.dim
     /\ \A i \in 1..Len(st.per) : st.per[i] < o.g.dim
     /\ IF "" \notin CanBuild(o) THEN Do(x, st, Fail(o, CanBuild(o)))
        ELSE /\ sites # {}
             /\ \A i \in 1..Len(st.per) : PeriodSet(o.g, sites, st.prim, st.per[i] + 1) # {}
             /\ IF st.per = <<>> THEN Do(x, st, Done(p))
                ELSE LET pp == SetPeriodic(p, st.per, ps) IN PeriodicRegular(pp) /\ Do(x, st, Done(pp))
BadDimA(x) == Op("baddim") /\ LET o == objs[x] IN
  Do(x, [op |-> "build", o |-> x, sh |-> S.shapes[1].sh, prim |-> FALSE, mn |-> 0, cb |-> NoCb, per |-> <<>>,
         baddim |-> TRUE],
     Fail(o, IF "" \in CanBuild(o) THEN {"ValueError"} ELSE CanBuild(o)))

Current(o) == o.ana /\ o.off = o.boff
PerA(x) == Op("per") /\ \E k \in 1..Len(S.axes) :
  LET o == objs[x]
      axes == S.axes[k]
      st == [op |-> "per", o |-> x, axes |-> axes, how |-> "list"]
      per(i) == PeriodSet(o.g, SetOf(o.sites), o.prim, axes[i] + 1)
  IN /\ \A i \in 1..Len(axes) : axes[i] < o.g.dim
     /\ IF ~o.built THEN Do(x, st, Fail(o, NeedBuild(o)))
        ELSE IF axes = <<>> THEN Do(x, st, Done(UnsetPeriodic(o)))
        ELSE /\ Current(o)
             /\ \A i \in 1..Len(axes) : per(i) # {}
             /\ LET p == SetPeriodic(o, axes, [i \in 1..Len(axes) |-> CHOOSE n \in per(i) : TRUE])
                IN PeriodicRegular(p) /\ Do(x, st, Done(p))

RemoveA(x) == Op("remove") /\ \E k \in 1..Len(S.gone) :
  LET o == objs[x] IN
  /\ o.built
  /\ \A i \in 1..Len(S.gone[k]) : S.gone[k][i] < Len(o.sites)
  /\ Len(o.sites) - Len(S.gone[k]) >= 1
  /\ Do(x, [op |-> "remove", o |-> x, gone |-> S.gone[k]],
        Done(Remove(o, {i + 1 : i \in SetOf(S.gone[k])})))
SortA(x) == Op("sort") /\ \E k \in 1..Len(S.sorts) :
  LET o == objs[x]
      w == S.sorts[k]
      N == Len(o.sites)
      \* stable order by the axis (0: reversal of the current order)
      before(i, j) == IF w.ax = 0 THEN i > j ELSE
                      LET u == o.sites[i][w.ax] v == o.sites[j][w.ax] IN
                      IF u = v THEN i < j ELSE IF w.rev THEN u > v ELSE u < v
      at(m) == CHOOSE i \in 1..N : Cardinality({j \in 1..N : before(j, i)}) = m - 1
  IN /\ o.built
     /\ w.ax <= o.g.dim + 1
     /\ Do(x, [op |-> "sort", o |-> x, ax |-> w.ax, rev |-> w.rev,
               perm |-> IF w.ax = 0 THEN [i \in 1..N |-> N - i] ELSE <<>>],
           Done(Reorder(o, [m \in 1..N |-> at(m)])))

\* Joined lattices: the new sites follow the present ones
Join(o, new) == WithSites(o, o.sites \o InOrder(new), o.prim)
JoinArgs(w) == [ax |-> w.ax, side |-> w.side, sort |-> 0, rev |-> FALSE]
RepeatA(x) == Op("repeat") /\ \E k \in 1..Len(S.joins) :
  LET o == objs[x]
      w == S.joins[k] IN
  /\ o.built /\ Current(o) /\ w.ax <= o.g.dim
  /\ PeriodSet(o.g, SetOf(o.sites), o.prim, w.ax) # {}
  /\ LET new == RepeatSites(o, w.ax, w.side, w.num) IN
     /\ Len(o.sites) + Cardinality(new) <= S.maxsites
     /\ Do(x, [op |-> "repeat", o |-> x, num |-> w.num] @@ JoinArgs(w), Done(Join(o, new)))
ExtendA(x) == Op("extend") /\ \E k \in 1..Len(S.joins) :
  LET o == objs[x]
      w == S.joins[k]
      \* in lattice coordinates: no atoms on the upper faces
      q == IF o.prim THEN 13 ELSE 1
      size == IF o.prim THEN 13 * w.size - 1 ELSE w.size
      sec == Section(o, w.ax, size, q, FALSE)
      base == IF w.side > 0 THEN SetOf(o.sites) ELSE sec IN
  /\ o.built /\ Current(o) /\ ~o.cut /\ w.ax <= o.g.dim
  /\ sec # {} /\ sec = Section(o, w.ax, size, q, TRUE)
  /\ PeriodSet(o.g, SetOf(o.sites), o.prim, w.ax) # {}
  /\ PeriodSet(o.g, base, o.prim, w.ax) # {}
  /\ LET new == AppendSites(o, sec, w.ax, w.side) IN
     /\ new \cap SetOf(o.sites) = {}
     /\ Len(o.sites) + Cardinality(new) <= S.maxsites
     /\ Do(x, [op |-> "extend", o |-> x, size |-> size, q |-> q] @@ JoinArgs(w), Done(Join(o, new)))
AppendA(x, y) == Op("append") /\ x # y /\ \E k \in 1..Len(S.joins) :
  LET o == objs[x]
      p == objs[y]
      w == S.joins[k]
      base == IF w.side > 0 THEN o.sites ELSE p.sites IN
  /\ o.built /\ p.built /\ Current(o) /\ o.off = p.boff /\ w.ax <= o.g.dim
  /\ PeriodSet(o.g, SetOf(base), o.prim, w.ax) # {}
  /\ LET new == AppendSites(o, SetOf(p.sites), w.ax, w.side) IN
     /\ new \cap SetOf(o.sites) = {}
     /\ Len(o.sites) + Cardinality(new) <= S.maxsites
     /\ Do(x, [op |-> "append", o |-> x, p |-> y] @@ JoinArgs(w), Done(Join(o, new)))

CopyA(x) == Op("copy") /\ \E k \in 1..Len(S.copies) :
  LET y == IF x = "a" THEN "b" ELSE "a" IN
  Do(y, [op |-> "copy", o |-> y, p |-> x, how |-> S.copies[k]], Done(objs[x]))
FromDictA(x) == Op("fromdict") /\
  LET y == IF x = "a" THEN "b" ELSE "a"
      p == objs[x]
      r == Analyze([NewObj(p.g) EXCEPT !.atoms = p.atoms, !.apos = p.apos, !.con = p.con])
  IN "" \in r.exc /\ Do(y, [op |-> "fromdict", o |-> y, p |-> x], r)
ParamA(x) == Op("param") /\ objs[x].atoms # <<>> /\ \E m \in {2, 3} :
  Do(x, [op |-> "param", o |-> x, a |-> 0, mass |-> m],
     Done([objs[x] EXCEPT !.atoms[1].mass = m]))
QueryA(x) == Op("query") /\ objs[x].built /\
  Do(x, [op |-> "query", o |-> x, pick |-> 7 * Len(path) + Len(objs[x].sites)], Done(objs[x]))
EqA == Op("eq") /\ Names = {"a", "b"} /\
  Do("a", [op |-> "eq", o |-> "a", p |-> "b"], Done(objs["a"]))

------------------------------------------------------------------------------
\* Configured and built at the start, as the scope says
RECURSIVE Setup(_, _)
Setup(o, i) == IF i > Len(S.atoms) THEN AddConnections(o, S.cs[1], TRUE).o
               ELSE Setup(AddAtom(o, S.atoms[i].name, 0, 1, S.atoms[i].pos, 0).o, i + 1)
SetupPath(b) ==
  <<[op |-> "new", o |-> "a", B |-> b.B, W |-> b.W, unit |-> b.unit, ctor |-> b.ctor]>> \o
  [i \in 1..Len(S.atoms) |-> [op |-> "atom", o |-> "a", name |-> S.atoms[i].name, pos |-> S.atoms[i].pos,
                              nb |-> 0, via |-> "cart", mass |-> 1]] \o
  <<[op |-> "cons", o |-> "a", c |-> S.cs[1], an |-> TRUE]>>

Init == IF S.configured
        THEN \E i \in 1..Len(S.bases) :
               LET b == S.bases[i] IN
               /\ objs = ("a" :> Setup(NewObj(MkGeom(b.B, b.W)), 1))
               /\ path = SetupPath(b)
               /\ last = <<"setup", "a", TRUE>>
        ELSE objs = [x \in {} |-> 0] /\ path = <<>> /\ last = <<>>
Bound == Len(path) < S.depth + (IF S.configured THEN 2 + Len(S.atoms) ELSE 1)
Next == /\ Bound
        /\ \/ NewA
           \/ EqA
           \/ \E x \in Names :
                \/ AddAtomA(x) \/ ConsA(x) \/ ConA(x) \/ AnaA(x) \/ NbA(x)
                \/ BuildA(x) \/ BadDimA(x) \/ PerA(x) \/ RemoveA(x) \/ SortA(x)
                \/ RepeatA(x) \/ ExtendA(x) \/ CopyA(x) \/ FromDictA(x) \/ ParamA(x) \/ QueryA(x)
                \/ \E y \in Names : AppendA(x, y)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* What the specification itself guarantees, in every reachable state *)
Objects == \A x \in Names : ObjOk(objs[x])

\* The neighbours found with the offsets of the analysis are those found by distance
ByDistance(o) ==
  LET P == SetOf(o.sites)
      d(s, t) == D(o.g, VSub(PosOf(o.g, o.apos, s), PosOf(o.g, o.apos, t)))
  IN {<<s, t, d(s, t)>> : <<s, t>> \in
        {q \in P \X P : q[1] # q[2] /\ d(q[1], q[2]) \in o.dm[Alpha(q[1]) + 1][Alpha(q[2]) + 1]}}
Distances == \A x \in Names : LET o == objs[x] IN (o.built /\ Current(o)) => o.rel = ByDistance(o)

\* Likewise across the boundaries, with the nearest images
Across(o) ==
  LET P == SetOf(o.sites)
      im == Images(o.g.dim, o.ps) \ {Zero(o.g.dim)}
      ds(s, t) == {D(o.g, VSub(VAdd(PosOf(o.g, o.apos, s), T(o.g, m)), PosOf(o.g, o.apos, t))) : m \in im}
      hit(s, t) == ds(s, t) \cap o.dm[Alpha(s) + 1][Alpha(t) + 1]
      reg == {<<r[1], r[2]>> : r \in o.rel}
  IN {<<q[1], q[2], MinOf(hit(q[1], q[2]))>> : q \in {w \in P \X P : w \notin reg /\ hit(w[1], w[2]) # {}}}
Boundaries == \A x \in Names : LET o == objs[x] IN
  (o.built /\ Current(o) /\ o.paxes # <<>>) => o.prel = Across(o)

\* Setting boundaries again changes nothing, removing them restores the open lattice
Again == \A x \in Names : LET o == objs[x] IN
  (o.built /\ Current(o)) =>
    /\ o.paxes # <<>> => SetPeriodic(o, o.paxes, o.ps) = o
    /\ UnsetPeriodic(o).rel = o.rel /\ UnsetPeriodic(o).prel = {}
\* No analysis of an older configuration
Fresh == \A x \in Names : LET o == objs[x] IN
  o.ana => /\ Len(o.off) = Len(o.atoms)
           /\ \A a, b \in 1..Len(o.con) : \A q \in o.off[a] : q[2] = b - 1 => o.con[a][b] > 0
\* Refused operations change nothing but the connections that were set before the analysis
Refused == [][\A x \in Names : (last'[2] = x /\ ~last'[3] /\ last' # last) =>
                (objs'[x] = objs[x] \/ (last'[1] \in {"cons", "con", "atom"} /\ ~objs'[x].ana))]_vars
\* Operations on one object are not seen in another
Apart == [][\A x \in Names : x # last'[2] => objs'[x] = objs[x]]_vars
=============================================================================
