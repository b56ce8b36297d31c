------------------------------ MODULE ToolTrace ------------------------------
(* Checks recorded calls and histories of bases, shapes, paths, atoms and    *)
(* helper functions against Basis, Regions and Tools (see LattTrace).        *)
EXTENDS Tools, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, objs, done
vars == <<tr, l, objs, done>>

Res(o, bad) == [o |-> o, bad |-> bad]
Geo(st) == MkGeom(st.B, st.W)
Call(st, bad) == Res(0, IF st.exc # "" THEN {"raised " \o st.exc} ELSE bad)

Step(st) ==
  LET o == objs[st.o]
      on(p, bad) == Res(p, IF st.exc # "" THEN {"raised " \o st.exc} ELSE bad) IN
  CASE st.op = "transform" -> Call(st, TransformStep(Geo(st), st))
    [] st.op = "itransform" -> Call(st, ITransformStep(Geo(st), st))
    [] st.op = "translate" -> Call(st, TranslateStep(Geo(st), st))
    [] st.op = "itranslate" -> Call(st, ITranslateStep(Geo(st), st))
    [] st.op = "estimate" -> Call(st, EstimateStep(Geo(st), st))
    [] st.op = "position" -> Call(st, PositionStep(Geo(st), st))
    [] st.op = "recip" -> Call(st, RecipStep(Geo(st), st))
    [] st.op = "isrecip" -> Call(st, IsRecipStep(Geo(st), st))
    [] st.op = "cell" -> Call(st, CellStep(Geo(st), st))
    [] st.op = "number" -> Call(st, NumberStep(Geo(st), st))
    [] st.op = "ws" -> Call(st, WSStep(Geo(st), st))
    [] st.op = "bz" -> Call(st, WSStep(Recip(Geo(st)), st))
    [] st.op = "wsgrid" -> Call(st, WSGridStep(Geo(st), st))
    [] st.op = "bzgrid" -> Call(st, WSGridStep(Recip(Geo(st)), st))
    [] st.op = "rot" -> Call(st, RotStep(st))
    [] st.op = "lengths" -> Call(st, LengthsStep(st))
    [] st.op = "shape" -> Call(st, ShapeStep(st))
    [] st.op = "grid" -> Call(st, GridStep(st))
    [] st.op = "range" -> Call(st, RangeStep(st))
    [] st.op = "weave" -> Call(st, WeaveStep(st))
    [] st.op = "chain" -> Call(st, ChainStep(st))
    [] st.op = "table" -> Call(st, TableStep(st))
    [] st.op = "dtype" -> Call(st, DtypeStep(st))
    [] st.op = "measure" -> Call(st, MeasureStep(st))
    [] st.op = "vectors" -> Call(st, VectorsStep(st))
    [] st.op = "lookup" -> Call(st, LookupStep(st))
    \* paths
    [] st.op = "path" -> on(NewPath(st.dim), {})
    [] st.op = "ppreset" -> on(PathPreset(st.how), {})
    [] st.op = "padd" -> on(AddPoint(o, st.p, st.name), {})
    [] st.op = "padds" -> on(AddAll(o, st.ps, st.names, 1), {})
    [] st.op = "pcycle" -> on(Cycle(o), {})
    [] st.op = "pbuild" -> on([o EXCEPT !.m = st.m], PathBuildBad(o, st))
    \* atoms
    [] st.op = "atom" -> on(NewAtom(st.name, st.weight, st.params), Cl("atom index", st.fresh))
    [] st.op = "aop" -> LET r == AtomStep(o, st) IN Res(r.o, r.bad)
    [] st.op = "acopy" -> on(objs[st.src], Cl("atom index", st.fresh))
    [] st.op = "aeq" -> on(o, Cl("atom comparison", st.res.eq = (o.name = st.other)) \cup
                              Cl("atom hash", (o.name = st.other) => st.res.hash))

ViewOf(o, v) == IF v.t = "path" THEN PathView(o, v) ELSE AtomView(o, v)
Observed(os, vs) == UNION {ViewOf(os[vs[i].o], vs[i].v) : i \in 1..Len(vs)}

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ objs = ("-" :> 0)
        /\ done = FALSE
Next ==
  LET st == Traces[tr].steps[l]
      r == Step(st)
      os == (st.o :> r.o) @@ objs
      bad == IF r.bad # {} THEN r.bad ELSE Observed(os, st.vs)
      last == l = Len(Traces[tr].steps)
  IN /\ l <= Len(Traces[tr].steps)
     /\ ~done
     /\ tr' = tr
     /\ l' = l + 1
     /\ objs' = os
     /\ done' = (bad # {})
     /\ (bad # {}) => PrintT("BAD|" \o ToString(tr) \o "|" \o ToString(l) \o "|" \o ToString(bad))
     /\ (last /\ bad = {}) => PrintT("END|" \o ToString(tr) \o "|" \o ToString(l))

Spec == Init /\ [][Next]_vars
TraceView == <<tr, l>>
=============================================================================
