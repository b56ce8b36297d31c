------------------------------ MODULE Presets -------------------------------
(* Ready-made lattices (C18): the crystal each of them describes, in units   *)
(* of the grid. k: lattice constants, x0: offset in quarters of a constant.  *)
EXTENDS Lattice

Diag(k) == [i \in 1..Len(k) |-> [j \in 1..Len(k) |-> IF i = j THEN k[i] ELSE 0]]
Ones(d) == [i \in 1..d |-> 1]
HexB == <<<<3, 1>>, <<3, -1>>>>       \* grid: half the constant, W = <<1, 3>>
FccB == <<<<1, 1, 0>>, <<1, 0, 1>>, <<0, 1, 1>>>>

Crystal(st) ==         \* [B, W, pos]
  CASE st.how \in {"simple_chain", "simple_square", "simple_rectangular", "simple_cubic", "finite_hypercubic"} ->
         [B |-> Diag(st.k), W |-> Ones(Len(st.k)), pos |-> <<Zero(Len(st.k))>>]
    [] st.how = "alternating_chain" ->     \* constant 4 k
         [B |-> <<<<4 * st.k[1]>>>>, W |-> <<1>>,
          pos |-> <<<<st.x0 * st.k[1]>>, <<(2 + st.x0) * st.k[1]>>>>]
    [] st.how = "simple_hexagonal" -> [B |-> HexB, W |-> <<1, 3>>, pos |-> <<<<0, 0>>>>]
    [] st.how \in {"honeycomb", "graphene"} -> [B |-> HexB, W |-> <<1, 3>>, pos |-> <<<<0, 0>>, <<2, 0>>>>]
    [] st.how = "nacl_structure" -> [B |-> FccB, W |-> Ones(3), pos |-> <<<<0, 0, 0>>, <<1, 1, 1>>>>]
    [] st.how = "kwargs" -> [B |-> st.B, W |-> st.W, pos |-> st.pos]

\* Ready-made bases: [B, W] for the constants k (oblique: st.deg is the angle, the
\* second constant is given along its direction)
NamedBasis(st) ==
  LET k == st.k
      two(a, b, W) == [B |-> <<a, b>>, W |-> W]
  IN CASE st.how \in {"chain", "square", "rectangular", "sc", "hypercubic"} ->
            [B |-> Diag(k), W |-> Ones(Len(k))]
       [] st.how = "oblique" ->
           (CASE st.deg = 30 -> two(<<k[1], 0>>, <<k[2], k[2]>>, <<3, 1>>)
              [] st.deg = 45 -> two(<<k[1], 0>>, <<k[2], k[2]>>, <<1, 1>>)
              [] st.deg = 60 -> two(<<k[1], 0>>, <<k[2], k[2]>>, <<1, 3>>)
              [] st.deg = 90 -> two(<<k[1], 0>>, <<0, k[2]>>, <<1, 1>>)
              [] st.deg = 120 -> two(<<k[1], 0>>, <<-k[2], k[2]>>, <<1, 3>>)
              [] st.deg = 135 -> two(<<k[1], 0>>, <<-k[2], k[2]>>, <<1, 1>>))
       [] st.how = "hexagonal" -> two(<<3 * k[1], k[1]>>, <<3 * k[1], -k[1]>>, <<1, 3>>)
       [] st.how = "hexagonal3d" ->
            [B |-> <<<<3 * k[1], k[1], 0>>, <<3 * k[1], -k[1], 0>>, <<0, 0, k[1] * k[2]>>>>, W |-> <<1, 3, 1>>]
       [] st.how = "fcc" -> [B |-> <<<<k[1], k[1], 0>>, <<k[1], 0, k[1]>>, <<0, k[1], k[1]>>>>, W |-> Ones(3)]
       [] st.how = "bcc" -> [B |-> <<<<k[1], k[1], k[1]>>, <<k[1], -k[1], k[1]>>, <<-k[1], k[1], k[1]>>>>, W |-> Ones(3)]

RECURSIVE Place(_, _, _, _, _)
Place(o, names, ids, pos, i) ==
  IF i > Len(pos) THEN o
  ELSE Place(AddAtom(o, names[i], ids[i], 1, pos[i], 0).o, names, ids, pos, i + 1)
RECURSIVE Connect(_, _, _)
Connect(o, cs, i) ==   \* cs: sequence of <<places, places, number>>
  IF i > Len(cs) THEN o
  ELSE Connect(AddConnection(o, cs[i][1], cs[i][2], cs[i][3], FALSE).o, cs, i + 1)

\* st.c: number of distances between all atoms; 0: the pairs st.pairs
PresetObj(st) ==
  LET c == Crystal(st)
      o == Place(NewObj(MkGeom(c.B, c.W)), st.names, st.ids, c.pos, 1)
      pairs == IF st.how \in {"honeycomb", "graphene"} THEN <<<<<<0>>, <<1>>, 1>>>> ELSE st.pairs
  IN IF st.c > 0 THEN AddConnections(o, st.c, TRUE) ELSE Analyze(Connect(o, pairs, 1))

\* A ready-made basis; st.c > 0: with an atom at the origin and that many distances
NamedObj(st) ==
  LET b == NamedBasis(st)
      o == NewObj(MkGeom(b.B, b.W))
  IN IF st.c = 0 \/ st.exc # "" THEN o
     ELSE AddConnections(Place(o, <<"A">>, st.ids, <<Zero(Len(b.B))>>, 1), st.c, TRUE).o
=============================================================================
