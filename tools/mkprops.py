"""Writes properties.jsonl (one source for the property texts)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=observe, hook_needed=None)))

prop("C01", "Lattice and world coordinates convert exactly into each other",
 "For every basis and every integer or real lattice coordinate, converting to world coordinates gives the corresponding linear combination of the basis vectors, and converting back returns the original coordinate, for single points and for batches of points alike. "
 "Translating a point r by n gives r plus the lattice vector of n, decomposing any point gives an integer translation and a remainder that add up to the point (the remainder lying in the unit cell when the point is not on a cell boundary), and rounding a point to the nearest index inverts the translation. "
 "The position of site (n, alpha) is the lattice vector of n plus the position of atom alpha.",
 ["inputs", "configurations"], "all bases of dimension 1-3 (chain, square, rectangular, oblique, hexagonal, sc, fcc, bcc, left-handed and scaled ones), all coordinates, single or batched",
 "The tests transform a handful of points of a few bases; the claim is for every basis, handedness, scale, sign and batch shape.",
 ["lattpy/basis.py", "lattpy/structure.py"],
 [("transform/itransform via stored inverse", "basis.py LatticeBasis.transform, itransform, translate, itranslate"), ("site positions", "structure.py get_position, get_positions, estimate_index")],
 ["return values of transform, itransform, translate, itranslate, get_position, get_positions, estimate_index"])
prop("C02", "Reciprocal vectors are dual to the basis; cell volume and numbering agree",
 "The reciprocal vectors b_j of every basis of dimension 1-3 satisfy a_i . b_j = 2 pi delta_ij, the check for reciprocity accepts a set of vectors exactly when all these products hold (off-diagonal ones included), and the reciprocal of the reciprocal lattice is the original lattice. "
 "The cell volume is the absolute determinant of the basis and the cell size is the extent of the box spanned by its vectors. "
 "Numbering the cells of a grid is a bijection: cell index to super-index to cell index is the identity and consecutive super-indices run in row-major order, for single values and arrays.",
 ["inputs", "configurations"], "all bases of dimension 1-3 with either handedness, all grid shapes and indices",
 "The tests look at four bases and only at multiples of the right vectors; a wrong off-diagonal product or numbering of unequal grid sizes is never sampled.",
 ["lattpy/basis.py", "lattpy/spatial.py"],
 [("cross products, sign fix", "basis.py reciprocal_vectors, is_reciprocal, reciprocal_lattice"), ("volume/size", "spatial.py cell_volume, cell_size"), ("numbering", "basis.py get_cell_superindex, get_cell_index")],
 ["return values of those methods"])
prop("C03", "Analysis finds exactly the configured neighbours of the infinite lattice",
 "After analysis, the neighbours of a site at (n, alpha) are exactly the lattice sites whose distance from it is one of the c(alpha, beta) smallest distinct distances between the two sublattices, where c is the configured connection number of the atom pair; they are grouped by strictly increasing distance, and none is missing, duplicated or added. "
 "The relation is symmetric and translation invariant, and the per-atom neighbour counts and distances, neighbour positions and neighbour vectors describe the same neighbours; the Fourier weights at a wave vector are the sums over these vectors.",
 ["inputs", "configurations"], "all bases, 1-3 atoms per cell at arbitrary positions in the cell, all connection matrices (including zero entries), all cells n, all distance levels",
 "Tests assert counts for single-atom or default structures with few shells; connection matrices mixing shells, long ranges and shifted atoms are not enumerated.",
 ["lattpy/structure.py", "lattpy/basis.py", "lattpy/spatial.py"],
 [("base neighbour search", "structure.py _compute_base_neighbors, _analyze_raw, analyze"), ("neighbour cells", "basis.py get_neighbor_cells"), ("shifted copies", "structure.py get_neighbors, get_neighbor_positions, get_neighbor_vectors")],
 ["num_neighbors, distances, num_distances, base_neighbors, get_neighbors, get_neighbor_positions, get_neighbor_vectors, fourier_weights"])
prop("C04", "Configuration steps are gated, atomic and never leave stale analysis in use",
 "Analysing, querying neighbours, building and setting periodic boundaries are accepted exactly when the preceding steps (atoms, connections, analysis of the current atoms and connections, build) have been done, and otherwise raise the documented error with a readable message. "
 "A call that is rejected with one of these errors leaves atoms, connections, analysis and the built lattice as they were (connections stay set when only the analysis requested along with them is refused). "
 "Adding an atom at a free position (or an error for an occupied one) or changing connections is possible at any time; it is visible in the configuration at once, adding an atom clears the connections, and a neighbour query or build made afterwards never uses results of an analysis that preceded the change.",
 ["histories", "configurations"], "all sequences of add_atom, add_connection, add_connections, analyze, build, set_periodic and neighbour queries, valid or not",
 "Tests check one error per exception type in one fixed order; the claim ranges over all histories, including re-configuration after analysis or build and failed calls in between.",
 ["lattpy/structure.py", "lattpy/lattice.py", "lattpy/utils.py"],
 [("asserts", "structure.py _assert_atoms, _assert_connections, _assert_analyzed; lattice.py set_periodic"), ("error classes", "utils.py ConfigurationError and subclasses")],
 ["raised exception types and messages, atoms, atom positions, connections, neighbour queries, built data"],
 [("atoms, connections", "configuration", "structure.py LatticeStructure"), ("base neighbours", "analysis results", "structure.py"), ("data", "built lattice", "lattice.py")])
prop("C05", "Building a lattice yields exactly the sites inside the requested shape",
 "Building with any shape (box in Cartesian or primitive coordinates at any position, circle, donut, convex hull) produces one site for every lattice site whose position lies in the shape, boundary included, and that the optional callback accepts, and no other site (of boxes in primitive coordinates the upper faces may be left out); no site occurs twice. "
 "Every site is stored with its lattice index and the position belonging to that index, for any number of sites and any size of the indices. "
 "The minimum-neighbour option removes exactly the sites that have fewer neighbours in the shape. "
 "The steps of a build used on their own (check of points, translation vectors and indices of a region) select the same sites.",
 ["inputs", "configurations"], "all structures, shapes, sizes, positions (negative and far from the origin included), primitive flag, callbacks, min_neighbors",
 "Tests build a few boxes at the origin; skewed bases at shifted positions, small or large cells, boundary atoms and index ranges beyond 8 bit are not sampled.",
 ["lattpy/structure.py", "lattpy/lattice.py", "lattpy/shape.py", "lattpy/spatial.py"],
 [("index range estimate and filter", "structure.py build_translation_vectors, build_indices, check_points"), ("index grid", "spatial.py vindices, interweave"), ("dangling filter", "lattice.py _filter_dangling")],
 ["lattice.indices, lattice.positions, num_sites, num_cells, volume(), alpha(), atom(), position()"])
prop("C06", "Neighbours of a built lattice are exactly the configured pairs, symmetrically",
 "In every built lattice two sites are neighbours exactly if their atoms are connected and their distance is one of the configured distances of that pair; the relation is symmetric, has no self-pairs and no duplicates. "
 "The distance index of a pair is the rank of its distance among the distances that occur in the lattice and maps back to the actual distance between the two sites. "
 "This holds for any number of sites and independently of the order and number of jobs used for the search, also when the search is run on its own for given indices and positions.",
 ["inputs", "configurations"], "all structures, connection matrices, shapes and sizes (1 site up to beyond 8-bit counts), min_neighbors, num_jobs",
 "Tests compare small square and chain lattices; multi-atom connection matrices, lattices at index-width boundaries and filtered lattices are not covered.",
 ["lattpy/structure.py", "lattpy/lattice.py", "lattpy/data.py", "lattpy/spatial.py", "lattpy/utils.py"],
 [("search and filter", "structure.py compute_neighbors, _filter_neighbors; spatial.py KDTree.query"), ("slots and distance table", "data.py LatticeData.set; utils.py create_lookup_table")],
 ["neighbors(site, distidx), data.distvals, data.get_neighbors"],
 [("neighbor slots", "per-site neighbour and distance-index arrays padded with an invalid index", "data.py LatticeData")])
prop("C07", "Periodic boundaries join exactly the sites that meet across them",
 "After periodic boundaries are set along any set of axes, the additional (periodic) neighbours of a site are exactly those sites for which a copy of the lattice shifted by a non-zero combination (coefficients -1, 0, 1) of the period vectors reported for the chosen axes brings them to a configured neighbour distance and which are not regular neighbours already; the relation is symmetric and its distance indices, stored axes and translation vectors match. "
 "Regular neighbours stay unchanged, setting boundaries replaces earlier ones, setting them again changes nothing, and removing them or rebuilding restores the open lattice. "
 "The minimum distances between the sites of a lattice as built are the smallest over the same shifts.",
 ["inputs", "configurations", "histories"], "all structures, box shapes that tile space along the chosen axes, all subsets of axes, Cartesian or primitive, all sequences of setting and removing boundaries",
 "Tests check one- and two-dimensional nearest-neighbour cases; corner images in three dimensions, longer ranges, multi-atom cells and re-setting histories are never enumerated.",
 ["lattpy/lattice.py", "lattpy/data.py"],
 [("images", "lattice.py periodic_translation_vectors, _build_periodic_translation_vector, _compute_pneighbors"), ("slots", "data.py set_periodic, remove_periodic"), ("distances", "lattice.py minimum_distances")],
 ["neighbors, data.get_neighbors(periodic=...), data.pnvecs/pmask via neighbor_mask, periodic_axes, minimum_distances"],
 [("pmask, pnvecs, paxes", "marking of periodic slots", "data.py LatticeData")])
prop("C08", "All views of the neighbour data describe the same lattice at any time",
 "At every point of any history of building, setting or removing periodic boundaries, removing sites, sorting and extending, the neighbour lists (per distance, all, unique, nearest), the neighbour iterator, the neighbour pairs, the pairwise neighbour check, the adjacency matrix and the data map describe the same current sites and pairs with the same distance indices. "
 "The adjacency matrix is N x N with distance index plus one, the data map has exactly one on-site entry per site under its atom and one entry per directed pair under its distance index, and the sparse matrices built from it hold the given data at exactly these places.",
 ["histories", "inputs"], "all histories of lattice-changing calls, any interleaving of view queries with them",
 "Tests query each view once after a build; views that were queried before a change (and might be remembered) and lattices with isolated sites are not reached.",
 ["lattpy/lattice.py", "lattpy/data.py"],
 [("data map and its cache", "data.py LatticeData.map, DataMap"), ("pairs and adjacency", "lattice.py neighbor_pairs, adjacency_matrix, check_neighbors"), ("masks", "data.py neighbor_mask, get_neighbors, iter_neighbors")],
 ["neighbors, nearest_neighbors, iter_neighbors, neighbor_pairs, adjacency_matrix, check_neighbors, dmap onsite/hopping/rows/cols/indices/indices_indptr/build_csr/build_bsr"],
 [("cached data map", "remembered view", "data.py LatticeData")])
prop("C09", "Removing and sorting sites preserves the remaining lattice",
 "Removing any set of sites leaves exactly the other sites, in their previous order and with their indices and positions, and exactly the neighbour pairs (regular and periodic, with distances, axes and translation vectors) between them. "
 "Sorting along an axis or by a permutation, forward or reversed, only renumbers the sites consistently everywhere and puts them in the requested order. "
 "Periodic boundaries can be set, replaced or removed afterwards as on any lattice.",
 ["histories", "inputs"], "all lattices, all subsets of sites removed at once or in several steps, all axes and permutations, with and without periodic boundaries before or after",
 "Tests remove single sites and sort one small lattice without periodic boundaries; combinations are not covered.",
 ["lattpy/data.py"],
 [("re-indexing", "data.py LatticeData.remove, sort, sort_neighbors, set_periodic, remove_periodic")],
 ["indices, positions, neighbors, periodic neighbours after each call"])
prop("C10", "Appending, extending and repeating give the lattice of the joined sites",
 "Appending a lattice, extending by a section or repeating along any axis and side adds exactly the sites of the other lattice, new section or copies, moved by whole cells to lie directly next to the existing ones, and keeps the existing sites. "
 "The neighbour relation of the result is the one a lattice with all these sites has by its configured connections, nothing lost, added or mislabelled along or away from the seam, and periodic boundaries set before are gone. "
 "The connections computed between two lattices are exactly the neighbour pairs of one site each, and joined lattice data hold the sites and regular neighbours of both parts. "
 "The appended lattice and the arguments are not modified.",
 ["histories", "inputs", "configurations"], "all structures and connection ranges, box sizes down to one site, both sides, all axes, repeated and mixed extensions, Cartesian and primitive boxes, any build position",
 "Tests compare a few square and chain cases with nearest neighbours; thin sections, long ranges, multi-atom cells, negative side with several repetitions and shifted lattices are not reached.",
 ["lattpy/lattice.py", "lattpy/data.py"],
 [("joining", "lattice.py _append, append, extend, repeat, _build_periodic_translation_vector"), ("neighbours of the joined sites", "structure.py compute_neighbors")],
 ["indices, positions, neighbors, shape, periodic data of both lattices before and after"])
prop("C11", "Copies and restored lattices are equal to the original and independent of it",
 "A copy, a pickled or dumped and loaded lattice and a lattice restored from its dictionary have the same basis, atoms, positions, connections and analysis (and, except for the dictionary, the same built data and periodic boundaries) as the original, and compare equal to it where the original does. "
 "Any later change made through one of them is never visible in the other, including changes of the arrays or dictionaries they were created from. "
 "Lattices that differ in basis, atoms, positions (by more than rounding errors) or connections compare unequal.",
 ["histories", "configurations"], "all configurations and built states, all following changes to either object",
 "Tests compare one copy right after creation; interference by later changes needs histories over two objects.",
 ["lattpy/structure.py", "lattpy/lattice.py", "lattpy/basis.py", "lattpy/data.py", "lattpy/atom.py"],
 [("copying", "structure.py/lattice.py copy, todict, fromdict, dump, load, __hash__, __eq__; data.py copy; basis.py __init__")],
 ["all observable state of both objects after each call"])
prop("C12", "Site lookups, limits and selections agree with the stored sites",
 "Looking up a position or lattice index returns the number of the site that has it, and nothing if there is none; positions, atoms and sublattices reported per site belong to that site. "
 "Limits, center, relative positions and center of gravity are those of the site positions (as is the shape after building or joining), cell count and volume count the distinct cells, and index limits those of the indices. "
 "Selecting sites by bounds returns exactly the sites inside (or, inverted, outside) the inclusive bounds, unset bounds being unlimited, and the outer sites of an axis are exactly those nearer to the limits than the given offset.",
 ["inputs", "histories"], "all built lattices (also after removing, sorting, extending), all queried positions, indices, bounds, offsets",
 "Tests query a few sites of one square lattice.",
 ["lattpy/lattice.py", "lattpy/data.py"],
 [("lookup", "lattice.py superindex_from_pos, superindex_from_index, limits, center, center_of_gravity, relative_position, num_cells, volume"), ("selection", "data.py site_mask, find_sites, find_outer_sites, get_limits, get_index_limits, get_cell_limits, get_positions")],
 ["return values of those methods"])
prop("C13", "Shapes contain exactly the points of the described region, within their limits",
 "A box contains exactly the points between its position and position plus size (in the coordinates of its basis if one is given), a circle those at most the radius away from its center, a donut those between its radii, a convex hull those in the hull of its points; boundaries belong to the region, and the tolerance enlarges it. "
 "The limits of a shape are the smallest axis-aligned box that encloses the region, so no contained point lies outside of them.",
 ["inputs"], "all shape kinds, dimensions 1-3, positions, sizes, bases and points",
 "Tests use random points against the same formula for one shape each at a fixed position.",
 ["lattpy/shape.py"],
 [("membership and limits", "shape.py Shape, Circle, Donut, ConvexHull contains/limits")],
 ["contains, limits"])
prop("C14", "The Wigner-Seitz cell holds the points nearest to the origin",
 "For every lattice, a point is reported as inside the Wigner-Seitz cell if it is nearer to the origin than to every other lattice point and as outside if another lattice point is nearer; the Brillouin zone is that cell of the reciprocal lattice. "
 "The corners of the cell are at equal smallest distance from the origin and at least as many other lattice points as the dimension, and the limits are the extent of the corners. "
 "Ranges and grids over the cell span its limits evenly, and the points of a grid kept by the cell are those inside.",
 ["inputs", "configurations"], "all bases of dimension 1-3 (square, rectangular, oblique, hexagonal, sc, fcc, bcc), all points",
 "Tests look at the square lattice only.",
 ["lattpy/basis.py", "lattpy/spatial.py"],
 [("neighbouring cells", "basis.py wigner_seitz_cell, brillouin_zone, get_neighbor_cells"), ("Voronoi cell", "spatial.py VoronoiTree, WignerSeitzCell")],
 ["wigner_seitz_cell().check, limits, vertices; brillouin_zone()"])
prop("C15", "Dispersion paths interpolate the chosen points in order",
 "A dispersion path holds its points and labels in the order they were added (clipped to the path's dimension, unnamed points labelled by their number, closing the path repeating the first point), for any sequence of additions, and whatever the caller does with its arrays afterwards. "
 "Building it with m points per section gives for every consecutive pair m evenly spaced vectors from the first to the second point, in order; tick k is k times m, the distances are the lengths of the sections and the scales their ratios to the first one. "
 "The ready-made paths of a chain, square and cubic lattice run through the documented high-symmetry points for the given lattice constant.",
 ["histories", "inputs"], "all sequences of add, add_points, named points and cycle, all dimensions and section sizes",
 "There are no tests for paths.",
 ["lattpy/disptools.py"],
 [("path", "disptools.py DispersionPath add, add_points, cycle, gamma, x, m, r, build, get_ticks, edges, distances, scales, draw")],
 ["points, labels, num_points, build, get_ticks, edges, distances, scales"])
prop("C16", "Atoms behave as named records with consistent item and attribute access",
 "An atom keeps its name, weight and the parameters it was given (under any name that is not an attribute of every atom); reading, writing and deleting a parameter through items or attributes acts on the same value, and missing parameters raise or return the default. "
 "Atoms compare and hash by name, also against plain strings, every new atom gets a fresh index, and a copy has the same name, weight and parameters but changes independently. "
 "Within a lattice, lookup by index, name or atom returns the atoms at the matching places of the unit cell.",
 ["histories", "inputs"], "all sequences of reads, writes, deletions and copies of several atoms, all atom arrangements in a unit cell",
 "Tests read and write single parameters of fresh atoms.",
 ["lattpy/atom.py", "lattpy/structure.py"],
 [("mapping", "atom.py Atom"), ("lookup", "structure.py get_alpha, get_atom, get_base_atom_dict")],
 ["Atom items, attributes, len, iter, get, dict, ==, hash, copy; get_alpha, get_atom"])
prop("C17", "Grid and index helpers enumerate and encode every value faithfully",
 "The index grid of given limits holds every integer vector in the half-open limits exactly once, and the vector range every vector of the given start, stop and step, each ordered by the chosen axis; interweaving arrays takes one row of each in turn. "
 "The smallest data type chosen for values can hold every one of them, the lookup table of an array maps every entry back to its value with the values sorted and distinct, and chaining items gives all consecutive pairs (closed if asked). "
 "Rotating vectors in two or three dimensions keeps lengths and angles and turns by the given angle, and vectors computed from lengths and angles have these lengths and angles.",
 ["inputs"], "all limits (negative, asymmetric, wider than 8 or 16 bit), dimensions 1-3, sort axes, values at type boundaries",
 "Tests use tiny non-negative limits and a few values per type.",
 ["lattpy/spatial.py", "lattpy/utils.py"],
 [("grids", "spatial.py vindices, vrange, interweave"), ("encodings", "utils.py min_dtype, create_lookup_table, chain")],
 ["return values of these functions"])

prop("C18", "Ready-made lattices describe the documented crystal",
 "Every ready-made lattice (simple chain, alternating chain, square, rectangular, hexagonal, honeycomb, graphene, cubic, NaCl and finite hypercubic lattices) has, for all lattice constants, atoms and numbers of neighbours given, the documented basis vectors, atoms at the documented positions of the unit cell and the requested connections, is analysed, and has the neighbours these imply. "
 "If a shape and periodic axes are passed along, it is the lattice that building and setting the boundaries afterwards would give. "
 "Passing atoms and connections to the constructor gives the same lattice as adding them step by step.",
 ["inputs", "configurations"], "all ready-made lattices, lattice constants, atoms, neighbour numbers, shapes and periodic axes; all atoms and connections passed to a constructor",
 "Tests build few of the ready-made lattices, with default arguments and nearest neighbours.",
 ["lattpy/__init__.py", "lattpy/structure.py", "lattpy/lattice.py", "lattpy/basis.py"],
 [("ready-made lattices", "__init__.py simple_chain ... finite_hypercubic"), ("keyword configuration", "structure.py LatticeStructure.__init__"), ("ready-made bases", "basis.py chain, square, rectangular, oblique, hexagonal, hexagonal3d, sc, fcc, bcc")],
 ["vectors, atoms, atom_positions, connections, neighbours, indices and periodic axes of the returned lattice"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
