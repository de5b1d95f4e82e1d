"""The properties: text for properties.jsonl and MANIFEST.json."""
I = ["inputs"]
H = ["inputs", "histories"]
BOUNDED = "Bounded: the contract is evaluated on the compiled functions for generated inputs against an exact oracle; nothing here is counted as proved."
BT = "executable contract on the real functions, exact-arithmetic oracle, bounded (stand-in for the deductive check)"

ALG = "contracts on the real functions (taken from the AST on every run), discharged path by path by an algebraic VC engine: exact rational polynomial identities for values, certified rounding-error bounds for every filter constant; bounded replay suite for failing inputs"
ALGN = "Proved for all inputs without overflow or underflow (machine arithmetic is f64 round-to-nearest in the standard model). Trusted: the engine (symbolic evaluator, polynomial arithmetic, error bounds) and "


def P(id, title, statement, over, quant, why, files, mech, state=(), observe=(), technique=BT, level_note=BOUNDED, theorems=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
                technique=technique, level_note=level_note, theorems=list(theorems))


PROPERTIES = [
    P("P01", "Disjoint sets: groups are exactly the classes of the merged pairs",
      "After any sequence of merges, the disjoint-set structure reports two elements in the same group exactly when a chain of merged pairs connects them. The listing contains every element exactly once, under a key that is a member of its own group, and the group count equals the number of classes.",
      H, "every number of elements and every sequence of merge and output calls",
      "one small example is tested; the claim is about every merge history and tree shape",
      ["src/disjoint_set/mod.rs"],
      [("union by rank with path compression", "src/disjoint_set/mod.rs: link, find_set, merge")],
      [("parent/rank", "forest over the elements", "DisjointSet"), ("n_groups", "number of trees", "DisjointSet")],
      ["DisjointSet::output", "DisjointSet::n_groups"],
      technique="Verus contracts on new, link, merge, find_set and output of src/disjoint_set/mod.rs, extracted mechanically; lemma that the merge contract is the smallest equivalence",
      level_note="Proved for all sizes and histories by Verus/Z3. Trusted: the HashMap entry-or-insert idiom and Vec::from_iter(range) stand-ins, arithmetic on usize checked for overflow by the verifier.",
      theorems=["dsu::DisjointSet::merge", "dsu::DisjointSet::output", "dsu::lemma_joined_is_smallest"]),
    P("P02", "Push-relabel flow: the returned cut is a minimum cut",
      "For every capacitated network with non-negative capacities, the push-relabel solver's source and sink sides separate the source from the sink, and the total capacity of the arcs from the source side to the sink side equals the maximum flow. The computation ends for every such network.",
      I, "every network (any nodes, arcs, parallel and opposite arcs, zero capacities) whose capacities add without rounding",
      "the tests run two fixed networks",
      ["src/graphcut/push_relabel_fifo.rs"],
      [("push, relabel, global relabelling by breadth-first search, gap-free labels", "src/graphcut/push_relabel_fifo.rs: find_max_flow")],
      [("excess, label, residual capacities", "preflow and valid labelling", "PushRelabelFifo")],
      ["PushRelabelFifo::new, find_max_flow, is_sink"],
      technique="Verus contracts on every function of PushRelabelFifo (extracted mechanically on every run): the sister-arc structure, the preflow, the valid labelling and the queue of active vertices are invariants; for every vertex set without the source, the residual capacity into it plus the excess inside it is conserved and equals the capacity of that cut in the input; breadth-first relabelling and termination measures are proved; bounded replay suite for failing inputs",
      level_note="Proved for every network with 2 to 2^40 vertices and at most 2^40 arcs (parallel, opposite, zero arcs and loops included): the computation ends, and the reported sink side holds the sink, not the source, and has the least capacity of all cuts, which equals the excess of the sink. That this is the maximum flow is the max-flow/min-cut theorem, not proved again here. Capacities are mathematical numbers (stand-in VxNum: T adds, subtracts and compares exactly). Trusted: Verus/Z3; hash maps behave as maps; the statistics counters do not overflow; iterator adaptors have their documented meaning (listed in the evidence).",
      theorems=["theorem_min_cut, vx_client: from; find_max_flow; is_sink give a cut of least capacity", "from: every cut of the residual network has the capacity of the input's cut; sister arcs are consistent, at most one arc per pair of vertices", "init: the preflow out of the source conserves every cut", "push: conserves every cut, keeps the labelling valid, queues every vertex that becomes active; returns false only when no admissible arc is left", "relabel, calc_new_label: the label rises and stays valid", "discharge: ends, the vertex is inactive afterwards", "global_relabel: valid labels not below the old ones, labels of vertices that cannot reach the sink are n, the queue holds exactly the active vertices", "find_max_flow: terminates (sum of n - label, then a potential over the active vertices), no active vertex is left"]),
    P("P03", "Graph cut: the flow value is maximal and the labels form a minimum cut",
      "For every graph with non-negative terminal and edge capacities, the graph-cut solver returns the value of a maximum flow from source to sink. The side it reports for each node forms a cut whose capacity equals that value.",
      I, "every graph (terminal capacities, edges with independent reverse capacities, parallel edges) whose capacities add without rounding",
      "the tests run one or two fixed graphs",
      ["src/graphcut/mod.rs"],
      [("augmenting paths between two search trees, orphan adoption", "src/graphcut/mod.rs: max_flow, grow, augment, process_source_orphan, process_sink_orphan")],
      [("search trees, terminal and edge residuals", "residual network", "GraphCut")],
      ["GraphCut::max_flow", "GraphCut::is_sink"],
      technique="Verus contracts on every function of GraphCut (extracted mechanically on every run): sister arcs, both search trees (with a distance to the terminal as ghost ranking), the doubly ended list of active nodes and the list of orphans are invariants; for every node set s, flow + residual capacity of the cut s is conserved and equals the capacity of s in the graph as given; every loop terminates; bounded replay suite for failing inputs",
      level_note="Proved for every graph with fewer than 2^44 nodes and edges (parallel edges, loops and zero capacities included), for the sequence new, add_edge*, max_flow: the computation ends, the returned value equals the capacity of the cut it labels and is at most the capacity of any cut. That this is the maximum flow is the max-flow/min-cut theorem, not proved again here. Capacities are mathematical integers (stand-in VxNum; capacities whose sums do not round can be scaled to integers). Trusted: Verus/Z3; the time stamp stays below 2^62; vec!, zip and iter_mut are rewritten to loops (listed in the evidence).",
      theorems=["vx_client: for every graph and every sequence of edges the returned flow is the capacity of the reported cut and at most that of every cut", "new, add_edge: flow + residual cut = capacity of the cut, for every node set", "set_active, next_active: the queue of active nodes", "set_orphan_front, set_orphan_back: the list of orphans", "augment: flow grows, every cut is conserved, no residual becomes negative, saturated tree arcs end in the orphan list", "process_source_orphan, process_sink_orphan: the node gets a parent whose path ends at the terminal, or leaves the tree and its children become orphans; neighbours become active", "max_flow: terminates (residual cut, free nodes, active nodes); at the end no residual arc joins the trees"]),
    P("P04", "Expansion arithmetic is exact",
      "Barring overflow and underflow, the floating-point expansion operations (sum, difference, product, scaling, negation, growing and the two-term building blocks) return expansions whose exact value is exactly the corresponding result of the exact values of their operands. The zero-eliminating operations keep components nonoverlapping and ordered by magnitude, without zeros unless the value is zero, and the sign read from such an expansion is the sign of its exact value.",
      I, "all non-empty nonoverlapping expansions with components between 2^-400 and 2^400",
      "tests use a handful of numbers, for which rounding hides lost components",
      ["src/predicates/predicates.rs", "src/predicates/expansion_number.rs"],
      [("error-free transformations: two_sum, two_diff, two_product, split", "src/predicates/predicates.rs"),
       ("fast_expansion_sum_zeroelim, scale_expansion_zeroelim, expansion_sum, mul_expansion_zeroelim", "src/predicates/predicates.rs"),
       ("operators on ExpansionNum", "src/predicates/expansion_number.rs")],
      [], ["predicates::*expansion*", "ExpansionNum operators"],
      technique="contracts on the real functions (AST on every run): the error-free transformations (two_sum, fast_two_sum, two_product, split, square, ...) become Coq theorems over exactly the roundings the code performs, proved from Flocq and checked by coqc; loops over expansions of any length are verified with an invariant on the sum of components, exact polynomial identities and z3 for magnitude preconditions; bounded replay suite for failing inputs",
      level_note="Value exactness, non-emptiness and absence of zero components are proved for all inputs and all lengths, without overflow or underflow. That results of the zero-eliminating operations are non-overlapping and ordered (Shewchuk 1997, theorems 13 and 19), on which the reading of the sign from the last component and the fast_two_sum precondition inside scaling rest, is trusted and checked by the bounded suite only. Trusted: Coq, Flocq, the symbolic evaluator, iterator adapters and Vec of the standard library.",
      theorems=["two_sum, fast_two_sum, two_diff, fast_two_diff, two_diff_tail, split, two_product, two_product_pre_split, square: exact value and rounded head (Coq)", "two_one_sum/diff, two_two_sum/diff, two_one_product", "fast_expansion_sum_zeroelim, fast_expansion_diff_zeroelim, scale_expansion_zeroelim, mul_expansion_zeroelim, grow_expansion(_zeroelim), expansion_sum, expansion_invert, ExpansionNum::neg, the twelve ExpansionNum operators: exact value for all lengths"]),
    P("P05", "2D and 3D orientation predicates give the exact sign",
      "Barring overflow and underflow, the 2D and 3D orientation predicates on double coordinates return a value whose sign is the sign of the exact determinant of their arguments; zero is returned exactly when the points are exactly collinear or coplanar.",
      I, "all double coordinates for which no intermediate product overflows or underflows",
      "the inputs that reach the deeper adaptive stages are vanishingly rare among chosen examples",
      ["src/predicates/predicates.rs"],
      [("static error bounds and adaptive stages", "src/predicates/predicates.rs: orient2d, orient2d_adapt, orient3d, orient3d_adapt")],
      [], ["predicates::orient2d", "predicates::orient3d (explicit)", "predicates::double_to_sign"],
      technique=ALG, level_note=ALGN + "the contracts of the expansion building blocks, which P04 checks.",
      theorems=["orient2d", "orient2d_adapt", "orient3d", "orient3d_adapt: every return path has the sign of the determinant"]),
    P("P06", "Incircle, insphere and lifted-orientation predicates give the exact sign",
      "Barring overflow and underflow, the in-circle, in-sphere and four-dimensional orientation predicates on double coordinates return a value whose sign is the sign of the exact determinant of their arguments, and zero exactly in the degenerate (co-circular, co-spherical) position.",
      I, "all double coordinates (and heights) for which no intermediate product overflows or underflows",
      "the deeper adaptive stages and the exact fallback are reached only by nearly degenerate inputs that no fixed set of examples covers",
      ["src/predicates/predicates.rs"],
      [("static error bounds, adaptive stages, exact fallback", "src/predicates/predicates.rs: incircle*, insphere*, orient4d*")],
      [], ["predicates::incircle", "predicates::insphere", "predicates::orient4d"],
      technique=ALG, level_note=ALGN + "the contracts of the expansion building blocks, which P04 checks. Two of the insphere constants are accepted with a stated slack (see DESIGN.md).",
      theorems=["incircle", "insphere", "orient4d and their adaptive and exact stages: every return path has the sign of the determinant"]),
    P("P07", "Interval arithmetic encloses the exact result and never reports a wrong sign",
      "Every interval operation (construction, sum, difference, product, negation) on intervals that enclose exact values returns an interval that encloses the exact result. When an interval reports a sign (not zero, positive, negative), every value it encloses has that sign; an interval with both bounds on one side of zero is recognised.",
      I, "all finite bounds and values, in every sign configuration and rounding case, without overflow",
      "tests use single values; soundness must hold for every sign pattern and every rounding",
      ["src/predicates/interval_number.rs", "src/predicates/mod.rs"],
      [("interval stored as (-low, high) with upward rounding emulation", "src/predicates/interval_number.rs")],
      [("data", "pair (-low, high)", "IntervalNumber")], ["IntervalNumber operators", "positive, negative, not_zero, sign reading"],
      technique="contracts on every operation of src/predicates/interval_number.rs (AST on every run, item macros expanded), executed symbolically path by path with rounding left unspecified except for its defining inequalities; the enclosure and invariant obligations of each path are discharged by z3 in non-linear real arithmetic",
      level_note="Proved for all finite intervals without overflow (underflow allowed). Trusted: the symbolic evaluator, z3, the lane semantics of std::simd and f64::next_up; intervals are built with low <= high.",
      theorems=["add, sub, mul and their twelve operator implementations enclose the exact result and keep the sign-bit invariant (the panicking arm is unreachable)", "positive, negative, not_zero hold exactly when the bounds settle them"]),
    P("P08", "Implicit points stand for exactly the intersection they are defined by",
      "The homogeneous coordinates of a line-plane or three-plane intersection point, computed by the floating-point filter, by intervals or by expansions, stand for the exact intersection of the defining line and planes. The expansion form is exact, the interval form encloses it, and the filtered form is offered only with an error bound that covers its true error and a denominator of certain sign; a vanishing denominator is reported exactly when the intersection does not exist. Converting such a point to doubles gives its exact coordinates up to a few units in the last place.",
      I, "all defining points with coordinates for which no intermediate product overflows or underflows",
      "tests construct a few intersection points; the error bounds concern every rounding",
      ["src/predicates/generic_point.rs"],
      [("ImplicitPointLPI/TPI: ssfilter, dfilter (intervals), exact", "src/predicates/generic_point.rs")],
      [("cached filtered / interval / exact coordinates", "one value in three precisions", "ImplicitPointLPI, ImplicitPointTPI")],
      ["ImplicitPoint3D trait methods"],
      technique=ALG, level_note=ALGN + "the contracts of interval (P07) and expansion (P04) operations, which the code is polymorphic in.",
      theorems=["ImplicitPointLPI / ImplicitPointTPI static_filter, dynamic_filter, exact: coordinates lie on the defining line and planes, error bounds cover the rounding error, caches agree"]),
    P("P09", "Orientation of explicit and implicit points is exact in every combination",
      "For every combination of explicit, line-plane and three-plane intersection points, the 2D (per coordinate plane) and 3D orientation tests return the sign of the exact orientation determinant of the points they stand for. The answer is undefined exactly when one of the implicit points does not exist.",
      I, "all argument kinds in every position, all defining coordinates without overflow or underflow",
      "81 kind combinations per test and three filter stages each; the tests touch none of them for nearly degenerate positions",
      ["src/predicates/orient2d.rs", "src/predicates/orient3d.rs"],
      [("dispatch on point kinds with argument permutation and sign reversal", "src/predicates/orient2d.rs, src/predicates/orient3d.rs"),
       ("filtered, interval and exact stages", "orient2d_*_filtered/interval/exact, orient3d_*")],
      [], ["predicates::orient2d::orient2d_by_axis/_xy/_zx/_yz", "predicates::orient3d::orient3d"],
      technique=ALG, level_note=ALGN + "the contracts of implicit points (P08, proved), explicit predicates (P05, proved), intervals (P07) and expansions (P04).",
      theorems=["orient2d_{lee..ttt}<axis>, orient3d_{leee..tttt}: sign of the determinant or Undefined", "orient2d_xy/zx/yz/by_axis (27 kinds each), orient3d (81 kinds)"]),
    P("P10", "Coordinate comparison of explicit and implicit points is exact and antisymmetric",
      "Comparing two points, explicit or implicit in any combination, along a coordinate axis returns the sign of the exact difference of that coordinate of the points they stand for. Exchanging the two points reverses the answer, and the answer is undefined exactly when one of the points does not exist.",
      I, "all kind combinations, three axes, all defining coordinates without overflow or underflow",
      "the fallback stages are only reached by near-ties that examples do not contain",
      ["src/predicates/less_than.rs"],
      [("dispatch with reversal; filtered, interval, exact stages", "src/predicates/less_than.rs")],
      [], ["predicates::less_than_on_x/_y/_z"],
      technique=ALG, level_note=ALGN + "the contracts of implicit points (P08, proved), intervals (P07) and expansions (P04).",
      theorems=["less_than_{le,te,ll,lt,tt}<axis>: sign of the exact difference or Undefined", "less_than_on_x/y/z for 9 kinds each; antisymmetry is a corollary of the sign of the difference"]),
    P("P11", "Point, segment and triangle position helpers decide exactly",
      "The helpers that decide collinearity, whether a point lies on or inside a segment, whether segments or a segment and a triangle cross in their interiors, whether a point lies in a triangle (given that it lies in its plane), and which side of a line two coplanar points lie on, answer exactly as real geometry does for the given coordinates. The main axis chosen for a triangle's normal is one along which the projected triangle does not degenerate.",
      I, "all double coordinates without overflow or underflow, including all degenerate positions; triangles are proper where the helper needs one",
      "the degenerate positions (touching end points, collinear overlap, touching edges) are many and each needs an exact answer",
      ["src/predicates/mod.rs"],
      [("combinations of exact orientation signs", "src/predicates/mod.rs: point_in_*, inner_segment*, same_half_plane, mis_alignment, max_comp_in_tri_normal")],
      [], ["predicates::{same_point, mis_alignment, point_in_segment, point_in_inner_segment, point_in_segment_general, inner_segments_cross, inner_segment_cross_inner_triangle, inner_segment_cross_triangle, point_in_triangle, point_in_inner_triangle, same_half_plane, max_comp_in_tri_normal}"],
      technique="contracts on the real functions (taken from the AST on every run); each path's signs imply the geometric answer, discharged by z3 over the reals with geometric axioms that are themselves proved as polynomial identities; bounded replay suite for failing inputs",
      level_note="Proved for all coordinates without overflow or underflow, function by function; callee contracts: exact orientation predicates (P05, P10, proved). Trusted: the symbolic evaluator and z3. Preconditions are those stated (coplanar points, proper triangles, existing points).",
      theorems=["same_point, mis_alignment, point_in_inner_segment, point_in_segment, point_in_segment_general, same_half_plane, point_in_inner_triangle, point_in_triangle, inner_segments_cross, inner_segment_cross_inner_triangle, inner_segment_cross_triangle, orient2d_by_axis, max_comp_in_tri_normal"]),
    P("P12", "The surface mesh stays a consistent halfedge structure under edits",
      "Building a mesh from polygons gives exactly those polygons as face loops, with every halfedge on one edge whose end points it joins. Splitting an edge, splitting a face between two of its vertices and adding a face by halfedges preserve consistency: next and previous are inverse and stay in one face, siblings of an edge form one cycle over all halfedges of that edge, and the face loops are the old ones with exactly the described change.",
      H, "every list of polygons with at least three distinct vertices each (non-manifold edges included) and every sequence of edits on valid elements",
      "a few meshes and no edit sequences are tested; an edit can corrupt a link that only a later edit reads",
      ["src/mesh/surface_mesh.rs", "src/mesh/mesh_core_data.rs"],
      [("SurfaceMesh::new, split_edge, split_face, add_face_by_halfedges", "src/mesh/surface_mesh.rs")],
      [("next/prev, vertex, face, edge, sibling arrays", "halfedge connectivity", "SurfaceMesh, MeshCoreData")],
      ["Mesh trait accessors"],
      technique="Verus contracts on SurfaceMesh::new, vertex_cycle, split_edge, split_face, add_face_by_halfedges, insert_halfedge, new_* and the accessors (extracted mechanically on every run): the consistency of the mesh is an invariant over four families of rings (next, sibling, incoming, outgoing), every edit is proved to preserve it and to change the face loops exactly as described, every construction to establish it; bounded replay suite for failing inputs",
      level_note="Proved for every mesh and edit of any size. Construction: at least one polygon, consecutive corners of a polygon differ. split_face: the two vertices differ and occur once each on the face. add_face_by_halfedges: the halfedges form a closed chain. Array sizes stay below usize::MAX. The contracts of the traversals that edits call are discharged in P13's unit. Trusted: Verus/Z3; hash maps behave as maps; the documented meaning of the iterator adaptors that the extraction rewrites into loops (listed in the evidence).",
      theorems=["SurfaceMesh::new: consistent, face loops are the polygons, halfedges share an edge iff they join the same two vertices", "vertex_cycle: counting sort of the halfedges by vertex", "split_edge: consistent, every halfedge of the edge is cut by the new vertex, nothing else changes", "split_face: consistent, the face loop is cut along the new edge", "add_face_by_halfedges: consistent, one new loop", "insert_halfedge, new_vertices, new_halfedges, new_edges, new_faces, ele_ranges"]),
    P("P13", "Mesh traversals visit each incident element exactly once",
      "Iterating over all vertices, halfedges, edges or faces of a mesh visits each valid element exactly once. Circulating around a vertex, an edge or a face visits each incident halfedge exactly once and ends, and the derived vertex, edge and face circulators agree with it.",
      H, "every mesh obtained by construction and edits (non-manifold edges and vertices included)",
      "termination and completeness around non-manifold vertices depend on the shape of the mesh, few of which are tested",
      ["src/mesh/element/vertex.rs", "src/mesh/element/edge.rs", "src/mesh/element/face.rs", "src/mesh/element/halfedge.rs", "src/mesh/element/macros.rs", "src/mesh/surface_mesh.rs"],
      [("element iterators and circulators", "src/mesh/element/*.rs")],
      [("v_first/v_next halfedge rings, e_halfedge + sibling ring, f_halfedge + next ring", "circulation orders", "SurfaceMesh, MeshCoreData")],
      ["Mesh::vertices, halfedges, edges, faces; Vertex, Edge, Face circulators"],
      technique="Verus contracts on every iterator and circulator of src/mesh/element and the accessors they use (extracted mechanically on every run, generic mesh instantiated with SurfaceMesh): a ghost list of visited states per iterator, a position in it, and iter_next proved to deliver the rest of the list; bounded replay suite for failing inputs",
      level_note="Proved for every consistent halfedge mesh of any size (the invariant SurfaceMesh::wf of the template; that construction establishes and edits preserve it is proved in P12). Trusted: Verus/Z3; the rewriting of a[id] into a[number of id].",
      theorems=["iter_next", "VertexIter, HalfedgeIter, EdgeIter, FaceIter: all valid elements in order, once each", "EHIter, FHIter, FVIter, VIHIter, VOHIter: exactly the incident halfedges, once each", "VEIter, VVIter: every incident edge once and the vertices across them", "he_prev, he_twin, accessors and the methods of Vertex, Halfedge, Edge, Face"]),
    P("P14", "2D triangulation is a valid constrained Delaunay triangulation",
      "Without segments, the triangulation of distinct points that are not all collinear covers their convex hull with positively oriented triangles that use every point and have no point inside a triangle's circumcircle. With segments that cross only at shared end points, every segment appears as a union of edges; when the segments bound a region on their left, the result covers exactly that region. Polygons given in a plane of space, alone or as a soup, are triangulated in the same way and the triangles keep the original point numbers and parents.",
      I, "all finite sets of at least three distinct, not all collinear points; all segment sets that do not cross; any order",
      "degenerate positions (grids, collinear segments, co-circular points) and insertion orders are unbounded",
      ["src/triangle/triangle.rs"],
      [("divide and conquer with ghost triangles, constraint insertion, carving of the outside", "src/triangle/triangle.rs: triangulate, alternate_axes, form_skeleton, carve_holes")],
      [("triangle neighbours", "oriented edge adjacency", "Triangle, HEdge")], ["triangle::triangulate, triangulate_polygon, triangulate_polygon_soup"]),
    P("P15", "3D tetrahedralization is a valid Delaunay tetrahedralization",
      "The tetrahedralization of points that span space consists of positively oriented tetrahedra with mutually consistent neighbour links that cover the convex hull, use every distinct point once, and have no point inside a circumsphere. The recorded tetrahedron of each point contains it, and the list of tetrahedra incident to a point is exactly those that have it as a vertex.",
      I, "all finite sets of points that contain four points of relative volume above the code's own threshold, repeated points included, and every random insertion order",
      "the insertion order is random, degenerate sets (grids, spheres, planes) are unbounded, and large cavities are never reached by the tests",
      ["src/triangle/tetrahedron.rs"],
      [("incremental insertion along a Hilbert order, walking location, cavity boundary filling", "src/triangle/tetrahedron.rs: tetrahedralize, locate_vertex_walk, insert_vertex_bw")],
      [("tets, neighbour faces, point-to-tet map", "ghost-closed tetrahedral complex", "TetMesh")], ["triangle::tetrahedralize", "TetMesh::incident"]),
    P("P16", "Removing duplicate points merges close points consistently",
      "For a positive tolerance, removing duplicates returns pairwise different points, each of which stands for at least one input point, and maps every input point to a returned point that differs by at most half the tolerance in each coordinate. Equal input points are mapped to the same point, points further apart than the tolerance in some coordinate are not. A second pass over the result merges nothing.",
      I, "all point lists, all positive tolerances, points on cell boundaries and negative coordinates included",
      "tests use one list without near ties",
      ["src/polygonlization/mod.rs"],
      [("snap, sort, unique, index map", "src/polygonlization/mod.rs: remove_duplicates")],
      [], ["polygonlization::remove_duplicates"],
      technique="Verus contracts on remove_duplicates, point and get_exponent (extracted mechanically on every run), over real-number values: the tolerance's binary exponent, the snapping, the sorted order, and an invariant of the merging loop; a theorem turns the contract into the property, vx_client runs the second pass; bounded replay suite for failing inputs",
      level_note="Proved for all point lists (the empty one included) and all tolerances from 2^-1021 up. Trusted: Verus/Z3; coordinates are finite, division and multiplication by a power of two are exact (barring overflow and underflow), round goes to the nearest integer, the exponent field of to_bits is the binary logarithm; sort_unstable_by sorts; map, flatten and collect are rewritten to loops (listed in the evidence).",
      theorems=["theorem_cleaned: pairwise different results, each stands for an input point, moved by at most half the tolerance, equal points together, distant points apart", "vx_client: a second pass merges nothing", "remove_duplicates, point, get_exponent"]),
    P("P17", "Polyhedral meshing returns a closed surface around the union of the input solids",
      "For input triangles that form closed shells with outward orientation, the returned polygon mesh is closed, meaning that every directed edge is matched by as many opposite ones. Its faces enclose exactly the volume of the union of the solids bounded by the shells.",
      I, "all sets of closed, consistently oriented shells in any relative position: disjoint, nested, overlapping, touching and coplanar",
      "tests run one or two models; coplanar, touching and partly overlapping faces combine without bound",
      ["src/polygonlization/mod.rs", "src/polygonlization/conforming_mesh.rs", "src/polygonlization/bsp_complex.rs"],
      [("constraint insertion, cell splitting, inside/outside labelling by graph cut, face merging", "src/polygonlization/conforming_mesh.rs, bsp_complex.rs")],
      [("BSP cells, faces, edges, implicit vertices", "convex decomposition", "BSPComplex")], ["polygonlization::make_mesh_for_triangles, make_polyhedral_mesh"]),
    P("P18", "Tetrahedron handle operations follow their geometric algebra",
      "Each of the twelve directed-edge handles of a tetrahedron names an origin, destination, apex and opposite vertex in even permutation, and next, previous and symmetric-edge moves map them as defined on every handle. Bonding two faces and then crossing the face from either side reaches the same edge in reverse with the same apex, and turning around an edge keeps its origin and destination and leads to the neighbouring tetrahedron.",
      I, "all twelve handles of a tetrahedron and all pairs of faces and rotations by which two tetrahedra can be glued",
      "the tables have hundreds of entries, of which any fixed triangulation uses some",
      ["src/triangle/tetrahedron.rs"],
      [("pivot, move, bond and crossing tables", "src/triangle/tetrahedron.rs: constants and TriFace/TetMesh methods")],
      [("ver", "handle 0..11 of a tetrahedron", "TriFace")], ["TriFace::*_self, TetMesh::{org,dest,apex,oppo,fsym,fsym_self,fnext_self}"],
      technique="contracts on the real functions (AST on every run, table builders included), executed for every handle, every pair of handles and opaque tetrahedra and vertices: the domain of handles is finite and enumerated completely, everything else is symbolic; bounded replay suite for failing inputs",
      level_note="Proved for all handles and all meshes. Trusted: the symbolic evaluator; indices within the mesh.",
      theorems=["org, dest, apex, oppo", "enext, eprev, esym, enext_esym, eprev_esym in both forms", "bond establishes fsym, fsym_self and fnext_self in both directions and all rotations and changes no other record", "initial_delaunay builds a closed complex", "VPIVOT"]),
]
