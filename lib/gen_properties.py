#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
M='src/fem_domain/domain/mesh.rs'; MD='src/fem_domain/domain/mesh/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

prop("P01","Child parametric ranges tile the parent and compose along ancestry",
 "Whenever a cell is refined, the parametric ranges reported for its children are the exact halves (isotropic: quadrants) of the parent's range, they cover it without gap or overlap, and each child's place corresponds to its index (0 = west/south ... 3 = north-east). The range of a cell relative to any of its ancestors, and its absolute range, is the composition of the individual splits on the path between them, so relative ranges of two stages compose to the absolute one. Asking for a range relative to a cell that is not an ancestor is rejected.",
 ["inputs","histories"],"every refinement type, every child index, every parent range, every chain of nested refinements and every ancestor on it",
 "The unit test walks two fixed location stacks of length four; it never goes through a real mesh, a relative range, or both axes of mixed refinement chains.",
 [MD+"h_refinement.rs",MD+"elem.rs"],
 [("child location of a refinement index",MD+"h_refinement.rs HRef::loc"),("halving of a range",MD+"h_refinement.rs HRefLoc::sub_range/sub_u_range/sub_v_range"),("fold over the ancestor stack",MD+"elem.rs Elem::parametric_range / relative_parametric_range"),("ancestor stack construction",MD+"elem.rs ElemUninit::new")],
 [("ancestor stack","(ancestor id, location) from base cell to parent",MD+"elem.rs Elem::ancestors")],
 ["Elem::parametric_range","Elem::relative_parametric_range","Elem::loc_stack"])

prop("P02","Mesh topology stays consistent after any refinement history",
 "After any sequence of accepted refinements, every cell, edge and node carries its own index as id; every cell's four edges join exactly the four corner nodes they should in its local order (bottom, top, left, right; nodes SW, SE, NW, NE), corners of children are the parent's corners, edge midpoints and centre, and child edges split their parent at its midpoint node. Parent and child references are mutually inverse, no two nodes share a location, no two edges join the same two nodes, every cell is registered with each of its edges and nodes on the correct side, and edges and nodes created on the domain boundary (and only those) are marked boundary. Children inherit material, and expansion orders of the parent, and their refinement depth grows by one exactly in the refined directions.",
 ["histories","inputs"],"every mesh, and every finite sequence of accepted h- and p-refinement calls on it",
 "The existing tests refine a few fixed meshes with fixed sequences and mostly check that nothing panics plus corner ordering; shared edges refined from both sides in different orders and depths are a combinatorial space of histories.",
 [M,MD+"elem.rs",MD+"edge.rs",MD+"node.rs",MD+"h_refinement.rs","src/fem_domain/domain.rs"],
 [("per-type refinement wiring tables",M+" execute_t_refinement / execute_u_refinement / execute_v_refinement"),("shared edge reuse",M+" h_refine_edge_if_needed"),("new internal edges",M+" new_edge_between_nodes"),("registration with edges and nodes",M+" upgrade_uninit_elems, Edge::connect_elem, Node::connect_elem"),("edge split",MD+"edge.rs Edge::h_refine"),("id allocation","src/fem_domain/domain.rs IdTracker, HRef::indices_and_ids")],
 [("edge attachment lists","per side, ordered map refinement rank -> cell",MD+"edge.rs Edge::elems"),("node attachment lists","per corner, ordered map rank -> cell",MD+"node.rs Node::elems")],
 ["Mesh.elems/edges/nodes public fields","Elem/Edge/Node::to_json"])

prop("P03","h-refinement batches are all-or-nothing and refine exactly what was asked",
 "A batch of h-refinement requests either returns an error and leaves the mesh exactly as it was, or it refines exactly the named cells, each with the requested type (for an extended request also the designated child in the other direction), appending the new cells in order and changing no other cell. An unknown cell id, an already refined or too small cell, an extension index other than 0/1, a split below the minimum edge length, or (for id lists) a repeated id is reported as an error, and a batch containing none of these is accepted. The whole-mesh and filter forms act on precisely the refineable cells (selected by the filter), and abort before changing anything when that batch would be rejected.",
 ["histories","inputs","fault_sequences"],"every mesh state and every batch, valid or with one or several invalid requests at any position",
 "The tests check single failures with should_panic on fresh one-cell meshes and never look at the state after a rejected batch, at mixed batches, or at limits of edge length in anisotropic chains.",
 [M,MD+"h_refinement.rs",MD+"edge.rs"],
 [("validation before execution",M+" execute_h_refinements, elem_is_h_refineable, h_refine_elems"),("minimum edge length",MD+"edge.rs Edge::h_refine, MIN_EDGE_LENGTH"),("second stage of extended refinements",M+" execute_h_refinements (refinement_extensions)"),("whole mesh / filter forms",M+" global_h_refinement, h_refine_with_filter")],
 None,["Result of the call","Mesh.elems/edges/nodes before and after"])

prop("P04","Requests for the same cell in one h-refinement batch combine predictably",
 "When one batch names a cell several times, the result is a single refinement of that cell: if any request is isotropic, or requests in both directions occur, or two different extensions of the same direction occur, the cell is refined isotropically; otherwise it is refined in the common direction, with the extension if any of the requests asked for one. The outcome does not depend on the order of the requests.",
 ["inputs"],"every multiset and every order of refinement requests for one cell within a batch",
 "No test executes a batch with repeated ids that is accepted; the combination rule is a 7x7 table of which tests reach none.",
 [MD+"h_refinement.rs",M],
 [("combination rule",MD+"h_refinement.rs AddAssign for HRef"),("per-cell accumulation",M+" execute_h_refinements (refinements_map)")],
 None,["number, kind and order of the children created","HRef += HRef"])

prop("P05","Exact p-refinement and order setting are exact, bounded and atomic",
 "Applying explicit p-refinement requests changes the expansion orders of each named cell by exactly the sum of all deltas requested for it in the call and changes nothing else; if any resulting order would leave [1, 20], or a cell does not exist (or, for id lists, is repeated), the call returns an error and no cell changes. Setting orders explicitly gives exactly the requested orders, only within [1, 20], and rejects unknown or repeated cells without changing any. Expansion orders are therefore always within [1, 20], and no request, however large or however many are summed, makes the call abort.",
 ["inputs","histories"],"every current order in [1,20]^2, every sequence of signed 8-bit deltas (summed or single), every set of orders, every mix of valid and invalid ids",
 "Tests apply a handful of single deltas; sums of repeated requests, values at the ends of the 8-bit range and partially failing batches are not sampled.",
 [MD+"p_refinement.rs",M],
 [("delta representation and addition",MD+"p_refinement.rs PRefInt, AddAssign"),("applying a delta",MD+"p_refinement.rs PRefInt::refine, PolyOrders::refine/set"),("batch validation",M+" execute_p_refinements, p_refine_elems, set_expansion_orders, set_expansion_on_elems, set_global_expansion_orders, set_expansions_with_filter"),("validated order pair",MD+"p_refinement.rs Orders::new/try_new")],
 [("poly_orders","expansion orders of a cell",MD+"elem.rs Elem::poly_orders")],["Elem::poly_orders","Result of the call"])

prop("P06","Clamped p-refinement stays in the window and moves as far as allowed",
 "The p-refinement window reported for a cell is, per direction, exactly [1 - order, 20 - order], and is an error for an unknown cell. Whole-mesh and filtered p-refinement never fail: each selected cell's order moves by the requested delta clamped to that window, so it ends at min(20, max(1, order + delta)), and unselected cells keep theirs. The filter form that is handed the window passes the true window, applies the returned delta unclamped, and reports an error without any change when one is outside it.",
 ["inputs","histories"],"every order in [1,20]^2, every 8-bit delta pair, every filter",
 "Tests check two clampings and a few windows; the statement ranges over all order/delta combinations and arbitrary filters over refined meshes.",
 [MD+"p_refinement.rs",M],
 [("window",M+" elem_p_refinement_window"),("clamping",MD+"p_refinement.rs PRef::constrained_to, PRefInt::constrain/within"),("whole-mesh and filter forms",M+" global_p_refinement, p_refine_with_filter, p_refine_with_filter_bounded")],
 None,["Elem::poly_orders","Mesh::elem_p_refinement_window"])

prop("P07","Edge activation selects a conforming, complete set of edges",
 "After any refinement history an edge is active exactly when both of its sides carry cells and its two child edges are not themselves usable on both sides; its active pair names, on each side, the most refined cell attached along that edge. Every interior edge of the initial mesh is therefore exactly partitioned by active edges, boundary edges are never active, and asking an active edge for the partner of one of its pair returns the other one. Recomputing the activation changes nothing.",
 ["histories"],"every reachable mesh, every edge of it",
 "Activation depends on the order and depth of refinements on both sides of each edge; one fixed mesh without refinement is compared against expected neighbours in the tests.",
 [M,MD+"edge.rs",MD+"h_refinement.rs"],
 [("recursive activation",M+" set_edge_activation, rec_set_edge_activation_in_tree"),("finest attached cell",MD+"edge.rs last_entry, set_activation, connect_elem"),("ranking of attached cells",MD+"h_refinement.rs HLevels::edge_ranking")],
 [("active_elems","pair of cells matched across the edge",MD+"edge.rs Edge::active_elems")],["Edge::active_elem_pair","Edge::other_active_elem_id"])

prop("P08","Tree and geometry queries answer exactly, and reject unknown ids",
 "Descendant queries return every cell (edge) below the given one exactly once and nothing else; ancestor queries return the chain to the base cell nearest first; the starting item is included exactly when requested. Point queries return the coordinates of the item's own corner or end nodes in local order, and the largest expansion orders over the mesh are reported exactly. Every such query, and every lookup of a basis function by address, returns an error rather than aborting for an id or index that does not exist.",
 ["inputs","histories"],"every reachable mesh and every id, existing or not, including the first one past the end",
 "Doc examples query one or two ids on small meshes; no test probes out-of-range ids of each query or deep mixed trees.",
 [M,"src/fem_domain/domain.rs",MD+"elem.rs"],
 [("tree walks",M+" descendant_elems, ancestor_elems, descendant_edges and rec_*"),("point queries",M+" elem_points, elem_diag_points, edge_points"),("maximum orders",M+" max_expansion_orders"),("lookup by address","src/fem_domain/domain.rs get_basis_spec, local_basis_specs, descendant_basis_specs, ancestor_basis_specs")],
 None,["return values of the queries"])

prop("P09","Each basis function is in exactly one degree of freedom; addresses round-trip",
 "In any domain built from a mesh, degrees of freedom are numbered by their position, each refers to one interior or two edge-matched basis functions, looking up any of its addresses gives a basis function that names this degree of freedom and this address, and every stored basis function is referred to by exactly one degree of freedom. Each unrefined cell contributes exactly its interior functions (ni*(nj-1) along u and (ni-1)*nj along v), refined cells contribute none of theirs, and each active edge contributes min of the two cells' orders along the edge. Stored functions are distinct within a cell and lie within that cell's expansion orders.",
 ["histories","configurations"],"every reachable mesh with every assignment of expansion orders",
 "The tests build one domain and one doc example; counts and the two-way address relation are not checked for anisotropic orders, hanging edges or nested refinements.",
 ["src/fem_domain/domain.rs","src/fem_domain/domain/dof.rs","src/fem_domain/domain/dof/basis_spec.rs",MD+"p_refinement.rs"],
 [("enumeration and pairing","src/fem_domain/domain.rs from_mesh, gen_basis_specs, push_basis_spec"),("group of addresses","src/fem_domain/domain/dof.rs DoF::new/get_basis_specs"),("order permutations",MD+"p_refinement.rs PolyOrders::permutations")],
 [("dofs / basis_specs","degrees of freedom and per-cell basis functions","src/fem_domain/domain.rs Domain")],["Domain::dofs","Domain::basis_specs","Domain::get_basis_spec"])

prop("P10","Matched edge functions are tangentially continuous (H(curl) conformity)",
 "A basis function is attached to an edge exactly when its tangential component does not vanish there and to the interior otherwise (first or second order across the edge direction; u-directed functions on bottom and top edges, v-directed on left and right edges), at the edge the cell really has at that index. Two functions are merged into one degree of freedom exactly when they are attached to the same edge from opposite sides, point in the same direction and have the same order along it; their tangential traces then agree at every point of that edge, and every other function of the two cells has zero tangential trace there. Matching is symmetric, and functions attached to different places are never merged.",
 ["inputs","histories","configurations"],"all order pairs up to the maximum, both directions, all edges of every reachable mesh",
 "Only counts on unit examples are tested; no test evaluates a trace on the two sides of a shared edge.",
 ["src/fem_domain/domain/dof/basis_spec.rs","src/fem_domain/domain.rs","src/fem_domain/basis.rs","src/fem_domain/basis/hierarchical_basis_fns.rs"],
 [("classification","src/fem_domain/domain/dof/basis_spec.rs BasisSpec::new, BasisLoc"),("matching","src/fem_domain/domain/dof/basis_spec.rs matches_with_edge"),("shape functions","src/fem_domain/basis/hierarchical_basis_fns.rs HierPoly")],
 None,["BasisSpec::loc","BasisSpec::matches_with_edge","DoF::get_basis_specs"])

prop("P11","Sparse matrix accumulation is an exact symmetric entrywise sum",
 "Inserting a value at (row, column) adds it to the single entry shared by (row, column) and (column, row) and changes no other entry; a group insert equals the individual inserts in order. Absorbing another matrix adds it entry by entry and leaves the other one empty, combining several matrices gives their entrywise sum, and the reported number of entries counts both halves, diagonal once. Upper-triangle iteration yields each stored entry once, ordered, with row not above column, and indices outside the dimension or mismatched dimensions are refused without changing the matrix contents they were meant for.",
 ["inputs","histories"],"every sequence of inserts, group inserts and absorptions in every order of indices",
 "Unit tests insert a few fixed entries; accumulation over arbitrary histories with mirrored duplicates is not sampled.",
 ["src/fem_problem/linalg/sparse_matrix.rs","src/fem_problem/linalg.rs"],
 [("normalised key accumulation","src/fem_problem/linalg/sparse_matrix.rs insert, insert_group"),("absorption","src/fem_problem/linalg/sparse_matrix.rs consume_matrix, take_entries"),("parallel combination","src/fem_problem/linalg.rs par_extend")],
 [("entries","upper triangle keyed by (row, column)","src/fem_problem/linalg/sparse_matrix.rs SparseMatrix::entries")],["iter_upper_tri","num_entries"])

prop("P12","Dense, row-compressed and binary exports describe the same matrix",
 "Converting a sparse matrix to dense form gives at (r,c) and (c,r) the stored value and zero elsewhere. Converting to row-compressed form lists for every row its exact number of entries and, row by row with ascending columns, the column and value of every entry of both halves. The binary file contains, big-endian, the matrix tag 1211216, dimension twice, the number of entries, row counts, columns and 64-bit values, in that order and nothing else.",
 ["inputs"],"every matrix of any size and sparsity pattern, including empty rows and negative or extreme values",
 "One 3x3-style example is compared in tests; the statement is for all patterns.",
 ["src/fem_problem/linalg/sparse_matrix.rs","src/fem_problem/linalg.rs"],
 [("dense conversion","src/fem_problem/linalg/sparse_matrix.rs From<SparseMatrix> for DMatrix"),("row-compressed conversion","src/fem_problem/linalg/sparse_matrix.rs From<SparseMatrix> for AIJMatrixBinary"),("binary writer","src/fem_problem/linalg/sparse_matrix.rs print_to_petsc_binary_file")],
 None,["AIJMatrixBinary fields","bytes of the file","dense matrix entries"])

prop("P13","Gauss quadrature sums and rules integrate exactly what they should",
 "The two-dimensional rule returns the sum over all grid points of weight times weight times integrand; the inner variant omits exactly the first and last index in both directions; the edge variant sums along the designated edge (0 bottom, 1 top, 2 left, 3 right) over inner indices only. An n-point rule has ascending points inside (-1,1), symmetric about 0, with positive weights summing to 2, integrates polynomials up to degree 2n-1 exactly, and with endpoints is bracketed by -1 and 1. Scaling maps points affinely onto the target interval and reports half its length.",
 ["inputs"],"every integrand and weight vector, every rule size, every target interval",
 "Doc tests integrate one polynomial with one rule size.",
 ["src/fem_problem/integration/glq.rs"],
 [("weighted sums","src/fem_problem/integration/glq.rs real_gauss_quad, real_gauss_quad_inner, real_gauss_quad_edge"),("rule","src/fem_problem/integration/glq.rs gauss_quadrature_points"),("scaling","src/fem_problem/integration/glq.rs scale_gauss_quad_points")],
 None,["return values"])

prop("P14","Shape functions and their derivatives are the documented polynomials",
 "For every order and point the normal shape function is x^n and the tangential one is 1-x, 1+x, x^n-1 (even) or x^n-x (odd), and the reported first and second derivatives are the true derivatives, whether or not second derivatives were requested. Hence tangential functions of order two and above vanish at both ends, and the first two are a partition that vanishes at opposite ends. The vector basis functions, their derivatives and mixed derivatives combine these with the cell mapping as documented: u-directed uses normal in u and tangential in v, v-directed the reverse.",
 ["inputs"],"every order up to the maximum, every point of [-1,1], both construction modes",
 "Tests compare a few orders on one grid.",
 ["src/fem_domain/basis/hierarchical_basis_fns.rs","src/fem_domain/basis.rs"],
 [("recurrence for powers and derivatives","src/fem_domain/basis/hierarchical_basis_fns.rs HierPoly::new_with_d2/new_without_d2"),("vector functions","src/fem_domain/basis.rs f_u, f_v, f_u_d1, f_v_d1, f_u_d2, f_v_d2, f_u_dd, f_v_dd")],
 None,["norm/tang and derivatives","f_u/f_v family"])

prop("P15","Sampled fields equal the superposition of all basis functions on each leaf cell",
 "On every unrefined cell and every point of its uniform grid the computed field components equal the sum over the cell and all its ancestors of solution value times basis function at that physical point; a solution of the wrong length is rejected. Derived quantities apply the given expression pointwise and name errors are reported for unknown quantities. The exported file lists, for every unrefined cell, the grid points in physical space, quadrilateral cells joining four neighbouring grid points, and one value per point in the same order, for any pair of grid densities of at least two.",
 ["inputs","histories","configurations"],"every domain, every solution vector, every pair of densities, every pointwise expression",
 "One 8x8 export is produced by tests and its content is not examined; unequal densities are never used.",
 ["src/fem_domain/domain/fields.rs","src/fem_domain/basis.rs"],
 [("superposition loop","src/fem_domain/domain/fields.rs xy_fields"),("pointwise operations","src/fem_domain/domain/fields.rs map_to_quantity, expression_2arg"),("export","src/fem_domain/domain/fields.rs print_quantities_to_vkt, write_vtk_quantity, uniform_range")],
 None,["exported file","Result of the calls"])

prop("P16","Mesh files are loaded faithfully or rejected",
 "Loading a well-formed description of axis-aligned quadrilaterals yields one cell per element with the given corner nodes, materials and coordinates, one edge per distinct pair of adjacent corners connected to the one or two cells sharing it, edges with one cell and nodes with fewer than four cells marked boundary, default orders and no refinement. Descriptions with missing or non-numeric fields, wrong array lengths, out-of-range or repeated node ids, coincident nodes, or two cells claiming the same side of an edge are refused. An exported mesh re-read as data shows the same cells, nodes and edges.",
 ["inputs"],"every mesh description, valid or with any single defect",
 "A handful of fixed good and bad files are loaded by tests.",
 [M,MD+"edge.rs",MD+"node.rs",MD+"space.rs"],
 [("parsing and validation",M+" parse_element_information, parse_node_information, has_duplicates"),("edge construction",M+" from_file (edge_node_pairs, elem_edges)"),("export",M+" export_to_json")],
 None,["Mesh.elements/elems/nodes/edges after loading","panic / error on malformed input"])

prop("P17","Matrix assembly covers every interacting pair of basis functions exactly once",
 "The assembled system matrices are the sum, over all cells, of the contributions of every unordered pair of basis functions on that cell and of every pair of a function on that cell with a function on one of its descendants, each integrated over the region where both live; the result is symmetric and independent of thread scheduling up to rounding. Assembly fails with an error for a wrong continuity condition, an empty domain or too small a quadrature size. With exact quadrature the mass entries equal the physical inner product of the two superposed fields and the curl entries that of their curls.",
 ["configurations","histories","schedules"],"every domain with any refinement and orders, any quadrature size from the minimum on, any thread schedule",
 "One eigenvalue of one unrefined mesh is compared in tests.",
 ["src/fem_problem/galerkin.rs","src/fem_problem/integration/integrals.rs","src/fem_domain/basis.rs","src/fem_problem/linalg.rs"],
 [("assembly loops","src/fem_problem/galerkin.rs galerkin_sample_gep_hcurl"),("integrals","src/fem_problem/integration/integrals.rs CurlCurl, L2Inner"),("sampling over descendants","src/fem_domain/basis.rs defined_over, BasisFnSampler")],
 None,["GEP matrices","Result of the call"])

prop("P18","The dense eigen-solver returns a genuine eigenpair nearest the target",
 "When the dense solver succeeds, the returned value and vector satisfy the generalised eigen-equation up to rounding, the value is the eigenvalue closest to the target, and the vector has one entry per degree of freedom. A non positive-definite second matrix, a too large system or only zero eigenvalues are reported as errors.",
 ["inputs"],"every symmetric pair with positive definite second matrix up to the size limit, every target",
 "One eigenvalue of one problem is compared in tests.",
 ["src/fem_problem/linalg/nalgebra_solve.rs"],
 [("reduction to a standard problem","src/fem_problem/linalg/nalgebra_solve.rs nalgebra_solve_gep")],
 None,["EigenPair"])

prop("P19","The external solver bridge cleans up and maps every outcome",
 "Handing a problem to the external solver writes both matrices, runs the solver, and returns the eigenpair it wrote, or the documented error for each exit status, for a missing solver or for a failed launch; in every case no temporary file of this problem remains and no other file is touched.",
 ["fault_sequences","crash_points"],"every exit status, launch failure and solution file state",
 "The one test needs the real solver and fails without it.",
 ["src/fem_problem/linalg/slepc_solve.rs"],
 [("process protocol","src/fem_problem/linalg/slepc_solve.rs slepc_solve_gep, retrieve_solution, clean_directory")],
 None,["files in the working directory","Result of the call"])

prop("P20","Cell mappings and the small vector algebra are exact",
 "The mapping of a cell onto its parametric range has a diagonal Jacobian whose entries are half the physical width and height of that range, so the Jacobian of a refined cell is the parent's scaled by the split, and it is constant over the cell. Matrix inverse, determinant, transpose, products and vector operations satisfy their algebraic definitions, and points compare equal exactly when both coordinates agree after rounding to the documented resolution of 1e-12, with ordering consistent with the numeric order of coordinates and edge orientation decided by the larger extent.",
 ["inputs"],"every rectangular cell, every range, every matrix/vector, every pair of points",
 "Tests evaluate single matrices and a few points.",
 [MD+"element.rs",MD+"space.rs",MD+"elem.rs"],
 [("mapping",MD+"element.rs parametric_mapping, map_range"),("algebra",MD+"space.rs V2D, M2D"),("point comparison",MD+"space.rs FloatRep, Point")],
 None,["return values"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P),"properties")
