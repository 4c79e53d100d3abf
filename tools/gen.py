#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here). Run: python3 tools/gen.py"""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, level_note, technique, observe=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, note=level_note, technique=technique, observe=observe or [], na=na))
G = "generated-input search (choice-tape PBT with shrinking): "

prop("C01", "Serial global assembly is exactly the sum of scattered element contributions",
 "For every collection of elements, node numbering and solution dimension, the globally assembled sparse matrix, vector and scalar equal the dense sum of every element's contribution scattered to the rows and columns of its nodes. The sparsity pattern contains an entry for exactly those pairs of degrees of freedom that share an element, with sorted, duplicate-free column indices. Assembling into an existing matrix or vector adds to what is there, and the result never depends on what an assembler object was used for before; if an element reports an error, assembly reports that error; vectors of the wrong size and matrices that lack an entry that is needed are refused.",
 ["inputs", "histories"], "all element connectivities (mixed node counts, shared and unused nodes, no elements), solution dimensions and element values; all sequences of assemblies on one assembler",
 "The tests assemble a handful of fixed meshes once per assembler; the index arithmetic, the incremental pattern construction and the buffer reuse between elements of different sizes are quantified over all connectivities and histories.",
 ["src/assembly/global.rs", "src/assembly/local.rs", "src/assembly/buffers.rs", "fenris-sparse/src/sparse.rs"],
 [("pattern construction and serial assembly", "src/assembly/global.rs: CsrAssembler, VectorAssembler, assemble_scalar"), ("local-to-global scatter", "src/assembly/global.rs: add_local_to_global"), ("row-wise scatter", "src/assembly/global.rs: add_element_row_to_csr_row")],
 "Differential testing against a dense reference with integer-valued element data, so equality is exact. Generated cases only.", G + "dense reference model, exact comparison, assembler histories",
 ["CsrAssembler::assemble*", "VectorAssembler::assemble_vector*", "assemble_scalar"])

prop("C02", "Parallel assembly gives the serial result for every valid coloring and schedule",
 "For every element collection, every partition of the elements into colors without shared nodes and any number of worker threads, parallel assembly of matrix, sparsity pattern, vector and scalar yields the same result as serial assembly. Every element contributes exactly once, no matter how work is distributed. If an element reports an error, parallel assembly reports an error instead of a result; vectors of the wrong size and matrices that lack an entry that is needed are refused.",
 ["inputs", "schedules"], "all connectivities and colorings (greedy, one-element-per-color, random valid), thread pool sizes 1..8, repeated runs",
 "Tests compare parallel and serial on a few structured meshes with one coloring and the default pool; correctness depends on disjointness of all concurrently written rows for all inputs and interleavings.",
 ["src/assembly/global.rs", "fenris-paradis/src/lib.rs", "fenris-paradis/src/adapter.rs", "fenris-sparse/src/sparse.rs"],
 [("colored parallel matrix assembly", "src/assembly/global.rs: CsrParAssembler"), ("colored parallel vector assembly", "src/assembly/global.rs: VectorParAssembler"), ("parallel scalar reduction", "src/assembly/global.rs: par_assemble_scalar")],
 "Exact comparison using integer-valued data; schedules are sampled by pool size, work splitting and repetition, not enumerated.", G + "differential serial/parallel, exact integers, sampled schedules and pool sizes",
 ["CsrParAssembler::assemble*", "VectorParAssembler::assemble_vector", "par_assemble_scalar"])

prop("C03", "Colorings are valid; disjoint parallel access visits every item exactly once",
 "Coloring any collection of node lists yields a partition in which every list occurs in exactly one color, unchanged, and no two lists of one color share a node. A collection of index lists is accepted as disjoint if and only if no index occurs in two different lists (repetition within one list is allowed). Parallel iteration over disjoint subsets, blocks or sparse matrix rows gives access to exactly the stated items of the storage, each exactly once and in the stated order, for every way the parallel iterator is split, combined or truncated.",
 ["inputs", "schedules"], "all index collections (including empty ones, empty members, repeated and large indices); all split points and rayon adaptors",
 "Unit tests use small fixed subsets and do not drive the iterator through splits at every position; memory safety of the unchecked access depends on all of them.",
 ["fenris-paradis/src/lib.rs", "fenris-paradis/src/coloring.rs", "fenris-paradis/src/adapter.rs", "fenris-paradis/src/slice.rs", "fenris-sparse/src/sparse.rs", "src/assembly/global.rs"],
 [("disjointness check", "fenris-paradis/src/lib.rs: DisjointSubsets::try_from_disjoint_subsets"), ("greedy coloring", "fenris-paradis/src/coloring.rs: sequential_greedy_coloring"), ("indexed parallel iterator over subsets", "fenris-paradis/src/lib.rs: subsets_par_iter"), ("sparse rows as parallel access", "fenris-sparse/src/sparse.rs")],
 "Validity predicates over outputs and access logs against a sequential model.", G + "validity predicate on colorings, set model for acceptance, sequential model for parallel access",
 ["color_nodes", "sequential_greedy_coloring", "DisjointSubsets::*", "BlockAdapter", "ParallelIndexedAccess"])

prop("C04", "Element assembler adaptors preserve element contributions",
 "Combining several element assemblers into one aggregate behaves exactly like the concatenation of their elements, including when some of them have no elements. Renumbering nodes through a mapping changes only the node indices of each element, and transforming element matrices, vectors or scalars applies the transformation to each contribution exactly once. Global results of any such composition equal the results assembled from the individual parts.",
 ["inputs", "configurations"], "all lists of element assemblers (including empty ones), node maps and nestings of the adaptors",
 "Tests aggregate two fixed non-empty assemblers; the index arithmetic is quantified over any list of element counts.",
 ["src/assembly/local.rs", "src/assembly/global.rs"],
 [("aggregation", "src/assembly/local.rs: AggregateElementAssembler"), ("mapping and transformation adaptors", "src/assembly/local.rs: map_element_nodes, transform_element_*")],
 "Exact comparison with a flat list of elements.", G + "reference model (flat element list), exact comparison",
 ["AggregateElementAssembler", "map_element_nodes", "transform_element_matrix/vector/scalar"])

prop("C05", "The ragged array container behaves as a list of lists over every history",
 "After every sequence of appending whole arrays, appending element by element, mutating through views, clearing, cloning, converting and serializing, the container holds exactly the arrays a plain list of lists would hold. Lookups return the right array or nothing when out of range, and iteration, counts, equality and first/last access agree with that list.",
 ["histories"], "all operation histories",
 "The unit test pushes one fixed sequence; offset bookkeeping has to hold after any history, including empty arrays and abandoned appenders.",
 ["fenris-nested-vec/src/lib.rs"],
 [("offset bookkeeping", "fenris-nested-vec/src/lib.rs: push, begin_array, clear, get")],
 "Model-based histories with comparison after every operation.", G + "stateful model-based histories against Vec<Vec>",
 ["NestedVec public API"])

prop("C06", "Conjugate gradient delivers what it reports",
 "For every symmetric positive definite system, right-hand side, initial guess and symmetric positive definite preconditioner, the solver either reports success with an iterate whose true relative residual meets the requested tolerance, or reports failure together with the reason. The iteration limit is respected exactly, an exact initial guess or zero right-hand side needs no iterations, and reusing a workspace or stopping criterion from earlier solves never changes the outcome; a guess of another size than the right-hand side is refused.",
 ["inputs", "histories"], "all SPD systems of moderate conditioning, guesses, tolerances, limits, preconditioners, workspace histories; indefinite operators must be reported",
 "Tests solve a few fixed systems; the residual recurrence, breakdown checks and workspace reuse are quantified over all systems and histories.",
 ["fenris-sparse/src/cg.rs"],
 [("CG loop and termination", "fenris-sparse/src/cg.rs: ConjugateGradient::solve_with_guess"), ("stopping criterion", "fenris-sparse/src/cg.rs: RelativeResidualCriterion")],
 "Residuals are recomputed by the harness; the tolerance allows for rounding in proportion to the condition number.", G + "recomputed residual, dense direct solve, metamorphic workspace reuse",
 ["ConjugateGradient::solve_with_guess"])

prop("C07", "Homogeneous Dirichlet conditions constrain exactly the chosen nodes",
 "Applying homogeneous Dirichlet conditions to a matrix replaces every row and column of the constrained degrees of freedom by a multiple of the identity with a single positive scale, and leaves every other entry unchanged; applied to a right-hand side it zeroes exactly the constrained entries. Consequently the constrained system of a positive definite matrix stays symmetric positive definite and its solution is zero at the constrained nodes and satisfies the original equations restricted to the others. Dense and sparse variants agree up to the choice of scale, and order or repetition of the listed nodes does not matter.",
 ["inputs"], "all square matrices with a structurally symmetric pattern that stores the diagonal entries of constrained nodes, node lists and solution dimensions",
 "Tests check one or two small matrices; column elimination relies on pattern lookups that must work for every sparse pattern.",
 ["src/assembly/global.rs"],
 [("sparse elimination", "src/assembly/global.rs: apply_homogeneous_dirichlet_bc_csr"), ("dense elimination", "src/assembly/global.rs: apply_homogeneous_dirichlet_bc_matrix"), ("right-hand side", "src/assembly/global.rs: apply_homogeneous_dirichlet_bc_rhs")],
 "Exact comparison with a dense model; the scale is only required to be one positive number.", G + "dense reference model, exact comparison",
 ["apply_homogeneous_dirichlet_bc_csr/matrix/rhs"])

prop("C08", "Element basis functions are the Lagrange basis of their polynomial space",
 "For every supported element type, each basis function is one at its own node and zero at the others, the basis sums to one everywhere, and it reproduces every polynomial of the element's order (complete on simplices, tensor-product or serendipity on quadrilaterals and hexahedra). The reported basis gradients are the exact derivatives of the basis functions at every reference point. This does not depend on the vertices of the physical element.",
 ["inputs"], "all 13 element types, all reference points (inside and outside the element), all polynomials of the space, any element geometry",
 "Tests check a few points per element and partition of unity for some; exactness for all points and polynomials needs generated inputs.",
 ["src/element.rs", "src/element/triangle.rs", "src/element/quadrilateral.rs", "src/element/tetrahedron.rs", "src/element/hexahedron.rs", "src/element/segment.rs"],
 [("basis evaluation", "src/element/*.rs: evaluate_basis / populate_basis"), ("basis gradients", "src/element/*.rs: gradients / populate_basis_gradients")],
 "Floating-point tolerance relative to the polynomial's size.", G + "polynomial reproduction with exact derivatives",
 ["ReferenceFiniteElement::populate_basis(_gradients)", "FixedNodesReferenceFiniteElement"])

prop("C09", "Element geometry maps are consistent and invertible",
 "For every non-degenerate element, the reported Jacobian is the derivative of the map from reference to physical coordinates, the map sends the reference corners to the element's vertices and affine combinations of affine elements to the same combination of vertices. Inverting the map for a point inside returns reference coordinates that map back to that point, and projecting onto a lower-dimensional element returns a stationary point of the distance. Element bounding boxes contain every mapped point, and the diameter is the largest distance between vertices.",
 ["inputs"], "all element types with random non-degenerate (including nearly degenerate and rotated/scaled/translated) vertices, all reference points",
 "Tests fix one or two elements per type; the claims are over all shapes and points.",
 ["src/element.rs", "src/element/*.rs", "src/connectivity.rs", "src/mesh.rs"],
 [("reference map and Jacobian", "src/element/*.rs: map_reference_coords, reference_jacobian"), ("inverse map", "src/element.rs: map_physical_coordinates, project_physical_coordinates"), ("bounds", "src/element/*.rs: BoundsForElement")],
 "Tolerances relative to element size; elements whose Jacobian nearly vanishes are outside the inversion claim.", G + "independent reference map, finite differences of polynomials of known degree, round trips",
 ["FiniteElement::*", "map_physical_coordinates", "project_physical_coordinates", "BoundsForElement"])

prop("C10", "Closest-point and point-location queries agree with exhaustive search",
 "For every point and non-degenerate linear triangle (planar or in space) or tetrahedron, the closest-point query returns reference coordinates inside the reference element whose image is at minimal distance from the point, and it reports the point as inside exactly when it is. For every mesh of such elements, spatially indexed lookup returns an element and coordinates whose distance to the query point is the minimum over all elements of the mesh.",
 ["inputs"], "all elements of these types and meshes of them, all query points (inside, on faces, edges and vertices, outside near and far)",
 "The indexed lookup is exercised by one small test; pruning by bounding boxes must be right for every mesh layout and point.",
 ["src/element.rs", "src/element/triangle.rs", "src/element/tetrahedron.rs", "src/space/spatially_indexed.rs"],
 [("closest point in element", "src/element/*.rs: ClosestPointInElement"), ("R-tree candidates and pruning", "src/space/spatially_indexed.rs: find_closest_element_and_reference_coords")],
 "Brute force over elements with an independent closest-point algorithm; tolerance relative to the scene size.", G + "independent brute-force oracle",
 ["ClosestPointInElement::closest_point", "SpatiallyIndexed::find_closest_element_and_reference_coords"])

prop("C11", "Interpolation reproduces the finite element function, directly or precomputed",
 "At every point of the domain, interpolated values and gradients equal those of the finite element function given by the weights; in particular functions in the finite element space are reproduced exactly, as are their gradients, for scalar and vector quantities. Precomputed interpolators (serial or parallel construction, values, gradients or both) return the same numbers as on-demand interpolation for every set of points and every weight vector, including no points and spaces without elements. Results for one point never depend on the other points of a batch.",
 ["inputs"], "all meshes with spatial index, weight vectors, solution dimensions, batches of points",
 "Existing tests interpolate a few fixed functions on one mesh, and compare against recorded values.",
 ["src/space/interpolate.rs", "src/space/fixed_interpolator.rs", "src/space/spatially_indexed.rs", "src/space/space_impl.rs"],
 [("on-demand interpolation", "src/space/interpolate.rs: InterpolateInSpace, InterpolateGradientInSpace"), ("precomputed interpolation", "src/space/fixed_interpolator.rs: FixedInterpolator")],
 "Oracle: analytic polynomial and an independent element search; points on element borders only compare values (gradients are multi-valued there).", G + "analytic polynomial oracle and differential on-demand/precomputed",
 ["InterpolateInSpace", "InterpolateGradientInSpace", "FixedInterpolator"])

prop("C12", "Elliptic element vectors and matrices are derivatives of the discrete energy",
 "For every element, state, quadrature and operator, the assembled element vector is the derivative of the assembled element energy with respect to the nodal values and the element matrix is the derivative of the element vector; each equals the quadrature sum written out directly with physical gradients. Symmetric operators give exactly symmetric matrices. Constant states (and rigid translations) contribute no energy and no force, and results do not depend on elements assembled earlier, on the order of the calls or on how quadrature data is tabulated, and arrays that do not fit together are refused.",
 ["inputs", "histories"], "all element types of matching dimension, non-degenerate geometry, states, operators (diffusion, linear and nonlinear elasticity, non-symmetric ones), per-element and per-point parameters",
 "Tests check a few polynomial examples per element; consistency is quantified over all states, geometries and operators.",
 ["src/assembly/local/elliptic.rs", "src/assembly/local/quadrature_table.rs", "src/assembly/operators.rs", "src/assembly/operators/laplace.rs"],
 [("element kernels", "src/assembly/local/elliptic.rs: assemble_element_elliptic_matrix/vector, compute_element_elliptic_energy"), ("operator batching", "src/assembly/operators.rs: accumulate_contractions_into")],
 "Independent naive quadrature implementation plus complex-free central differences, tolerances relative to magnitude.", G + "naive reference implementation, derivative consistency, metamorphic relations",
 ["ElementEllipticAssembler", "assemble_element_elliptic_*"])

prop("C13", "Mass and source assembly equal their defining integrals",
 "For every element and quadrature with per-point densities, the element mass matrix is the block matrix of density-weighted integrals of products of basis functions, identical for every solution component and exactly symmetric; with an exact quadrature it integrates products of polynomials in the element's space exactly. The element source vector is the integral of the source (at the physical point, with that point's parameters) times each basis function. Total mass and total force equal the integral of density and source over the mesh, and arrays that do not fit together are refused.",
 ["inputs"], "all element types, geometries, solution dimensions, densities, source functions, meshes",
 "Tests compare with precomputed matrices for a few elements with constant density.",
 ["src/assembly/local/mass.rs", "src/assembly/local/source.rs", "fenris-solid/src/gravity_source.rs"],
 [("mass kernel", "src/assembly/local/mass.rs"), ("source kernel", "src/assembly/local/source.rs"), ("gravity", "fenris-solid/src/gravity_source.rs")],
 "Independent naive quadrature implementation; relative tolerance.", G + "naive reference implementation and exact polynomial integrals",
 ["ElementMassAssembler", "ElementSourceAssembler", "assemble_element_mass_matrix", "assemble_element_source_vector", "GravitySource"])

prop("C14", "Quadrature tables deliver each element its own rule and data",
 "For every table (uniform, general, or compact with shared rules), each element is given exactly the points, weights and data that were supplied for it, regardless of the order of queries. Replacing a table by an equivalent one of another kind leaves all assembled and integrated quantities unchanged. Inconsistent input (lengths that do not match) is rejected when the table is built, and so are arrays into which an element's rule does not fit.",
 ["inputs"], "all tables, element-to-rule maps, data types",
 "Tests build one or two tables; offsets and rule indirection are quantified over all layouts.",
 ["src/assembly/local/quadrature_table.rs"],
 [("tables", "src/assembly/local/quadrature_table.rs: UniformQuadratureTable, GeneralQuadratureTable, CompactQuadratureTable")],
 "Exact comparison with a list-of-lists model.", G + "reference model, exact comparison, metamorphic table replacement",
 ["QuadratureTable::*"])

prop("C15", "Quadrature rules integrate every polynomial up to their strength exactly",
 "Every rule handed out for a segment, triangle, quadrilateral, tetrahedron, hexahedron, prism or pyramid integrates every polynomial up to the promised degree over the reference domain exactly (up to rounding), has positive weights that sum to the measure of the domain, and has its points inside the domain. A request is answered with an error exactly when no sufficiently strong rule exists, and asking for more strength never yields a rule with fewer points. Subdividing a rule preserves its exactness and the measure.",
 ["inputs"], "all rule families, all sizes/strengths offered, all polynomials up to the strength (random coefficients and centre), all subdivision counts",
 "Tests check monomials at low tolerance up to selected sizes; large Gauss rules and random polynomials, containment, weights and subdivision counts are not covered.",
 ["fenris-quadrature/src/*.rs", "fenris-quadrature/build.rs", "src/quadrature.rs", "src/quadrature/*.rs", "polyquad-parse/src/lib.rs"],
 [("rule selection", "fenris-quadrature/src/polyquad.rs"), ("Gauss and Gauss-Lobatto rules", "fenris-quadrature/src/univariate.rs"), ("tensor rules", "fenris-quadrature/src/tensor.rs"), ("subdivision", "src/quadrature/subdivide.rs")],
 "Closed-form integrals of monomials; tolerance from the size of the polynomial.", G + "closed-form integrals of random polynomials",
 ["fenris_quadrature::*", "fenris::quadrature::*"])

prop("C16", "Canonical quadratures are exact for mass and stiffness on affine elements",
 "For every affinely mapped element of every supported type, the canonical mass quadrature integrates all products of two basis functions, and the canonical stiffness quadrature all products of two basis gradients, exactly. The canonical choice for a mesh is the canonical choice for its elements, so that assembled mass and stiffness matrices are unchanged when a stronger rule is used instead.",
 ["inputs"], "all element types with canonical rules, all affine geometries, all pairs of functions in the space",
 "Tests compare a single reference element per type.",
 ["src/quadrature/canonical.rs"],
 [("canonical rules", "src/quadrature/canonical.rs: CanonicalMassQuadrature, CanonicalStiffnessQuadrature")],
 "Compared with a much stronger independent rule; relative tolerance.", G + "differential against stronger rules",
 ["CanonicalMassQuadrature", "CanonicalStiffnessQuadrature"])

prop("C17", "Integration over elements and meshes, and error estimates, equal exact integrals",
 "Integrating a function of position, solution value and gradient over an element or mesh yields the exact integral whenever the integrand is a polynomial within the strength of the rule; it is additive over elements, linear, and scales correctly under translation, rotation and scaling of the mesh, for volume and for lower-dimensional elements. The estimated L2 and H1 errors of a finite element function against a reference function equal the exact norms of the difference, vanish when the reference is the function itself, and the per-element values add up to the squared global one.",
 ["inputs"], "all meshes of supported element types, weights, polynomial integrands and references",
 "Convergence tests look at a few manufactured solutions with loose rates.",
 ["src/integrate.rs", "src/error.rs"],
 [("element integrals", "src/integrate.rs"), ("error estimators", "src/error.rs")],
 "Closed-form or independently quadratured integrals; relative tolerance.", G + "closed-form integrals and metamorphic relations",
 ["integrate_over_element", "integrate_over_volume_element", "ElementIntegralAssemblerBuilder", "estimate_*"])

prop("C18", "Mesh topology queries match a set-based definition",
 "For every mesh, the reported boundary faces are exactly the faces that belong to a single cell, with that cell and its local face number, and boundary vertices and cells are exactly those touching such a face. The extracted surface consists of exactly the boundary faces with consistent orientation and the same geometry. Restricting a mesh to a set of cells keeps exactly those cells in order with the same geometry and drops exactly the unused vertices.",
 ["inputs"], "all conforming meshes of each cell type that exposes faces, including disconnected and non-manifold subsets of cells, any vertex numbering",
 "Tests use a few tiny meshes; face matching and renumbering are quantified over all connectivities.",
 ["src/mesh.rs", "src/connectivity.rs"],
 [("boundary detection", "src/mesh.rs: find_boundary_faces/cells/vertices"), ("surface extraction", "src/mesh.rs: extract_surface_mesh"), ("sub-meshes", "src/mesh.rs: keep_cells")],
 "Exact comparison with a set-based model.", G + "set-based reference model, exact comparison",
 ["Mesh::find_boundary_*", "Mesh::extract_surface_mesh", "Mesh::keep_cells"])

prop("C19", "Mesh conversion and refinement preserve the geometry and conformity",
 "Raising the order of a mesh keeps its vertices and cells, adds exactly one node per shared edge, face or cell interior, each placed at the position its reference node maps to, and yields a conforming mesh. Converting hexahedra with planar faces to tetrahedra, simple (also concave) quadrilaterals to triangles and refining uniformly keep the covered region: total measure is unchanged, every new cell lies in its parent with the parent's orientation, and shared faces stay shared. Repeated refinement equals refining step by step.",
 ["inputs"], "all conforming meshes of each source type with arbitrary (valid) geometry and vertex numbering",
 "Tests check unit-box meshes or single elements; sharing of edge and face nodes must work for every numbering and orientation of neighbours.",
 ["src/mesh_convert.rs", "src/mesh/refinement.rs", "src/mesh.rs"],
 [("order elevation and splitting", "src/mesh_convert.rs"), ("refinement", "src/mesh/refinement.rs"), ("triangulation", "src/mesh.rs: split_into_triangles")],
 "Checks of counts, positions, sharing and measure computed by the harness.", G + "validity predicates (counts by set model, node positions, measure, conformity)",
 ["From conversions between meshes", "refine_uniformly*", "split_into_triangles"])

prop("C20", "Procedurally generated meshes are valid tilings of the requested region",
 "Every generated rectangular quadrilateral, triangle, hexahedral and tetrahedral mesh covers exactly the requested box with the requested number of positively oriented, non-overlapping, conforming cells, for every number of units and cells per unit, including zero. Voxelizing a box covers it with square cells no larger than requested; voxelizing or approximating a signed distance function keeps exactly the cells with a corner in the shape and moves exactly the vertices outside of it along the gradient onto the surface. The sphere mesh is the cube around the sphere cut off at the tangent planes in the swept directions.",
 ["inputs", "configurations"], "all unit lengths, unit counts, cell counts, positions and signed distance functions",
 "Tests cover a few sizes via snapshots; tilings must be right for all parameter combinations.",
 ["src/mesh/procedural.rs"],
 [("rectangular meshes", "src/mesh/procedural.rs: create_rectangular_uniform_*"), ("voxelization", "src/mesh/procedural.rs: voxelize_*, approximate_*"), ("sphere", "src/mesh/procedural.rs: create_simple_stupid_sphere")],
 "Measure, orientation, vertex and conformity checks by the harness.", G + "validity predicates over generated parameters",
 ["create_*", "voxelize_*", "approximate_*"])

prop("C21", "Permutations and mesh reordering relabel without changing the mesh",
 "A sequence of indices is accepted as a permutation exactly if it contains each of 0..n-1 once; inverse, reversal and application to data satisfy the laws of permutations. Cuthill-McKee orderings of any graph are permutations of its vertices in breadth-first order from a starting vertex, component by component and neighbours by increasing degree, and the reversed variant is the exact reverse. Reordering a mesh numbers its vertices by such a reversed ordering and sorts cells by their lowest new vertex; it yields the same cells with the same geometry, permuted consistently in vertices, cells and associated data.",
 ["inputs"], "all index sequences, symmetric graphs (disconnected, isolated vertices, empty), meshes",
 "The unit tests use one small matrix; ordering and relabelling are quantified over all graphs.",
 ["src/mesh/reorder.rs"],
 [("permutation type", "src/mesh/reorder.rs: Permutation"), ("RCM", "src/mesh/reorder.rs: cuthill_mckee, reverse_cuthill_mckee"), ("mesh reordering", "src/mesh/reorder.rs: reorder_mesh_par")],
 "Algebraic laws and validity predicates; the start vertex is left to the implementation.", G + "algebraic laws, validity predicate, multiset comparison of geometry",
 ["Permutation::*", "cuthill_mckee", "reverse_cuthill_mckee", "reorder_mesh_par"])

prop("C22", "Axis-aligned bounding box operations match their set definition",
 "The box of a set of points, a geometric primitive, the cells of a mesh or several boxes is the smallest that contains them; extents, centre, corners, scaling and growing follow from its minimum and maximum. Containment and intersection tests agree with the set definition, with touching boxes intersecting. Closest and furthest points and the minimal and maximal distances to a point equal the extrema over all points of the box.",
 ["inputs"], "all boxes (including degenerate ones) and points in 1 to 3 dimensions",
 "Property tests exist for a few of the operations on random boxes, rarely degenerate or touching ones.",
 ["fenris-geometry/src/lib.rs", "src/mesh.rs"],
 [("bounding boxes", "fenris-geometry/src/lib.rs: AxisAlignedBoundingBox"), ("bounded geometries", "impls of BoundedGeometry")],
 "Grid-valued coordinates make containment and intersection exact.", G + "coordinate-wise reference model",
 ["AxisAlignedBoundingBox::*"])

prop("C23", "Planar clipping and segment queries compute the exact intersection",
 "Clipping a convex polygon by a half-plane or another convex polygon yields a convex polygon that contains a point exactly when both operands do, and whose area is the exact area of the intersection. Clipping a line segment by a half-plane, convex polygon or disk, and intersecting two segments that are not collinear, returns exactly the part (or the point) common to both, or nothing when they do not meet. Closest points on segments and lines are at minimal distance.",
 ["inputs"], "all convex polygons, half-planes, segments, disks and points, including touching, nested, disjoint, parallel and collinear configurations",
 "Tests cover a few fixed configurations; case distinctions for degenerate positions are quantified over all of them.",
 ["fenris-geometry/src/polygon.rs", "fenris-geometry/src/primitives/*.rs", "fenris-geometry/src/lib.rs"],
 [("polygon clipping", "fenris-geometry/src/primitives: ConvexPolygon::intersect_halfplane/intersect_polygon"), ("segment clipping", "fenris-geometry/src/primitives: LineSegment2d::intersect_*")],
 "Membership of sample points with a margin and area by an independent clipping routine.", G + "independent clipping oracle and membership sampling",
 ["ConvexPolygon", "LineSegment", "HalfPlane"])

prop("C24", "Convex solids and faces: distance, containment and volume are consistent",
 "For every positively oriented tetrahedron and convex hexahedron with planar faces, the computed volume equals the exact volume, containment agrees with the set definition, and the signed distance is minus the distance to the surface inside and the distance to the solid outside. For every planar convex face in space the normal is a unit normal of the stated orientation, the area is exact, and the closest point of the face to a query point is at minimal distance.",
 ["inputs"], "all non-degenerate tetrahedra, parallelepiped-like hexahedra and triangle/quadrilateral faces, all query points",
 "Tests look at a few fixed solids; sign and feature selection are quantified over all query points.",
 ["fenris-geometry/src/polytope.rs", "fenris-geometry/src/primitives/*.rs"],
 [("polyhedra", "fenris-geometry/src/polytope.rs: ConvexPolyhedron, ConvexPolygon3d")],
 "Independent closest-point computation by enumeration of faces, edges and vertices.", G + "independent brute-force geometry oracle",
 ["ConvexPolyhedron::*", "ConvexPolygon3d::*"])

prop("C25", "Polyhedral mesh operations preserve the represented region",
 "Converting a mesh to a polyhedral mesh, removing duplicate faces, splitting edges, triangulating, concatenating, translating and restricting to cells keep the represented region: the volume of every cell is unchanged, and the boundary is exactly the faces used by at most one cell. Clipping by a half-space or convex solid yields the mesh of the intersection: volumes add up with those of the complementary clip, and all vertices lie in the clipping region.",
 ["inputs"], "all meshes of convex polyhedra obtained from tetrahedral and hexahedral meshes, all half-spaces and convex solids, sequences of these operations",
 "Tests clip a few boxes by a few planes.",
 ["fenris-geometry/src/polymesh.rs", "src/mesh_convert.rs"],
 [("polyhedral meshes", "fenris-geometry/src/polymesh.rs: PolyMesh")],
 "Volumes by the harness's own divergence-theorem sums.", G + "independent volume oracle, additivity and idempotence laws, operation histories",
 ["PolyMesh::*"])

prop("C26", "Polygon queries, signed distances and winding numbers match the shape",
 "For every simple polygon, area, orientation, closest edge, segment intersection and triangulation agree with the polygon as a point set, also when it is not convex. Signed distance functions of disks, boxes, triangles and unions have the right sign everywhere, the exact distance where promised, and gradients that point along increasing distance. The winding number of a closed, outward oriented triangle surface is one inside and zero outside, at any distance from the surface.",
 ["inputs"], "all simple polygons (convex and star-shaped), quadrilaterals, triangles, query points and segments",
 "Tests check a few convex examples; sign decisions are quantified over all positions.",
 ["fenris-geometry/src/polygon.rs", "fenris-geometry/src/sdf.rs", "fenris-geometry/src/primitives/*.rs", "fenris-geometry/src/predicates.rs", "fenris-geometry/src/util.rs"],
 [("polygons", "fenris-geometry/src/polygon.rs"), ("signed distance functions", "fenris-geometry/src/sdf.rs"), ("solid angle and winding numbers", "fenris-geometry/src/primitives: compute_winding_number_for_triangles_3d")],
 "Independent geometry oracles; points too close to a decision boundary are excluded by construction.", G + "independent geometry oracles",
 ["Polygon2d", "SimplePolygon", "Quad2d", "SDFs", "Triangle"])

prop("C27", "Newton's method and finite differences deliver what they report",
 "Newton's method reports success only if the residual norm at the returned point is within the tolerance, never takes more than the allowed number of iterations, takes exactly full steps without line search and reports errors of the linear solver or line search; linear problems are solved in one step. Every step accepted by backtracking reduces the residual norm sufficiently. Finite difference gradients and Jacobians are exact for quadratic functions, second-order accurate otherwise, and leave the evaluation point unchanged.",
 ["inputs", "histories"], "all systems, starting points, tolerances and iteration limits; failing solvers injected",
 "Tests solve one fixed system; termination logic is quantified over all residual sequences.",
 ["fenris-optimize/src/newton.rs", "fenris-optimize/src/calculus.rs"],
 [("Newton loop", "fenris-optimize/src/newton.rs: newton_line_search"), ("line search", "fenris-optimize/src/newton.rs: BacktrackingLineSearch"), ("finite differences", "fenris-optimize/src/calculus.rs")],
 "Instrumented functions log every evaluation; the residual is recomputed.", G + "instrumented functions with recomputed residuals, reference iteration, fault injection",
 ["newton", "newton_line_search", "approximate_*"])

prop("C28", "Material laws: stress and stiffness derive from a frame-indifferent energy",
 "For every material, deformation and parameters, the stress is the derivative of the energy density and the stress contraction is the derivative of the stress, in every dimension offered; energy and stress vanish at the undeformed state. Finite-strain energies are unchanged by superposed rotations and by rotating the body (small-strain ones by rotating both), the Neo-Hookean energy is infinite for inverted states, and variants taking the displacement gradient or many vectors at once agree with the basic ones; the Neo-Hookean energy and log det F keep their accuracy for tiny displacements. Parameter conversions satisfy the defining relations of the elastic moduli.",
 ["inputs"], "all materials and dimensions, deformation gradients with positive determinant (tiny to large), parameters, vectors",
 "Property tests cover a single derivative check in fixed ranges; dimension one, tiny displacements and invariances are not covered.",
 ["fenris-solid/src/lib.rs", "fenris-solid/src/materials.rs", "fenris-solid/src/logdet.rs"],
 [("materials", "fenris-solid/src/materials.rs"), ("accurate log-determinant", "fenris-solid/src/logdet.rs"), ("operator wrapper", "fenris-solid/src/lib.rs: MaterialEllipticOperator")],
 "Independent formulas and derivative checks with relative tolerances.", G + "independent formulas, derivative consistency, invariance laws",
 ["HyperelasticMaterial::*", "MaterialEllipticOperator", "log_det_F"])

prop("C29", "Loading a Gmsh file yields exactly the mesh in the file, or an error",
 "For every well-formed MSH 4.1 file whose nodes are numbered 1 to n in file order, in text or binary form, loading returns the file's vertices in order and exactly the elements of the requested type, in file order and with the library's node ordering. Files without elements of the type, with unsupported numbering, missing or truncated content, or elements using nodes the file does not have give an error. No input whatsoever makes loading return a mesh that refers to vertices it does not have.",
 ["inputs"], "all element types supported, ascii and binary files, several entity blocks, extra blocks of other types; mutated and truncated bytes",
 "Tests load a few asset files.",
 ["src/io/msh.rs"],
 [("file conversion", "src/io/msh.rs: load_msh_from_bytes, mesh_from_msh")],
 "Round trip through the harness's own writer plus byte mutations; panics inside the third-party parser are counted, not reported.", G + "round trip through an independent writer, mutation fuzzing",
 ["load_msh_from_bytes", "load_msh_from_file"])

prop("C30", "Exported VTK data describes the mesh and attributes exactly",
 "For every mesh and set of attributes, the exported data set contains the vertices (padded to three coordinates) in order, every cell with a cell type fitting its element and the nodes of that type in VTK's order (for 27-node hexahedra and 20-node tetrahedra possibly a type of lower order), and each attribute with its name, component count and values unchanged. Written legacy and XML files read back to the same content (legacy: and title). Attributes of the wrong size, vectors of more than three components and node indices that VTK cannot hold are rejected.",
 ["inputs"], "all exportable mesh types, attribute sets and sizes",
 "Tests do not check the exporter's node orderings or attributes beyond an example.",
 ["src/io/vtk.rs"],
 [("data set builder", "src/io/vtk.rs: FiniteElementMeshDataSetBuilder"), ("node reordering", "src/io/vtk.rs: VtkCellConnectivity")],
 "Exact comparison with an independent statement of VTK's node order.", G + "independent VTK model and file round trip",
 ["FiniteElementMeshDataSetBuilder"])

prop("C31", "Quadrature file parser reads exactly the numbers in the text or fails",
 "For every text with one point and weight per line, as finite numbers separated by ASCII white space, parsing returns exactly those points and weights in order, ignoring blank lines and extra whitespace. A line with the wrong number of entries or anything that is not a number makes parsing fail. No input makes the parser panic.",
 ["inputs"], "all texts",
 "One fixed example is tested.",
 ["polyquad-parse/src/lib.rs"],
 [("parser", "polyquad-parse/src/lib.rs: parse2d, parse3d")],
 "Round trip and an independent line classifier.", G + "round trip, independent classifier over a grammar with mutations",
 ["parse2d", "parse3d"])

prop("C32", "Matrix utilities satisfy their defining identities",
 "For every square matrix, rotation_svd gives proper rotations U and V and singular values whose product is the matrix, with at most the smallest singular value negative, and apd started near the solution converges to the rotation closest to the matrix. Condition numbers and eigenvalues agree with the spectrum, and cross product matrices, diagonal scaling and orthonormal complements satisfy their definitions. Matrices dumped to text or MatrixMarket files read back with the same shape and entries.",
 ["inputs"], "all matrices with finite entries (for apd: guesses within 0.7 rad and singular values within a factor of 4)",
 "Tests check single examples.",
 ["src/util.rs"],
 [("rotation_svd, apd", "src/util.rs"), ("condition_number_symmetric, min_eigenvalue_symmetric, diag_left_mul, cross_product_matrix", "src/util.rs"), ("dump_matrix_to_file, dump_csr_matrix_to_mm_file", "src/util.rs")],
 "Matrices are built from known rotations and singular values or spectra, and files are read by the harness's own reader.", G + "algebraic identities, constructions with known answers, round trips",
 ["fenris::util::*"])

prop("C33", "Local data is gathered, viewed, interpolated and scattered exactly",
 "Gathering, scattering and viewing data by node index or shape addresses exactly the entries the indices and sizes say, and refuses indices or sizes that do not fit. Interpolating with local basis values or gradients equals the explicit sum over nodes. For every history of elements, reference points and updates with the same interpolation and basis buffers, what they return belongs to the current element and the last update, and never to an earlier one.",
 ["inputs", "histories"], "all index lists, shapes, fields and histories of buffer use",
 "Tests assemble a few fixed meshes and never reuse a buffer with different element types.",
 ["src/util.rs", "src/assembly/buffers.rs", "src/assembly/global.rs"],
 [("gather_global_to_local, add_local_to_global, extract_by_node_index", "src/assembly/global.rs, src/util.rs"), ("coerce_col_major_slice, try_transmute_slice", "src/util.rs"), ("InterpolationBuffer, BasisFunctionBuffer", "src/assembly/buffers.rs")],
 "Exact comparison for data movement, relative tolerance 1e-12 for sums.", G + "reference models, operation histories",
 ["fenris::util::*", "fenris::assembly::buffers", "fenris::assembly::global"])

prop("C34", "A mesh presents exactly its cells; edits of vertices move nothing else",
 "For every mesh, each cell, element and query of the mesh as a finite element space (directly, through a single-element view or through a spatial index) is the one defined by the coordinates of that cell's nodes in their order, and the bounding box is the smallest around the cells; an index or node that does not exist never yields a cell or an element. For every history of translations, transformations, direct edits, copies and serialization, the vertices are exactly those of a list edited the same way and the cells never change.",
 ["inputs", "histories"], "all meshes of every cell type (valid or with arbitrary node sharing), indices, reference points and sequences of edits",
 "Tests build a few meshes and read few cells back; per-type accessors and delegations must be right for every type, index and history.",
 ["src/mesh.rs", "src/connectivity.rs", "src/space/space_impl.rs", "src/space/mod.rs", "src/space/spatially_indexed.rs"],
 [("cells and edits", "src/mesh.rs: get_cell, cell_iter, get_geometry, bounding_box, translate*, transform_*"), ("connectivity types", "src/connectivity.rs"), ("mesh as space", "src/space/space_impl.rs; src/space/mod.rs: ElementInSpace; src/space/spatially_indexed.rs")],
 "Exact comparison with plain vectors of coordinates and indices.", G + "reference model of plain vectors, operation histories, differential between views of the same element",
 ["Mesh::*", "Connectivity", "CellConnectivity", "FiniteElementSpace for Mesh", "ElementInSpace"])

prop("C35", "Generators of test data only generate what they promise",
 "Every value that a proptest strategy of the library generates, and every simplification of it that is tried when a test fails, is what its name and documentation promise: points and vectors in the stated range, boxes with ordered corners, elements and triangles with the requested orientation, non-degenerate segments, triangles and quadrilaterals, convex quadrilaterals, parallelograms, meshes with at most the given number of cells and matrices with the requested shapes and elements. Assertion macros and matrix helpers of the test utilities accept exactly what they are documented to accept.",
 ["inputs"], "all random seeds, sizes and parameters of the strategies, all simplification steps",
 "Downstream property tests rely on the strategies; the library's own tests look at a few of them and at no simplification.",
 ["src/proptest.rs", "src/util.rs", "fenris-geometry/src/proptest.rs", "util/src/lib.rs"],
 [("strategies for geometry", "fenris-geometry/src/proptest.rs"), ("strategies for elements and meshes", "src/proptest.rs"), ("strategies for matrices", "src/util.rs: proptest"), ("test utilities", "util/src/lib.rs")],
 "Predicates evaluated by the harness on generated and simplified values.", G + "validity predicates on generated values and their simplifications",
 ["fenris::proptest", "fenris_geometry::proptest", "fenris::util::proptest"])

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(root, "harness/src/bin", p["id"].lower() + ".rs")):
        checks.append(dict(property=p["id"], quick_cmd="./check " + p["id"],
            thorough_cmd="VERIF_TIER=thorough ./check " + p["id"], evidence_file="evidence/%s.json" % p["id"],
            technique=p["technique"], level="exploration", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
json.dump(dict(version=1, setup_cmd="./build", hooks=dict(guard="none", enable="no hooks are needed: every property is observed through public API", source_commits=[]),
    checks=checks, not_applicable=na), open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
