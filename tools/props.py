NA = {
    "B01": "Elapsed/CPU time measured by the library's timer is a quantity of the host clock: there is no finite state space to enumerate "
           "and no oracle independent of that clock, so model checking cannot decide it.",
}
MC = "exhaustive bounded enumeration of the real code's input/operation space against an independent reference model"
PROPS = [
 dict(id="B02", title="Reference elements, conversions, output and logging report the truth",
  statement="The tables of a reference element (nodes, sub-entities, relative sub-entities, coordinates) describe one consistent cell complex, and narrow() returns the value or throws exactly when it does not fit. "
            "Every output operator and PrintInfo() terminates at every output level, writes to the given stream only and shows the counts, indices, coordinates and names of the object printed. "
            "LineFeedFormatter inserts the prefix after every line feed of a message and nowhere else.",
  over=["inputs", "configurations"],
  forall="All reference elements, sub-entities and relative sub-entities; all values of 8 and 16 bit integers; all Gmsh element types; all object kinds (entities, meshes, dof handlers, spaces, hierarchies, rules, matrices, files) times all output levels at the documented thresholds; all messages of two symbols up to a length.",
  why="Diagnostic output is hardly ever tested: the wrong branch of an output level aborts or prints an entity's numbers for another one, only for particular element kinds and levels.",
  files=["lib/lf/base/ref_el.h", "lib/lf/base/ref_el.cc", "lib/lf/base/narrow.h", "lib/lf/base/spdlog_utils.cc", "lib/lf/geometry/print_info.cc", "lib/lf/mesh/utils/print_info.cc", "lib/lf/assemble/dofhandler.cc", "lib/lf/uscalfe/uniform_scalar_fe_space.h", "lib/lf/io/gmsh_file_v2.cc"],
  mech=[("reference elements", "lib/lf/base/ref_el.h"), ("diagnostic output", "lib/lf/mesh/utils/print_info.cc"), ("log formatter", "lib/lf/base/spdlog_utils.cc")],
  observe=["table entries", "text written to streams", "exceptions"],
  technique=MC, note="Only the numbers and names in the text are compared, not its wording."),
 dict(id="M01", title="Every mesh is a consistent, conforming cell complex",
  statement="A mesh built from any admissible list of nodes, edges and cells has exactly the entities that the cells imply: each "
            "edge and node once, every incidence, index and relative orientation consistent across all cells, in the supplied numbering. "
            "Edges that were declared beforehand keep their position and geometry; all others inherit the shape of their cells. "
            "Every query about an entity (index, sub-entities, type, membership, geometry) agrees with every other query.",
  over=["inputs", "histories"],
  forall="All 2D hybrid meshes of up to a few cells: every corner renumbering of each cell, cell and edge insertion orders, every subset and "
         "orientation of pre-declared edges, every geometry kind (none, straight, curved), embedding dimension 2 and 3.",
  why="Tests use a handful of fixed meshes with one numbering each; orientation and edge-deduplication logic depends on the numbering "
      "of the corners and on the order and orientation in which edges and cells are supplied, which has factorially many variants.",
  files=["lib/lf/mesh/hybrid2d/mesh.cc", "lib/lf/mesh/hybrid2d/mesh_factory.cc", "lib/lf/mesh/hybrid2d/triangle.cc", "lib/lf/mesh/hybrid2d/quad.cc"],
  mech=[("edge map keyed by node pairs", "lib/lf/mesh/hybrid2d/mesh.cc"), ("relative orientation computed from first node", "lib/lf/mesh/hybrid2d/quad.cc")],
  observe=["Mesh::Entities, Index, EntityByIndex, Contains, NumEntities", "Entity::SubEntities, RelativeOrientations, Geometry"],
  technique=MC, note="Complete for the listed topologies/variants; assumes larger meshes add no new local configuration around an edge or a node."),
 dict(id="M02", title="Structured builders, boundary detection, adjacency and mesh data are exact",
  statement="Structured mesh builders produce exactly the requested tensor-product grid (node positions, cell splitting, counts, "
            "orientation, periodic identification) for every admissible setting and refuse inadmissible ones. "
            "Boundary flags and adjacency counts equal those of the abstract cell complex. "
            "Mesh data sets return, for every entity, the value last stored for that entity and nothing for entities outside their domain.",
  over=["inputs", "histories"],
  forall="All grid sizes up to a bound, boxes including degenerate ones, all orders of builder settings, all small mesh topologies and numberings, "
         "and all short histories of writes on data sets of each codimension.",
  why="Tests look at a few grid sizes with aggregate counts; they do not compare positions, incidence and flags of every entity for all sizes and setting orders.",
  files=["lib/lf/mesh/utils/structured_mesh_builder.h", "lib/lf/mesh/utils/tp_triag_mesh_builder.cc", "lib/lf/mesh/utils/tp_quad_mesh_builder.cc",
         "lib/lf/mesh/utils/torus_mesh_builder.cc", "lib/lf/mesh/utils/special_entity_sets.cc", "lib/lf/mesh/utils/all_codim_mesh_data_set.h"],
  mech=[("grid index arithmetic", "lib/lf/mesh/utils/tp_quad_mesh_builder.cc"), ("counting super-entities", "lib/lf/mesh/utils/special_entity_sets.cc")],
  observe=["builders' Build()", "flagEntitiesOnBoundary, CountNumSuperEntities", "CodimMeshDataSet / AllCodimMeshDataSet / lambda data sets"],
  technique=MC, note="Complete up to the stated grid sizes and history depth; positions compared in long double with a tolerance of a few ulps."),
 dict(id="M03", title="Mesh functions obey pointwise algebra",
  statement="Evaluating any expression built from mesh functions by negation, sum, difference, product, transpose, adjoint, conjugate or squared norm "
            "gives, at every point of every entity, exactly what the same expression of the operands' values at that point gives. "
            "One value is returned per evaluation point, in the order of the points.",
  over=["programs", "inputs"],
  forall="All legal expressions up to nesting depth three over scalar, complex, integer, user-defined, fixed-size, dynamic and mixed matrix and array "
         "values; entities of every dimension on straight and curved meshes; any number of points.",
  why="Operator dispatch is by compile-time value type; tests instantiate few type combinations, and none for generic value types or nested mixed-size products.",
  files=["lib/lf/mesh/utils/mesh_function_binary.h", "lib/lf/mesh/utils/mesh_function_unary.h", "lib/lf/mesh/utils/mesh_function_global.h"],
  mech=[("type-directed overloads of the operator functors", "lib/lf/mesh/utils/mesh_function_binary.h")],
  observe=["operator() of the composed mesh function"],
  technique=MC, note="Complete for the listed value kinds and expression shapes; combinations that do not compile are outside."),
 dict(id="G01", title="Geometry mappings are consistent, differentiable shape maps",
  statement="Each geometric shape maps reference points to the polynomial interpolant of its defining points, interpolating them exactly. "
            "Derivatives, their inverse Gramian, metric factors and affinity/degeneracy information agree with that same mapping at every point. "
            "Evaluating many points at once equals evaluating them one by one.",
  over=["inputs"],
  forall="All regular placements of the defining points of points, segments, triangles, quadrilaterals, parallelograms and their second-order versions on a "
         "small lattice, in 1-3 space dimensions, at a lattice of reference points, at several scales.",
  why="Tests compare derivatives with finite differences on a few shapes; coefficient errors that vanish for particular shapes or points stay invisible.",
  files=["lib/lf/geometry/tria_o2.cc", "lib/lf/geometry/quad_o2.cc", "lib/lf/geometry/segment_o2.cc", "lib/lf/geometry/quad_o1.cc", "lib/lf/geometry/tria_o1.cc",
         "lib/lf/geometry/geometry_interface.cc"],
  mech=[("monomial coefficient matrices", "lib/lf/geometry/quad_o2.cc")],
  observe=["Geometry::Global, Jacobian, JacobianInverseGramian, IntegrationElement, isAffine, Corners, Volume"],
  technique=MC, note="Complete for the lattice; the maps are polynomials of degree at most two per variable, so the lattice of points determines them."),
 dict(id="G02", title="Sub-shapes and refinement pieces tile their parent exactly",
  statement="The shape of every edge or corner of a cell is the trace of the cell's own mapping, and pieces produced by any refinement pattern are the restriction "
            "of the parent's mapping to that piece, so pieces tile the parent without gaps or overlap and share common edges and corners. "
            "The pieces of the reference shapes tile it exactly with the announced number, type and orientation.",
  over=["inputs", "configurations"],
  forall="All reference elements, all refinement patterns and anchors, all sub-entities, and all regular shapes on a small lattice including curved ones.",
  why="Tests check total volume for a few shapes; orientation, ordering and position of each piece for each pattern and anchor is a combinatorial space.",
  files=["lib/lf/refinement/hybrid2d_refinement_pattern.cc", "lib/lf/geometry/tria_o1.cc", "lib/lf/geometry/quad_o1.cc", "lib/lf/geometry/tria_o2.cc", "lib/lf/geometry/quad_o2.cc"],
  mech=[("lattice polygons of the children", "lib/lf/refinement/hybrid2d_refinement_pattern.cc"), ("child geometry from lattice polygons", "lib/lf/geometry/quad_o1.cc")],
  observe=["Geometry::SubGeometry, ChildGeometry", "RefinementPattern::NumChildren, ChildPolygons"],
  technique=MC, note="Reference tilings are decided in exact integer arithmetic; physical pieces in floating point with a tolerance far below any lattice distance."),
 dict(id="R01", title="Refinement keeps every mesh of a hierarchy conforming and is exactly local",
  statement="After any sequence of uniform or marked refinements every level is a conforming mesh covering the same domain with the same boundary and "
            "world dimension; there are no hanging nodes and no degenerate cells. A marked step splits exactly the marked edges plus those forced by "
            "the closure rule, copies all cells without split edges unchanged, and gives split cells the children of their refinement pattern. "
            "Uniform refinement splits every entity into its full set of children.",
  over=["histories", "inputs"],
  forall="All small 2D hybrid base meshes, all corner renumberings, straight and curved geometry, all markings of edges in each of several steps.",
  why="The closure and the choice of patterns depend on which subset of edges is marked and on refinement edges inherited from earlier steps: "
      "an exponential space of histories of which tests sample a few random ones.",
  files=["lib/lf/refinement/mesh_hierarchy.cc", "lib/lf/refinement/hybrid2d_refinement_pattern.cc"],
  mech=[("closure loop over cells", "lib/lf/refinement/mesh_hierarchy.cc"), ("child lists per anchor and pattern", "lib/lf/refinement/mesh_hierarchy.cc")],
  observe=["MeshHierarchy::MarkEdges, RefineMarked, RefineRegular, getMesh, RefinementEdges, CellChildInfos, EdgeChildInfos, PointChildInfos"],
  technique=MC, note="Complete for the listed base meshes and depth; the closure is recomputed independently from the marks and refinement edges."),
 dict(id="R02", title="Parent and child relations between levels are mutually inverse and geometric",
  statement="Every fine entity has exactly one parent, which lists it as a child at the recorded number; child and parent records agree on all levels. "
            "The stored position of a child inside its parent describes the same points as the child's own geometry whenever geometries are nested, "
            "and the children of a cell tile it.",
  over=["histories", "inputs"],
  forall="All small hybrid base meshes, corner renumberings, geometry kinds and refinement histories up to a depth.",
  why="Wrong child numbers or mirrored relative geometries leave meshes valid and are visible only for particular patterns, anchors and orientations.",
  files=["lib/lf/refinement/mesh_hierarchy.cc"],
  mech=[("ParentInfo construction", "lib/lf/refinement/mesh_hierarchy.cc"), ("GeometryInParent", "lib/lf/refinement/mesh_hierarchy.cc")],
  observe=["ParentInfos, ParentEntity, GeometryInParent, *ChildInfos"],
  technique=MC, note="Complete for the listed base meshes and depth."),
 dict(id="R03", title="Repeated local refinement never degrades triangle shapes",
  statement="For a purely triangular base mesh the set of triangle shapes reachable by any sequence of local refinements is finite, "
            "with all angles bounded from below by half of the smallest angle of the base mesh. Every triangle always has a refinement edge.",
  over=["histories"],
  forall="All (unboundedly long) sequences of markings, starting from every triangle-mesh of a catalogue; decided by a reachability fixpoint over similarity classes.",
  why="It is a statement about infinitely many refinement histories; a wrong refinement edge shows only after several rounds as slow degradation.",
  files=["lib/lf/refinement/mesh_hierarchy.cc"],
  mech=[("refinement edges of children", "lib/lf/refinement/mesh_hierarchy.cc")],
  observe=["getMesh, RefinementEdges after any history"],
  technique="explicit-state reachability fixpoint over similarity classes, every transition executed by the real refinement code",
  note="The fixpoint is exact per base mesh: abstraction is shape + refinement edge + neighbourhood marking of the cell."),
 dict(id="R04", title="Functions transferred between levels keep their values",
  statement="A mesh function transferred from a coarse to a finer level of a hierarchy has the same value at the same point, on entities of every dimension "
            "and for any pair of levels. Prolongation of a finite element function reproduces it on the fine mesh, "
            "exactly when the spaces are nested and at the nodal degrees of freedom otherwise.",
  over=["histories", "inputs"],
  forall="All small base meshes, renumberings, geometry kinds, refinement histories, level pairs, basis functions and pairs of spaces.",
  why="Local coordinates are mapped through chains of parents whose orientation and anchor vary with the history; tests use uniform refinement and smooth data.",
  files=["lib/lf/refinement/mesh_function_transfer.h", "lib/lf/fe/prolongation.h"],
  mech=[("chain of parents of an entity", "lib/lf/refinement/mesh_function_transfer.h"), ("nodal values on the fine cell", "lib/lf/fe/prolongation.h")],
  observe=["MeshFunctionTransfer::operator(), getMesh", "fe::prolongate"],
  technique=MC, note="Complete for the listed meshes and depth; exactness only required where geometry and spaces are nested."),
 dict(id="A01", title="Degree-of-freedom numbering is a consistent bijection",
  statement="Local-to-global index maps number all degrees of freedom consecutively, every one owned by exactly one entity, and entities see exactly the "
            "degrees of freedom of their closure in canonical order. Cells sharing an edge see that edge's degrees of freedom in the same direction "
            "relative to the edge.",
  over=["inputs", "configurations"],
  forall="All small hybrid meshes with all relative edge orientations, all uniform layouts up to a bound, and variable layouts, for both kinds of handlers.",
  why="Order depends on edge orientations and per-entity counts; tests use one or two meshes and layouts.",
  files=["lib/lf/assemble/dofhandler.cc"],
  mech=[("index arrays with reversed edge dofs", "lib/lf/assemble/dofhandler.cc")],
  observe=["DofHandler::NumDofs, NumLocalDofs, NumInteriorDofs, GlobalDofIndices, InteriorGlobalDofIndices, Entity"],
  technique=MC, note="Complete for the bounds."),
 dict(id="A02", title="Triplet matrices represent the sum of their entries",
  statement="After any sequence of additions, removals, copies and moves a triplet matrix has the requested size and represents the sum of all "
            "remaining entries. Dense conversion, sparse conversion, matrix-vector products and output all agree with that sum, for every scalar type.",
  over=["histories"], forall="All operation sequences up to a depth, for real, single-precision, integer and complex scalars and several initial sizes.",
  why="Order and duplication of operations matter; tests insert a single fixed list.",
  files=["lib/lf/assemble/coomatrix.h"], mech=[("size growth, predicate removal", "lib/lf/assemble/coomatrix.h")],
  observe=["COOMatrix members and stream output"],
  technique=MC, note="Complete up to the depth bound; arithmetic is on exactly representable values."),
 dict(id="A03", title="Assembly adds exactly the local contributions of active entities",
  statement="Assembling a matrix or vector over the entities of any dimension evaluates each active entity once and no inactive one, and adds its local "
            "contribution at the rows and columns given by the local-to-global maps. Repeated assembly into the same object accumulates.",
  over=["inputs", "configurations"],
  forall="All small hybrid meshes with all edge orientations, all pairs of trial/test layouts from a catalogue, all subsets of active entities up to a bound.",
  why="Test coverage is a few square problems; mixed trial/test spaces and selections multiply the configurations.",
  files=["lib/lf/assemble/assembler.h"], mech=[("double loop over local dofs", "lib/lf/assemble/assembler.h")],
  observe=["AssembleMatrixLocally, AssembleVectorLocally"],
  technique=MC, note="Complete for the bounds; every local entry carries a unique, exactly representable value."),
 dict(id="A04", title="Fixing solution components yields the constrained linear system",
  statement="Imposing prescribed values on any subset of unknowns yields the system in which those unknowns equal the prescribed values and the others satisfy "
            "their original equations with the prescribed values inserted. The result does not depend on how the matrix is stored as triplets.",
  over=["inputs"],
  forall="All small systems over a finite set of values, all subsets of fixed unknowns, several triplet representations, all elimination calls and scalar types.",
  why="Tests fix one pattern in one matrix; interplay of order of triplets, duplicates and selected components is combinatorial.",
  files=["lib/lf/assemble/fix_dof.h"], mech=[("right-hand side correction before deletion of columns", "lib/lf/assemble/fix_dof.h")],
  observe=["FixFlaggedSolutionComponents, FixFlaggedSolutionCompAlt, FixSolutionComponentsLse"],
  technique=MC, note="Complete for the bounds."),
 dict(id="F01", title="Reference shape functions span their polynomial space and are unisolvent",
  statement="Every scalar finite element has the announced number of shape functions per vertex, edge and interior, spanning exactly the polynomial space of its "
            "degree, with nodal degrees of freedom dual to the shape functions. Gradients are the exact derivatives of the values, and the Legendre and Jacobi "
            "polynomials behind them, their derivatives and integrals equal their definitions. Traces on edges depend only on the edge's own functions, its degree and orientation, so neighbouring cells match.",
  over=["inputs", "configurations"],
  forall="All Lagrange and hierarchic elements, all degrees up to a bound per edge and interior, all edge orientations.",
  why="The combination of orientations and mixed degrees is exponential; tests check few degrees and only one orientation each.",
  files=["lib/lf/uscalfe/lagr_fe.h", "lib/lf/fe/hierarchic_fe.h", "lib/lf/fe/hierarchic_fe.cc"],
  mech=[("edge functions flipped by orientation", "lib/lf/fe/hierarchic_fe.h")],
  observe=["ScalarReferenceFiniteElement members"],
  technique=MC, note="Polynomials are decided by evaluating at unisolvent point sets, so agreement holds for all points up to roundoff."),
 dict(id="F02", title="Finite element functions are single valued and consistent with their space",
  statement="Every global basis function of every space has one value at each point of an edge or node shared by cells, so functions are continuous. "
            "Mesh functions for values and gradients are the linear combination of local shape functions (gradients transformed to physical "
            "coordinates) with the coefficients given by the local-to-global map. The layout of each space matches its shape functions.",
  over=["inputs", "configurations"],
  forall="All small hybrid meshes with all numberings and edge orientations, geometry kinds, Lagrange spaces of order 1-3, hierarchic spaces of uniform and varying degree, "
         "and all global basis functions.",
  why="Continuity breaks only for certain relative orientations of neighbouring cells and certain degrees.",
  files=["lib/lf/fe/hierarchic_scalar_fe_space.h", "lib/lf/fe/mesh_function_fe.h", "lib/lf/fe/mesh_function_grad_fe.h", "lib/lf/uscalfe/uniform_scalar_fe_space.h"],
  mech=[("relative orientation handed to shape functions", "lib/lf/fe/hierarchic_scalar_fe_space.h")],
  observe=["MeshFunctionFE, MeshFunctionGradFE, ScalarFESpace::ShapeFunctionLayout, NumRefShapeFunctions, LocGlobMap"],
  technique=MC, note="Complete for the bounds."),
 dict(id="F03", title="Projection, boundary interpolation and integration of mesh functions are exact",
  statement="Nodal projection reproduces every function of the space, and every polynomial of the space's degree on affine meshes. Essential "
            "boundary data fix exactly the degrees of freedom on the selected edges, at the values that interpolate the data. Integrating a mesh "
            "function over selected entities equals the sum of the integrals over exactly those entities, to the stated quadrature exactness.",
  over=["inputs", "configurations"],
  forall="All small hybrid meshes with all numberings, edge orientations, geometry kinds and spaces, all selections of cells or edges up to a bound, all kinds of integrand values.",
  why="Selections and orientations multiply; tests use one mesh and convergence rates, which tolerate local mistakes.",
  files=["lib/lf/fe/fe_tools.h"], mech=[("predicates and reduction", "lib/lf/fe/fe_tools.h")],
  observe=["NodalProjection, InitEssentialConditionFromFunction, IntegrateMeshFunction"],
  technique=MC, note="Complete for the bounds."),
 dict(id="F04", title="Local element matrices and vectors equal their integrals",
  statement="Every provided bilinear or linear form (diffusion, reaction, mass, edge mass, loads, Laplace, least-squares interpolation and their simplified versions) "
            "returns for each cell or selected edge the integrals of its integrand, with gradients and volume measured in physical coordinates. "
            "They are exact for data and shapes covered by the quadrature rule, and equal the given or default rule otherwise. "
            "Entities are active exactly if they are of the right dimension and selected.",
  over=["inputs", "configurations"],
  forall="All small hybrid meshes with all numberings, edge orientations and geometry kinds (also in 3D), all spaces, scalar, complex and non-symmetric tensor coefficients, default and given "
         "quadrature rules and edge selections.",
  why="Tests compare a few matrices on one mesh with constant real coefficients; tensor coefficients, curved and embedded cells, selections and complex data multiply the space.",
  files=["lib/lf/fe/loc_comp_ellbvp.h", "lib/lf/uscalfe/loc_comp_ellbvp.h", "lib/lf/uscalfe/lin_fe.h", "lib/lf/uscalfe/lin_fe.cc"],
  mech=[("quadrature loop with transformed gradients", "lib/lf/fe/loc_comp_ellbvp.h"), ("vertex/edge-midpoint rules", "lib/lf/uscalfe/lin_fe.h")],
  observe=["Eval and isActive of all element matrix/vector providers"],
  technique=MC, note="Complete for the bounds; the oracle evaluates the same integral from geometry and shape functions with an independent high-order rule."),
 dict(id="F05", title="Boundary value problems are solved exactly and independently of numbering",
  statement="Assembling and solving a second-order elliptic problem with the interfaces of LehrFEM++ (element matrices, load vectors, boundary terms, elimination of essential conditions) reproduces every solution that lies in the finite element space. "
            "The discrete solution as a function does not depend on the numbering and orientation of nodes, edges and cells. "
            "On nested meshes the system of the coarse space is the Galerkin product of that of the fine space with the prolongation, and the energy of the solution never decreases under refinement.",
  over=["inputs", "configurations", "histories"],
  forall="All small hybrid meshes with all corner numberings and edge orientations, Lagrange and hierarchic spaces, all assignments of Dirichlet, Neumann and Robin conditions to the boundary edges of small meshes, scalar and tensor coefficients with and without reaction, all refinement histories up to depth two.",
  why="Tests solve a few problems on one mesh; the interplay of orientation, flags of boundary edges, elimination and prolongation shows only for particular combinations.",
  files=["lib/lf/uscalfe/loc_comp_ellbvp.h", "lib/lf/fe/loc_comp_ellbvp.h", "lib/lf/assemble/assembler.h", "lib/lf/assemble/fix_dof.h", "lib/lf/fe/fe_tools.h", "lib/lf/fe/prolongation.h", "lib/lf/uscalfe/fe_space_lagrange_o1.h"],
  mech=[("element providers", "lib/lf/uscalfe/loc_comp_ellbvp.h"), ("assembly", "lib/lf/assemble/assembler.h"), ("essential conditions", "lib/lf/fe/fe_tools.h")],
  observe=["solution vectors", "values of discrete solutions", "system matrices and load vectors"],
  technique=MC, note="The oracle is the polynomial solution, the same problem on the renumbered mesh, or the other level of the hierarchy."),
 dict(id="Q01", title="Quadrature rules are exact to their announced degree",
  statement="Every quadrature rule on every reference element integrates all polynomials of its announced degree exactly, with points inside the element, "
            "and the rule handed out for a requested degree has at least that degree. Rules meant to have positive weights do. "
            "Cached rules are the same whatever was requested before.",
  over=["inputs", "histories"],
  forall="All rule families and all degrees up to a bound beyond the tabulated range, all monomials of the announced degree, all short histories of cache requests.",
  why="A wrong digit in a table of hundreds of numbers affects one rule only; tests integrate selected monomials for selected degrees with loose tolerances.",
  files=["lib/lf/quad/quad_rules_tria.cc", "lib/lf/quad/make_quad_rule.cc", "lib/lf/quad/make_quad_rule_nodal.cc", "lib/lf/quad/gauss_quadrature.cc", "lib/lf/quad/quad_rule_cache.cc"],
  mech=[("tables of points and weights", "lib/lf/quad/quad_rules_tria.cc"), ("Gauss-Jacobi by Newton iteration", "lib/lf/quad/gauss_quadrature.cc")],
  observe=["make_QuadRule, make_QuadRuleNodal, make_Tria*/Quad* rules, QuadRuleCache::Get, HierarchicalQuadrature"],
  technique=MC, note="Complete for the degrees listed, in an orthonormal basis of all polynomials of the announced degree (long double)."),
 dict(id="B01", title="Timers report elapsed time",
  statement="A timer reports wall, user and system time elapsed between start and stop, summed over resumptions.",
  over=["histories"], forall="All start/stop/resume histories.", why="Depends on the host clock.",
  files=["lib/lf/base/timer.cc"], mech=[("clock differences", "lib/lf/base/timer.cc")], observe=["Timer::Format"], technique="", note=""),
 dict(id="I01", title="Gmsh files are read into the mesh they describe",
  statement="Reading a Gmsh file of version 2.2 or 4.1, as text or binary of either byte order, yields the mesh it describes: the same nodes (auxiliary nodes left out), "
            "cells with the same corners in the same numbering, declared edges, and geometries of first or second order passing through all given points. "
            "The result is the same for every encoding, node numbering with gaps, file order and optional or unknown section. "
            "Parsing returns exactly the stored entries.",
  over=["inputs", "configurations"],
  forall="All file models of small hybrid layouts: element orders, node tags, file orders, declared edges/points, corner numberings, blocks, coordinates, world dimensions, optional "
         "sections, in six encodings.",
  why="Tests read a few files produced by Gmsh; tag gaps, element order, foreign byte order, mixed blocks and unknown sections are combinations no test file has.",
  files=["lib/lf/io/gmsh_reader.cc", "lib/lf/io/gmsh_file_v2.cc", "lib/lf/io/gmsh_file_v4.cc", "lib/lf/io/gmsh_file_v4_text.cc", "lib/lf/io/gmsh_file_v4_binary.cc", "lib/lf/io/gmsh_file_v4_detail.h"],
  mech=[("conversion of elements to entities", "lib/lf/io/gmsh_reader.cc"), ("2.2 grammar", "lib/lf/io/gmsh_file_v2.cc"), ("4.1 grammars", "lib/lf/io/gmsh_file_v4_detail.h")],
  observe=["ReadGmshFile and the parsed GMshFileV2/GMshFileV4", "GmshReader::mesh()"],
  technique=MC, note="Independent writers for every encoding produce the files from a model, which is also the oracle."),
 dict(id="I02", title="Physical groups of Gmsh files are attached to the right entities",
  statement="The physical groups that GmshReader reports for an entity are exactly those the file attaches to it, in ascending order and in every encoding; entities without a group report none. "
            "Names and numbers of groups are translated into each other within each dimension, and unknown or ambiguous queries are rejected with an exception.",
  over=["inputs", "configurations"],
  forall="All sets of named groups over three dimensions, two numbers and two names with all queries; all assignments of group lists to the elements of small meshes; points with several groups at "
         "any node.",
  why="Boundary conditions are imposed through groups: a group attached to a neighbouring entity or lost for a second membership is not visible in sample files where groups are disjoint.",
  files=["lib/lf/io/gmsh_reader.cc", "lib/lf/io/gmsh_reader.h"],
  mech=[("group tables per entity", "lib/lf/io/gmsh_reader.cc"), ("name/number look-up", "lib/lf/io/gmsh_reader.h")],
  observe=["PhysicalEntityNr, IsPhysicalEntity, PhysicalEntityName2Nr, PhysicalEntityNr2Name, PhysicalEntities"],
  technique=MC, note="Complete for the bounds; the file model is the oracle."),
 dict(id="I03", title="Damaged Gmsh files are never accepted silently",
  statement="Reading a Gmsh file that was cut off or overwritten with zeros before the end of its elements, that lacks or repeats a line (2.2 text), or that has an unsupported version, "
            "header or byte order mark fails with an exception or yields exactly the mesh of the intact file; a different mesh is never returned and the process never crashes.",
  over=["crash_points", "inputs"],
  forall="All truncation points and zero-filled tails at every byte, all missing and repeated lines and all header variants of four file models in six encodings.",
  why="A disk-full or interrupted copy cuts a file at an arbitrary byte; tests contain intact files only, and each byte position may hit a different place of the grammar.",
  files=["lib/lf/io/gmsh_reader.cc", "lib/lf/io/gmsh_file_v2.cc", "lib/lf/io/gmsh_file_v4.cc", "lib/lf/io/gmsh_file_v4_text.cc", "lib/lf/io/gmsh_file_v4_binary.cc"],
  mech=[("version dispatch", "lib/lf/io/gmsh_reader.cc"), ("parse result checks", "lib/lf/io/gmsh_file_v2.cc")],
  observe=["exception or mesh returned by GmshReader"],
  technique=MC, note="Every damage position is executed on the real reader; a crash of the worker process is a violation."),
 dict(id="I04", title="VTK output contains exactly the mesh and the data written",
  statement="A file written by VtkWriter, text or binary, is a well-formed VTK file whose cells are the cells or edges of the mesh by index, with all Lagrange points at the positions VTK "
            "prescribes for the order (1 to 10). Every data set accepted appears once, in order, with its type and the value of the data set or mesh function at each point or at the barycenter of each cell (the given default where "
            "undefined). Repeated names and names with blanks are rejected without affecting the rest of the file.",
  over=["inputs", "configurations", "histories"],
  forall="All small hybrid meshes with all numberings, edge orientations and geometry kinds (also in 3D), both codimensions, orders 1..10, both formats; all sequences of up to three calls with all data types and names.",
  why="Tests look at a handful of files without parsing them; edge orientation, order, cell type and data type combine multiplicatively.",
  files=["lib/lf/io/vtk_writer.h", "lib/lf/io/vtk_writer.cc"],
  mech=[("Lagrange points and cell connectivity", "lib/lf/io/vtk_writer.cc"), ("sampling of mesh functions", "lib/lf/io/vtk_writer.h"), ("output grammar", "lib/lf/io/vtk_writer.cc")],
  observe=["bytes of the file"],
  technique=MC, note="An independent VTK parser and point ordering are the oracle; values to 32 bit (binary) or three decimals (text, the precision of the writer)."),
 dict(id="I05", title="MATLAB, matplotlib and TikZ exports describe the given mesh",
  statement="writeMatlab, writeMatplotlib and WriteMatlab of a hierarchy write all nodes, edges, cells and parent relations of the mesh with their indices, to the named file with the suffix appended unless present. "
            "writeTikZ draws exactly the selected entities with the labels asked for by the flags and reports failure if the file cannot be written. Listings go to the given stream only.",
  over=["inputs", "configurations"],
  forall="All small hybrid meshes with all numberings and edge orientations, all 128 flag sets, all subsets of entities on small meshes, all short file names over a small alphabet, all refinement histories up to depth two.",
  why="Tests only call the exporters and never look at the files.",
  files=["lib/lf/io/write_matlab.cc", "lib/lf/io/write_matplotlib.cc", "lib/lf/io/write_tikz.cc", "lib/lf/refinement/refutils.cc", "lib/lf/mesh/hybrid2d/mesh_factory.cc"],
  mech=[("MATLAB export", "lib/lf/io/write_matlab.cc"), ("TikZ export", "lib/lf/io/write_tikz.cc"), ("csv export", "lib/lf/io/write_matplotlib.cc")],
  observe=["names and contents of the files written"],
  technique=MC, note="Files are parsed and compared with the mesh; coordinates to the six digits written."),
 dict(id="P01", title="Product spaces and DPG forms equal their definitions",
  statement="A product space numbers the dofs of its components one after the other with the component's own layout, and every sub-form (diffusion, reaction, convection, flux, trace, load) fills exactly its block with the integral that defines it, in the local dof order. "
            "Normals, edge signs, inflow and outflow boundaries and essential conditions follow their definitions for every numbering of the mesh. "
            "DPG matrices, vectors and estimators equal B^T G^-1 B, B^T G^-1 l and the residual norm; a polynomial solution in the trial space satisfies the discrete equations with zero estimator.",
  over=["inputs", "configurations"],
  forall="All small hybrid meshes with all corner numberings and edge orientations, all products of up to two of 14 component kinds and three kinds in every order, all pairs of trial and test component, block positions, coefficients and edge selections; symmetric tensors and straight edges only.",
  why="Tests of projects/dpg fix one or two meshes and low degrees; wrong edge orientation or block offsets show only for particular numberings, degrees or component orders.",
  files=["projects/dpg/product_dofhandler.cc", "projects/dpg/product_fe_space.h", "projects/dpg/product_fe_space_factory.h", "projects/dpg/loc_comp_dpg.h", "projects/dpg/dpg_tools.h", "projects/dpg/dpg_tools.cc", "projects/dpg/dpg_element_matrix_provider.h"],
  mech=[("product dof handler", "projects/dpg/product_dofhandler.cc"), ("sub element matrices", "projects/dpg/loc_comp_dpg.h"), ("normals and signs", "projects/dpg/dpg_tools.cc")],
  observe=["global dof indices", "element matrices and vectors", "essential conditions", "solutions and estimators"],
  technique=MC, note="Independent oracle with its own Lagrange bases, quadrature and normals; curved edges and unsymmetric tensors are not claimed."),
 dict(id="P02", title="IPDG Stokes: annulus meshes, forms, boundary data, post-processing",
  statement="AnnulusTriagMeshBuilder builds a conforming triangulation of the requested annulus, and boundary normals are unit outward normals of their cell. "
            "Element matrices, load vectors and penalty terms equal the integrals that define them; the systems built for no-flow and in/out-flow data have the prescribed boundary values, and their solution gives the piecewise constant velocities that are the curl of the potential. "
            "L2 and DG norms equal the integrals that define them for every cell/edge numbering and every quadrature rule.",
  over=["inputs", "configurations"],
  forall="All small triangle meshes with all corner numberings and edge orientations, annuli of all sizes up to the bound, all boundary data kinds, both versions of the penalty, all rules up to the bound; in/out-flow only for a single closed boundary curve and net flow zero.",
  why="The tests of projects/ipdg_stokes look at single triangles or one mesh; signs of normals and edge orientations agree there by accident.",
  files=["projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc", "projects/ipdg_stokes/mesh/utils.cc", "projects/ipdg_stokes/assemble/build_system_matrix.h", "projects/ipdg_stokes/assemble/build_system_matrix.cc", "projects/ipdg_stokes/assemble/offset_function.cc", "projects/ipdg_stokes/assemble/piecewise_const_element_matrix_provider.cc", "projects/ipdg_stokes/assemble/piecewise_const_element_vector_provider.cc", "projects/ipdg_stokes/post_processing/mesh_function_velocity.h", "projects/ipdg_stokes/post_processing/norms.h", "projects/ipdg_stokes/post_processing/solution_to_mesh_data_set.cc"],
  mech=[("system assembly", "projects/ipdg_stokes/assemble/build_system_matrix.cc"), ("element matrices", "projects/ipdg_stokes/assemble/piecewise_const_element_matrix_provider.cc"), ("norms", "projects/ipdg_stokes/post_processing/norms.h")],
  observe=["meshes", "element matrices and vectors", "system matrices and right hand sides", "velocities", "norms"],
  technique=MC, note="Independent oracle: normals, gradients and integrals from the corner coordinates only."),
 dict(id="P03", title="Fisher-KPP: Galerkin matrices, quadrature helper, Strang splitting",
  statement="assembleGalerkinMatrices() returns the mass matrix and the stiffness matrix with diffusion coefficient, boundary reaction and non-local matrix as defined, and localQuadFunction() integrates over exactly the selected entities. "
            "The diffusion operator is one SDIRK-2 step of half or full length. "
            "StrangSplit::Evolution() composes half diffusion, reaction and diffusion steps symmetrically, so that the steps add up to the final time; without diffusion it gives the logistic solution at the final time.",
  over=["inputs", "configurations"],
  forall="All small linear meshes of triangles and parallelograms with all corner numberings, all products of diffusion/boundary coefficients, non-local matrix on/off, final times, 1 to 6 (12) steps, growth rates and initial data; all selections on small meshes.",
  why="projects/fisher_kpp has no tests; step counts and boundary terms are only visible against the exact composition for every number of steps.",
  files=["projects/fisher_kpp/strangsplitting.cc", "projects/fisher_kpp/strangsplitting.h"],
  mech=[("splitting and assembly", "projects/fisher_kpp/strangsplitting.cc"), ("quadrature helper", "projects/fisher_kpp/strangsplitting.h")],
  observe=["matrices", "integrals", "evolved states"],
  technique=MC, note="Oracle: dense matrices from independent integration and dense linear algebra."),
]
