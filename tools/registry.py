CHECKS = {
    "B02": dict(harnesses=["b02"], libs="io", level="model_checking",
                rule="reference elements x sub-entities x relative sub-entities; all values of small integer conversions; all Gmsh element types; every "
                     "object kind x every output level; all log messages over two symbols up to a length x patterns; a state is one object and level"),
    "M01": dict(harnesses=["m01"], libs="mesh", level="model_checking",
                rule="every listed topology x corner renumberings x cell/edge orders x pre-declared edge subsets and "
                     "orientations x geometry kinds; a state is one distinct input list"),
    "G01": dict(harnesses=["g01"], libs="geo", level="model_checking",
                rule="every shape kind x every corner/midpoint placement on a small lattice (regular mappings only) x "
                     "embeddings/scalings x a lattice of reference points x batchings; a state is one distinct shape"),
    "G02": dict(harnesses=["g02"], libs="ref", level="model_checking",
                rule="all reference elements x all refinement patterns x anchors (exact integer tilings); all shapes of the "
                     "lattice enumeration x all sub-entities x all patterns/anchors; a state is one shape or one pattern"),
    "M02": dict(harnesses=["m02"], libs="mesh", level="model_checking",
                rule="structured builders: every (nx,ny) up to the bound x boxes (incl. empty/negative/tiny/far) x setter histories; "
                     "adjacency/boundary: every topology x cell orders; data sets: every operation history up to depth 3"),
    "M03": dict(harnesses=["m03:%d" % k for k in range(6)], libs="mesh", level="model_checking",
                rule="every legal unary/binary combination (and nested combinations) of the value kinds scalar/complex/int/user "
                     "type/fixed, dynamic and mixed matrices and arrays x every entity of every mesh x batch sizes"),
    "R01": dict(harnesses=["r01"], libs="ref", level="model_checking",
                rule="base meshes x corner renumberings x geometry kinds x every history of refinement steps up to the depth bound, where "
                     "a step marks any subset of edges (all subsets first, bounded subsets later) or refines uniformly; a state is one "
                     "distinct finest mesh incl. its refinement edges"),
    "R02": dict(harnesses=["r02"], libs="ref", level="model_checking",
                rule="base meshes x corner renumberings x geometry kinds x every history of refinement steps up to the depth bound; "
                     "a state is one distinct finest mesh incl. its refinement edges"),
    "R03": dict(harnesses=["r03"], libs="ref", level="model_checking",
                rule="reachability fixpoint of similarity classes with refinement edge: from every class found, every marking of the "
                     "edges of the cell and uniform refinement; a state is one class (labelled edge ratios + refinement edge) of one base mesh"),
    "R04": dict(harnesses=["r04"], libs="fe", level="model_checking",
                rule="base meshes x corner renumberings x geometry kinds x refinement histories up to the depth bound x all level pairs "
                     "(transfer) and all basis functions x space pairs (prolongation); a state is one distinct finest mesh"),
    "A01": dict(harnesses=["a01"], libs="asm", level="model_checking",
                rule="topologies x corner/node renumberings x pre-declared edge orientations x every uniform dof layout (0..2/3 per type) x "
                     "handler kinds, plus variable layouts (patterns, single entities, all subsets on small meshes); a state is one handler"),
    "A02": dict(harnesses=["a02"], libs="asm", level="model_checking",
                rule="initial sizes x every sequence of operations (add, clear, clear by predicate, change or drop a triplet, copy, move) up to depth 4 "
                     "(complex 3, long double, float, int 2-3; thorough deeper), pairs of operations also unobserved; a state is one distinct list of triplets with its size"),
    "A04": dict(harnesses=["a04"], libs="asm", level="model_checking",
                rule="all n x n systems, n<=3, over three values, three triplet representations x every subset of fixed components x four "
                     "elimination calls; a state is one (system, subset)"),
    "A03": dict(harnesses=["a03"], libs="asm", level="model_checking",
                rule="topologies x corner/node renumberings x pre-declared edge orientations x all pairs of 8 dof layouts x codimension x active "
                     "entity subsets (all for one space on few entities) x local matrix kinds; a state is one assembly call"),
    "F01": dict(harnesses=["f01"], libs="fe", level="model_checking",
                rule="all Lagrange elements and all hierarchic elements with every combination of interior degree, edge degrees (1..4 on triangles, "
                     "1..3 on quadrilaterals, uniform degrees beyond) and edge orientations; each element also with precomputed values for nine rules; Legendre and "
                     "Jacobi polynomials of degree up to 27; a state is one element or degree"),
    "F02": dict(harnesses=["f02"], libs="fe", level="model_checking",
                rule="topologies x corner renumberings x edge orientations x geometry kinds x Lagrange spaces of order 1-3, hierarchic spaces of uniform and "
                     "of entity-dependent degree x every global basis function; a state is one (mesh, space)"),
    "F03": dict(harnesses=["f03"], libs="fe", level="model_checking",
                rule="topologies x corner renumberings x edge orientations x geometry kinds x spaces x cell/edge selections (all subsets up to a "
                     "bound) and integrand value types x entity selections; a state is one (mesh, space) or one (mesh, integrand, codimension)"),
    "F04": dict(harnesses=["f04:0", "f04:1", "f04:2", "f04:3", "f04:4"], libs="fe", level="model_checking",
                rule="topologies x corner renumberings x edge orientations x geometry kinds x spaces x forms x coefficient kinds (constant, function, "
                     "complex, non-symmetric tensor) x every entity; a state is one (mesh, space, form, coefficient)"),
    "F05": dict(harnesses=["f05"], libs="fe", level="model_checking",
                rule="topologies x corner renumberings x edge orientations x spaces x coefficients x reaction on/off x assignments of Dirichlet/Neumann/Robin "
                     "conditions to boundary edges (all for small meshes) x both provider families; pairs of numberings; refinement histories x spaces; a state "
                     "is one boundary value problem, one pair of numberings or one pair of levels"),
    "Q01": dict(harnesses=["q01"], libs="quad", level="model_checking",
                rule="every rule family x every degree up to the bound, tested against a complete orthonormal basis of the polynomials of the "
                     "declared degree; every history of three cache requests/moves; a state is one rule or one history"),
    "I01": dict(harnesses=["i01"], libs="gmsh", level="model_checking",
                rule="file models (layout x element order x node tags/file order x declared edges/points x corner numberings x element order/blocks x "
                     "coordinates/world dimension x optional sections) x six encodings (2.2/4.1 text, binary little and big endian); a state is one file"),
    "I02": dict(harnesses=["i02"], libs="gmsh", level="model_checking",
                rule="all sets of named groups (3 dimensions x 2 numbers x 2 names) x file orders x all queries; layouts x all pairs of group lists of two "
                     "geometric entities x all assignments of elements to them; points on auxiliary/isolated nodes at every position; a state is one file"),
    "I03": dict(harnesses=["i03"], libs="gmsh", level="model_checking",
                rule="four file models x six encodings x every truncation point and every zero-filled tail up to the end of the elements, every missing or doubled line (2.2 text), "
                     "unsupported versions/headers/byte orders; a state is one damaged file"),
    "I04": dict(harnesses=["i04"], libs="io", level="model_checking",
                rule="(a) topologies x corner renumberings x edge orientations x geometry kinds x codimension x order 1..10 x text/binary with five functions; (b) all sequences of up to three "
                     "calls (50 kinds of data sets and switches) x names (new, repeated, with blank) x subsets of defined entities; a state is one file"),
    "I05": dict(harnesses=["i05"], libs="io", level="model_checking",
                rule="topologies x corner renumberings x edge orientations x geometry kinds x exporters (all 128 TikZ flag sets, all subsets of entities on small "
                     "meshes); all file names over a four/five letter alphabet up to length 4/6; all refinement histories up to depth 2; a state is one file or hierarchy"),
    "P01": dict(harnesses=["p01", "p01b"], libs="dpg", level="model_checking",
                rule="topologies x corner renumberings x edge orientations x all products of up to two components (14 kinds) and all kinds of three, factories used twice; "
                     "all pairs of trial/test component x block position x form x coefficient; edge selections; the primal, adapted and ultraweak DPG studies x exact solutions x degrees x coefficients x cell types x levels; a state is one product, form, selection or run"),
    "P02": dict(harnesses=["p02"], libs="ipdg", level="model_checking",
                rule="annuli: all sizes up to 8x4 x radii x centres x setter orders; all triangles on a 4x4 lattice; triangle meshes x corner and node renumberings x edge "
                     "orientations x penalties x forces x boundary data x unit solution vectors x fields; a state is one builder call, triangle, system or norm"),
    "P03": dict(harnesses=["p03"], libs="fisher", level="model_checking",
                rule="affine meshes x corner renumberings x edge orientations x coefficients x boundary terms x non-local matrices x final times x "
                     "step counts x growth rates x initial data; entity selections x integrands x rules; a state is one run or integral"),
}
# meshes far larger than the complete range (cells in every position, buffers and counters of every size)
for _k in "M01 M02 A01 A03 F02 F03 F04 F05 I01 I04 I05 P01 P02 P03 R01 R02 R04".split():
    CHECKS[_k]["rule"] += ("; in addition a bounded family of large meshes (distorted grids of triangles, quadrilaterals or both, fans, chains of "
                           "disconnected pieces x 12 variants of numbering, declared edges and geometry)")
for _k in "M01 M02 A01 A03 A04 I01 I04 R01 R02".split():
    CHECKS[_k]["rule"] += "; sizes beyond 65536 entities or unknowns"
for _k in "R01 R02 R04".split():
    CHECKS[_k]["rule"] += "; long histories: periodic words of up to ten steps over nine marking patterns"
