"""Which harness cases decide which property, within which bounds; the property texts (properties.jsonl and MANIFEST.json are generated by gen.py)."""
COMMON_ASSUMPTIONS = [
    "Arithmetic is exact real arithmetic: obligations carry an absolute tolerance that absorbs the rounding of constants; rounding error of the double-precision execution itself is outside the claim.",
    "Every divisor is non-zero and every square-root argument non-negative on the path, except where an obligation of kind 'finite' decides exactly that.",
    "clang -O1 without fast-math and FP contraction; configuration of the registered build (Kokkos serial, MPI, Trilinos, Exodus headers).",
]
KOK = ["-L/usr/lib/x86_64-linux-gnu", "-l:libtrilinos_kokkoscore.so"]
EXES = {
    "tensor": {"src": "h_tensor.cc", "lib": []},
    "element": {"src": "h_element.cc", "lib": ["src/nimble_element.cc"], "libs": KOK},
    "material": {"src": "h_material.cc", "libs": KOK, "summaries": {"src/nimble_material.cc": "polar_summary.h"},
                 "lib": ["src/nimble_material.cc", "src/nimble_material_factory.cc", "src/nimble_material_factory_base.cc",
                         "src/nimble_kokkos_material_factory.cc"]},
}
FULL = ["STUB"] + KOK + ["-l:libtrilinos_teuchoscore.so", "-lexoIIv2c"]
EXES["contact"] = {"src": "h_contact.cc mpisim.cc", "lib": None, "libs": FULL}
PROPS = {}
NA = []
WHY = "The unit tests evaluate a handful of fixed numbers (a material point, one matrix inverse, one projection); none varies its inputs, so none reaches the quantifier: "


def prop(pid, title, statement, cases, bounds, qtext, why, files, mech, over=("inputs",), **kw):
    """cases: (exe, "name name ...") or (exe, "names", opts)"""
    cs = []
    for c in cases:
        for n in c[1].split():
            cs.append((c[0], n, c[2] if len(c) > 2 else {}))
    PROPS[pid] = dict(cases=cs, bounds=bounds, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech, **kw)


def na(pid, title, statement, reason, qtext, why, files, mech, over=("inputs",)):
    NA.append(dict(id=pid, title=title, statement=statement, reason=reason, over=list(over), qtext=qtext, why=why, files=files, mech=mech))


# ---- tensors and dense algebra --------------------------------------------------------------------------------------
prop("T01", "3x3 tensor algebra computes the mathematical operations",
     "For all finite 3x3 tensors in the documented storage order (full: XX YY ZZ XY YZ ZX YX ZY XZ, symmetric: XX YY ZZ XY YZ ZX), every tensor operation "
     "(products, scaled products, sums, squares A^T A and A A^T, norms, determinant, symmetric and skew parts, copies, cross product, the fourth-order "
     "Baker-Campbell-Hausdorff series) yields the result of the mathematical operation. "
     "Inverting a tensor of positive determinant yields a two-sided inverse and its determinant, and rotating a symmetric tensor into and out of a frame (R^T S R, "
     "R S R^T) gives the tensor back for every rotation and preserves its trace and norm.",
     [("tensor", "products rotate_roundtrip inverse inverse_small inverse_large bch")],
     "All 3x3 tensors with entries in [-10,10] (inverse: [-2,3], determinant >= 0.05, also scaled by 2^-17 and 2^17; BCH: [-1,1]); all rotations, through quaternions in [-2,2]^4 with squared norm >= 0.01.",
     "all tensors with bounded entries, all rotations", WHY + "all tensors.",
     ["src/nimble_utils.h"], [("tensor kernels", "src/nimble_utils.h")])
prop("T02", "Dense LU solve returns the solution of the system",
     "Solving a dense linear system in place, for every non-singular matrix and right-hand side and whatever order of pivots that takes, leaves in the right-hand side "
     "the vector x with A x = b.",
     [("tensor", "lu1 lu2 lu3 lu5")],
     "n = 1 and 2: all matrices with entries in [-2,2], squared determinant >= 0.01, every pivot order; n = 3: entries vary by +-0.1 around a base matrix under all six row permutations and both signs; the equations as they are, all scaled by 2^-35, or scaled by 2^24, 2^-20 and 2^3; n = 4 and 5: a fixed matrix in ten row orders; right-hand sides in [-5,5].",
     "all non-singular matrices of the stated sizes, all right-hand sides", "No unit test calls the dense solver; a fixed system exercises one pivot order.",
     ["src/nimble_utils.h"], [("LU_Decompose, LU_Solve, LU_SolveSystem", "src/nimble_utils.h")], opts={"branch_tmo": 15})

prop("T03", "Polar decomposition splits a gradient into a stretch and a rotation",
     "For every deformation gradient of positive determinant the polar decomposition used by the materials returns a symmetric positive definite left stretch and a proper rotation whose product is the gradient, "
     "whatever the rotation and also when principal stretches are close to each other or equal.",
     [("tensor", "polar1 polar9 cos_acos", {"taylor": True, "pairs_s": 5, "branch_tmo": 5, "obl_tmo": 10}), ("tensor", "polar_equal")],
     "Six stretches (principal stretches from 0.3 to 3.1, two of them with close principal stretches) times five rotations: the gradient along three directions up to 5 % (close stretches: 0.5 %) of a symbolic amount, and all nine components free within 1e-3 (1e-4); equal principal stretches at fixed gradients. "
     "The closed form for the eigenvalues, 4y^3-3y=x, over all of [0,1]. Tolerance 1e-6.",
     "all deformation gradients in the stated families", "The unit tests evaluate the material at one gradient without rotation.",
     ["src/nimble_utils.h"], [("Polar_Decomp, Eigen_Sym33_NonUnit, Cos_Of_Acos_Divided_By_3", "src/nimble_utils.h")])

# ---- element --------------------------------------------------------------------------------------------------------
EF = ["src/nimble_element.h", "src/nimble_element.cc"]
SH = "cube, a skew, a tapered, a twisted hexahedron and a thin plate far from the origin (not every shape for every obligation), every nodal coordinate free within %s (a fifth of it for the plate), plus a free common translation where stated in the harness"
prop("E01", "Lumped nodal masses of a hexahedron are positive and sum to density x volume",
     "For every non-degenerate 8-node hexahedron and every positive density the lumped nodal masses are positive, proportional to the density, sum to density times the exact "
     "trilinear volume wherever the element lies, and are equal for a rectangular brick. "
     "The host and the device variant give the same masses.",
     [("element", "mass_cube mass_skew mass_taper mass_twist mass_plate brick mass_skew_small mass_cube_large brick_small")],
     "Shapes around a " + SH % "+-0.15" + ", translations up to 100; bricks with sides 0.01..100; densities 0.01..100; the same with lengths, densities and stresses in small and large units (element sizes from 2^-14 to 2^11, densities from 1e-12 to 1e6, stresses up to 1e11).",
     "all hexahedra in the stated neighbourhoods, all densities", WHY + "element mass is not tested at all.", EF,
     [("HexElement::ComputeLumpedMass, ComputeConsistentMass", "src/nimble_element.h")])
prop("E02", "Deformation gradients are exact for affine motions and compose",
     "For every reference hexahedron and every affine motion x -> A x + b the deformation gradient at every integration point is A, in the documented full-tensor storage order; "
     "for general nodal motions applied one after the other the gradients multiply. "
     "The variant that takes reference coordinates and displacements gives the same gradients as the one that takes reference and current coordinates.",
     [("element", "defgrad_cube defgrad_skew defgrad_twist defgrad_plate compose_dg defgrad_skew_small defgrad_cube_large")],
     "Shapes around a " + SH % "+-0.1" + ", translation up to 10, A within 0.5 of the identity, b up to 10; composition: affine images of the cube with two free nodal offsets and 24 free displacements up to 0.3; element sizes of 2^-14 and 2^11 too.",
     "all reference shapes, affine and nodal motions within the bounds", WHY + "the gradient is not tested.", EF,
     [("HexElement::ComputeDeformationGradients", "src/nimble_element.h"), ("host wrapper", "src/nimble_element.cc")])
prop("E03", "Element nodal forces are self-equilibrated and power-conjugate to strain rate",
     "For every hexahedron and every stress at the integration points, the eight nodal forces have zero resultant and zero moment, and their power on any nodal velocity is minus the "
     "volume-weighted stress power of the velocity gradient at the integration points. "
     "For a uniform stress each nodal force is minus the stress times the derivative of the element volume with respect to that node, and the host and device variants give the same forces.",
     [("element", "forces_cube forces_skew forces_taper forces_plate patch_cube patch_flat power_cube power_skew power_flat forces_skew_small patch_cube_small power_skew_small power_skew_large")],
     "Shapes around a cube, a skew hexahedron and a flat brick, nodal coordinates free within +-0.1 (power on the skew and flat shapes: fixed shape), all 48 stress components in [-10,10], all velocities in [-1,1]; the same for element sizes of 2^-14 and 2^11 and stresses up to 1e11.",
     "all shapes in the stated neighbourhoods, all stresses and velocities", WHY + "nodal forces are not tested.", EF,
     [("HexElement::ComputeNodalForces", "src/nimble_element.h")])
prop("E04", "The element tangent stiffness is the linearisation of the nodal forces",
     "For every hexahedron and every symmetric material tangent, the element stiffness times any nodal displacement is minus the nodal force caused by the stress that the tangent assigns "
     "to the small strain of that displacement. "
     "The stiffness is symmetric and resists neither rigid translations nor infinitesimal rotations.",
     [("element", "tangent_cube tangent_aff_cube tangent_sym_aff_cube tangent_sym_skew tangent_skew_small tangent_cube_large", {"chunk": 48})],
     "Affine images A X of the cube with A within 0.2 of the identity and one tangent for all points; one perturbed cube and one perturbed skew hexahedron with a separate tangent per point; tangents with entries in [-10,10], displacements in [-1,1]; the same for element sizes of 2^-14 and 2^11 and tangents up to 1e11.",
     "all tangents and displacements, the stated shapes", WHY + "the element tangent is not tested.", EF,
     [("HexElement::ComputeTangent", "src/nimble_element.cc")])
prop("E05", "Element volumes and volume averages are exact and consistent",
     "For every hexahedron the computed volume is the exact trilinear volume, and the volume average of integration-point data is their mean with positive weights that sum to the volume "
     "and do not depend on the data, so a constant averages to itself. "
     "The scalar, full-tensor and symmetric-tensor variants on host and device agree.",
     [("element", "volavg_cube volavg_skew volavg_taper volavg_twist volavg_plate volavg_skew_small volavg_cube_large")],
     "Shapes around a " + SH % "+-0.1" + ", translation up to 10; 9 quantities per point in [-10,10]; the same with lengths, densities and stresses in small and large units (element sizes from 2^-14 to 2^11, densities from 1e-12 to 1e6, stresses up to 1e11).",
     "all shapes in the stated neighbourhoods, all data", WHY + "volume averages are not tested.", EF,
     [("HexElement::ComputeVolumeAverage, ComputeVolume, ComputeVolumeAverageFullTensor/SymTensor", "src/nimble_element.h")])
prop("E06", "The characteristic length is the shortest extent or node distance of the element",
     "For every hexahedron the characteristic length is the smallest of its node-to-node distances and its extents along the three axes, wherever the element lies. "
     "It is positive, does not change under translation and scales with the element.",
     [("element", "charlen0 charlen1 charlen2 charlen3")],
     "Four generic shapes in which the x, y, z extent and a node distance are the shortest length in turn, each nodal coordinate free within +-0.012, translations up to 100, scale factors 2^-14, 0.5, 3, 10, 2^13.",
     "all shapes in the stated neighbourhoods, all translations", WHY + "no test computes a characteristic length; the defect repaired in 6445181 needed an element in the negative octant.", EF,
     [("HexElement::ComputeCharacteristicLength", "src/nimble_element.cc")])

# ---- materials ------------------------------------------------------------------------------------------------------
MF = ["src/nimble_material.h", "src/nimble_material.cc"]
prop("M01", "The elastic material implements Hooke's law and its tangent",
     "For every deformation gradient, bulk and shear modulus, the elastic stress is 2G eps + (K - 2G/3) tr(eps) I for the small strain eps of that gradient, at every integration point and whatever "
     "the previous state and times. "
     "The material tangent is the corresponding isotropic matrix (for both material models at the reference state), tangent times strain reproduces the stress, and the host and device entry points agree; "
     "the moduli and the density are reported as given.",
     [("material", "elastic neo_tangent elastic_si elastic_tiny neo_tangent_si")],
     "Gradients with entries in [-5,5], moduli and density in [0.01,100] and the same in units 2^30 (pascals) and 2^-30 of that, 2 integration points.", "all deformation gradients, moduli, previous states",
     WHY + "the material tests run one material point and check that the calls succeed.", MF, [("ElasticMaterial::GetStress, GetTangent", "src/nimble_material.cc")])
prop("M02", "The neo-Hookean material implements its law and is frame indifferent",
     "For every stretch V and rotation R the Cauchy stress at F = V R is K/2 (J - 1/J) I + G/J J^(-2/3) dev(V V), with J = det V: it does not depend on R, on the previous state or the times, and vanishes at F = I. "
     "All integration points and the host and device entry points follow the same law, and the moduli and the density are reported as given.",
     [("material", "neo_identity neo_small neo_large neo_rot neo_squeeze neo_small_si neo_small_tiny neo_tangent")],
     "Stretches V = (1 or 2.5) I + E with |E_ij| <= 0.25 and V = 0.3 I + E with |E_ij| <= 0.03, rotations from quaternions in [0.5,1.5]x[-1,1]^3, moduli in [0.01,100] (and 2^30 and 2^-30 times that), 2 integration points. The polar decomposition inside the law is replaced by its contract (F = V R) in the symbolic run.",
     "all stretches, rotations, moduli within the bounds", WHY + "the material tests run one material point and check that the calls succeed.", MF,
     [("NeohookeanMaterial::GetStress", "src/nimble_material.cc")],
     assumptions=["The polar decomposition returns the left stretch V and rotation R of its argument (see T03); replays run the real decomposition."])
prop("M03", "Material input lines define exactly the material they name",
     "A material line 'model key value key value ...' with the known parameters in any order and spacing creates the named model with exactly those values, on the host and on the device factory. "
     "A line with an unknown model name, an unknown parameter, a parameter without a value, or a missing required parameter is refused with an exception.",
     [("material", "parse_host parse_device")],
     "Both models, three parameters in all 6 orders, three spacings, parameter values symbolic in [1e-3,1e4]; four kinds of defective line (seven unknown names in each position, four unknown models, any parameter missing, last value missing).", "all parameter values, orders, spacings",
     "The unit tests parse one elastic line and register synthetic parameters; order, spacing and values are fixed.",
     ["src/nimble_material_factory_base.cc", "src/nimble_material_factory.cc", "src/nimble_kokkos_material_factory.cc", "src/nimble_material.h"],
     [("MaterialFactoryBase::ParseMaterialParametersString", "src/nimble_material_factory_base.cc")], over=("inputs", "configurations"))

# ---- contact --------------------------------------------------------------------------------------------------------
CF = ["src/nimble_contact_manager.cc", "src/nimble_contact_manager.h", "src/nimble_contact_entity.h", "src/nimble_contact_interface.h"]
prop("C01", "Node-triangle projection: right point, gap, and contact verdict",
     "For every triangle and node position, the projection reports contact exactly when the node's foot on the plane lies in the triangle and the signed distance to the plane is negative but smaller in size "
     "than the triangle's characteristic length. The reported gap is that signed distance along the outward unit normal, and the barycentric coordinates and the closest point are those of the foot. "
     "The closest-point projection returns the point of the triangle nearest to the node.",
     [("contact", "proj_full_0 proj_full_1 proj_full_2 proj_full_3 proj_simple_0 proj_simple_1 proj_simple_2 proj_simple_3 proj_full_sim0 proj_simple_sim1 closest0 closest3"),
      ("contact", "closest1 closest2", {"thorough": True})],
     "Four triangles (acute, obtuse, needle, axis-parallel), also scaled by 2^-13, 1/4, 1, 3, 2^13 and translated by up to 20 sizes; the node anywhere with barycentric coordinates in [-1,2] ([-2,3] for the closest point) and height up to 1.5 times the "
     "normal vector, characteristic length in [0.05,2]. A band of 1e-7 just outside the triangle limits, where the code's tolerance decides, is left open.",
     "all node positions and characteristic lengths for the stated triangles", WHY + "one test projects three points onto one right triangle.", CF,
     [("ContactManager::Projection, SimpleClosestPointProjectionSingle, ClosestPointProjectionSingle", "src/nimble_contact_manager.cc")])
prop("C02", "Contact forces follow the penalty law, balance, and act on the right nodes",
     "For a node at gap g < 0 of a triangle with unit normal n, the penalty force on the node is -penalty*g*n and the opposite force is shared among the nodes of the face according to the barycentric coordinates "
     "(the triangle's third corner passes a quarter of its share to each of the four face nodes), so the resultant and the moment vanish and no other node receives a force. "
     "The contact manager evaluates this at the displaced positions for every pair in contact, clears the forces of earlier evaluations, adds each result to the right degrees of freedom, reports the active nodes and faces, and refuses a penalty that is not positive. "
     "In the interface that receives the projected point instead of barycentric coordinates, a node touching several faces divides its force among them.",
     [("contact", "penalty penalty_small penalty_large penalty_legacy"), ("contact", "manager0 manager1", {"max_decisions": 6000, "chunk": 100})],
     "One quadrilateral face, every corner coordinate free within +-0.1, each of its four triangles, all barycentric coordinates in the triangle, gap in [-1,0], penalty in [0.1,1000], earlier forces in [-5,5], also with lengths in units of 2^-13 and 2^11 and stiffness in units of 2^32 and 2^-24; "
     "contact manager: two hexahedra pressed into each other by displacements from a small symbolic family, one or two evaluations.",
     "all faces, positions, gaps and penalties within the bounds", WHY + "no test evaluates a contact force.", CF,
     [("PenaltyContactEnforcement::EnforceContact, ContactManager::ComputeContactForce, ApplyDisplacements, GetForces", "src/nimble_contact_interface.h, src/nimble_contact_manager.cc")])
prop("C03", "Contact faces survive serialization between ranks unchanged",
     "Unserializing the buffer that holds any number of serialized contact faces yields the same faces in the same order: identifier, node map, geometry, bounding box and characteristic length, with zero force, and writes nothing beyond them.",
     [("contact", "serial")],
     "0 to 3 faces, coordinates free within +-0.01 of three generic triangles, characteristic length in [0.1,2], large identifiers.",
     "all coordinates and lengths within the bounds", WHY + "serialization of contact entities is not tested.", CF,
     [("SerializeContactFaces, UnserializeContactFaces, ContactEntity::ExportGeometryInto", "src/nimble_contact_entity.cc")])
prop("C04", "Bounding boxes enclose what they bound",
     "The bounding box of every contact node or triangle is the smallest axis-parallel box of its corners widened on each side by 0.15 characteristic lengths, also after its coordinates are updated through the node map, and its centroid is the mean of its corners. "
     "The contact manager's bounding box is exactly the box of all contact node positions, and its average length is the longest edge of that box.",
     [("contact", "boxes manager_box")],
     "Nodes, triangles, and entities moved through a 6-node coordinate vector; coordinates along one axis at a time symbolic in [-5,5] (manager: up to 3 nodes in [-50,50]), characteristic length in [0.05,3], all of it in units of 1, 2^-20 and 2^20 (manager: 2^16).",
     "all coordinates along each axis", WHY + "bounding boxes are not tested.", CF,
     [("ContactEntity::SetBoundingBox, SetCoordinates; ContactManager::BoundingBox", "src/nimble_contact_entity.cc, src/nimble_contact_manager.cc")])
prop("C05", "Contact entities are exactly the skin of the contact blocks",
     "For every mesh and numbering, the faces of the contact manager are the faces that occur once among the elements of the primary blocks, each split into four outward-oriented triangles around its centre, "
     "and its nodes are the distinct nodes on the faces that occur once among the elements of the secondary blocks. "
     "Identifiers are unique and encode element, face and triangle, characteristic lengths are the longest edges of the faces, and the triangles enclose the volume of the blocks. "
     "On several ranks a face between two ranks is not skin, and the ranks together hold each face triangle and each secondary node once.",
     [("contact", "skin0 skin1 skin2 skin_mpi2 skin_mpi3 skin_mpi_glued", {"max_decisions": 6000, "chunk": 100})],
     "Two single elements in all 24 orientations, two pairs of elements in 24 orientations, an L of three elements in two blocks glued to a secondary element; 2 and 3 ranks with 3 and 4 elements per side in three distributions, rank schedules ascending, descending and freely chosen for three steps. "
     "Node coordinates free within +-0.0005 of generic positions (displacing the nodes does not change the topology).",
     "all coordinates in the stated neighbourhoods, all orientations, distributions and schedules listed", WHY + "skinning is not tested.",
     CF + ["src/nimble_vector_communicator.h"], [("ContactManager::SkinBlocks, CreateContactEntities, CreateContactNodesAndFaces, RemoveInternalSkinFaces", "src/nimble_contact_manager.cc")],
     over=("inputs", "schedules", "configurations"))
prop("C06", "The contact command is read exactly and refused when malformed",
     "A contact command 'primary_blocks <names> secondary_blocks <names> penalty_parameter <value>' (or with master_blocks and slave_blocks) yields exactly those block names in order and that value. "
     "A command in which one of the three keywords is missing or misspelt is refused with an exception.",
     [("contact", "command")],
     "One to three block names on each side, four spellings of each of the block keywords, three of the penalty keyword, penalty value symbolic in [1e-6,1e12].",
     "all penalty values, all listed keyword combinations", WHY + "the contact command is not tested.", CF + ["src/nimble_contact_interface.h"],
     [("ParseContactCommand", "src/nimble_contact_manager.cc")], over=("inputs", "configurations"))

# ---- boundary conditions --------------------------------------------------------------------------------------------
EXES["expr"] = {"src": "h_expr.cc", "lib": ["src/nimble_expression_parser.cc"], "libs": KOK}
prop("B02", "Expressions in x, y, z, t evaluate to the algebra they are written as",
     "An expression over x, y, z, t, numerals (also with exponents) and e, pi, tau, built from + - * / ^, unary minus, the named functions, parentheses, and conditionals 'c ? a : b' over comparisons and & | ^ !, "
     "evaluates at every point and time to the value that ordinary algebra gives it: * and / bind tighter than + and -, ^ tighter still, operators of equal rank (except ^) group from the left, blanks do not matter. "
     "Text that is no such expression is refused with an exception; a refused assignment leaves the functor as it was, and copies evaluate independently.",
     [("expr", "two three minus functions rounding numbers conditions logic refused copies")],
     "All trees of up to three binary operators (two with unary minus in front of any operand), four layouts (compact, blanks, redundant parentheses), leaves variables, numerals of symbolic value or 14 fixed spellings of numerals; "
     "17 functions in six contexts; conditionals nested twice; variables and numerals in [0.5,2] (functions: [0.3,0.9]; rounding: [0.3,1.7]). Remainders (%) and a leading minus at the base of a power only with parentheses.",
     "all values of x, y, z, t and of the numerals", "No unit test parses an expression.",
     ["src/nimble_expression_parser.h", "src/nimble_expression_parser.cc"], [("EquationContext::ParseEquation, ParseOperation, ParseFunction, optimize", "src/nimble_expression_parser.h")], over=("inputs", "configurations"))
EXES["bc"] = {"src": "h_bc.cc", "lib": ["src/nimble_expression_parser.cc", "src/nimble_boundary_condition.cc", "src/nimble_boundary_condition_manager.cc", "src/nimble_linear_solver.cc"],
              "libs": ["STUB"] + KOK}
prop("B01", "Boundary and initial conditions act on exactly the nodes and components named",
     "For every list of boundary conditions and every reference position, displacement, velocity and time: an initial velocity sets the named component of the velocity of exactly the nodes of the named node set; "
     "a kinematic condition sets there the prescribed velocity or, over a positive time step, the velocity that carries the displacement to the prescribed value by the end of the step. "
     "Under the quasistatic scheme the displacement itself is advanced by velocity times step, or set to the prescribed value. Values are numbers or expressions evaluated at the node's reference position and the current time (0 for initial conditions); "
     "off-nominal velocities receive the same initial and prescribed velocities; nothing else changes, and of conditions on the same component the later one wins. "
     "In the linear system the row and column of every kinematically constrained unknown become zero apart from the given diagonal, its right-hand side becomes zero, and all other entries stay. "
     "A condition on a node set that is absent does nothing; one of unknown type or coordinate, with unbalanced quotes or a malformed expression is refused.",
     [("bc", "initial initial2d kinematic_explicit kinematic_static kinematic2d_explicit repeat system refused")],
     "Five nodes, seven node sets (overlapping, empty, one name a prefix of another, names that differ in case only), up to three conditions of every type with constants and three kinds of expression, 2 and 3 dimensions, all components of position, displacement and velocity in [-3,3], "
     "values in [0.1,3] and their negatives, times in [-1,2], steps 0, in [0.01,1] or 2^-31 times that; dense and sparse matrices of 10 and 15 unknowns.",
     "all positions, displacements, velocities, times and values", "No unit test applies a boundary condition.",
     ["src/nimble_boundary_condition.cc", "src/nimble_boundary_condition_manager.h", "src/nimble_boundary_condition_manager.cc"],
     [("BoundaryCondition::Initialize", "src/nimble_boundary_condition.cc"), ("BoundaryConditionManager::ApplyInitialConditions, ApplyKinematicBC, Modify...ForKinematicBC", "src/nimble_boundary_condition_manager.h, src/nimble_boundary_condition_manager.cc")],
     over=("inputs", "configurations", "histories"))

# ---- time integration -----------------------------------------------------------------------------------------------
EXES["run"] = {"src": "h_run.cc exosim.cc mpisim.cc", "lib": None, "libs": FULL}
RUNF = ["src/nimble.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_kokkos_block.cc", "src/integrators/explicit_time_integrator.cc", "src/nimble_data_manager.cc"]
RUN = "The whole application runs: NimbleApplication::Run with an input deck and an in-memory Exodus mesh, symbols passing through the text of the deck. "
WHYR = "The regression tests compare whole runs of one mesh with stored results, if the Exodus tools are there; no unit test runs the application. "
prop("X01", "Explicit runs follow the central difference scheme",
     "An explicit run of n load steps over [t0, t1] advances in n equal steps h: the velocity gains h/2 times the acceleration, kinematic conditions evaluated at the end of the step are imposed, the displacement gains h times the half-step velocity (or takes its prescribed value), "
     "forces are evaluated once at the new displacement, the acceleration becomes (internal + external + contact force) / lumped mass, and the velocity gains h/2 times that. It starts from rest apart from the initial velocities and the velocities prescribed at the initial time. "
     "Contact is evaluated once per step at the new displacement and its force reaches every node it acts on. Results are written at the start, after step 1, 1+f, 1+2f, ... for output frequency f, and after the last step, with the times and values of those steps (frequency 0: only the start).",
     [("run", "central", {"max_decisions": 1500})],
     RUN + "Force and mass evaluation are replaced by arbitrary values: masses in [0.5,2], every internal, external and contact force component of every step in [-1,1]; t0 in [-1,1], duration in [0.1,2]; 8 nodes; "
     "1 to 5 steps with output frequencies 0 to 5 in seven combinations, with and without prescribed velocities and displacements (expressions in t), with contact for up to 3 steps. Velocities of nodes with a prescribed displacement are not examined.",
     "all forces, masses, times and prescribed values", WHYR, RUNF, [("ExplicitTimeIntegrator::Integrate", "src/integrators/explicit_time_integrator.cc")], over=("inputs", "histories", "configurations"))
prop("X02", "Free bodies keep their linear and angular momentum",
     "In an explicit run without boundary forces the linear momentum and the angular momentum about the origin (masses times velocities and positions as written to the output) keep their initial values, whatever the initial velocities, the materials and the mesh.",
     [("run", "momentum0_1_2 momentum1_1_2 momentum0_2_1 momentum4_2_2 momentum4_1_8m momentum0_1_24m", {"budget": 300}), ("run", "momentum3_3_1", {"thorough": True})],
     RUN + "Meshes of 1 to 4 distorted elements in 1 or 2 blocks, elastic material; up to 24 initial velocity components symbolic in [-0.5,0.5] over one step, 2 over two steps, 1 over three; densities and moduli symbolic in two cases.",
     "all initial velocities (and materials) in the bounds", WHYR, RUNF + ["src/nimble_element.cc"],
     [("ModelData::ComputeInternalForce", "src/nimble_kokkos_model_data.cc"), ("HexElement::ComputeNodalForces", "src/nimble_element.h")], over=("inputs", "configurations"))
prop("D03", "A run's fields are those of the finite element model",
     "At every output of an explicit run the written fields are those of the mesh with trilinear hexahedra and eight Gauss points: lumped masses are the consistent ones of the blocks' densities, internal forces are minus the assembled stress divergence of the block's material at the written displacement, "
     "and each element's volume, volume-averaged stress and deformation gradient, and those at each integration point, belong to that element of that block, under labels naming the components in the order of the code.",
     [("run", "fields0_1_2 fields1_1_2 fields1_1_2m fields2_1_2 fields3_1_2 fields1_1_4m fields1_1_8m fields3_2_1 fields4_1_8m")],
     RUN + "Meshes of 1 to 4 distorted elements in 1 or 2 blocks with unequal elastic materials; up to 8 initial velocity components symbolic in [-0.5,0.5] for one step, 1 for two steps; densities and moduli symbolic in four cases. Compared with an independent finite element model (harness/fe.h) at relative 1e-9.",
     "all initial velocities (and materials) in the bounds", WHYR, RUNF + ["src/nimble_element.cc", "src/nimble_element.h", "src/nimble_exodus_output.cc", "src/nimble_block_base.cc"],
     [("ModelData::ComputeInternalForce, ComputeLumpedMass, WriteExodusOutput", "src/nimble_kokkos_model_data.cc"), ("Block::ComputeDeformationGradients...", "src/nimble_kokkos_block.cc"), ("ExodusOutput::WriteStep", "src/nimble_exodus_output.cc")],
     over=("inputs", "configurations"))
EXES["uq"] = {"src": "h_uq.cc exosim.cc mpisim.cc", "lib": None, "libs": FULL, "flags": ["-DNIMBLE_HAVE_UQ"]}
prop("U01", "Samples of a run with uncertain parameters follow their own parameters",
     "In an explicit run with option --use_uq the nominal fields are those of an ordinary run; displacement, velocity and force of each exact sample are those of an ordinary run whose moduli are the nominal ones plus uncertainty times sample coordinate, "
     "assigned to blocks and parameters in the order of the deck's uq lines; each approximate sample's force is the given linear combination of the nominal and the exact samples' forces, and its velocity and displacement follow from it by the central difference scheme, "
     "under the same initial and prescribed velocities, on one rank as on several. A run with a block without uncertain parameters is refused.",
     [("uq", "one linear neohookean two_steps ranks ranks_mixed")],
     RUN + "Built with -DNIMBLE_HAVE_UQ, which the registered build leaves off. Two distorted elements in two blocks, three uncertain moduli in two orders, 1 or 2 exact and 0 to 2 approximate samples; one step with up to 8 symbols among moduli, uncertainties, sample coordinates and coefficients (elastic and neo-Hookean), two steps with one; the same run on two simulated ranks against the serial one. "
     "Prescribed displacements and uncertain densities, which do not reach the samples, are left out.",
     "all moduli, uncertainties, coordinates and coefficients in the bounds", WHYR + "The UQ code is not even compiled by the tests' build.",
     ["src/uq/nimble_uq.cc", "src/uq/nimble_uq_block.cc", "src/uq/nimble_uq_model_data.cc", "src/nimble_cli.cc", "src/nimble_model_data.cc"],
     [("UqModel::ReadSamples, ScaleParameters, ApplyClosure", "src/uq/nimble_uq.cc"), ("ModelData::ComputeInternalForce, UpdateWithNewVelocity, UpdateWithNewDisplacement", "src/uq/nimble_uq_model_data.cc"), ("Block::ComputeInternalForce", "src/uq/nimble_uq_block.cc")],
     over=("inputs", "configurations"))
prop("X04", "A run distributed over ranks gives the serial results",
     "However the elements of a mesh are distributed over 2 to 4 ranks, the run ends on every rank, no message stays unread, and every rank's output holds, for its nodes and elements under their global numbers, the values of the serial run: "
     "lumped masses, displacements, velocities, accelerations, internal and contact forces, volumes, stresses and deformation gradients, with conditions on node sets that ranks hold partly or not at all and contact forces contributed by any rank.",
     [("run", "ranks2 ranks3 ranks4 ranks_contact2"), ("run", "ranks2_2 ranks_contact3", {"thorough": True})],
     RUN + "Four elements in two blocks on 2, 3 or 4 simulated ranks, three distributions (of 4 ranks once two without any element), global numbers through the Exodus number maps or original_global_id_map, rank scheduling ascending, descending, or freely chosen at up to three points; "
     "one step (thorough: two), density and two prescribed values symbolic; contact enforcement replaced by arbitrary forces (symbolic in [-1,1]) on secondary nodes and primary faces of 2 (thorough: 3) ranks.",
     "all symbol values, all listed distributions and schedules", WHYR + "No test runs on more than one rank here.",
     RUNF + ["src/nimble_vector_communicator.h", "src/nimble.mpi.rank_clique_reducer.h", "src/nimble.mpi.reduction_utils.cc", "src/nimble_contact_manager.cc"],
     [("VectorCommunicator::VectorReduction", "src/nimble_vector_communicator.h"), ("ReductionClique_t", "src/nimble.mpi.rank_clique_reducer.h"), ("ContactManager::ComputeContactForce", "src/nimble_contact_manager.cc")],
     over=("inputs", "schedules", "configurations"))
prop("X06", "A time step above the stable one is reported",
     "An explicit run warns exactly when its time step (final minus initial time over the number of load steps) exceeds the stable time step of the mesh, the least over all elements of all blocks and all ranks of the element's shortest node distance divided by the speed of sound sqrt(bulk modulus / density) of its block's material, and reports both time steps.",
     [("run", "step1 step2 step3")],
     RUN + "Four elements in two blocks with different materials on 1 to 3 ranks in three distributions (blocks missing on some ranks), any of them the smallest; one bulk modulus or one density, initial time and duration symbolic, one or two steps; the printed numbers are examined to 1e-4.",
     "all times, moduli and densities, all listed meshes and distributions", WHYR + "The limit depends on every element of the mesh.", RUNF + ["src/nimble_block_base.cc"], [("ExplicitTimeIntegrator::Integrate", "src/integrators/explicit_time_integrator.cc"), ("BlockBase::ComputeCriticalTimeStep", "src/nimble_block_base.cc"), ("ModelData::ComputeLumpedMass", "src/nimble_kokkos_model_data.cc")],
     over=("inputs", "configurations"))
prop("C07", "The contact picture shows every contact entity where it is and its state",
     "The contact visualization database of a run holds one triangle for each quarter of each skin face of the primary blocks and one point for each skin node of the secondary blocks, at their reference positions, under node and element numbers that are unique over all ranks. "
     "It has a step for every step of the results, with the same time; there every node's displacement is the one the results hold for its mesh node (for the centre of a face: the mean of the face's four nodes), the contact status of each triangle and point is that of the last evaluation of contact, and the number of contacts is that of the triangles in contact.",
     [("run", "picture1 picture2", {"max_decisions": 3000, "taylor": True, "pairs_s": 5})],
     RUN + "Two blocks of three and one distorted elements, three steps, output frequency 1 or 2, serial and on two ranks (two distributions, one where each rank holds one block only; three rank schedules); the search is replaced by one that sets a known pattern of contact states and forces; initial velocities of a one-parameter family, the parameter symbolic in [-0.5,0.5].",
     "all initial velocities, all listed configurations", "No test enables contact visualization.", ["src/nimble_contact_manager.cc", "src/nimble_contact_manager.h", "src/integrators/explicit_time_integrator.cc"],
     [("ContactManager::InitializeContactVisualization, ContactVisualizationWriteStep", "src/nimble_contact_manager.cc")], over=("inputs", "schedules", "configurations"))
EXES["io"] = {"src": "h_io.cc exosim.cc mpisim.cc", "lib": ["src/nimble_parser.cc", "src/nimble_genesis_mesh.cc", "src/nimble_exodus_output.cc", "src/nimble_cli.cc"], "libs": FULL}
IOF = ["src/nimble_parser.cc", "src/nimble_parser.h", "src/nimble_cli.cc", "src/nimble_genesis_mesh.cc", "src/nimble_genesis_mesh.h", "src/nimble_exodus_output.cc", "src/nimble.cc"]
prop("I01", "An input deck means exactly what it says, and nonsense is refused",
     "Every 'key: value' line of an input deck sets the setting its key names to its value and no other setting; absent keys leave the documented defaults. Order, blank lines, indentation, trailing blanks, comments (from # on) and line length do not matter; a repeated key overrides, "
     "boundary conditions accumulate in order, and an element block gets the parameters of the material named for it. Unknown keys, malformed switches, a malformed contact visualization command and unreadable files are refused with an exception. "
     "The file of a rank is the given path without its .g or .e suffix, plus label and extension, plus '.N.r' with r padded to the width of N when there are N > 1 ranks. The command line accepts an existing input file and exactly the options given take effect.",
     [("io", "values repeat switches visualization refused lengths names cli")],
     "Decks of up to 19 commands in 14 layouts, forwards and backwards, three groups of keys absent; times and tolerance symbolic ([-5,50], [1e-9,1]); 14 spellings of switches; lines of up to 5000 characters; 12 paths, up to 1024 ranks. "
     "Not examined: tabs or several blanks inside a command, file names containing '.g' or '.e' before the suffix.",
     "all times and tolerances, all listed texts", "No unit test reads an input deck.", IOF,
     [("Parser::ReadFile, ParseKeyValue; IOFileName, IOFileNameThreadSafe", "src/nimble_parser.cc"), ("CommandLineConfiguration", "src/nimble_cli.cc")], over=("inputs", "configurations"))
prop("I02", "A mesh is read exactly as the file describes it",
     "Reading an Exodus mesh gives its dimension, node coordinates, global node and element numbers (from the number maps or, if present, the auxiliary maps original_global_id_map; 0-based), all blocks and those with elements, their names (or block_<id>), connectivity, element types and the global numbers of their elements, "
     "and every node set and side set with name (or nodelist_<id>, sideset_<id>), members and distribution factors, whatever the number of factors. Other auxiliary maps and missing files are refused. A text mesh gives the same. The bounding box of the mesh is that of its nodes.",
     [("io", "mesh mesh_refused text_mesh memory_mesh extent")],
     "Meshes of 11 nodes with coordinates symbolic in [-10,10], in 2 and 3 dimensions, 1 to 4 blocks (empty ones among them) of four element types, five combinations of number maps, up to 4 node sets and 3 side sets; bounding box of up to 3 nodes along one axis at a time.",
     "all coordinates and factors, all listed structures", "No unit test reads a mesh.", IOF, [("GenesisMesh::ReadFile, ReadTextFile, BoundingBox", "src/nimble_genesis_mesh.cc")], over=("inputs", "configurations"))
prop("I03", "The results database holds the mesh and the data given",
     "The database written by ExodusOutput describes the mesh it was given (dimension, coordinates, blocks with and without elements, names, connectivity, global numbers, node sets and their factors), so that reading it back gives the same mesh, "
     "and each written step holds, under its time, exactly the global, nodal and per-block element values given under their names, also when blocks have different fields or a name is shared between blocks. Every call is one the Exodus library accepts. Results written as text (builds without Exodus) hold the same, and the mesh in them can be read back.",
     [("io", "written text_written")],
     "The meshes of I02 with node sets, 1 to 3 steps, four plans of fields (global values, no nodal values, blocks without fields, shared names); all coordinates, times and values symbolic.",
     "all values, all listed structures", "No unit test writes a database.", IOF, [("ExodusOutput::InitializeDatabase, WriteStep, InitializeDatabaseTextFile, WriteStepTextFile", "src/nimble_exodus_output.cc")], over=("inputs", "configurations"))
EXES["mpi"] = {"src": "h_mpi.cc mpisim.cc", "lib": ["src/nimble.mpi.reduction.cc", "src/nimble.mpi.reduction_utils.cc"], "libs": FULL}
prop("R01", "Sums over ranks are exact for any distribution of nodes",
     "However the nodes of a mesh are distributed over ranks (any subsets, ranks without nodes, any global numbering and local order), a reduction of a field with 1, 2 or 3 components, by array or by accessor, gives every rank, for each of its nodes, the sum of the values of all ranks holding that node, "
     "leaves other nodes alone, can be repeated, always finishes whatever the timing of the ranks, and leaves no message behind; other component counts are refused. The boundary nodes are exactly the nodes held by several ranks, each once, with the lowest of these ranks. "
     "The helpers around it deliver what was sent: gather, scatter, all-gather, broadcast, joined texts, split communicators, packed objects, dense renumbering, largest id, nodes per rank, grouping by key.",
     [("mpi", "sums2 sums3 schedules2 boundary3 numbering2 numbering3 collect1 collect2 collect3 packed group"), ("mpi", "sums4 schedules3 boundary4", {"max_paths": 3500}), ("mpi", "sums3wide sums5", {"thorough": True, "max_paths": 6000})],
     "The real reduction code on simulated ranks (coroutines; MPI replaced by a simulator that checks that collectives match): every distribution, up to renaming, of 4 nodes over 2 ranks, 3 over 3 and 4 (thorough: 5 over 3, 2 over 5), three numberings and local orders, two reductions in a row; "
     "schedules: up to 4 free switches between ranks, up to 2 'not yet' answers of MPI_Test; contributions symbolic in [-10,10]. Sums in real arithmetic. The Tpetra communicator is outside.",
     "all contributions, all listed distributions and schedules", "No test runs on more than one rank here, and the set of ranks sharing a node has exponentially many shapes.",
     ["src/nimble_vector_communicator.h", "src/nimble.mpi.reduction.h", "src/nimble.mpi.reduction.cc", "src/nimble.mpi.rank_clique_reducer.h", "src/nimble.mpi.reduction_utils.h", "src/nimble.mpi.reduction_utils.cc", "src/nimble.mpi.mpicontext.h", "src/nimble.mpi.serialization.h", "src/nimble.quanta.h", "src/nimble.quanta.arrayview.h"],
     [("VectorCommunicator::VectorReduction, GetPartitionBoundaryNodeLocalIds", "src/nimble_vector_communicator.h"), ("ReductionInfo, fill_clique_lookup", "src/nimble.mpi.reduction.h"), ("ReductionClique_t", "src/nimble.mpi.rank_clique_reducer.h"), ("mpicontext", "src/nimble.mpi.mpicontext.h")],
     over=("inputs", "schedules", "configurations"))
EXES["fault"] = {"src": "h_fault.cc exosim.cc mpisim.cc", "lib": None, "libs": FULL}
prop("X05", "Storage errors and unusable inputs end a run with an error",
     "Whichever call to the mesh and results library fails during a run, while the mesh is read, the results file created or a step written, the run stops with an error instead of ending normally, and the steps stored before stay complete and as an undisturbed run stores them; without a failure the run ends normally. "
     "A run is refused with an error when the mesh is missing or not named, a mesh block has no or an undefined material or two materials, a material has an unknown model, lacks a parameter it needs, has an unknown one or one without a value, "
     "a boundary condition has an unknown kind or coordinate or a malformed expression, the time integration scheme is unknown, the final time is negative, or the elements are not hexahedra.",
     [("fault", "storage refused", {"max_paths": 400})],
     RUN + "One mesh of two blocks, two steps, one symbolic initial velocity; a failure of each single library call of the run (over 100) with two error codes; 23 defective decks and meshes. "
     "Not examined: positive (warning) return codes, several failures, failures of the deck file itself, numbers that are not numbers in the deck.",
     "all values, every single failing call", "No test makes the library fail.",
     ["src/nimble_genesis_mesh.cc", "src/nimble_exodus_output.cc", "src/nimble.cc", "src/nimble_parser.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_material_factory_base.cc", "src/nimble_kokkos_material_factory.cc", "src/nimble_boundary_condition.cc"],
     [("ReadFile, ReportExodusError", "src/nimble_genesis_mesh.cc"), ("InitializeDatabase, WriteStep", "src/nimble_exodus_output.cc"), ("NimbleApplication::Run", "src/nimble.cc")], over=("fault_sequences", "inputs", "configurations"))

EXES["static"] = {"src": "h_static.cc exosim.cc mpisim.cc", "lib": None, "libs": FULL}
prop("X03", "Quasi-static runs end in equilibrium or report failure",
     "A quasi-static run that ends normally stores at every load step displacements, nodal forces, stresses and deformation gradients that belong together: forces and element fields are those of the finite element model at the stored displacements, prescribed unknowns have their prescribed values, velocities are those prescribed, "
     "and the out-of-balance force on the free unknowns (its Euclidean norm plus twenty times its largest entry) is at most the requested tolerance times the one at the start of the step. "
     "When that is not reached within the allowed number of iterations the run ends with an error and the state of that step is not stored.",
     [("static", "prescribed1 prescribed2"), ("static", "pulled2 pulled2far pulled2push pulled2soft pulled3 pulled3stiff pulled4 pulled2fail", {"pairs_s": 5, "branch_tmo": 2, "obl_tmo": 6, "taylor": True}), ("static", "pulled6", {"thorough": True, "taylor": True, "pairs_s": 5})],
     RUN + "prescribed: one and two skew elements of one or two materials, all unknowns prescribed by value, expression of time or velocity, two load steps, 6 prescribed values and the moduli symbolic. "
     "pulled: one step of a skew bar of two elements with 2 to 4 (thorough: 6) free unknowns, stretched or pushed by a symbolic amount from an interval of 1 to 20 % width, including large stretches where the full Newton step beats the line search, moduli of 1e-7 and 1e9, and one run that fails; the whole Newton, line search and conjugate gradient iteration is executed symbolically. "
     "Branches and the equilibrium inequality by Taylor models of the terms, handed to the solver as bounded monomials. Outside: boundary conditions other than prescribed displacement and velocity, more unknowns, arithmetic rounding.",
     "all prescribed values, moduli and stretches in the stated ranges", WHYR,
     ["src/integrators/quasistatic_time_integrator.cc", "src/nimble_model_data.cc", "src/nimble_block.cc", "src/nimble_block_base.cc", "src/nimble_linear_solver.cc", "src/nimble_boundary_condition_manager.cc", "src/nimble_element.cc", "src/nimble_material.cc"],
     [("QuasistaticTimeIntegrator::Integrate", "src/integrators/quasistatic_time_integrator.cc"), ("ModelData::ComputeInternalForce", "src/nimble_model_data.cc"), ("Block::ComputeInternalForce, ComputeDerivedElementData", "src/nimble_block.cc")])

EXES["lin"] = {"src": "h_lin.cc exosim.cc mpisim.cc", "lib": None, "libs": FULL}
prop("D04", "Sparse matrices keep their entries and conjugate gradients solve",
     "A sparse matrix returns for every entry of its pattern, empty rows included, the value put there and refuses every other entry; setting a row, a column or all values changes exactly those entries; its product with a vector is the mathematical one; the same holds for diagonal and dense matrices, also after a change of size. "
     "For symmetric positive definite systems the conjugate gradient solver produces the iterates of the preconditioned method from any starting vector, reaches the solution in as many steps as there are unknowns, stops at the first iterate whose preconditioned residual is within the tolerance, and reports failure when it runs out of steps.",
     [("lin", "crs rows diagonal dense cg_small"), ("lin", "cg_step1 cg_step1m cg_step1n3 cg_step2 cg_step3 cg_stop2 cg_stop3 cg_stop3u cg_stop4 cg_exact2 cg_exact3 cg_exact4", {"taylor": True, "pairs_s": 5, "branch_tmo": 3, "obl_tmo": 5, "poly_s": 10})],
     "Every pattern of 3 rows and 2 columns, every row and column to set, rows of up to 12 entries, diagonal matrices of up to 6 rows, dense ones of up to 3; entries and vectors symbolic. "
     "Conjugate gradients: 1 to 4 unknowns, up to 4 steps; forces in units of 1 and 2^25 and lengths of 1 and 2^-25, starts that already solve the system; right-hand side and start, or the matrix, or one parameter moving all of them symbolic; tolerances 1e-2 to 1e-4. Entry lists sorted by row and column, as the code creates them. Real arithmetic; the restart every 50 steps is only reached at the first step.",
     "all entries and right-hand sides in the stated ranges", "No test touches the sparse matrix or the solver.",
     ["src/nimble_linear_solver.h", "src/nimble_linear_solver.cc"],
     [("CRSMatrixContainer, MatrixContainer", "src/nimble_linear_solver.h"), ("CG_SolveSystem, FindIndex", "src/nimble_linear_solver.cc")], over=("inputs", "configurations"))
prop("D05", "The tangent matrix is the sum of the element tangents",
     "The sparsity pattern lists each pair of unknowns that share an element exactly once, in ascending order, and no other pair, for any mesh, blocks and numbering of the unknowns, also when several nodes share their equations. "
     "The matrix assembled by the blocks is the sum over all elements of the element tangent stiffness at the current coordinates, with the tangent of the block's material, at the rows and columns of the element's nodes; lumped masses and stable time step of a block are the sum over, and the least of, its elements.",
     [("lin", "pattern"), ("lin", "tangent_crs tangent_crs_u tangent_dense")],
     "One to three hexahedra sharing a face, edge, node or nothing, one or two blocks, identity, permuted and shared numbering; moduli or 6 displacements symbolic; sparse and dense matrix. The element tangent and the material tangent themselves: E04, M01.",
     "all moduli and displacements in the stated ranges, all listed meshes and numberings", "No test assembles a matrix.",
     ["src/nimble_mesh_utils.cc", "src/nimble_block_base.cc", "src/nimble_block.cc", "src/nimble_linear_solver.cc"],
     [("DetermineTangentMatrixNonzeroStructure", "src/nimble_mesh_utils.cc"), ("BlockBase::ComputeTangentStiffnessMatrix, ComputeCriticalTimeStep", "src/nimble_block_base.cc"), ("Block::ComputeLumpedMassMatrix", "src/nimble_block.cc")], over=("inputs", "configurations"))
