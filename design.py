"""The hand-written parts of DESIGN.md; gen.py joins them with the bounds of props.py, the findings and the seeded bugs."""
HEAD = """# Solver-based checking of NimbleSM

DESIGN.md is generated by `gen.py` from `design.py` (this text), `props.py` (bounds), `known_findings.txt` and `seeded/*/meta.json`.

## 1. Method

Every property is decided by **bounded symbolic execution of the compiled code** followed by **SMT queries** (`z3-new`; QF_NRA, QF_LRA).
No solver-backed C++ front end in the sandbox takes C++14 with Kokkos, Exodus and the STL (cbmc's C++ front end rejects the headers), so the encoding is
made from clang's intermediate representation by our own instrumentation:

* `engine/sympass.cpp` is an LLVM pass. It is run on every source of /repo (and on the harness) at compile time, on every run of a check
  (content-hash cache over source, headers, flags and engine in `/verif/build`). Every floating-point instruction, load, store, comparison, conversion, intrinsic
  and libm call also updates a *shadow*: a node of an expression DAG. Memory is shadowed byte for byte at word granularity, so symbols travel through
  containers, `memcpy`, MPI messages and the Exodus library's buffers. Text is covered too: a symbolic number printed by an `ostream` or a deck writer leaves a
  marker in the characters, and parsing these characters gives the symbol back, so decks are executed with symbolic numbers.
* `engine/symrt.cpp` is the runtime. It records for one path: the DAG, the branch conditions, the harness's assumptions, choices and obligations.
* `engine/se.py` expands a path: for each decision on symbolic data the negation together with the conditions before it is put to the solver. Flips that a concrete model of
  the path prefix shows feasible are taken at once, flips refuted by interval or Taylor bounds are dropped, all others go to z3. Feasible flips are re-executed with the model as inputs.
  Integers are not symbolic: discrete inputs (meshes, partitions, rank schedules, fault positions, layouts of a deck) are `choice` variables, each value of which is a branch.
  The paths together with the discrete choices cover the whole bounded input space, or the rest is counted as undecided.
* **Obligations** (`eq`, `le`, `lt`, `truth`, `finite`) are decided for *all* inputs of the path, in this order: syntactic identity of the normal form, exact rational normal form (`engine/polyeng.cpp`,
  multivariate polynomials and fractions over GMP; cross-checked by z3 on a sample of obligations), linear arithmetic over bounded monomials, NRA over the full terms, and, where
  switched on, Taylor models (multivariate polynomials with rigorous remainders, handed to z3 as bounded monomials) for terms with many divisions and iterations (Newton, conjugate gradients, line search).
* **A counterexample** (the solver's model) is replayed on a *plain*, uninstrumented build of the same sources and the same harness (`engine/replayrt.cpp`). Only what the plain build confirms becomes a
  VIOLATION line; the replay file holds the inputs (`python3 check.py --replay FILE`). Models that the plain build does not confirm (rounding) are listed in the evidence as unconfirmed. Abnormal ends
  (crash, signal, abort, endless loop) on a feasible path are violations as well.
* **Validation of the encoding**: in each run the default input of each case is executed on the plain build, and must meet the same obligations there. A re-execution that does not follow its prefix of decisions is reported as undecided.
* **Vacuity**: each case marks `reach` points; a case in which none is reached is named in the summary line. Undecided items are counted in the evidence and never reported as held ("exhaustive": false).

Stand-ins (in the harness, never in /repo): `harness/exosim.cc` replaces the Exodus II *library* by an in-memory store that checks calls for consistency and can fail any call; the reading and writing code of NimbleSM
is the real one. `harness/mpisim.cc` replaces the MPI *library* by a simulator on coroutines: all ranks run in one process, the schedule is ascending, descending or chosen (symbolic choice at bounded switch points), collectives must match,
deadlocks, leftover messages and wrong sizes are violations. Kokkos is the installed serial library; Tpetra is stubbed out.

Level "other" in MANIFEST.json: bounded, but for all values within the bounds. Three assumptions apply to every check: exact real arithmetic (tolerances absorb rounded constants; rounding of the
double execution is outside), non-zero divisors unless an obligation decides that, and the registered configuration (clang -O1, no fast-math; Kokkos serial, MPI, Trilinos headers, Exodus).

### Why this reaches what the tests cannot
The 11 stable tests are unit tests of fixed numbers. Nothing tests a whole run, a mesh, an output file, a rank distribution, contact or an expression. Every check below quantifies over inputs, and the X, D, R, C05, C07 and I checks also over meshes, rank distributions, schedules and faults.

### Files
`check.py` (one property), `props.py` (property texts, cases, bounds), `engine/` (pass, runtime, solver driver), `harness/` (one C++ harness per area, oracles independent of the code), `known_findings.txt`,
`tools/` (seeding, mutation testing, replay helpers; used by no check), `seeded/` (planted bugs; read by no check).

## 2. Properties
Cost: wall seconds of the quick command on an idle 8-core sandbox with the engine built (building all instrumented sources takes 17-50 s, by `setup_cmd` in advance; after a change of a source only that file is rebuilt).
"""
HOW = {
"T01": ("Oracle: textbook index formulas written over 3x3 arrays in the harness.", 8),
"T03": ("V R = F, R R^T = I, det R > 0, minors of V positive by Taylor models of the closed-form eigenvalue solution (rational functions and square roots); every pivot branch decided.", 26),
"T02": ("Oracle: A x - b = 0 on every pivoting path; pivot comparisons are branches.", 18),
"E01": ("Oracle: exact polynomial volume of the trilinear hexahedron; host and device variants are compared term by term.", 9),
"E02": ("Oracle: F = A for u = (A-I)X+b, and composition of two maps; divisions by the Jacobian are cleared exactly by the normal form.", 2),
"E03": ("Oracle: sum of nodal forces and moments, internal power = sum of volume x sigma:D from independent shape functions.", 3),
"E04": ("Oracle: linearity/derivative of the force routine itself with the material's linear law; symmetric tangents give symmetric matrices.", 68),
"E05": ("Oracle: exact volume; averages weighted by independent Gauss point volumes.", 3),
"E06": ("Oracle: minimum over extents and node distances; each comparison is a branch.", 3),
"M01": ("Oracle: Hooke's law; tangent = derivative of the stress (coefficients of the polynomial).", 8),
"M02": ("Oracle: neo-Hookean closed form; frame indifference by rotations from quaternions. Polar decomposition summarised by its contract in the symbolic run; replays use the real one (T03 is about that).", 3),
"M03": ("Text of the material line with symbolic numbers; refused lines must raise.", 3),
"B01": ("Real boundary condition manager on a symbolic state; every entry of every field is compared with the expected one.", 11),
"B02": ("Generator of expression trees; oracle evaluates the tree itself. Text goes through the real parser, symbols through the characters.", 8),
"C01": ("Oracle: plane and barycentric coordinates by Cramer's rule; verdict inequalities as path conditions; closest point by Karush-Kuhn-Tucker conditions.", 60),
"C02": ("Oracle: penalty law, force and moment balance; the manager cases drive the real ContactManager with the search replaced by a fixed pairing.", 60),
"C03": ("Byte streams with shadows: packing, moving, unpacking must return the same terms.", 1),
"C04": ("Interval inclusion of all nodes, inflation; comparisons are branches.", 5),
"C05": ("Oracle: faces counted once over all blocks and ranks (set of sorted node tuples); mpisim for several ranks; known finding recorded.", 40),
"C06": ("Oracle: the words of the command; malformed ones must raise.", 2),
"C07": ("Whole runs with contact visualization; the second Exodus database in the in-memory store is compared with the entities and with the nodal displacements of the first.", 60),
"R01": ("The real clique reduction, gather/scatter and packing on mpisim; sums as terms, so a contribution lost, doubled or misplaced changes the term.", 80),
"X01": ("Oracle: central difference recurrence over arbitrary forces per step, equalities of terms at each output.", 40),
"X02": ("Sum m v and sum x cross m v at the outputs; exact normal forms over the whole run.", 22),
"X03": ("Newton, line search and conjugate gradients executed symbolically; Taylor models decide branches and the final residual inequality, recomputed by the independent model from the stored displacements.", 140),
"X04": ("The same run serially and on simulated ranks; outputs are matched by global numbers and compared as terms.", 45),
"X06": ("The text of the run is captured; the printed numbers keep their symbols; oracle: element sizes computed from the mesh, minimum over all elements.", 30),
"U01": ("Application runs are executed symbolically side by side: the run with uncertain parameters, and one ordinary (Kokkos) run for each sample's moduli; approximate samples are recomputed from the stored forces. The library is compiled for this check with -DNIMBLE_HAVE_UQ.", 30),
"X05": ("Each library call fails in turn (choice); the run must end with an error. Defective decks and meshes likewise.", 35),
"D03": ("Independent finite element model (harness/fe.h) from the mesh, the deck and the stored displacements.", 80),
"D04": ("Oracle: dense matrices; textbook preconditioned conjugate gradients; Taylor models for the stopping test.", 20),
"D05": ("Oracle: set of pairs; sum of element tangents through the matrix interface.", 5),
"I01": ("Deck texts generated from commands and layouts; getters compared. No parser tests exist.", 60),
"I02": ("In-memory Exodus meshes and JSON text meshes; every getter compared.", 14),
"I03": ("After a write, the in-memory store is compared with mesh and data.", 9),
}
TAIL = """
## 5. Observations that are not claimed as properties or defects
* `mpicontext::sendpacked` without a buffer cannot be linked (`serialization_buffer` is declared, never defined).
* Numbers of a deck that are not numbers read as 0 (`atof`); an expression without quotes reads as its leading number; unknown output fields and absent node sets are ignored silently.
* In a run with --use_uq prescribed displacements hold on the nominal trajectory only (samples stay free there), uncertain densities have no effect, and two blocks that share a material with uncertain parameters are refused.
* A prescribed traction is accepted and does nothing. `periodic_rve` of test/quasistatic is unknown to the code.
* Explicit runs with prescribed displacement store the velocity (d-u)/dt of the half step, so velocities at such nodes are not examined by X01.
* Contact pictures number their nodes by the Exodus id + 1, contrary to the comment beside it; harmless.
* `DiagonalMatrix`/`AllocateDiagonalMatrix` returns early when the size is unchanged; harmless in the code as it is used.
* Quasi-static runs on meshes whose node map is not contiguous index outside their arrays when not run through the genesis reader's local numbering; not reachable from a deck that reads a mesh file with the default map.
* The clique reduction and the Tpetra communicator were compared concretely on two real ranks: equal. Tpetra itself is a closed library here (see not applicable).

## 6. How the machinery was tested
Planted bugs (section 4) were written from the property texts. In addition `tools/mutate.py` applies operator, constant and statement mutations to chosen lines of a scratch clone, builds, runs the stable tests and the check; survivors were
examined by hand and were either equivalent or led to a stronger harness (for example: unequal densities, non-square partitions, element numbers without node numbers, node sets with distribution factors after sets without, small moduli).
False alarms found on the way and corrected: conjugate gradient branch at exact convergence (0 compared with 0 in real arithmetic, now kept away from), projection verdicts in the tolerance band of 1e-7, comparison of values that are equal in exact arithmetic.
"""
