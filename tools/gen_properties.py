#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

M = "src/mesh/"
prop("M01", "Mesh connectivity is complete, symmetric and consistently numbered",
 "For every valid conforming triangle/quadrilateral mesh, preparing the mesh yields exactly one face record per geometric edge: boundary edges first, each tied to its one cell and keeping the tags it was given, then interior edges running from the lower- to the higher-numbered of its two cells. The cell-to-cell, cell-to-face and point-to-cell tables agree exactly with those faces (neighbourhood is symmetric, every local edge of a cell is listed once, boundary edges lead to a distinct ghost index outside the cell range). The result does not depend on how cells, points, the nodes within a cell, or boundary edges were numbered or oriented in the input.",
 ["inputs"], "all conforming tri/quad meshes, all numberings of cells/points/boundary edges, all node rotations and boundary-edge orientations",
 "The topology tests read two fixed mesh files; they never vary element mix, numbering, node rotation or boundary orientation.",
 [M+"mesh.cpp", M+"mesh.hpp", M+"ameshutils.cpp"],
 [("compute_topological / elements around points / neighbours / face structure", M+"mesh.cpp compute_topological, compute_elementsSurroundingPoints, compute_elementsSurroundingElements, compute_faceConnectivity"),
  ("boundary face to cell matching", M+"mesh.cpp compute_phyBFaceNeighboringElements, correctBoundaryFaceOrientation")],
 ["UMesh accessors: gintfac, gesuel, gelemface, gesup, gbtags, gnaface"])

prop("M02", "Cell areas, face lengths and normals are geometrically exact",
 "For every valid mesh, each cell's area is the area of its polygon, each face's length is the distance between its two nodes, and each face's unit normal points out of its left cell (out of the domain on a boundary, towards the right cell inside). Hence the length-weighted outward normals of every cell sum to zero, and cell areas sum to the area of the domain. Cell centres are the means of the cell's nodes, and each boundary face's ghost point lies on the exterior side of that face.",
 ["inputs"], "all conforming tri/quad meshes (any shape, numbering, node rotation and boundary-edge orientation in the input)",
 "No test checks a metric directly; order-of-convergence tests on four grids tolerate localized metric errors.",
 [M+"mesh.cpp", "src/spatial/aspatial.cpp"],
 [("areas and face data", M+"mesh.cpp compute_areas, compute_face_data"),
  ("boundary orientation repair", M+"mesh.cpp correctBoundaryFaceOrientation"),
  ("cell and ghost centres", M+"mesh.cpp compute_cell_centres; src/spatial/aspatial.cpp compute_ghost_cell_coords_about_midpoint")],
 ["garea, gfacemetric, gnormal, compute_cell_centres"])

prop("M03", "Mesh files are read and written faithfully",
 "Reading a mesh from a Gmsh 2 or SU2 file yields exactly the points, cells (in file order), boundary edges and region/boundary tags the file describes, whichever of the two formats carries it, for files that number points consecutively and (in Gmsh) list boundary edges before cells. Optional sections, spacing, number formats and empty markers do not matter. Writing a mesh as Gmsh 2 and reading it back reproduces the mesh: coordinates to the printed precision, connectivity, and every tag.",
 ["inputs"], "all meshes of triangles and quadrilaterals with any tags, in either format, with any such layout of the file",
 "Tests read a handful of .msh files and never write one or read SU2.",
 [M+"meshreaders.cpp", M+"mesh.cpp"],
 [("readers", M+"meshreaders.cpp readGmsh2, readSU2, readMesh"), ("writer", M+"mesh.cpp writeGmsh2")],
 ["MeshData fields, UMesh accessors after construction, bytes of the written file"])

prop("M04", "A truncated mesh file is rejected, never hung on or half-accepted",
 "Given any prefix of a valid Gmsh 2 or SU2 mesh file from which at least one complete token of its points, cells or boundary edges is missing, reading the mesh terminates with a reported error. It never loops for ever, never corrupts memory, and never returns a mesh as though the file had been complete.",
 ["fault_sequences", "inputs"], "every byte position at which a valid mesh file may have been cut off",
 "No test feeds a damaged mesh file.",
 [M+"meshreaders.cpp", M+"ameshutils.cpp"],
 [("stream parsing and keyword search", M+"meshreaders.cpp readGmsh2, readSU2")],
 ["termination, exception / error exit, returned MeshData"])

prop("M05", "Renumbering cells changes names only, never the mesh or the solution",
 "For every permutation of the cells, reordering a mesh gives the same geometric mesh: the new cell i is the old cell perm[i] with its nodes, node count and region tag, boundary edges and their tags are unchanged, and all derived data describe the same adjacency and metrics. Discrete residuals and local time steps computed on the reordered mesh are the permuted ones. Line detection puts every cell in at most one line of successively adjacent cells, and every ordering the library offers is a permutation of all cells.",
 ["inputs", "configurations"], "all permutations of cells of a mesh, all supported ordering names and anisotropy thresholds",
 "The line-ordering tests compare against three stored orderings of one mesh; no test reorders and compares a mesh or a residual.",
 [M+"mesh.cpp", M+"ameshutils.cpp", M+"meshordering.cpp", M+"details_lineordering.hpp"],
 [("cell permutation", M+"mesh.cpp reorder_cells"), ("orderings", M+"ameshutils.cpp reorderMesh; "+M+"meshordering.cpp lineReorder, hybridLineReorder, findLines")],
 ["UMesh accessors after reorder_cells; LineConfig; residual vector"])

prop("M06", "Level scheduling yields levels of mutually independent cells",
 "For every mesh and every numbering of its cells, the computed level boundaries start at 0, increase strictly and end at the number of cells, so that each cell is in exactly one level. No two cells of one level are neighbours, and levels are maximal: each level's first cell depends on a cell of the level before it.",
 ["inputs"], "all meshes and all numberings of their cells",
 "Two tests compare against one stored answer for one mesh.",
 [M+"ameshutils.cpp", M+"ameshutils.hpp"],
 [("levelSchedule / levelSchedule_internal", M+"ameshutils.cpp")], ["the returned level list"])

prop("M07", "Periodic boundary pairing is a mirror-exact bijection",
 "For every mesh whose two periodic sides match under translation along an axis, computing the periodic map pairs every marked boundary edge with exactly one other marked edge, at the same position along the other axis, and the pairing is its own inverse. Each paired edge's outside neighbour becomes the cell on the other side; edges with other markers are left alone.",
 ["inputs"], "all meshes with translation-matched periodic sides, any numbering of boundary edges, either axis",
 "One test checks one mesh file with one marker and axis.",
 [M+"mesh.cpp"], [("compute_periodic_map", M+"mesh.cpp")], ["gintfac of marked boundary faces; periodic map accessors"])

prop("D01", "Every partition splits the mesh into exact, matching subdomains",
 "For every assignment of cells to ranks, the subdomain meshes together contain every cell exactly once with its own nodes, coordinates and tags; every boundary edge goes to the owner of its cell. Every edge between cells of different ranks appears as one connectivity face on each of the two ranks, each naming its own cell, the other rank, the global number of the neighbouring cell and the same global face number; there are no other connectivity faces.",
 ["inputs", "configurations"], "all meshes and all assignments of cells to any number of ranks",
 "The partition tests check one mesh, three ranks and the trivial split only.",
 [M+"meshpartitioning.cpp", M+"meshpartitioning.hpp", M+"mesh.hpp"],
 [("restrictMeshToPartitions, connectivity face extraction", M+"meshpartitioning.cpp"), ("partitioners", M+"meshpartitioning.cpp TrivialReplicatedGlobalMeshPartitioner, ScotchRGMPartitioner")],
 ["UMesh accessors of each rank's mesh (gconnface, gglobalElemIndex, gbtags, ginpoel)"])

prop("D02", "Face-trace exchange delivers the right data under every message schedule",
 "When every rank performs any number of shared-face trace exchanges, then in every schedule of ranks and message deliveries the exchange completes without deadlock, and each rank's right-side trace of each connectivity face equals what the owner of the neighbouring cell put in its left-side trace of that same face in the same round. Buffers are never touched while a pending operation owns them, no message is left unreceived, and non-connectivity traces are untouched.",
 ["schedules", "inputs"], "all interleavings of ranks, all message delivery points (eager to as late as legal), all partitions, any number of rounds",
 "The trace-vector tests run one partition on three ranks under whatever timing MPI happens to produce.",
 ["src/linalg/tracevector.cpp", "src/linalg/tracevector.hpp", "src/utilities/mpiutils.cpp"],
 [("non-blocking exchange", "src/linalg/tracevector.cpp updateSharedFacesBegin, updateSharedFacesEnd"), ("shared-face pairing", "src/linalg/tracevector.cpp update_comm_pattern / sharedfaces maps")],
 ["right trace arrays after updateSharedFacesEnd"])

prop("D03", "A distributed run computes the same discretization as a single process",
 "For every partition of a mesh among ranks, and however each rank renumbers its own cells, the residual, local time steps, cell gradients, first-order Jacobian and matrix-free product and the reduced functionals assembled by all ranks together equal (to rounding) those computed by one process on the whole mesh; so do the states after explicit, implicit and unsteady steps and the functionals and mesh size reported by a case run. This holds for first- and second-order schemes with each gradient method, limiter and flux, for inviscid, viscous and scalar-diffusion problems.",
 ["inputs", "configurations"], "all assignments of cells to ranks, all supported scheme combinations",
 "MPI tests run whole cases on one partition per mesh and compare convergence orders within loose bands.",
 ["src/spatial/flow_spatial.cpp", "src/spatial/agradientschemes.cpp", "src/linalg/petscutils.cpp", "src/linalg/alinalg.cpp", M+"meshpartitioning.cpp", M+"mesh.cpp", M+"ameshutils.cpp", "src/utilities/casesolvers.cpp"],
 [("renumbering of subdomains", "src/mesh/mesh.cpp reorder_cells, src/mesh/ameshutils.cpp reorderMeshPetsc"), ("ghosted vectors and connectivity faces", "src/linalg/petscutils.cpp, src/linalg/alinalg.cpp"), ("trace and gradient exchange", "src/spatial/flow_spatial.cpp compute_residual")],
 ["residual, time-step vectors, assembled matrix, computeSurfaceData"])

prop("T01", "Threaded loops are race-free and give schedule-independent results",
 "In every multi-threaded computation the library offers (residuals, time steps, gradients, reconstructions, Jacobian assembly, pseudo-time term, solution updates, output functionals), no two threads access the same memory with at least one writing unless both accesses are atomic or under a common lock. Consequently, for every number of threads and every interleaving, the results equal the single-thread results up to rounding.",
 ["schedules", "configurations"], "all thread counts, all assignments of iterations to threads, all interleavings",
 "Tests run with two threads on large meshes where a lost update is rare and hidden by tolerances.",
 ["src/spatial/flow_spatial.cpp", "src/spatial/agradientschemes.cpp", "src/spatial/aspatial.cpp", "src/spatial/diffusion.cpp", "src/spatial/areconstruction.cpp", "src/spatial/limitedlinearreconstruction.cpp", "src/spatial/musclreconstruction.cpp", "src/ode/aodesolver.cpp", "src/linalg/alinalg.cpp", "src/spatial/aoutput.cpp", M+"meshordering.cpp"],
 [("omp parallel for with omp atomic / omp critical", "all files above")],
 ["memory accesses of parallel regions; residual, gradient, matrix and time-step results"])

prop("P01", "Thermodynamic conversions are mutually inverse and consistently differentiated",
 "For every admissible gas state (positive density and pressure), converting between conserved, primitive and temperature-based variables is lossless and consistent with the ideal-gas law under the free-stream non-dimensionalization (free-stream density and speed 1, pressure 1/(gamma M^2), temperature 1). The free-stream state has the requested flow angle and Mach number. Every derivative routine returns the derivative of the quantity it names, pressure changes computed from a state change are exact, and gradients of derived quantities obey the chain rule.",
 ["inputs"], "all admissible states, directions, free-stream Mach numbers, Reynolds numbers and angles of attack",
 "Conversion and derivative routines have no direct unit tests.",
 ["src/physics/aphysics_defs.hpp", "src/physics/aphysics.cpp", "src/physics/aphysics.hpp"],
 [("IdealGasPhysics", "src/physics/aphysics_defs.hpp, src/physics/aphysics.cpp")], ["IdealGasPhysics methods"])

prop("F01", "Every inviscid flux is consistent, conservative, upwind and frame-invariant",
 "For all admissible left and right states and unit normals, every inviscid numerical flux equals the physical flux when both states agree, changes only sign when the states are swapped and the normal reversed, and is unchanged (with momentum rotated or reflected) in a rotated or reflected frame. When both states (and the average or critical speed a scheme builds from them) are supersonic in the same normal direction every flux except local Lax-Friedrichs equals the upstream physical flux, and between a state and its mirror image there is no mass or energy flux. The flux is always finite.",
 ["inputs"], "all admissible state pairs and unit normals, all seven fluxes",
 "Unit tests only check that wall fluxes have no mass component for a few states; regression cases exercise smooth flow.",
 ["src/spatial/anumericalflux.cpp", "src/spatial/anumericalflux.hpp"],
 [("LLF, VanLeer, AUSM, AUSM+, Roe, HLL, HLLC get_flux", "src/spatial/anumericalflux.cpp")], ["InviscidFlux::get_flux"])

prop("F03", "First-order updates stay admissible; shocks and contacts are treated correctly",
 "With the local Lax-Friedrichs, HLL, HLLC and Van Leer fluxes one explicit first-order step cannot make density or pressure of any cell negative, whatever admissible states meet at its faces, as long as the time step does not exceed the cell area over the sum of face length times largest signal speed (half of it for Van Leer). No flux keeps a stationary expansion shock: each one dissipates it (Roe by its entropy fix). HLLC and AUSM keep stationary contact and shear layers exactly, AUSM+ stationary contacts without shear; HLL and HLLC keep stationary normal shocks exactly and Roe up to its entropy fix.",
 ["inputs"], "all admissible state pairs and unit normals; all cells of all meshes",
 "Regression cases are smooth subsonic flows; no test contains a shock, a contact, near-vacuum states or checks admissibility.",
 ["src/spatial/anumericalflux.cpp", "src/spatial/flow_spatial.cpp"],
 [("get_flux wave speeds, entropy fix, star states", "src/spatial/anumericalflux.cpp"), ("compute_residual", "src/spatial/flow_spatial.cpp")], ["InviscidFlux::get_flux", "Spatial::compute_residual"])

prop("F02", "Analytical inviscid flux Jacobians are the derivatives of their fluxes",
 "Wherever the flux is differentiable, the Jacobian blocks returned by the local Lax-Friedrichs (frozen dissipation speed), AUSM, Roe, HLL (frozen wave speeds) and HLLC fluxes equal the derivatives of that same flux: minus the derivative with respect to the left state in the left block and the derivative with respect to the right state in the right block. This holds in every wave configuration, including supersonic, near-sonic, entropy-fixed and stationary states.",
 ["inputs"], "all admissible state pairs and unit normals off the kinks of the flux",
 "No test differentiates a flux; implicit cases converge even with somewhat wrong Jacobians.",
 ["src/spatial/anumericalflux.cpp"],
 [("get_jacobian of each flux, Roe-average Jacobians", "src/spatial/anumericalflux.cpp")], ["InviscidFlux::get_jacobian"])

prop("B01", "Boundary ghost states impose exactly the documented condition",
 "For every admissible interior state and boundary normal: a slip wall mirrors the normal velocity and keeps density and energy; an adiabatic wall makes the face-average velocity the prescribed tangential wall velocity with no temperature or density jump; an isothermal wall also makes the face-average temperature the wall temperature given in kelvin; far field imposes the free stream; extrapolation copies the interior. A subsonic inflow has the given total pressure and total temperature (kelvin) and flows straight into the domain, at the interior's Mach number if that does too. The inflow/outflow condition imposes the free stream at inflow, only the free-stream pressure at subsonic outflow, and nothing at supersonic outflow. All ghost states of admissible states (with physically reachable wall temperature) are admissible and finite.",
 ["inputs", "configurations"], "all admissible interior states, normals and condition parameters",
 "Tests check mass flux through walls for a few states; inflow/outflow regimes and isothermal walls are not covered.",
 ["src/spatial/abc.cpp", "src/spatial/abc.hpp"],
 [("computeGhostState of each condition", "src/spatial/abc.cpp"), ("condition factory by marker", "src/spatial/abc.cpp create_const_flowBCs")], ["FlowBC::computeGhostState"])

prop("B02", "Boundary-condition Jacobians are the derivatives of their ghost states",
 "For every boundary condition that offers a Jacobian, every admissible interior state and every normal, the ghost state returned together with the Jacobian is the same as the ghost state used in the residual, and the Jacobian is its derivative with respect to the interior conserved state.",
 ["inputs", "configurations"], "all admissible interior states, normals and condition parameters off regime switches",
 "One test compares wall Jacobians for one normal and a few states with a loose error estimate; other conditions are untested.",
 ["src/spatial/abc.cpp"], [("computeGhostStateAndJacobian", "src/spatial/abc.cpp")], ["FlowBC::computeGhostStateAndJacobian"])

prop("V01", "Viscous fluxes obey the Navier-Stokes stress law and match their Jacobians",
 "For every pair of admissible states and face gradient, the viscous flux carries no mass, its momentum part is minus the symmetric Newtonian stress (Stokes hypothesis) dotted with the normal, and its energy part is minus stress work plus heat conduction, with Sutherland or constant viscosity as configured and conductivity tied to it by the Prandtl number. It vanishes for uniform velocity and temperature, is unchanged when states are swapped, and its Jacobian blocks are minus/plus the derivatives with respect to the left/right state.",
 ["inputs", "configurations"], "all admissible state pairs, gradients, normals, Reynolds numbers, both viscosity models",
 "Viscous cases compare drag on a few grids; no test evaluates the flux or its Jacobian.",
 ["src/physics/viscousphysics.cpp", "src/physics/aphysics_defs.hpp", "src/spatial/aspatial.cpp"],
 [("computeViscousFlux, computeViscousFluxJacobian", "src/physics/viscousphysics.cpp"), ("face gradients", "src/spatial/aspatial.cpp")], ["computeViscousFlux, computeViscousFluxJacobian, face gradient routines"])

prop("G01", "Cell gradients are exact where they must be",
 "On every valid mesh, each gradient scheme returns zero for a constant field (with matching boundary values), the least-squares scheme (the inverse-distance-weighted fit over face neighbours and boundary ghost points) returns the exact gradient of every linear field in every cell, and the Green-Gauss scheme returns the area-normalized sum of face-normal-weighted inverse-distance interpolated values. The zero scheme returns zero. Each output entry is overwritten, whatever the array held before.",
 ["inputs"], "all valid meshes, all linear fields",
 "Least-squares exactness is tested on three meshes with one field; Green-Gauss is not tested.",
 ["src/spatial/agradientschemes.cpp"],
 [("compute_gradients", "src/spatial/agradientschemes.cpp")], ["GradientScheme::compute_gradients"])

prop("R01", "Reconstruction is exact for constants and respects limiter guarantees",
 "On every valid mesh, every reconstruction reproduces a constant field at every face, and unlimited linear reconstruction reproduces every linear field given its exact gradients. Barth-Jespersen values at faces never leave the range spanned by the cell and its neighbours, Venkatakrishnan limiting never reverses a variation, Van Albada interior face values lie between the two adjacent cell values, and WENO reconstructs with a convex combination of the cell's and its neighbours' gradients. Each value used comes from the correct side of the face.",
 ["inputs", "configurations"], "all valid meshes and cell fields, all reconstructions and limiter parameters",
 "Limiters run only inside two regression cases.",
 ["src/spatial/areconstruction.cpp", "src/spatial/limitedlinearreconstruction.cpp", "src/spatial/musclreconstruction.cpp"],
 [("compute_face_values of each reconstruction", "src/spatial/areconstruction.cpp, limitedlinearreconstruction.cpp, musclreconstruction.cpp")], ["SolutionReconstruction::compute_face_values"])

prop("S01", "Uniform free stream is preserved exactly by every scheme",
 "On every valid mesh, with boundary conditions compatible with a uniform flow (far field, inflow/outflow, extrapolation, or slip walls aligned with it), the residual of the uniform free-stream state vanishes to rounding in every cell. This holds for every inviscid flux, gradient method, reconstruction, viscous or inviscid, at every free-stream Mach number and angle.",
 ["inputs", "configurations"], "all valid meshes, all scheme combinations, all free-stream conditions",
 "No test evaluates the residual of the free stream.",
 ["src/spatial/flow_spatial.cpp", "src/spatial/aspatial.cpp", M+"mesh.cpp"],
 [("compute_residual", "src/spatial/flow_spatial.cpp")], ["Spatial::compute_residual"])

prop("S02", "The residual is a conservative, local sum of face fluxes with sound time steps",
 "For every mesh, state and scheme, the assembled residual of each cell is minus the sum of length-weighted fluxes out of that cell, so interior contributions cancel in the sum over all cells and only boundary fluxes remain; the residual is added to what the vector held. Changing the state of one cell affects only cells within the scheme's stencil. Local time steps are positive and equal the cell area divided by the sum over its faces of the length-weighted maximum wave speed (with the viscous part if viscous), and asking for them does not change the residual.",
 ["inputs", "configurations"], "all meshes, admissible states and scheme combinations",
 "No test inspects a residual; functionals and convergence orders are compared within tolerances.",
 ["src/spatial/flow_spatial.cpp"], [("compute_fluxes, compute_max_timestep, compute_residual", "src/spatial/flow_spatial.cpp")], ["Spatial::compute_residual outputs"])

prop("S03", "The assembled Jacobian is the derivative of the first-order residual",
 "For every mesh, state, boundary conditions and flux offering a Jacobian, the assembled block matrix equals the derivative of the first-order residual with respect to the cell states (with the sign convention of the implicit solver), inviscid and viscous, with every block in the row and column of its cell; unrelated blocks are zero. The pseudo-time term adds exactly area/(CFL dt) to the diagonal.",
 ["inputs", "configurations"], "all meshes, admissible states, boundary conditions and fluxes",
 "Implicit tests only require convergence, which tolerates wrong or misplaced blocks.",
 ["src/spatial/aspatial.cpp", "src/spatial/flow_spatial.cpp", "src/linalg/alinalg.cpp", "src/ode/aodesolver.cpp"],
 [("assemble_jacobian and local Jacobians", "src/spatial/aspatial.cpp, src/spatial/flow_spatial.cpp"), ("pseudo-time term", "src/ode/aodesolver.cpp addPseudoTimeTerm")], ["assembled PETSc matrix"])

prop("S04", "The matrix-free operator applies the pseudo-time system it stands for",
 "For every state, pseudo-time diagonal and direction vector, applying the matrix-free Jacobian returns the pseudo-time diagonal times the vector plus the directional derivative of the residual, to finite-difference accuracy, for directions of any non-zero size and for flow and diffusion alike. Neither the state, the stored residual, the diagonal nor the direction is modified, and in every sequence of state changes and applications each application uses the state, residual and diagonal last set.",
 ["inputs", "histories"], "all states, directions, schemes and sequences of state changes and applications",
 "One test compares one product on one mesh.",
 ["src/linalg/alinalg.cpp"], [("MatrixFreeSpatialJacobian::apply", "src/linalg/alinalg.cpp")], ["MatMult on the shell matrix"])

prop("N01", "CFL and under-relaxation controls stay in bounds and move the right way",
 "For every sequence of residuals, the implicit steady solver's CFL number (the one its pseudo-time term uses and its history records) starts at the configured minimum, stays within the configured minimum and maximum at every step and, from the third step on, rises (up to the maximum) when the residual falls and falls (down to the minimum) when it rises; the explicit steady solver always steps with the configured initial CFL number. The robust update's relaxation factor always lies between the configured minimum and 1, equals one minus the larger of the relative pressure and density change the update would cause when that is above the minimum, and an invalid minimum is refused; full updates use factor 1.",
 ["histories", "inputs"], "all residual sequences up to a depth, all states and updates, all admissible settings",
 "Controllers are only exercised inside whole runs.",
 ["src/ode/aodesolver.cpp", "src/ode/nonlinearrelaxation.cpp", "src/ode/nonlinearrelaxation.hpp"],
 [("expResidualRamp, linearRamp", "src/ode/aodesolver.cpp"), ("FlowSimpleUpdate", "src/ode/nonlinearrelaxation.cpp")], ["CFL in convergence history, getLocalRelaxationFactor"])

prop("N02", "Steady solvers report exactly what happened",
 "For every history of residual norms, relative to a non-zero first residual, a steady solve stops at the first step whose residual is at most the tolerance relative to the first, reports convergence only then, throws a tolerance error if the step limit is reached, and throws a numerical error when a residual becomes NaN or infinite. The recorded history has one entry per step taken, numbered from 1, with the residual relative to the first step and the linear iterations done so far; zero allowed steps changes nothing. An explicit step changes each cell by CFL times its local time step over its area times its residual. In a case run, a starting solve that misses its tolerance does not prevent the main solve, and an unconverged main solve ends in a tolerance error.",
 ["histories", "fault_sequences"], "all residual histories up to a depth (including NaN and infinity at any step), explicit and implicit solvers, all step limits",
 "Tests see one converging history per case and one diverging case.",
 ["src/ode/aodesolver.cpp", "src/utilities/casesolvers.cpp"],
 [("SteadyForwardEulerSolver::solve, SteadyBackwardEulerSolver::solve", "src/ode/aodesolver.cpp"), ("starter/main sequencing", "src/utilities/casesolvers.cpp")], ["return/exception, TimingData"])

prop("U01", "The explicit unsteady solver is the SSP Runge-Kutta scheme of its order",
 "For every discretization, initial state, final time, CFL number and order 1 to 3, the unsteady solver performs the total-variation-diminishing Runge-Kutta scheme of that order (forward Euler, Heun, the third-order Shu-Osher scheme) for area*du/dt = -residual: every stage evaluates the residual at that stage's state, and all cells of all processes advance by one time step, CFL times the smallest local time step found at the beginning of the step. Steps are repeated, unshortened, until the elapsed time is within 1e-12 of the final time or beyond it; a final time of zero changes nothing. If the smallest local time step is not finite, a numerical error is thrown and no further residual is evaluated. Orders other than 1 to 3 are refused. The result does not depend on the number of processes.",
 ["histories", "fault_sequences", "configurations"], "all sequences of time steps up to a depth (including NaN and infinity), all orders, all schemes and small meshes, all assignments of cells to processes",
 "No reliable test runs the unsteady solver; an order of accuracy test on one flow cannot separate the schemes' stages.",
 ["src/ode/aodesolver.cpp", "src/ode/aodesolver.hpp"],
 [("TVDRKSolver::solve, initialize_TVDRK_Coeffs", "src/ode/aodesolver.cpp")], ["states at which residuals are evaluated, final state, return/exception"])

prop("C01", "Every documented control-file option is honoured, deterministically",
 "For every legal control file, each documented option determines its setting exactly (keyword values in any letter case, angles converted from degrees, lists of markers and boundary values complete and in order), command-line overrides win, omitted optional settings take the documented defaults, and no setting depends on uninitialized memory. A missing mandatory option, an unknown boundary type or an unsupported flow type is an error, never silently ignored.",
 ["configurations", "inputs"], "all combinations of present/absent options and values",
 "One test parses one control file and checks about a dozen values.",
 ["src/utilities/controlparser.cpp", "src/utilities/controlparser.hpp", "src/utilities/aoptionparser.cpp", "src/spatial/abctypemap.cpp", "src/utilities/afactory.cpp"],
 [("parse_flow_controlfile, parse_BC_options, extract_spatial_*_config", "src/utilities/controlparser.cpp")], ["FlowParserOptions, FlowPhysicsConfig, FlowNumericsConfig"])

prop("O01", "Post-processed fields, functionals and files report the true solution",
 "For every mesh and state, exported point values are the area-weighted averages of the surrounding cells converted to density, Mach number, pressure, temperature and velocity, so a uniform state is exported as itself. The entropy error, the pressure and skin-friction coefficients and lift and drag (per marker, normalised by the marker's total length) equal their definitions, and every output file, written only when asked for, lists the points, cells, offsets, types and values of exactly that mesh and state, also for mixed triangle/quadrilateral meshes; converting a mesh keeps it. A converged case's residual history lists every step's residuals, linear iterations and CFL number, and the final linear system files hold the last step's matrix, right-hand side and solution.",
 ["inputs"], "all meshes, states, wall markers and flow angles",
 "Tests check entropy order and lift/drag of a few cases; exported files and point values are never inspected.",
 ["src/spatial/aoutput.cpp", "src/spatial/flow_spatial.cpp", "src/utilities/convertformat.cpp"],
 [("postprocess_point, exportSurfaceData, exportVolumeData, VTU writers", "src/spatial/aoutput.cpp"), ("computeSurfaceData", "src/spatial/flow_spatial.cpp")], ["output arrays and files"])

prop("H01", "The scalar diffusion discretization is conservative, exact and consistent",
 "On every valid mesh the diffusion residual of each cell is the sum of conductive face fluxes plus the source integrated over the cell, interior fluxes cancel pairwise, a linear field gives zero flux imbalance wherever the cell gradients are exact, and a constant field with the same boundary value gives no flux at all. The assembled interior coupling is symmetric and matches the thin-layer flux; computing with or without time steps gives the same residual; the time step of a cell is the square of its longest face over the diffusivity. Exported nodal values are area-weighted averages of the surrounding cells.",
 ["inputs", "configurations"], "all meshes, fields, diffusivities, sources and gradient schemes",
 "Diffusion tests check the observed order of accuracy of one manufactured solution.",
 ["src/spatial/diffusion.cpp", "src/spatial/diffusion.hpp"],
 [("DiffusionMA", "src/spatial/diffusion.cpp")], ["Spatial::compute_residual, assemble_jacobian for the diffusion problem"])

prop("I01", "Answers depend on the given state alone, not on history or stale memory",
 "For every mesh, discretization and state, what a spatial discretization, its output object or a steady solver returns (residual, time steps, Jacobian, gradients, matrix-free product, surface data, entropy, exported fields, solutions and outcomes of solves) is a function of the state it is given and of its configuration: it is the same whatever was asked of the same object before and in whatever order, whatever other objects were used in between, and whatever newly allocated memory or the caller's output storage happened to contain. In particular a solver object can be used again.",
 ["histories", "inputs"], "all sequences of operations on one set of objects, all meshes, states and configurations",
 "Every test builds fresh objects in fresh memory and asks each one thing.",
 ["src/spatial/flow_spatial.cpp", "src/spatial/agradientschemes.cpp", "src/spatial/limitedlinearreconstruction.cpp", "src/spatial/diffusion.cpp", "src/linalg/alinalg.cpp", "src/ode/aodesolver.cpp", "src/spatial/aoutput.cpp"],
 [("temporary storage and its initialization", "compute_residual, getGradients, MatrixFreeSpatialJacobian::apply, solve")], ["values returned by the public member functions"])

prop("K01", "Results do not depend on axes, origin, unit of length or numbering",
 "Restating a flow problem in another coordinate frame - axes turned by a right angle or mirrored, origin moved, lengths measured in another unit with the Reynolds number adapted - or numbering cells, nodes and boundary edges otherwise only restates the results: residuals, Jacobians, gradients, cell and point fields and the states after explicit and implicit steps turn with the frame, time steps and entropy integrals scale, pressure and skin-friction coefficients and drag are unchanged and lift changes sign only in a mirrored frame. This holds for every scheme, flux, viscosity model and boundary condition (limiters with a length scale: for the same unit of length).",
 ["inputs", "configurations"], "all meshes, states, schemes, boundary conditions and all such frames",
 "Every test problem is given in one frame; x- and y-specific mistakes cancel in none of the metrics tests look at, or sit below their tolerances.",
 ["src/spatial/flow_spatial.cpp", "src/spatial/anumericalflux.cpp", "src/spatial/abc.cpp", "src/spatial/agradientschemes.cpp", "src/physics/aphysics_defs.hpp", "src/physics/viscousphysics.cpp", "src/spatial/aoutput.cpp", "src/mesh/mesh.cpp"],
 [("everything with vector components", "fluxes, boundary conditions, gradients, viscous stresses, functionals")], ["Spatial, FlowOutput and SteadySolver member functions"])

prop("A01", "Arrays and vector handles stand for exactly the data they name",
 "Under every sequence of operations, a two-dimensional array holds what was last put into it: copies are independent, assignment (also to itself) yields equal contents, moving hands the contents over and leaves an empty array, resizing yields the new size, rows and views address the same storage, and what is printed reads back as the same array; this holds in debug and release builds. A handle gives access to exactly the storage of the vector it is attached to (with its ghost entries for ghosted ones) while attached and to none otherwise, refuses a second vector while in use, and on restoring or destruction leaves the vector holding what was written, unlocked, with its norms up to date.",
 ["histories"], "all sequences of operations on arrays and handles",
 "Tests use each operation in one order; handles are never reused and nothing is assigned to itself.",
 ["src/utilities/aarray2d.hpp", "src/utilities/aarray2d.cpp", "src/linalg/petscutils.hpp", "src/linalg/petscutils.cpp"],
 [("Array2d and views", "src/utilities/aarray2d.hpp"), ("vector handles", "src/linalg/petscutils.cpp")], ["element access, sizes, PETSc's view of the vector"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=True) + "\n")
print(len(P), "properties")
