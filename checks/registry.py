"""All registered checks."""
EX = "exhaustive enumeration of a bounded input space on the real code against a reference model"
WRAP = ["-Wl,--wrap=" + n for n in """MPI_Comm_rank MPI_Comm_size MPI_Isend MPI_Issend MPI_Irecv MPI_Send_init MPI_Recv_init MPI_Start MPI_Startall MPI_Request_free MPI_Wait MPI_Waitall MPI_Waitany MPI_Test MPI_Testall MPI_Send MPI_Ssend MPI_Recv MPI_Sendrecv MPI_Probe MPI_Iprobe MPI_Barrier MPI_Bcast MPI_Allreduce MPI_Reduce MPI_Allgather MPI_Alltoall""".split()]
import os
OMPRT = ("g++", ("-std=c++14", "-O2", "-g1", "-w", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include", "-isystem", "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include"), os.path.join(os.path.dirname(os.path.abspath(__file__)), "common", "omprt.cpp"))
CHECKS = {
 "M01": dict(technique=EX, level="exploration", note="every mesh of the stated families and every listed renumbering; nothing beyond those sizes"),
 "M02": dict(technique=EX, level="exploration", note="every mesh of the stated families, orientations and affine images; floating-point comparisons to 1e-11..1e-13"),
  "M03": dict(technique=EX, level="exploration", note="every listed layout of every mesh of the families; layouts outside the list are not judged"),
 "M04": dict(technique="exhaustive fault enumeration: every truncation point of valid files, executed on the real reader", level="fault_enumeration", note="truncation at every byte of the listed files; other damage is not judged"),
  "M05": dict(exclude=["src/mesh/meshordering.cpp"], technique=EX, level="exploration", note="all permutations for meshes of up to 5/6 cells, a fixed family beyond; ordering options on the listed anisotropic meshes; sequential reordering only"),
  "M06": dict(technique=EX, level="exploration", note="all cell numberings for meshes of up to 5-7 cells, a fixed family beyond"),
  "M07": dict(technique=EX, level="exploration", note="translation-matched grids up to 3x3/3x4 rows; coordinates of moderate size (the code compares positions to an absolute 1e-8)"),
  "P01": dict(technique=EX, level="exploration", note="a product lattice of states, free streams and directions, plus exact reference derivatives; values between lattice points are not enumerated"),
  "F01": dict(technique=EX, level="exploration", note="product lattices of states, normals and gases; values between lattice points are not enumerated"),
  "F03": dict(technique=EX, level="exploration", note="product lattices of extreme states, normals and gases; small meshes with every assignment of a set of extreme states up to a cap"),
  "F02": dict(technique=EX, level="exploration", note="difference quotients of the real flux for AUSM, Roe and HLLC, exact frozen-speed derivatives for LLF and HLL; lattice points with a kink are skipped and counted"),
  "B01": dict(technique=EX, level="exploration", note="product lattices of states, normals, gases and wall data; the total-condition inflow is not part of the statement"),
  "B02": dict(technique=EX, level="exploration", note="difference quotients of the real ghost state; columns at a switch of the inflow/outflow condition are skipped and counted"),
  "V01": dict(technique=EX, level="exploration", note="product lattices of state pairs, face gradients, normals and gases; in quick every third gradient of the product"),
  "G01": dict(technique=EX, level="exploration", src=["G01.cpp", "common/mockmpi.cpp"], link_extra=WRAP, note="every mesh of the families under the listed numberings; constant, linear and rough fields; ill-conditioned stencils counted and not judged to 1e-3"),
  "R01": dict(technique=EX, level="exploration", src=["R01.cpp", "common/mockmpi.cpp"], link_extra=WRAP, note="every mesh of the families under the listed numberings; nine reconstruction choices on constant, linear, step, sawtooth and rough fields with scheme-made and arbitrary gradients"),
  "S01": dict(technique=EX, level="exploration", note="every mesh of the families x five free streams; the scheme x flux x viscosity x boundary product is rotated over the meshes"),
  "S02": dict(technique=EX, level="exploration", note="mesh families x product of schemes, fluxes, viscosities and boundary assignments (rotated over the meshes, complete on a few); locality on strips of up to 18 cells"),
  "S03": dict(technique=EX, level="exploration", note="mesh families x fluxes x viscosities x boundary assignments (rotated over the meshes, complete on a few in thorough); difference quotients for AUSM, Roe and HLLC"),
  "S04": dict(technique=EX, level="exploration", note="mesh families x schemes x fluxes x viscosities (rotated), diffusion problems; all histories of state changes and products to depth 3 (quick) / 5 (thorough) on four tiny meshes; kinks are skipped and counted"),
 "H01": dict(technique=EX, level="exploration", note="every mesh of the families and deep 6x6 grids x diffusivities x boundary values x sources x gradient schemes x fields (rotated in quick)"),
 "N01": dict(technique="exhaustive enumeration of residual histories on the real solvers, and of states, updates and settings on the real relaxation", level="exploration", note="all residual histories over the listed alphabet to depth 5 (quick) / 7 (thorough); product lattices of states and updates"),
 "N02": dict(technique="exhaustive enumeration of residual histories (with NaN/inf faults at any step) on the real solvers against an automaton", level="fault_enumeration", note="all residual histories over the listed alphabet to depth 4 (quick) / 6 (thorough) with every step limit; whole cases on small meshes"),
  "O01": dict(technique=EX, level="exploration", renamed_mains=[("src/utilities/convertformat.cpp", "convert_main")], note="every mesh of the families x free streams x fields x viscosity/gradient/boundary combinations (rotated in quick), all data shapes of the writers, all output switches of whole cases"),
  "C01": dict(technique=EX, level="exploration", note="all pairs of section variants (thorough: triples of all sections but the spatial one, which has 315 variants) over three settings of the rest; every mandatory option removed"),
  "D01": dict(technique=EX, level="exploration", src=["D01.cpp", "common/mockmpi.cpp"], link_extra=WRAP, note="every assignment of every listed mesh of up to 9-12 cells to 1-4 ranks (ranks without cells included); library partitioners for 1-8 ranks on meshes of up to 50 cells"),
  "D03": dict(technique="exhaustive enumeration of assignments of cells to ranks on the real code under real MPI", level="exploration", np=[2, 2, 3, 3, 4], link_extra=["-Wl,--wrap=MPI_" + n for n in "Comm_rank Comm_size Barrier Bcast Isend Irecv Allreduce Reduce Allgather Allgatherv Gather Alltoall Alltoallv Exscan Scan Send Recv Sendrecv Issend".split()], note="every assignment of the listed meshes of up to 6 cells to 2-4 processes (a regular subset for the larger ones in quick), all gradient/reconstruction schemes with the other choices rotated"),
  "D02": dict(variant="plain", technique="stateful exploration of all schedules of the real code over a model of MPI (controlled scheduler, ranks as fibers)", level="model_checking", src=["D02.cpp", "common/mockmpi.cpp"], link_extra=WRAP, note="2-3 ranks, every assignment of the listed tiny meshes, 1-2 rounds, 1-2 simultaneous vectors; buffered/rendezvous choice per ordered pair of ranks"),
  "U01": dict(technique="exhaustive enumeration of time-step histories on the real solver, and of small discretizations", level="fault_enumeration", note="all sequences of smallest local time steps over {0.5,0.25,0.125,inf,nan} to depth 4 (quick) / 6 (thorough) x orders x CFL x final times; mesh families x schemes (rotated)"),
 "I01": dict(technique="exhaustive enumeration of sequences of operations on the real discretization and solver objects", level="exploration", link_extra=["-Wl,--wrap=malloc"], note="all sequences of 2 (thorough 3) operations from fresh objects and one history containing every sequence of 2-3 (thorough 3-4), on the listed meshes x all schemes with the other choices rotated"),
 "K01": dict(technique=EX, level="exploration", note="every mesh of the families x the 8 frames with parallel axes; schemes, fluxes, viscosities, boundaries, fields, shifts, units and numberings rotated over the meshes"),
 "A01": dict(variant="release", technique="exhaustive enumeration of sequences of operations on the real containers against a model", level="exploration", note="all sequences of 4 (thorough 5) operations over the listed alphabets"),
 "T01": dict(variant="omp", technique="race detection on all accesses and preemption-bounded enumeration of all thread schedules of the real code under a controlled OpenMP runtime (threads as fibers)", level="model_checking", np=[1]*7+[2], extra_srcs=[OMPRT], note="teams of 2, 3 and one thread per loop iteration for conflicts; all schedules with 1-2 preemptions per region (2-5 threads) on tiny meshes, deeper in thorough"),
}
NOT_APPLICABLE = {}
