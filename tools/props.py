#!/usr/bin/env python3
"""writes /verif/properties.jsonl (one place to edit the property list)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOTEST = "No existing test compiles this code (the test build has neither Kokkos nor PDI); even upstream's tests evaluate a few hand-picked states, while the claim is over every real-valued state. "

p("C01", "Conserved and primitive variables convert into each other without loss",
  "For every gas state with positive density, converting primitive variables to conserved ones and back (and conserved to primitive and back) returns the original state, with momentum = density x velocity and total energy = internal energy + kinetic energy summed over exactly the active dimensions. The array-wide conversions apply this to every cell of the requested range, with the equation of state used for pressure, and leave every other cell unchanged.",
  ["inputs", "configurations"], "all states with density > 0, all equations of state honouring their contract, all ranges and array sizes, 1-3 dimensions",
  NOTEST, ["src/hydro/euler_equations.hpp", "src/hydro/array_conversion.hpp"],
  [("to_cons / to_prim / compute_evol", "src/hydro/euler_equations.hpp"), ("conv_prim_to_cons / conv_cons_to_prim", "src/hydro/array_conversion.hpp")],
  observe=["EulerCons/EulerPrim values", "rho, rhou, E, u, P arrays"])
p("C02", "Perfect-gas thermodynamics is self-consistent",
  "For every adiabatic index > 1, mean molecular weight > 0 and positive density and pressure, the internal energy computed from the pressure gives that pressure back, the temperature gives that pressure back, and the squared sound speed equals gamma*P/rho and is positive. A state is accepted as valid exactly when density and the second thermodynamic variable are finite and positive, and constructing a gas with an index not above 1, a non-positive or a non-finite parameter throws.",
  ["inputs"], "all positive states and all gas parameters", NOTEST, ["src/thermodynamics/perfect_gas.hpp", "src/thermodynamics/perfect_gas.cpp"],
  [("PerfectGas", "src/thermodynamics/perfect_gas.hpp")], observe=["return values", "thrown std::domain_error"])
p("C03", "Gas-plus-radiation thermodynamics is self-consistent",
  "For every gas with radiation, the pressure, internal energy and temperature are related by P = Pgas(T) + a T^4/3 and e = egas(T) + a T^4, computing the temperature from either variable yields a positive T that satisfies its defining equation to the stated tolerance whenever the iteration stops by tolerance, and the squared sound speed is the adiabatic one of the mixture, hence positive and never above max(gamma, 4/3) P/rho. A state is valid exactly when density and the second variable are finite and positive, and invalid gas parameters are rejected by throwing.",
  ["inputs", "histories"], "all positive states, all gas parameters, every number of Newton iterations", NOTEST + "The iteration count is unbounded in the claim.", ["src/thermodynamics/rad_gas.hpp", "src/thermodynamics/rad_gas.cpp"],
  [("RadGas Newton inversions", "src/thermodynamics/rad_gas.hpp")], observe=["return values"])
p("C04", "Interface fluxes are consistent with the Euler flux",
  "The physical flux of a state in a direction is (rho*u, momentum*u + P on the normal component, (E+P)*u); each Riemann solver (HLL, HLLC, low-Mach splitting), given identical left and right states, returns exactly that flux in every direction. No solver depends on data other than its two states, the direction and the equation of state.",
  ["inputs", "configurations"], "all physical states, directions, dimensions, equations of state honouring their contract", NOTEST, ["src/hydro/riemann_solver.hpp", "src/hydro/euler_equations.hpp"],
  [("HLL / HLLC / Splitting", "src/hydro/riemann_solver.hpp"), ("compute_flux", "src/hydro/euler_equations.hpp")], observe=["EulerFlux"])
p("C05", "Riemann solvers respect mirror symmetry, upwinding and contact waves",
  "Mirroring a Riemann problem (swapping the states and reversing the normal velocity) mirrors the flux: mass, transverse momentum and energy fluxes change sign and the normal momentum flux does not. When all waves move the same way HLL and HLLC return the exact upwind flux, HLLC keeps a stationary contact discontinuity exactly (zero mass and energy flux, momentum flux = the common pressure), and the mass flux of HLLC has the sign of the contact speed.",
  ["inputs"], "all pairs of physical states and directions", NOTEST, ["src/hydro/riemann_solver.hpp"], [("HLL / HLLC / Splitting operator()", "src/hydro/riemann_solver.hpp")], observe=["EulerFlux"])
p("C06", "Slope limiters are symmetric, sign-preserving and bounded",
  "Every limiter is symmetric in its two slopes, odd, homogeneous, returns the common slope when both agree, and returns zero when they disagree in sign or one vanishes (the constant limiter always returns zero). Otherwise its value has the common sign and stays within its bound: minmod never exceeds the smaller slope in magnitude, van Leer and van Albada (for non-negative products) never exceed twice the smaller and the larger slope.",
  ["inputs"], "all pairs of real slopes", NOTEST, ["src/hydro/slope_limiters.hpp"], [("Constant, VanLeer, Minmod, VanAlbada", "src/hydro/slope_limiters.hpp")], observe=["limited slope"])
p("C07", "Face reconstruction is linear, conservative and local",
  "In every cell of the reconstruction range and every active direction, the two face values are the cell value minus and plus half the cell width times one slope obtained from the limiter applied to the left and right difference quotients of the cell-centre distances; their width-weighted mean is the cell value and a uniform field is reproduced exactly. Cells outside the range and inactive directions are not written, and the limiter used is the one named in the configuration (unknown names throw).",
  ["inputs", "configurations"], "all fields, grids, ranges, limiters, 1-3 dimensions", NOTEST, ["src/hydro/limited_linear_reconstruction.hpp", "src/hydro/face_reconstruction.cpp", "src/hydro/hydro_reconstruction.hpp"],
  [("LimitedLinearReconstruction::execute", "src/hydro/limited_linear_reconstruction.hpp"), ("factory_face_reconstruction", "src/hydro/face_reconstruction.cpp")], observe=["var_rec array"])
p("C08", "The finite-volume update conserves mass, momentum and energy",
  "In each updated cell the new density, momentum and energy equal the old ones plus dt/volume times the sum over active directions of inflow minus outflow flux times face area (plus the geometric and gravity sources), where the flux through a face is a single value computed from the two reconstructed states on its two sides; on a Cartesian grid without gravity the total over any set of cells changes only through its outer faces. The half-step extrapolation adds to every face state of a cell one and the same half-step flux difference, computed from that cell's own face states and metric (plus the sources). Only the cells of the requested range are written, and the old state is never modified.",
  ["inputs", "configurations"], "all states, grids, time steps, Riemann solvers and equations of state honouring their contracts, 1-3 dimensions, Cartesian and spherical", NOTEST, ["src/hydro/godunov_scheme.hpp", "src/hydro/source_terms.hpp"],
  [("RiemannBasedGodunovScheme::execute", "src/hydro/godunov_scheme.hpp"), ("compute_source", "src/hydro/source_terms.hpp")], observe=["rho_new, rhou_new, E_new"])
p("C09", "A uniform static state is an exact equilibrium in every geometry",
  "On a Cartesian or spherical grid of any dimension, a uniform gas at rest with no gravity stays exactly unchanged by a full time step (half-step extrapolation and finite-volume update), pressure forces on curved faces being balanced exactly by the geometric source terms. On a Cartesian grid a uniform moving gas also stays exactly unchanged.",
  ["inputs", "configurations"], "all uniform states, all (irregular) grids with metric of C12, all time steps, all configured Riemann solvers", NOTEST, ["src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp", "src/hydro/source_terms.hpp", "src/mesh/geometry.cpp"],
  [("well-balanced geometric source", "src/hydro/source_terms.hpp")], observe=["rho_new, rhou_new, E_new"])
p("C10", "Passive scalars are conserved, upwinded and stay fractions",
  "Each passive scalar is transported with the same mass flux as the gas: its partial density changes by the face mass fluxes times the scalar value of the upwind side, so a uniform scalar stays uniform whatever the flow. After a step every updated scalar lies between 0 and 1, and scalars neither influence each other nor the gas.",
  ["inputs", "configurations"], "any number of scalars, all states, grids and dimensions", NOTEST, ["src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp", "src/hydro/hydro_reconstruction.hpp"],
  [("passive scalar update", "src/hydro/godunov_scheme.hpp")], observe=["fx_new"])
p("C11", "Gravity sources and gravity fields are physically correct",
  "In a gravity run each updated cell's momentum gains dt*rho*g and its energy gains dt*rho*u.g summed over the active directions (in the half-step extrapolation every face state gains the same from its own density and velocity over the half step). The field itself is the configured constant per direction (uniform), -G*M/r^2 radially and zero otherwise (point mass), and -G*(central mass + mass of the shells inside)/r^2 radially (internal mass).",
  ["inputs", "configurations"], "all states, grids and gravity parameters", NOTEST, ["src/gravity/gravity.hpp", "src/gravity/gravity.cpp", "src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp"],
  [("UniformGravity / PointMassGravity / InternalMassGravity", "src/gravity/gravity.hpp")], observe=["rhou_new, E_new", "gravity field values"])
p("C12", "Cell volumes and face areas are the exact geometric measures",
  "For every cell of the whole local grid, ghosts included, the computed face areas and volume are the exact measures of the coordinate cell: products of edge lengths in Cartesian geometry, and the integrals of the spherical volume and area elements in spherical geometry. They are positive for valid coordinates, add up when a cell is split, and the face shared by two cells has one area.",
  ["inputs", "configurations"], "all increasing coordinate arrays in the valid domain, 1-3 dimensions", NOTEST, ["src/mesh/geometry.cpp", "src/mesh/geometry_factory.cpp"],
  [("Cartesian / Spherical execute", "src/mesh/geometry.cpp")], observe=["ds, dv arrays"])
p("C13", "The time step obeys the CFL condition everywhere on every rank",
  "The time step equals the CFL number divided by the maximum, over all cells of the range on all ranks, of the sum over active directions of (|velocity| + sound speed)/cell length, cell lengths being physical lengths (scaled by radius and sine in spherical geometry); hence in every cell the step times this wave rate is at most the CFL number. All ranks get the same value.",
  ["inputs", "configurations"], "all states, grids, ranks, 1-3 dimensions, both geometries", NOTEST, ["src/hydro/time_step.hpp"], [("time_step", "src/hydro/time_step.hpp")], observe=["returned time step"])
p("C14", "Index ranges nest correctly and describe exactly the requested ghosts",
  "For every corner pair and ghost depth, the range without ghosts has exactly the requested number of interior cells starting right after the ghost layer in active dimensions (and one cell at index 0 offset in inactive ones), the range with n ghosts extends it by exactly n cells on both sides in active dimensions only, and asking for more ghosts than allocated, a negative or an inverted corner throws. Ghost-inclusive ranges contain the narrower ones and never leave the local array.",
  ["inputs", "configurations"], "all corners and ghost depths, 1-3 dimensions", NOTEST, ["src/mesh/range.cpp", "src/mesh/range.hpp"], [("Range", "src/mesh/range.cpp")], observe=["begin/end pairs", "thrown runtime_error"])
p("C15", "The domain decomposition tiles the grid exactly",
  "For every global grid size, process-grid shape and rank, the local boxes of all ranks are contiguous, non-overlapping, differ by at most one cell per direction and together cover every global cell exactly once; a rank is flagged as a domain border exactly when its box touches that side. The local array size is the local box plus two ghost layers in active dimensions.",
  ["inputs", "configurations"], "all global sizes, ghost depths, process grids and coordinates", NOTEST + "Multi-rank decompositions are never sampled beyond a few sizes.", ["src/mesh/grid.cpp", "src/mesh/grid.hpp"], [("Grid::MPI_Decomp", "src/mesh/grid.cpp")],
  observe=["Nx_local_ng, range corners, is_border"])
p("C16", "Local coordinates, widths and centres agree with the global mesh",
  "A regular mesh places its nodes at min + i*(max-min)/N, so that the first and last interior nodes are exactly the domain bounds, ghosts included by the same spacing. Each rank's local nodes are the matching slice of the global nodes, cell widths are differences of consecutive nodes and centres their midpoints, on host and device alike.",
  ["inputs", "configurations"], "all domains, sizes, ghosts and rank offsets", NOTEST, ["src/mesh/grid.cpp", "src/mesh/grid_type.cpp"], [("Grid::set_grid", "src/mesh/grid.cpp"), ("compute_regular_mesh_1d", "src/mesh/grid_type.cpp")], observe=["x, dx, x_center views"])
p("C17", "Physical boundaries fill exactly the ghost cells with the right values",
  "A zero-gradient boundary fills each ghost cell with the value of the nearest interior cell along that direction; a reflexive boundary mirrors the interior cell at the same distance from the wall and flips only the momentum component normal to the wall. Each boundary writes only the ghost layer of its own side and direction, over the full extent of the other directions, and never interior cells.",
  ["inputs", "configurations"], "all fields, sizes, ghost depths, sides, directions, dimensions", NOTEST, ["src/boundary.cpp", "src/boundary.hpp", "src/boundary_factory.hpp"], [("null_gradient_condition / reflexive_condition", "src/boundary.cpp")], observe=["density, momentum, energy, scalar arrays"])
p("C18", "Halo exchange is value-exact and boundary order honours the configuration",
  "After a halo exchange every ghost cell towards another rank, corners included, holds the interior cell of the rank that owns it, for all variables, with interior cells unchanged. Every face of the domain boundary is then processed exactly once; a configured priority lists the faces from high to low and faces of higher priority are processed later, so that they overwrite shared edges and corners; a priority that does not name every face is refused.",
  ["inputs", "configurations", "schedules"], "all fields, sizes, ghost depths, rank positions; MPI exchange specified by its contract", NOTEST, ["src/boundary_distribute.cpp", "src/boundary_distribute.hpp"],
  [("ghost_sync / ghost_exchange / generate_order", "src/boundary_distribute.cpp")], observe=["variable arrays after exchange", "order array"])
p("C19", "Mirrored host/device arrays never lose or duplicate a modification",
  "After every sequence of reads, writes, synchronisations and clears through a mirrored array, a request for one side returns the most recently written content: reading or read-writing a side that is out of date first copies exactly once from the other side and leaves nothing pending, a side that is up to date is never overwritten, a write marks the other side out of date, and a discarding write supersedes what the other side had pending. When both sides share memory, synchronisation copies nothing.",
  ["histories", "inputs"], "all operation histories (as a data-structure invariant preserved by every operation)", NOTEST, ["src/dual_view/dual_view.hpp"], [("DualView modified flags", "src/dual_view/dual_view.hpp")], observe=["view contents", "need_sync_*"])
p("C20", "Checked integer conversion never changes a value silently",
  "Converting an integer to another integer type returns the same mathematical value whenever it is representable, and otherwise throws, for every pair of standard integer types including mixed signedness.",
  ["inputs", "programs"], "all values of all pairs of integer types", "The existing tests try a few values of a few type pairs; the claim is over all 2^64 values of 64 pairs.", ["src/utils/int_cast.hpp"], [("int_cast", "src/utils/int_cast.hpp")], observe=["return value", "thrown exception"])
p("C21", "Configuration parsing is memory-safe for every input file",
  "For every byte sequence offered as a configuration file, parsing terminates without reading or writing outside its buffers, reports an error at the first offending line or succeeds, and section, name and value strings passed on are always terminated within their limits.",
  ["inputs"], "all files as sequences of lines up to the parser's line buffer", "46 sample inputs exist; memory safety is over all byte strings.", ["vendor/inih/ini.c"], [("ini_parse_stream", "vendor/inih/ini.c")], observe=["handler callbacks, return code"])
p("C22", "Every configuration key reaches the right parameter with the documented default",
  "Each run parameter takes the value of its own section and key when present and its documented default when absent, independently of all other keys; reading parameters never changes the input. No key is read into two unrelated parameters and per-direction and per-face parameters map to their own direction or face.",
  ["inputs", "configurations"], "all configuration contents (reader abstracted by its contract)", "No test constructs the parameter object from varying inputs.", ["src/utils/param.cpp", "src/utils/param.hpp"], [("Param::Param", "src/utils/param.cpp")], observe=["Param fields"])
p("C23", "Simulation time advances to the end time with outputs on schedule",
  "The main loop never steps past the final time, stops exactly at the final time or the iteration limit, and writes an output exactly when the output frequency, time or end criterion says so.",
  ["histories"], "all run lengths", NOTEST, ["src/main.cpp"], [("time loop", "src/main.cpp")], observe=["t, iter, outputs"])
p("C24", "Grid shifting moves data and coordinates together",
  "When the moving grid shifts by one cell, every local coordinate and every variable of each interior cell takes the value of its right neighbour, host and device agree, metric quantities are recomputed for the shifted coordinates, and nothing else changes.",
  ["inputs", "configurations"], "all fields and grids", NOTEST, ["src/moving_grid/moving_grid.cpp", "src/mesh/grid.cpp"], [("shift_grid / moving_grid", "src/moving_grid/moving_grid.cpp")], observe=["coordinate and variable arrays"])
p("C25", "Broadcasting a profile fills every cell of the range with its profile value",
  "Broadcasting a one-dimensional profile along the first direction sets every cell of the given range, in every other direction and every scalar, to the profile value of its first index and writes nothing else.",
  ["inputs", "configurations"], "all profiles, ranges, scalar counts", NOTEST, ["src/broadcast.cpp"], [("broadcast", "src/broadcast.cpp")], observe=["destination array"])
p("C26", "Named components resolve to exactly the requested implementation",
  "Selecting a Riemann solver, reconstruction, limiter, boundary, grid type or user step by its configured name yields the implementation of that name, and every other name throws instead of silently running something else.",
  ["inputs", "configurations"], "all names", NOTEST, ["src/hydro/godunov_scheme.hpp", "src/hydro/face_reconstruction.cpp", "src/boundary_factory.hpp", "src/mesh/grid_factory.cpp", "src/user_step/user_step_factory.hpp"], [("factories", "src/hydro/face_reconstruction.cpp")], observe=["dynamic type", "thrown runtime_error"])
p("C27", "Data-parallel kernels stay in bounds and are race-free",
  "In every data-parallel kernel of the solver, for every array size, ghost depth and range the caller may pass, each access is inside its array, no two iterations of one kernel write the same element or read what another writes, and results therefore do not depend on the execution order.",
  ["schedules", "inputs", "configurations"], "all iteration schedules, all sizes", "Tests run one schedule on few sizes and cannot see a race or an out-of-bounds access that happens to be benign.", ["src/hydro", "src/boundary.cpp", "src/mesh", "src/gravity", "src/analysis", "src/broadcast.cpp"], [("parallel_for bodies", "src/hydro/godunov_scheme.hpp")], observe=["array accesses"])
p("C28", "The pressure fix touches only flagged cells and keeps energy consistent",
  "With the pressure fix enabled, a cell whose kinetic energy does not dominate keeps the conservative energy; in a corrected cell the energy is replaced by internal energy advanced with the velocity divergence plus kinetic energy. Density, momentum and cells outside the range are never touched, and with the fix disabled nothing changes.",
  ["inputs", "configurations"], "all states and grids", NOTEST, ["src/hydro/pressure_fix.hpp"], [("PressureFix", "src/hydro/pressure_fix.hpp")], observe=["E_new"])
p("C29", "Diagnostics reduce over exactly the interior cells of all ranks",
  "The integral of a field is the sum over all interior cells of all ranks of value times volume, and the minimum internal energy is a lower bound of all interior cells' internal energy attained in one of them; diagnostics modify no simulation state. The temperature diagnostic is the equation of state's temperature in every requested cell.",
  ["inputs", "configurations"], "all fields and grids", NOTEST, ["src/analysis/integration.cpp", "src/analysis/internal_energy.cpp", "src/analysis/temperature.hpp"], [("integrate / minimum_internal_energy", "src/analysis/integration.cpp")], observe=["returned values"])
p("C30", "Radioactive heating adds exactly the deposited energy",
  "The heating user step increases the energy of each cell of its range by the mass of heated material (first scalar times density) times the specific heating rate of the decay chain at the current time times the time step, and changes nothing else; the default user step changes nothing.",
  ["inputs"], "all states, times and steps", NOTEST, ["src/user_step/user_step.cpp", "src/user_step/user_step.hpp", "src/user_step/user_step_factory.hpp"], [("HeatNickelStep", "src/user_step/user_step.cpp")], observe=["E array"])
p("C31", "File-format metadata and HDF5 handles are balanced",
  "Every HDF5 handle opened while reading is released exactly once on every path, including errors, and the light-data description written next to the outputs is well nested and describes every output of the run once, with its time, its file and the extents of the mesh, of the coordinates and of the variables.",
  ["histories", "fault_sequences"], "all read/write sequences and failures", NOTEST, ["src/io/io_hdf5.hpp", "src/io/io.cpp"], [("RAII handles", "src/io/io_hdf5.hpp")], observe=["H5*close calls", "xdmf file"])
p("C32", "Each step starts from the completed state of the previous one, and outputs show that state",
  "In every step of a run, also after a restart or a shift of the mesh, the time step, the interface states, the fluxes, the pressure fix, the source step and the boundary conditions act in this order, each on the state the previous one left and over all the cells it has to cover; before the next step the primitive variables in all cells and ghost cells and the gravity field are recomputed from the new state, and every output holds the density, energy, scalars, velocity, pressure and temperature of one and the same state. A step is made only from a state whose least internal energy is a number that is not negative; otherwise that state is written and the run ends with an error.",
  ["histories", "configurations"], "all run lengths, gravity fields, mesh shifts, scalar counts", NOTEST, ["src/main.cpp"], [("time loop", "src/main.cpp")], observe=["arrays given to each operator and to the output"])
p("C33", "The initial state of every shipped problem is complete, depends on the position only, and is the documented profile",
  "The initialisation of each shipped problem (advection, shock tube, wall, implosion, Kelvin-Helmholtz, Gresho vortex, Rayleigh-Taylor in two and three dimensions, Sedov in one, two and three dimensions, stratified atmosphere, hydrostatic sphere, nickel heating, profiles read from a file) sets density, every velocity component, pressure and every passive scalar in every cell of the range it is given and leaves the ghost cells alone; the state of a cell does not depend on which process owns it nor on the ghost depth, only on its place in the mesh and the parameters; and it is the profile of the problem: the two given states on their sides of the interface, the isothermal hydrostatic column with uniform temperature, the vortex in balance, the explosion energy in the cells it is meant for, the adiabatic layers of each fluid. The user-defined boundary of the hydrostatic problems at rest imposes that same profile in the ghost layers of its face and changes nothing else.",
  ["inputs", "configurations"], "all parameters, meshes, ghost depths, decompositions", NOTEST, ["src/setups"], [("setups", "src/setups"), ("broadcast", "src/broadcast.cpp")], observe=["density, velocity, pressure and scalars after the initialisation"])
p("C34", "A run resumes from an output file exactly, on any number of processes",
  "An output file holds, after every process has written, the density, pressure, energy, temperature, every velocity component and every passive scalar of the interior of the whole mesh, each cell at its global place and whatever the decomposition, the nodes of the mesh with and without ghosts, the time, the iteration, the adiabatic index and the output counters; it replaces an older file of that name, each process writes its own cells only and the first process the rest. Reading the file back, on any decomposition of the same mesh, gives every process the density, velocity, pressure and scalars of its own cells, the nodes, the time, the iteration and the counters exactly as written. Likewise the profiles and the nodes of an initial-state file reach the cells of each process at their place.",
  ["inputs", "configurations", "histories"], "all meshes, decompositions, ghost depths, scalar counts, states of the host and device copies", NOTEST, ["src/io/io.cpp", "src/io/config.yaml.cpp", "src/setups/v1d/setup.hpp"], [("write_pdi, read_pdi", "src/io/io.cpp"), ("specification tree of PDI", "src/io/config.yaml.cpp")], observe=["datasets of the output files", "state after a restart"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
