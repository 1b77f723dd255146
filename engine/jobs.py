"""which harnesses, in which configurations, decide which property"""

def _n(h, ndims=(1, 2, 3), geoms=("Cartesian",), eoss=("PerfectGas",), tier="quick", **kw):
    out = []
    for n in ndims:
        for g in geoms:
            for s in eoss:
                d = dict(kw)
                cfg = {"ndim": n, "geom": g, "eos": s, "def": d.pop("defs", {})}
                if "grav" in d:
                    cfg["grav"] = d.pop("grav")
                if "flags" in d:
                    cfg["flags"] = d.pop("flags")
                out.append(dict({"harness": "h_%s.cpp" % h, "cfg": cfg, "tier": tier}, **d))
    return out


ALLGEO = ("Cartesian", "Spherical")
JOBS = {}
JOBS["C01"] = _n("primcons")
JOBS["C02"] = _n("perfgas", (1,))
JOBS["C03"] = _n("radgas", (1,), eoss=("RadGas",))
JOBS["C04"] = [j for s in ("HLL", "HLLC", "Splitting") for j in _n("flux", defs={"SOLVER": s})]
JOBS["C05"] = [j for s in ("HLL", "HLLC", "Splitting") for n in (1, 2, 3) for d in range(n) for j in _n("riemann", (n,), defs={"SOLVER": s, "DIM": d}, tier="quick" if (n == 3 or d == n - 1) else "thorough")]
JOBS["C06"] = [j for L in ("Constant", "VanLeer", "Minmod", "VanAlbada") for j in _n("limiter", (1,), defs={"LIM": L})]
JOBS["C07"] = _n("facerec", strings="Constant|VanLeer|Minmod|VanAlbada")
def _upd(prop):
    return _n("godunov", geoms=ALLGEO, defs={"PROP": prop}) + _n("hancock", geoms=ALLGEO, defs={"PROP": prop}) + (_n("muscl", defs={"PROP": prop}) if prop != 11 else [])


JOBS["C08"] = _upd(8)
JOBS["C09"] = _n("equilibrium", geoms=ALLGEO)
JOBS["C10"] = _upd(10)
JOBS["C11"] = _upd(11) + [j for k in (0, 1, 2) for j in _n("gravity", geoms=("Spherical",) if k else ("Cartesian",), defs={"KIND": k}, grav=("Uniform", "Point_mass", "Internal_mass")[k])]
JOBS["C13"] = _n("timestep", geoms=ALLGEO)
JOBS["C12"] = _n("geometry", geoms=ALLGEO)
JOBS["C14"] = _n("range")

JOBS["C17"] = _n("boundary")
JOBS["C18"] = ([j for sd in range(8) for j in _n("halo", tuple(d for d in (1, 2, 3) if sd < 2 ** d), defs={"SIDES": sd}, cost=9)]
               + [j for td in range(3) for j in _n("halo", tuple(d for d in (1, 2, 3) if td < d), defs={"PART": 1, "TD": td})]
               + [j for f in (0, 2) for j in _n("halo", defs={"PART": 2, "NFX": f})]
               + _n("bcorder", (1, 2)) + _n("bcorder", (3,), defs={"FIRST": -2})
               + [j for f in range(6) for g in range(6) if f != g for j in _n("bcorder", (3,), defs={"FIRST": 10 * f + g})]
               + [j for d in (1, 2, 3) for w in sorted({1, 2 * d - 1, 2 * d}) for j in _n("bcorder", (d,), defs={"PART": 1, "NWORDS": w})])
JOBS["C19"] = _n("dualview", (1,))
JOBS["C20"] = [j for s in range(4) for j in _n("intcast", (1,), defs={"SHARD": s})]
JOBS["C21"] = [{"harness": "cbmc/ini.c", "cfg": {"def": {"PART": p}}, "tier": "quick", "cost": c} for p, c in (("STRNCPY0", 9), ("READER", 9), ("FIND", 6), ("RSTRIP", 5), ("LSKIP", 4), ("STREAM", 7), ("ENTRY", 1))]
JOBS["C15"] = _n("decomp")
JOBS["C16"] = _n("mesh")
JOBS["C22"] = _n("param", (1,)) + [j for q in (0, 1) for j in _n("inireader", (1,), defs={"PART": q}, strings="|12|-3|1.5|abc|99999999999|4294967296|0x10|7 8")]
JOBS["C26"] = _n("factories") + _n("factories", geoms=("Spherical",), eoss=("RadGas",))
JOBS["C24"] = [j for t in (0, 1, 2) for j in _n("moving", geoms=ALLGEO, defs={"STATE": t}, cost=5)]
JOBS["C31"] = ([j for q in (0, 1, 2) for f in (0, 1, 2) for j in _n("io", (1, 2, 3), defs={"PART": q, "NFX": f})]
               + [j for q in (0, 1, 2) for f in (0, 1) for j in _n("v1d", (1, 2, 3), defs={"PART": q, "NFX": f})] + [j for q in (3, 4, 5, 6) for j in _n("v1d", (1,), defs={"PART": q, "NFX": 0})])
def _main(claims, ndims=(1,), grav="Uniform", **d):
    return _n("main", ndims, grav=grav, defs=dict({"CLAIMS": claims, "RESTART": 1, "FREQ": 3, "SHIFT": 0, "PFIX": 0, "NFX": 0}, **d), covers=["invalid energy", "the run ends"], cost=4)


GRAVITIES = ("Uniform", "Point_mass", "Internal_mass")
JOBS["C23"] = ([j for r in (0, 1) for f in (0, 1, 2, 3) for j in _main(1, RESTART=r, FREQ=f)]
               + [j for s in (1, 2) for j in _main(1, grav="Point_mass", SHIFT=s, PFIX=1, NFX=1)] + _main(1, (2, 3), grav="Internal_mass", PFIX=1, NFX=1))
JOBS["C32"] = ([j for g in GRAVITIES for s in (0, 1, 2) for q in (0, 1) for j in _main(2, grav=g, SHIFT=s, PFIX=q, FREQ=2, NFX=1)]
               + [j for g in GRAVITIES for s in (0, 1, 2) for j in _main(2, grav=g, SHIFT=s, PFIX=1, RESTART=0, NFX=1)]
               + [j for g in GRAVITIES for j in _main(2, (2, 3), grav=g, PFIX=1, NFX=1)]
               + [j for f in (0, 1) for r in (0, 1) for j in _main(2, RESTART=r, FREQ=f)])
# what the configuration names is what the run uses: components, parameters, boundary condition of every side
_BC = [j for n in (1, 2, 3) for f in range(2 * n) for j in _n("main", (n,), grav="Uniform", defs={"CLAIMS": 3, "RESTART": f % 2, "FREQ": 2, "SHIFT": 0, "PFIX": 0, "NFX": 0, "BCF": f},
                                                              covers=["boundary", "refused"], strings="|NullGradient|Reflexive|Periodic|UserDefined|Default")]
_WIRED = ([j for g in GRAVITIES for r in (0, 1) for j in _main(3, grav=g, RESTART=r, PFIX=1, SHIFT=r, FREQ=2, NFX=1)] + _main(3, (2, 3), RESTART=0, FREQ=3, PFIX=0, NFX=0))
JOBS["C22"] = JOBS["C22"] + _BC + _WIRED
JOBS["C26"] = JOBS["C26"] + _BC + _WIRED
JOBS["C25"] = _n("broadcast")
JOBS["C28"] = _n("pressurefix", geoms=ALLGEO)
JOBS["C29"] = _n("analysis")
JOBS["C30"] = _n("userstep")
_K = {"kinds": ["bounds", "race"]}
JOBS["C27"] = ([j for p in ("primcons", "analysis", "broadcast", "boundary", "mesh", "userstep") for j in _n(p, **_K)]
               + [j for p in ("timestep", "pressurefix", "geometry") for j in _n(p, geoms=ALLGEO, **_K)]
               + _n("facerec", strings="Constant|VanLeer|Minmod|VanAlbada", **_K) + _n("muscl", defs={"PROP": 8}, **_K)
               + [j for p in ("godunov", "hancock") for j in _n(p, geoms=ALLGEO, defs={"PROP": 8}, **_K)]
               + [j for k in (1, 2) for j in _n("gravity", geoms=("Spherical",), defs={"KIND": k}, grav=("Uniform", "Point_mass", "Internal_mass")[k], **_K)]
               + [j for f in (0, 2) for j in _n("halo", defs={"PART": 2, "NFX": f}, **_K)]
               + [j for t in (0, 1, 2) for j in _n("moving", defs={"STATE": t}, **_K)]
               + [j for n, f, dims, geos in (("advection_gap", 0, (1, 2, 3), ALLGEO), ("advection_sinus", 0, (1, 2, 3), ALLGEO), ("eq_hydro_sphe", 0, (1, 2, 3), ALLGEO), ("implosion_test", 0, (1, 2, 3), ALLGEO),
                                             ("sedov1d", 0, (1, 2, 3), ALLGEO), ("sedov2d", 0, (1, 2, 3), ("Cartesian",)), ("sedov3d", 0, (3,), ("Spherical",)), ("shock_tube", 0, (1, 2, 3), ALLGEO),
                                             ("shock_wall", 0, (1, 2, 3), ALLGEO), ("stratified_atm", 0, (1, 2, 3), ALLGEO), ("heat_nickel", 1, (1, 2, 3), ALLGEO), ("kelvin_helmholtz", 0, (2,), ALLGEO),
                                             ("gresho_vortex", 0, (2,), ALLGEO), ("rayleigh_taylor", 1, (2,), ALLGEO), ("rayleigh_taylor3d", 1, (3,), ALLGEO))
                  for j in _n("setup", dims, geos, defs={"SETUP": n, "NFX": f}, **_K)]
               + [j for q in (0, 1, 2) for j in _n("v1d", (1, 2, 3), geoms=ALLGEO, defs={"PART": q, "NFX": 1}, **_K)])

JOBS["C33"] = ([j for n, f, dims, geos in (("advection_gap", 0, (1, 2, 3), ("Cartesian",)), ("advection_sinus", 0, (1, 2, 3), ("Cartesian",)), ("eq_hydro_sphe", 0, (1, 2, 3), ("Spherical",)), ("implosion_test", 0, (1, 2, 3), ("Cartesian",)),
                                             ("sedov1d", 0, (1,), ALLGEO), ("sedov2d", 0, (2, 3), ("Cartesian",)), ("sedov3d", 0, (3,), ("Spherical",)), ("shock_tube", 0, (1, 2, 3), ALLGEO),
                                             ("shock_wall", 0, (1, 2, 3), ("Cartesian",)), ("stratified_atm", 0, (1, 2, 3), ("Cartesian",)), ("heat_nickel", 1, (1, 2, 3), ALLGEO), ("kelvin_helmholtz", 0, (2,), ("Cartesian",)),
                                             ("gresho_vortex", 0, (2,), ("Cartesian",)), ("rayleigh_taylor", 1, (2,), ("Cartesian",)), ("rayleigh_taylor3d", 1, (3,), ("Cartesian",)))
                  for j in _n("profile", dims, geos, defs={"SETUP": n, "NFX": f})]
               + [j for n, g in (("eq_hydro_sphe", "Spherical"), ("stratified_atm", "Cartesian")) for j in _n("profile", (1, 2, 3), (g,), defs={"SETUP": n, "NFX": 0, "BC": 1})]
               + [j for f in (0, 2) for j in _n("v1d", (1, 2, 3), defs={"PART": 7, "NFX": f})]
               + [j for j in _n("v1d", (1, 2, 3), defs={"PART": 8})])

# outputs and restarts: the transfers of the specification tree of PDI (it declares ten scalars)
JOBS["C34"] = ([j for p in (0, 1) for f in (0, 1, 2, 10) for j in _n("restart", (1, 2, 3), defs={"PART": p, "NFX": f, "STATE": f % 2 * 2})]
               + [j for p in (0, 1) for f in (3, 4, 5, 6, 7, 8, 9) for j in _n("restart", (1, 2, 3), tier="thorough", defs={"PART": p, "NFX": f, "STATE": 0})]
               + [j for f in (0, 2) for j in _n("v1d", (1, 2, 3), defs={"PART": 7, "NFX": f})]
               + [j for j in _n("v1d", (1, 2, 3), defs={"PART": 8})])

# what is assumed without proof, per property (on top of COMMON)
COMMON = [
    "the Kokkos programming model as specified in stub/kokkos (views, subviews, deep_copy, parallel_for/reduce/scan, MDRangePolicy) stands for the Kokkos library",
    "floating-point arithmetic is treated as exact real arithmetic on finite values (rounding, overflow to infinity and NaN are outside the contracts unless stated)",
    "index arithmetic is mathematical; local extents are at most 100000 + ghosts per direction",
    "clang 18 front end and the IR normalisation passes (always-inline, sroa, early-cse, instsimplify, simplifycfg) preserve the meaning of the code",
    "the verification-condition generator and prover in /verif/engine, z3 4.8.12 and cvc5 1.1.2 are trusted",
]
TOPO = "MPI process topology: MPI_Dims_create fills the zero entries with positive counts whose product is the number of ranks, MPI_Cart_create/Cart_coords/Cart_get describe a row-major process grid (contracts in harness/mpi_cart.hpp)"
ASSUME = {
    "C27": [TOPO, "kernels are called with arrays of the extents and a range inside them, as the callers of the solver do (preconditions of the harnesses)", "read-only views of the harness are pairwise distinct arrays (the solver allocates each array once)", "number of passive scalars: any in the hydrodynamic kernels, fixed at 0, 1 or 2 in the setups and the halo exchange"],
    "C23": ["the operators called by the main loop act as their contracts say (stub/mainloop; their own properties are C03-C19, C24, C28-C31): each gives arbitrary new values to what it writes and nothing else", "two consecutive steps from an arbitrary admissible state, by induction any number: every state between two steps satisfies the invariant of the restart state", "at start t < t_end, iter < max_iter and the first output time lies after the initial time; a restart file carries the counters of the same output parameters", "real arithmetic: t + (t_out - t) is t_out", "the content of an array is followed in one cell; which cells an operator covers is the range it is given"],
    "C34": ["PDI and its decl_hdf5 plugin execute the specification tree as documented: metadata are kept by value, data are available during their event, the selected elements are transferred in the order of the file (contract of harness/pdi_transfer.hpp, driven by the tree extracted from src/io on every run)", "HDF5 stores and gives back the values; opening, closing and writing attributes do not fail here (failures: C31)", "the windows of the processes tile the mesh (C18); the collective opening of the file orders the writes of the first process before those of the others (MPI-IO)", "names of files are opaque: their addresses and sizes are checked"],
    "C33": ["parameters are positive", "the coordinates, volumes and gravity of a cell are functions of its place in the mesh (C12, C18, C24), the ranks of the processes are in the order of their coordinates (MPI)", "exp, tanh, sin, cos, log, pow and atan2 are the real functions, known through their basic identities only", "what is broadcast is what the first process sends; random draws of the 3D Rayleigh-Taylor problem are arbitrary", "the profiles read from a file are transferred as the specification tree of PDI in src/io orders (extracted on every run; contract of harness/pdi_transfer.hpp)", "the Sedov problem in one dimension is meant for one dimension; its user-defined boundaries are claimed at rest (zero velocity)"],
    "C32": ["the operators called by the main loop act as their contracts say (stub/mainloop; their own properties are C03-C19, C24, C28-C31): each gives arbitrary new values to what it writes and nothing else", "two consecutive steps from an arbitrary admissible state, by induction any number: every state between two steps satisfies the invariant of the restart state", "at start t < t_end, iter < max_iter and the first output time lies after the initial time; a restart file carries the counters of the same output parameters", "real arithmetic: t + (t_out - t) is t_out", "the content of an array is followed in one cell; which cells an operator covers is the range it is given", "boundary names of the input file are fixed (Reflexive, or those of a shifted mesh)"],
    "C31": ["HDF5 contract (stub/io/hdf5.h): every opening call may fail with a negative identifier, a successful one yields a fresh handle; every other call may report a failure; dataspaces have rank 0 to 3 and arbitrary extents", "PDI contract: an event has no effect on the handles of the program", "directory, prefix and names of variables contain no XML special characters (the names are literals of the code)", "the light-data file can be opened and written", "number of passive scalars 0 to 2 (bounded); any number of outputs recorded", "extents expected of a dataset: at least one of them is positive", "processes of the same column have the same number of cells along the first direction (C15)"],
    "C24": [TOPO, "at least one ghost cell; the divisors of the extrapolation of the last node and of the metric formulas are non-zero", "whether to shift is decided by the user (IShiftCriterion); the boundary conditions that follow a shift are C17/C18"],
    "C26": ["the components of the main loop are replaced by their contracts (stub/mainloop): the names they are asked for and the values they are given are checked", "texts are compared by the contract of std::string (equality of texts, length, common prefix with a literal)"],
    "C17": ["reflexive boundaries: at least as many interior cells as ghost cells in the direction"],
    "C18": ["MPI_Cart_shift gives the neighbours of the periodic process grid; MPI_Sendrecv_replace delivers messages by source and tag in program order", "number of passive scalars 0 to 2 (bounded); every array size, ghost depth and content", "string streams yield the blank-separated words of the text", "neighbouring processes share the number of cells across the face (C15), and have at least Nghost cells in every direction", "the message of one direction holds fewer than 2^31 numbers (int_cast throws otherwise, C20)"],
    "C19": ["the modification counters are arbitrary 32-bit values that do not overflow (fewer than 2^32 writes between synchronisations)"],
    "C20": ["__int128 as the mathematical reference; the 64 pairs of standard integer types are enumerated (finite), values are arbitrary"],
    "C22": ["what the run makes of its parameters is checked in main.cpp with the operators replaced by their contracts (stub/mainloop)", "std::stoi, stol, stoll, stoul, stoull, stod are functions of the text (or report it)", "the map lookup of INIReader is verified on spelled-out section and key names (bounded: four distinct keys, up to four values per file, arbitrary texts as values); truth values on every spelling of the eight words and their neighbours (bounded)", "the texts of a file are presented by the parser as in C21"],
    "C21": ["fgets meets the contract of a line reader (terminated line of at most the given size)", "fewer than 2^31 lines; the stream ends after finitely many lines", "contracts of strlen, strchr, strncpy, isspace, fopen, fclose (cbmc/ini.c); the C locale", "the default compile-time options of ini.h (stack buffer of INI_MAX_LINE, no stop on first error)", "allocation of std::string and std::map in INIReader is left to the C++ library"],
    "C15": [TOPO],
    "C16": [TOPO],
    "C28": ["the divisors of the correction are non-zero (densities, cell volumes)", "a corrected cell has a non-zero old kinetic energy where the code divides by it"],
    "C29": ["MPI_Allreduce combines the local value with an arbitrary contribution of the other ranks", "equation of state: any total function (C02/C03)"],
    "C30": ["exp is the real exponential; the two formulas of the decay chain are compared to 1e-9 of the size of their terms"],
    "C01": ["the equation of state is any pair of mutually inverse total functions (postconditions proved for the two shipped classes in C02 and C03)"],
    "C02": ["sqrt is the real square root; physical constants take their double values"],
    "C03": ["sqrt is the real square root; residual claim only when the Newton loop ends before its iteration limit"],
    "C04": ["equation of state: total functions with positive sound speed and rho c^2 >= P (proved for the shipped classes in C02/C03)"],
    "C05": ["equation of state: total functions with positive sound speed and rho c^2 >= P (proved for the shipped classes in C02/C03)"],
    "C08": ["Riemann solver, gravity and equation of state are arbitrary total functions of their arguments", "the divisors of the update are non-zero (cell volume, positive densities, x0 + x0p and the sine sums of spherical cells)"],
    "C09": ["Riemann solver: any function of the two states that returns the physical flux for equal states (proved for the shipped solvers in C04)", "metric arrays as computed by the grid (C12)", "the divisors of the update are non-zero"],
    "C10": ["Riemann solver, gravity and equation of state are arbitrary total functions of their arguments", "the new density is positive and the other divisors are non-zero"],
    "C11": ["Riemann solver, gravity and equation of state are arbitrary total functions of their arguments", "cell-centre radii and total shell volumes are non-zero", "MPI_Allreduce adds to each element a contribution that is an arbitrary function of communicator and element"],
    "C13": ["cell lengths are non-zero", "MPI_Allreduce combines the local value with an arbitrary contribution of the other ranks and gives all ranks the result", "the multiplication by the CFL number is done by the caller in main.cpp"],
}
NOTES = {}
TECH = {"C21": "code contracts on the unchanged ini.c, discharged by CBMC 6.11 (SAT): every function enforced on its real body at the real line length, loops by mechanically chosen loop contracts (invariant over the variables of the loop, assigns clause, checked for entry, preservation and frame; any number of lines), callees (string helpers, C library) replaced by their contracts"}
LEVEL = {}
