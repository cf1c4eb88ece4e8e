I, H, C = "inputs", "histories", "configurations"

PROPS.append(P("C01", "Fields superpose linearly in the coil currents",
    "For every coil type, circuit, solenoid and whole machine, the poloidal flux, Br and Bz at any point equal the sum over its parts of (present current) times (response to unit current), where a circuit drives each member with circuit current times that member's multiplier. Flux evaluated from a precomputed Green's response, cached once and reused after currents have changed, equals the directly evaluated flux. Assigning a circuit's current updates every member coil, and reading it back returns the assigned value.",
    [I, H, C], "all machines built from any mix of coil types and circuits, all currents, multipliers, evaluation points, and all orders of current changes and cached-response use",
    "Tests evaluate a handful of machines with one set of currents; a wrong term appears only for particular coil types, multipliers or current histories.",
    ["freegs/coil.py", "freegs/machine.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py", "freegs/pre_calc_coil.py"],
    [("unit responses scaled by current", "freegs/coil.py: Coil.psi/Br/Bz/calcPsiFromGreens"), ("circuit sums and current setter", "freegs/machine.py: Circuit"), ("machine sums", "freegs/machine.py: Machine.psi/Br/Bz/createPsiGreens/calcPsiFromGreens")],
    ["psi(R,Z), Br(R,Z), Bz(R,Z), controlPsi/Br/Bz, createPsiGreens/calcPsiFromGreens of coils, circuits, machines"]))

PROPS.append(P("C02", "A coil's total toroidal current is current times turns, spread as specified",
    "The unit-current flux, Br and Bz of a coil equal its number of turns times the Green's function of its location, or, for a shaped coil, of its quadrature points with their weights, or, for a filament coil, the plain average over its filaments, or, for a pre-calculated coil, the supplied map. A multi-coil given lists has one turn per listed location, given a single point carries its turns there, and with mirroring adds the reflection in Z=0, each block scaled by its polarity; a solenoid is one loop per turn evenly spaced between its ends; a mirrored pair sits at +Z and -Z with equal or opposite current.",
    [I, C], "all coil geometries, turns, point counts, mirror and polarity settings and evaluation points",
    "Tests compare a few coils at one point, mostly with one turn; mirror, polarity and turns combinations are not exercised.",
    ["freegs/coil.py", "freegs/machine.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py", "freegs/pre_calc_coil.py"],
    [("unit responses", "controlPsi/controlBr/controlBz of every coil class"), ("mirrored pair", "freegs/machine.py: MirroredCoil")],
    ["controlPsi/controlBr/controlBz and psi/Br/Bz of a freshly built coil"]))

PROPS.append(P("C04", "Moving a coil translates all of it and nothing else",
    "Assigning a coil's R (or Z) translates every one of its current filaments and its outline by the same displacement, so that its flux and field are those of the translated coil, R (or Z) reads back as assigned, the other coordinate, current, turns and filament weights stay, and successive moves compose. For pre-calculated coils this holds for vertical moves. Lists or arrays the caller passed in when building the coil are never modified.",
    [I, H, C], "all coil types, geometries, displacements and sequences of moves",
    "Tests move one shaped coil once and look at a scalar; outlines, mixed sequences and aliasing of the caller's data are not observed.",
    ["freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py", "freegs/pre_calc_coil.py"],
    [("R and Z setters", "ShapedCoil/FilamentCoil/MultiCoil/PreCalcCoil R.setter, Z.setter")],
    ["R, Z, shape, psi/Br/Bz after an assignment to R or Z"],
    technique=GVN + "; write-set analysis for the caller's data"))

PROPS.append(P("C03", "Magnetic field components derive from the stored flux and from f = R*Bt",
    "At any point, plasma Br = -(dpsi/dZ)/R and Bz = +(dpsi/dR)/R of the interpolated plasma flux, the total adds the coils' present field, psi and normalised psi are plasma plus coil flux and (psi-axis)/(boundary-axis), Btor is f(normalised psi)/R inside the core and the vacuum f/R outside, and Bpol and Btot are the root sum of squares of their components. The Green's functions for Br and Bz are minus/plus the central difference of the flux Green's function over R. After another solve every one of these queries uses the new flux, coil currents and profiles.",
    [I, H], "all equilibria, evaluation points, coil currents, profiles and numbers of earlier solves and queries",
    "Tests look at a few points of one equilibrium; a wrong sign, a stale spline or a stale cached response shows only at other points or after a second solve.",
    ["freegs/equilibrium.py", "freegs/gradshafranov.py"],
    [("field queries", "freegs/equilibrium.py: psi, psiRZ, psiNRZ, Br, Bz, Btor, Bpol, Btot, plasmaBr, plasmaBz"), ("Green's functions", "freegs/gradshafranov.py: Greens, GreensBr, GreensBz")],
    ["psi/psiN/psiRZ/psiNRZ/Br/Bz/Btor/Bpol/Btot of an equilibrium", "Greens, GreensBr, GreensBz"]))

PROPS.append(P("C07", "The discrete Grad-Shafranov operators are the stated stencils on every row",
    "For any domain and grid size, the second-order matrix row of an interior point is the central-difference form of d2/dR2 - (1/R) d/dR + d2/dZ2 with the actual spacings and that point's R, and the fourth-order matrix uses the fourth-order central stencils, with fourth-order one-sided stencils next to the edge. Every boundary row is the identity. The matrix-free operator and its diagonal agree with the second-order matrix inside and give zero on the edge.",
    [I, C], "all grid points of grids of any size, all domains and spacings",
    "A wrong coefficient in one row near one edge changes solutions by little and only on some grids; tests use a convergence tolerance on one domain.",
    ["freegs/gradshafranov.py"],
    [("second order matrix", "GSsparse"), ("fourth order matrix", "GSsparse4thOrder"), ("matrix-free operator", "GSElliptic")],
    ["GSsparse(...)(nx, ny), GSsparse4thOrder(...)(nx, ny), GSElliptic(Rmin)(psi, dR, dZ), GSElliptic.diag"],
    technique="constant-shape array value numbering: every entry of the array is compared with the reference formula",
    note="Decided for all domains, spacings and R of a few grid sizes that contain every kind of row (corner, edge, next-to-edge, interior, non-square); not for arbitrary sizes."))

PROPS.append(P("C08", "Boundary conditions set every edge point to its defined value and nothing else",
    "The fixed boundary condition sets the plasma flux to zero on all four edges; the free boundary condition sets every edge point to the Romberg integral over the grid of the toroidal current density times the Green's function from each grid point to that edge point (self contribution excluded); the von Hagenow condition sets it to the edge integral of Green's function times normal derivative over R of the zero-boundary solution. Interior flux, current density and grid are not modified.",
    [I, C], "all edge points, current densities, non-square grids and domains",
    "Tests never check individual edge values; an edge, corner or axis mix-up on a non-square grid or an up-down asymmetric current is not sampled.",
    ["freegs/boundary.py"],
    [("boundary conditions", "fixedBoundary, freeBoundary, freeBoundaryHagenow")],
    ["contents of the psi array after the call"],
    technique="constant-shape array value numbering of the boundary functions",
    note="Decided for all coordinates, spacings and current densities on square and non-square grids of fixed small size; not for arbitrary sizes."))

PROPS.append(P("C24", "Linear solvers solve the given equation on consistently built grid levels",
    "The direct solver returns the solution of A x = b reshaped like b. A multigrid or Jacobi cycle leaves the exact solution unchanged, performs the requested number of cycles and smoothing steps, and corrects with the interpolated solution of the coarse residual equation; restriction takes the fine value at matching interior points and interpolation is bilinear, both with zero edges. The V-cycle builder gives each level the operator generated for that level's own grid, stopping when the grid cannot be halved.",
    [I, C], "all right-hand sides, starting guesses, level counts, cycle counts and (non-square) grid sizes",
    "Tests run one square grid with a tolerance, which a slower or slightly inconsistent cycle still meets.",
    ["freegs/multigrid.py"],
    [("solvers", "MGDirect, MGJacobi, createVcycle"), ("grid transfer", "restrict, interpolate"), ("matrix-free smoothing", "smoothJacobi, smoothVcycle, smoothMG")],
    ["return values of the solver objects and functions"],
    technique="constant-shape array value numbering of one cycle, grid transfers and level construction",
    note="Decided for all matrices and right-hand sides on fixed small grids. That cycles converge is not decided."))

PROPS.append(P("C05", "Saving and loading an equilibrium or coil returns the same thing",
    "An equilibrium written to an HDF5 file and read back has the same domain, grid, plasma flux, total flux, plasma current, boundary condition, finite-difference order, limiter setting, wall and reference radius, and under every label a coil of the same type with the same location, outline, filaments, turns, current, control flag and (for circuits) members and multipliers. Converting any single coil, including multi-coils, to its array record and back gives a coil with the same attributes and field. This holds for non-square grids, any label order, and after currents were changed or the equilibrium was solved.",
    [I, H, C], "all machines of plain, shaped, filament and solenoid coils and circuits of plain coils (first multiplier non-zero, at most 10 outline vertices and 500 filaments), all grids, settings and current histories",
    "The round-trip test covers one machine on a square grid with default settings; swapped fields or forgotten settings need other coil types or non-default settings to show.",
    ["freegs/dump.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py", "freegs/machine.py"],
    [("file layout", "freegs/dump.py: OutputFile.write_equilibrium/read_equilibrium"), ("records", "to_numpy_array/from_numpy_array of every coil class")],
    ["the equilibrium returned by read_equilibrium", "the coil returned by from_numpy_array"],
    technique=GVN + "; h5py is replaced by an in-memory reference model",
    note=NOTE + " Turn counts are taken as integers and the text/bytes conversion of h5py is modelled; profiles and sensors are not stored by design."))

PROPS.append(P("C09", "One solve updates flux, current and all derived state consistently",
    "Solving applies the boundary condition for the given (or profile-computed) toroidal current density, solves Delta* psi = -mu0 R Jtor with the finite-difference operator of the requested order and that boundary, and stores that flux, that current density and its integral as plasma current. The magnetic axis flux, boundary flux, core mask, limiter contact point and interpolators are then those of the newly stored flux and the present coil currents: boundary flux is that of the first X-point, or the largest wall flux when a wall limits the plasma, or the edge value for a fixed boundary without X-point. Flux and boundary value passed in explicitly are the ones used for the profiles.",
    [I, H, C], "all current densities, profiles, boundary conditions, limiter settings, non-square grids and sequences of solves",
    "Tests check that a solve converges, not that every derived quantity belongs to the newest flux, nor limited or fixed-boundary plasmas on non-square grids.",
    ["freegs/equilibrium.py"],
    [("solve", "Equilibrium.solve"), ("derived state", "Equilibrium._updatePlasmaPsi, _updateBoundaryPsi"), ("grid and solver set-up", "Equilibrium.__init__, setSolverVcycle, setSolver, callSolver")],
    ["plasma_psi, Jtor, plasmaCurrent(), psi_axis, psi_bndry, mask, is_limited, Rlim, Zlim after solve"],
    technique="constant-shape array value numbering of the state after one and two solves",
    note=NOTE + " Grid size fixed (5x9) with everything on it symbolic; critical-point search and the linear solver are uninterpreted (their own properties); limiter logic as stated for positive plasma current."))

PROPS.append(P("C06", "G-EQDSK files hold the equilibrium and are read back consistently",
    "Writing stores the grid size and box, reference radius and vacuum field there, magnetic axis, flux relative to its axis value with the matching boundary value, plasma current, f, pressure and their derivatives on a uniform axis-to-boundary flux grid, q with its end values copied inwards-out, the wall, and the separatrix as a closed loop. Reading hands the solver exactly the file's flux (resized to 2^n+1 points if needed or interpolated to a requested domain at no lower resolution), the profiles, current density, wall, reference radius and grid of the file, and the given tolerances, bounds and weights: flux is fitted inside the plasma unless the whole domain is requested. The result carries a control for its own X-points and separatrix.",
    [I, C], "all equilibria, file contents, grid shapes (including sizes that are not 2^n+1 and non-square), requested domains and option combinations",
    "The round-trip test compares one square-grid file loosely; a wrong flux offset, axis, profile grid or ignored option needs another file, domain or option to show.",
    ["freegs/geqdsk.py"],
    [("writer", "freegs/geqdsk.py: write"), ("reader", "freegs/geqdsk.py: read")],
    ["the entries passed to the file writer", "the equilibrium, wall and profiles after read, and the solves performed"],
    technique="constant-shape array value numbering; file library, solver, control and critical-point search replaced by recording reference models",
    note=NOTE + " Grid sizes are fixed (5x9, and 4x7 resized); text formatting is the freeqdsk library's and not analysed; convergence of the reconstruction is not decided."))

PROPS.append(P("C11", "The toroidal current density meets its constraints and matches its profiles",
    "For any flux, the current density of the two constrained profile types integrates over the grid to the requested plasma current, is zero outside the core, and gives the requested pressure on axis or the requested poloidal beta (pressure over poloidal field energy in the core). For every profile type it equals R p' + ff'/(mu0 R) in the core with the p' and ff' the same object reports, normalised flux being taken between the axis and the boundary of the given flux (the machine's boundary if limited, else the first X-point, else the corner of the grid).",
    [I, C], "all fluxes, constraint values, exponents, reference radii, boundary cases and profile functions",
    "Tests check that a solve converges for one parameter set; they never integrate the current density nor compare it with the reported p' and ff'.",
    ["freegs/jtor.py"],
    [("constrained profiles", "ConstrainBetapIp.Jtor, ConstrainPaxisIp.Jtor and their pprime/ffprime"), ("given profiles", "ProfilesPprimeFfprime.Jtor")],
    ["the array returned by Jtor, its Romberg integral", "pprime, ffprime, pressure(0), psi_axis, psi_bndry afterwards"],
    technique="constant-shape array value numbering of the current density against its definition and its own profile functions",
    note=NOTE + " Grid size fixed (3x5) with everything on it symbolic; critical-point search, core mask and one-dimensional integrals are uninterpreted."))

PROPS.append(P("C12", "Pressure and f are the profile integrals from the plasma boundary inwards",
    "The pressure at any normalised flux is the integral of p' from there to the boundary times (axis flux - boundary flux), and f is the value whose square is the vacuum f squared plus twice the same integral of ff', with the sign of the vacuum f. This holds for numbers and for arrays of any shape element by element, with the given output array filled and one of another length refused; user-supplied pressure or f functions are used instead where given, and an equilibrium reports the profiles it was last solved with.",
    [I, C], "all profile functions, flux values, vacuum f of either sign, array shapes and output arrays",
    "Tests evaluate pressure for one profile only; a wrong limit, sign, factor or array path shows only for other profiles or shapes.",
    ["freegs/jtor.py", "freegs/equilibrium.py"],
    [("integration", "Profile.pressure, Profile.fpol"), ("overrides", "ProfilesPprimeFfprime.pressure, fpol"), ("delegation", "Equilibrium.pressure, fpol, pprime, ffprime, fvac")],
    ["values returned by pressure and fpol", "the output array"],
    technique=GVN + "; one-dimensional quadrature is linear and uninterpreted",
    note=NOTE + " The accuracy of the quadrature routine is not analysed."))

PROPS.append(P("C10", "The nonlinear solve iterates, blends, stops and fails exactly as documented",
    "Given a constraint object, the nonlinear solve calls it on the equilibrium before the first and after every non-final solve, hands each solve the blend (1-blend)*new total flux + blend*previous one, and stops only when the flux change is below the absolute or relative (to the flux range) tolerance and so is the change of the boundary flux (and, if asked to wait, the plasma is limited). If more than the maximum number of iterations pass (no limit when None) it raises RuntimeError instead of returning; limiter checking is switched on from the requested iteration (or after a first limited solve) and only when asked for, then using the equilibrium's own boundary flux; on request the history of absolute and relative changes is returned.",
    [I, H, C], "all sequences of fluxes and boundary values, tolerances, blending factors and option combinations",
    "Tests run a few converging cases; the failure exit, blending, waiting and limiter options and the exact criterion are never exercised.",
    ["freegs/picard.py"],
    [("iteration", "freegs/picard.py: solve")],
    ["sequence of constraint calls and solves with their arguments", "RuntimeError or normal return", "returned history"],
    technique="bounded-unrolling value numbering of the iteration over an uninterpreted equilibrium, all exits compared path by path",
    note=NOTE + " Up to four iterations are unrolled with everything symbolic (51 for the default limit); whether a given equilibrium converges is not decided; plotting (show=True) is not analysed."))

PROPS.append(P("C13", "Coil current control solves the stated least-squares problem",
    "Applying shape constraints minimises, over changes of the controlled coils' currents in machine order, the sum of squared remaining constraint errors (Br and Bz at each X-point, flux difference of each isoflux pair, flux error at each value point, from the present equilibrium) plus gamma squared times the squared current changes, within the given coil current limits and total current, and adds exactly the solution to those coils. The flux-map constraints minimise the weighted difference from a target flux (constant offset ignored) or normalised flux over the controlled currents, respecting limits where offered, and set exactly the solution; coils not under control are never changed, and a request without any constraint is refused.",
    [I, H, C], "all machines, constraint lists, currents, limits, weights and target maps",
    "The control tests use one or two coils and check that the field cancels; wrong signs, coil order with uncontrolled coils, limits, weights and regularisation need particular combinations.",
    ["freegs/control.py", "freegs/machine.py"],
    [("shape constraints", "freegs/control.py: constrain.__call__"), ("flux-map constraints", "ConstrainPsi2D, ConstrainPsiNorm2D and their Advanced variants"), ("controls", "Machine.controlPsi/Br/Bz, controlAdjust, controlCurrents, setControlCurrents")],
    ["problem handed to the optimiser (objective, start, bounds, inequality)", "coil currents afterwards"],
    technique="value numbering of the objective, start and bounds at an arbitrary point; the optimiser is replaced by a recording model",
    note=NOTE + " The optimiser itself is not analysed. Flux maps 2x3 and four coils with everything on them symbolic; the total-current option of the bounded flux-map fit has no effect in the code and is not claimed."))
PROPS.append(P("C14", "Coil forces are J x B of all other currents plus hoop force",
    "For every coil of every type the reported radial and vertical force is 2 pi R times the coil's total current (current per turn times turns) crossed with the field at the coil centre of the plasma, if an equilibrium is given, and of every other coil but not itself, plus the outward hoop force mu0 I^2/(4 pi R) (ln(8R/a) - 3/4) per unit length with a the radius of a circle of the coil's cross-section area. The area is the given value, the outline's area, or total current over the given current density; circuits report one force per member coil and solenoids none. Asking for forces leaves every current as it was.",
    [I, H, C], "all coil types, positions, currents, turns, areas, circuits and plasma fields",
    "The force tests use one or two single-turn coils and check signs or symmetry; turn counts, areas, circuit members, the coil's own field and currents afterwards are not exercised together.",
    ["freegs/coil.py", "freegs/machine.py", "freegs/equilibrium.py"],
    [("force", "freegs/coil.py: Coil.getForces, AreaCurrentLimit, area"), ("collections", "Circuit.getForces, Solenoid.getForces, Machine.getForces, Equilibrium.getForces")],
    ["force components", "coil and circuit currents before and after"],
    technique=GVN, note=NOTE))
PROPS.append(P("C15", "The optimiser returns the best candidate it scored and obeys its limits",
    "For every objective, controls and random sequence, the optimiser starts from the given object plus copies with every control varied by at most 5% (or by a normally distributed amount when that is nothing), makes each trial from its parent by setting at least one control to one other member's value plus F times the difference of two more, keeps the better of parent and trial, calls the monitor once per generation with the best so far, never modifies the starting object's controls, and returns a candidate whose score is the lowest of all scored. Coil position controls never go beyond their limits, zero included; coil current and force measures are the largest magnitude over all coils including circuit members; weighted measures are the weighted sum. An equilibrium candidate is scored after its coil responses are renewed and it is solved again with its own profiles and constraints, and scores infinity when that fails.",
    [I, H, C], "all objectives, control values, score orders, random sequences and limits",
    "The optimiser tests seed the generator and follow one quadratic; which candidate is kept depends on the order of scores and the random draws.",
    ["freegs/optimiser.py", "freegs/optimise.py"],
    [("evolution", "freegs/optimiser.py: optimise, mutate, pickUnique"), ("limits and measures", "freegs/optimise.py: CoilRadius, CoilHeight, max_abs_coil_current, max_coil_force, weighted_sum, no_wall_intersection"), ("scoring", "freegs/optimise.py: optimise")],
    ["returned candidate", "every candidate scored", "populations and best given to the monitor", "coil positions set by controls"],
    technique="abstract interpretation of the evolution loop with symbolic control values, scores known only by their order, and a modelled random source; value numbering of measures and controls",
    note=NOTE + " Populations of 4 to 7 over at most 2 generations and two controls; control values and scores are symbolic, score orders and integer draws are sampled (4 orders per size in the quick tier, 40 in the thorough one)."))
PROPS.append(P("C18", "Sensors read the field, flux or enclosed current at their place",
    "A poloidal field sensor reads Br cos(theta) + Bz sin(theta) at its point, a flux loop the poloidal flux at its point, and a Rogowski sensor the total toroidal current inside its outline: for each coil type, circuit and solenoid, current times turns (times multiplier or polarity) of the part inside, the part being the filaments, loops or fraction of cross-section area inside. With an equilibrium the plasma is included (for the Rogowski sensor, current density times the part of each grid cell's area inside). Taking measurements updates every sensor that is on from the present state, leaves those that are off as they were, works without sensors, and changes nothing else.",
    [I, H, C], "all sensors, coil types, positions, currents, turns, plasma currents and sequences of measurements",
    "The sensor tests use one coil or the test tokamak; turn counts, circuits, partial overlap, sensors off and repeated measurements are not covered.",
    ["freegs/machine.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py"],
    [("sensors", "freegs/machine.py: Sensor, RogowskiSensor, PoloidalFieldSensor, FluxLoopSensor, Machine.takeMeasurements"), ("part of a coil inside an outline", "inShape of every coil class, Circuit and Solenoid")],
    ["measurement attribute of each sensor", "coil currents afterwards"],
    technique=GVN, note=NOTE + " Polygon containment and intersection area are the geometry library's; the plasma part is analysed on a 2x3 grid with every value symbolic; coils given by precalculated maps count by their centre and are not covered."))
PROPS.append(P("C17", "Polygon areas, triangulation, crossings and quadrature are exact",
    "For every polygon given by its corners in either direction, convex or not, the signed area is positive exactly if clockwise, and it is split into n-2 triangles that cover it without overlap, none reversed, leaving the caller's list as it was. The quadrature points of a triangle or polygon have weights that are positive and add up to one, lie inside, and average polynomials exactly up to degree 1, 2 and 4 for 1, 3 and 6 points per triangle; other numbers of points are refused. Two lines are reported to intersect exactly if some segment of one crosses one of the other away from end points and not almost parallel, the closing segment counting only for closed lines.",
    [I], "all polygons, lines (open or closed), corner orders and quadrature sizes",
    "The tests use a square, one triangle and a few crossings; concave outlines, orientations, open lines and moments of higher degree are not covered.",
    ["freegs/polygons.py", "freegs/quadrature.py"],
    [("geometry", "freegs/polygons.py: area, clockwise, triangulate, intersect"), ("quadrature", "freegs/quadrature.py: triangle_quad, polygon_quad, average")],
    ["returned area, triangles, True/False, points and weights"],
    technique="value numbering with symbolic corner coordinates whose order type is fixed by a representative; area and moment identities decided as polynomial identities",
    note=NOTE + " Area and triangle quadrature are decided for all coordinates; triangulation and crossings for every polygon of the listed order types (3 to 8 corners, more in the thorough tier)."))
PROPS.append(P("C16", "O-points, X-points and the core mask are found, told apart and ordered right",
    "For every flux map, the critical points reported are the points reached from each local minimum of the poloidal field inside the grid by Newton steps on the interpolated flux until the field vanishes, within three cells, each with the interpolated flux there and sorted into O-points and X-points by the sign of the second-derivative determinant; points of the same kind within about 3 mm of each other are reported once. O-points come nearest to the middle of the domain first; X-points come nearest in flux to the first O-point first, leaving out (unless asked not to) those with a flux extremum on the straight line from that O-point. The core mask is 1 exactly at grid points whose normalised flux is below one and which are joined to the axis along grid lines without passing next to an X-point, together with the points next to an X-point whose normalised flux is below one, and 0 elsewhere.",
    [I], "all flux maps, grids, numbers and places of O- and X-points",
    "The tests use one analytic flux; several O-points, duplicates, private flux regions, decreasing flux and points near the edge are not covered.",
    ["freegs/critical.py"],
    [("critical points", "freegs/critical.py: find_critical, remove_dup, xpt ordering"), ("core mask", "freegs/critical.py: core_mask")],
    ["lists of O- and X-points with their order", "mask values"],
    technique="abstract interpretation on small grids with symbolic flux and interpolated derivatives; branch outcomes fixed by representative fluxes, results compared with the Newton iterates and a reference flood fill",
    note=NOTE + " Grids of 5x5 to 10x9 points; candidate patterns and masks are a fixed list of about 120 order types; Newton convergence is followed for at most one step from the grid point, numerical accuracy of the interpolation is out of scope."))
PROPS.append(P("C19", "Flux surfaces lie at the stated flux and angles and give the safety factor",
    "For every equilibrium, the plasma outline consists of points on rays from the magnetic axis at equally spaced angles measured from the vertical (all turned by half a step if a ray points within a thousandth of a radian at the first X-point), each at the first place on the ray, cut at the domain edge, where the normalised flux exceeds the wanted value, interpolated linearly; the flux is normalised by the axis and by the boundary of that equilibrium, whether X-point or limiter. The safety factor of a surface is the sum over such points of f / (R^2 Bpol) times the half-distance between both neighbours, over 2 pi, for one value, a list or an array, in the order asked. Values of q below 0.01 or above 0.99 come from quadratic extrapolation of 0.01 to 0.99, and one value asked gives one number.",
    [I, H], "all fluxes, axis and X-point places, boundaries, numbers of points and flux values",
    "The tests check the shape of the result and one value of q; limited plasmas, rays that leave the domain, X-points on a ray and lists of values are not covered.",
    ["freegs/critical.py", "freegs/equilibrium.py"],
    [("rays and outline", "freegs/critical.py: find_psisurface, find_separatrix"), ("safety factor", "freegs/critical.py: find_safety; freegs/equilibrium.py: q")],
    ["coordinates returned", "q values"],
    technique=GVN,
    note=NOTE + " 3 to 6 points per line or surface; branch outcomes (which point exceeds the flux, which ray meets the X-point) fixed by representatives; the number of points per ray used for the outline is not claimed."))
PROPS.append(P("C22", "Shape, beta, inductance and energy follow their definitions",
    "For every equilibrium, geometric axis, minor radius a, aspect ratio, elongations, triangularities and Shafranov shift are the textbook expressions in the outermost, innermost, highest and lowest points of an outline with the number of points asked for (elongation being half the height over a), and the crossings of the boundary at a height are the nearest ones on both sides of the axis in the nearest grid row. Volume, mean pressure, thermal energy 3/2 int p dV, betas (poloidal 2 mu0 int p dV / int Bpol^2 dV, 8 pi int p dA / mu0 Ip^2 and 4 int p dV / (mu0 Ip^2 R0); toroidal; total from their reciprocals; normalised in percent per MA/(m T)), internal inductances 2 int Bpol^2 dV / (mu0^2 Ip^2 R) and the cylindrical q use dV = 2 pi R dR dZ over core points only and the current, axis and profiles of that equilibrium. Asking any of these changes nothing, and the wall is said to be met exactly if the closed outline crosses the closed wall.",
    [I, H], "all fluxes, outlines, profiles, masks and numbers of points",
    "The tests compare few of these numbers with stored results; masks, asymmetric shapes, numbers of points and repeated queries are not covered.",
    ["freegs/equilibrium.py"],
    [("shape", "freegs/equilibrium.py: geometricAxis, minorRadius, elongation*, triangularity*, shafranovShift, innerOuterSeparatrix, intersectsWall"), ("integrals", "freegs/equilibrium.py: plasmaVolume, poloidalBeta*, toroidalBeta, totalBeta, betaN, internalInductance*, pressure_ave, w_th, qcyl")],
    ["returned numbers"],
    technique=GVN,
    note=NOTE + " Analysed on a 3x3 grid (integrals, one mask) and outlines of 4 to 6 points in three order types; midplane crossings on a 9x5 grid for ten patterns; toroidal flux and rhotor are not claimed."))
PROPS.append(P("C20", "Traced field lines follow the field, measure its length and stop at the wall",
    "For every equilibrium, start point (one, or an array of any shape) and list of toroidal angles, a traced line moves with toroidal angle at R*BR/Bphi in R and R*BZ/Bphi in Z (the opposite when traced backwards), and its length grows by R*|B|/|Bphi| per unit of angle, whatever the sign of the toroidal field. A line stops for good, no further change of R, Z or length, once it is within 1 cm of the edge of the domain (no wall) or outside the closed wall, that is when the straight way to the middle of the domain crosses the wall an odd number of times; lines inside keep moving. The lines of traceFieldLines start at equal distances outside the place where the boundary flux is crossed outboard of the magnetic axis, the last at the full width, and are traced both ways over the requested number of turns.",
    [I, H], "all fields, start points, angles, walls, widths and numbers of lines",
    "The tests do not trace field lines at all.",
    ["freegs/fieldtracer.py"],
    [("direction and domain", "freegs/fieldtracer.py: FieldTracer.fieldDirection, eqDomain, wallDomain"), ("start points", "freegs/fieldtracer.py: follow, traceFieldLines")],
    ["R, Z and length along the lines"],
    technique=GVN,
    note=NOTE + " The integrator is a model which asks for the rate of change twice; two walls (3 and 7 corners, both directions), up to three lines; points whose way to the middle passes exactly through a wall corner, and domains whose middle is outside the wall, are not covered."))
PROPS.append(P("C21", "Refining, coarsening and changing the domain keep the equilibrium",
    "For every equilibrium, refine and coarsen return a new equilibrium with the same machine, domain, boundary condition, order, limiter setting, plasma current, profiles and control; its plasma flux is the interpolated flux at the new points (by default with twice the intervals; a number of points given for one direction changes only that one), or for coarsen the flux of every second point including the edges (a grid that cannot be halved is copied). newDomain takes missing limits and numbers of points from the old grid, interpolates the old current density onto the new grid, applies the boundary condition, solves the linear problem and then solves once more with the same profiles. The old equilibrium is left unchanged and shares no flux array with the new one.",
    [I], "all fluxes, currents, profiles, boundary conditions, orders and limiter settings",
    "The tests do not call these functions.",
    ["freegs/equilibrium.py"],
    [("regrid", "freegs/equilibrium.py: refine, coarsen, newDomain"), ("construction", "freegs/equilibrium.py: Equilibrium.__init__, _updatePlasmaPsi, solve")],
    ["attributes of the returned equilibrium", "attributes of the old equilibrium"],
    technique=GVN,
    note=NOTE + " Grids of 3x3 to 9x5 points onto 3x3 to 9x9; interpolation, elliptic solver and search for critical points are models; no wall in these cases."))
PROPS.append(P("C23", "Asking does not change anything",
    "Every query leaves the arrays, lists and points handed to it, and the equilibrium, machine, coils and profiles it is asked of, as they were, and its result can be modified without changing them. This covers flux and field queries of coils, circuits, machine and equilibrium, cached responses, currents, forces, summary quantities and profiles, the search for critical points, core mask, outline and safety factor, polygon and quadrature functions, current profiles given fluxes, elliptic operators, and multigrid solvers given an initial guess. Of the flux handed to a boundary condition only the edge changes.",
    [I, H], "all inputs and all orders of queries",
    "The tests ask each question once, on data they throw away.",
    ["freegs/machine.py", "freegs/coil.py", "freegs/equilibrium.py", "freegs/critical.py", "freegs/multigrid.py", "freegs/jtor.py", "freegs/polygons.py"],
    [("queries", "freegs/machine.py, coil.py, shaped_coil.py, filament_coil.py, multi_coil.py: psi, Br, Bz, control*, createPsiGreens, getForces; freegs/equilibrium.py: queries"), ("numerical helpers", "freegs/critical.py, multigrid.py, polygons.py, quadrature.py, gradshafranov.py, jtor.py, boundary.py")],
    ["arguments and state after the call"],
    technique="effect analysis by value numbering: the state reachable from arguments after the call is compared, cell by cell, with the state before",
    note=NOTE + " Small grids; one machine with every kind of coil except the pre-calculated one. Elliptic solution, control, file output and plotting are not queries and not covered here."))
PROPS.append(P("C25", "Limiter points cover the whole closed wall evenly",
    "For every wall, the points at which contact of the plasma with the wall is looked for lie on the wall, at equal steps of length along its closed outline, starting at its first corner and going through every segment including the one which joins the last corner to the first. As many points are returned as asked for, the last one back at the first corner, and the wall itself is not changed. A machine without a wall has none.",
    [I], "all wall outlines, orientations and numbers of points",
    "The tests never look at these points; uneven segments, the closing segment and outlines which already repeat the first corner are not covered.",
    ["freegs/machine.py"],
    [("limiter points", "freegs/machine.py: Machine.generate_limit_points, Machine.__init__"), ("wall", "freegs/machine.py: Wall")],
    ["coordinates and number of limiter points"],
    technique=GVN,
    note=NOTE + " Wall outlines of 3, 4 and 6 corners whose side lengths have the order of a representative; linear interpolation is a model."))
PROPS.append(P("C26", "DivGeo files hold the grid, flux and reference values of the equilibrium",
    "For every equilibrium or set of G-EQDSK values, a DivGeo file holds the radii, then the heights, then the flux minus the boundary flux on the whole grid in that order, and its header gives under their names the numbers of points, the boundary flux, and the reference toroidal field with its radius. The axes are the ones given, or else span the box of the values evenly from edge to edge. An equilibrium is written with the values its G-EQDSK file would have for the critical points handed in.",
    [I], "all fluxes, boxes, axes, boundary fluxes and reference values",
    "The tests never write this format.",
    ["freegs/_divgeo.py", "freegs/divgeo.py"],
    [("file", "freegs/_divgeo.py: write"), ("equilibrium", "freegs/divgeo.py: write")],
    ["text written to the file handle"],
    technique=GVN + "; formatted text is split into labels and values",
    note=NOTE + " Grids of 3x5, 5x3 and 4x4 points; layout of the numbers and the free text of the header are not claimed."))

PROPS.append(P("C27", "Toroidal flux and its radius follow the safety factor from the axis",
    "For every equilibrium and every list, array or single value of poloidal flux, the toroidal flux reported at each value is -2 pi times the integral of the safety factor over the poloidal flux (per radian) from the magnetic axis to it, whatever value comes first and whichever sign the plasma current has. The normalised radius is the square root of the toroidal flux over that at the plasma boundary: 0 on the axis, 1 at the boundary. A single value gives a single number, and asking changes neither the values given nor the equilibrium.",
    [I], "all axis and boundary fluxes, flux values, and safety factors linear in the flux",
    "The tests never ask for the toroidal flux.",
    ["freegs/equilibrium.py"],
    [("flux", "freegs/equilibrium.py: Equilibrium.tor_flux"), ("radius", "freegs/equilibrium.py: Equilibrium.rhotor")],
    ["values returned"],
    technique=GVN,
    note=NOTE + " The safety factor itself is C19; here it is any linear function of the normalised flux, for which every trapezoidal rule is exact."))
