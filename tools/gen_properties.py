import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Chebyshev transforms: Gauss-Lobatto nodes, exact coefficients, exact inverse",
"For every number of points n>=2 and every interval, the radial collocation points are the Chebyshev-Gauss-Lobatto points running from the upper to the lower end; the forward transform returns the coefficients of the Chebyshev interpolant of the samples and the backward transform returns the values of that series at the points. The two are linear, invert each other to rounding error, leave the caller's input array unchanged, and give the same answer however often and in whatever order they are used.",
["inputs","configurations","histories"],"all n>=2, all intervals lower<upper of any offset and width, all real sample and coefficient arrays, all sequences of transform calls",
"One gtest case, n=32, interval [0,1], tan(x), one round trip through the same pair (errors that cancel in the pair are invisible).",
["Source/cheb.cpp","Source/cheb.hpp"],[("DCT-I plan and normalisation of end/interior coefficients","Cheb::Cheb, Cheb::to_ch, Cheb::to_po")],
["points and outputs of the two transforms"])

p("C02","Chebyshev radial derivative is exact for every resolved polynomial",
"For every n>=3 and every interval, differentiating the samples of any polynomial of degree at most n-3 gives the polynomial's exact derivative with respect to the physical coordinate at every collocation point, to rounding error scaled by the conditioning of spectral differentiation. The two highest modes, T_{n-2} and T_{n-1}, are left out: data of any content have the derivative of their interpolating polynomial without these modes. The operator is linear and leaves its input unchanged.",
["inputs","configurations"],"all n>=3, all intervals, all polynomials of degree <= n-3, and any samples",
"One case, n=32, interval [0,1], x sin x with a fixed tolerance: no other interval, parity, size or high-degree mode is reached.",
["Source/cheb.cpp"],[("coefficient recurrence and interval Jacobian","Cheb::der")],["output of the Chebyshev derivative"])

p("C03","Chebyshev low-pass filter damps each mode by exp(-40 (k/n)^16) and nothing else",
"For every n and interval, filtering samples multiplies the k-th Chebyshev coefficient (k=0..n-1) by exp(-40 (k/n)^16): the mean is untouched, low modes pass to rounding error, no mode is amplified or mixed into another.",
["inputs","configurations"],"all n>=2, all real sample arrays",
"One rough data set at n=32, asserting only that total variation goes down.",
["Source/cheb.cpp"],[("low-pass table applied in coefficient space","Cheb::Cheb, Cheb::filter")],["output of the filter"])

p("F01","Finite-difference first derivative: exact stencil calculus at every point",
"For every grid of at least 7 points and any interval, the first derivative returned at a point is the derivative there of the degree-6 polynomial through 7 neighbouring grid points: the 7 centred on it in the interior, the first or last 7 for the three points next to each end. It is therefore exact (to rounding) on polynomials of degree <= 6 at every point including the boundaries, depends on no other sample, and leaves its input unchanged; grid points are equally spaced from lower to upper inclusive.",
["inputs","configurations"],"all n>=7, all intervals, all real sample arrays",
"One function at n=33 and 65, mean error compared by a ratio: an error confined to one stencil weight, one end or one grid size can hide in the mean.",
["Source/finite_diff.cpp","Source/finite_diff.hpp"],[("explicit one-sided and centred stencils","FD::der"),("uniform grid","FD::FD, FD::pt")],["output of the derivative, grid points"])

p("F02","Finite-difference second derivative: exact stencil calculus at every point",
"For every grid of at least 8 points and any interval, the second derivative returned at an interior point is that of the degree-6 polynomial through the 7 centred points, and at the three points next to each end that of the degree-7 polynomial through the 8 end points. It is exact (to rounding) on polynomials of degree <= 7 everywhere, depends on no other sample, and leaves its input unchanged.",
["inputs","configurations"],"all n>=8, all intervals, all real sample arrays",
"One function at n=33 and 65, mean error compared by a ratio.",
["Source/finite_diff.cpp"],[("explicit one-sided and centred stencils","FD::der2")],["output of the second derivative"])

p("F03","Kreiss-Oliger filter removes the grid mode only and keeps smooth data and ends",
"For every grid of at least 9 points, the finite-difference filter replaces each point at distance four or more from both ends by its value minus 1/256 of the eighth undivided difference of the unfiltered data centred there, and leaves the four points at each end exactly as they were. Hence polynomials of degree <= 7 pass unchanged, the alternating grid mode is removed, and no Fourier mode is amplified.",
["inputs","configurations"],"all n>=9, all real sample arrays",
"One rough data set at n=128, asserting only that total variation goes down.",
["Source/finite_diff.cpp"],[("eighth-difference dissipation written to a temporary first","FD::filter")],["output of the filter"])

p("S01","Spherical-harmonic transforms are exact on band-limited fields",
"For every resolution with more polar points than the maximal l and more than 2m_max azimuthal points, the transforms convert between grid values and orthonormal, Condon-Shortley-phased spherical-harmonic coefficients exactly (to rounding) for real and complex fields in both memory layouts, with polar points the Gauss-Legendre nodes from north to south and azimuthal points equally spaced from 0. Asking for the (l,m) basis field returns Y_l0 for m=0 and 2 Re Y_lm for m>0.",
["inputs","configurations"],"all (nl,nm,nlat,nphi) with nl>=nm, nlat>nl, nphi>2nm; both layouts; all band-limited fields",
"Those tests cannot run here at all (SHTns missing) and cover three harmonics and one field at one resolution and one layout.",
["Source/sphere.cpp","Source/sphere.hpp"],[("transform wrappers, grid set-up, index map","Sphere::Sphere, to_Ylm, to_Sph, compute_ylm, theta, phi, indx")],["transform outputs, angular coordinates"])

p("S02","Angular derivatives are exact on every resolved spherical harmonic",
"For any band-limited real field, including content in the highest resolved l and m, the azimuthal derivative, the unit-sphere Laplacian (-l(l+1) per mode), the raising and lowering operators and the squared angular gradient ((d_theta f)^2 + (d_phi f)^2/sin^2 theta) agree with their analytic values at every angular grid point. (Ladder operators and squared gradient: for fields with l at most the azimuthal cut-off.) Inputs are unchanged.",
["inputs","configurations"],"all resolutions and both layouts, all finite sums of spherical harmonics l<=nl, m<=nm",
"Cannot run here; each covers one l<=2 field at one resolution, never the highest modes.",
["Source/sphere.cpp"],[("spectral multipliers and ladder coefficients","Sphere::partial_phi, laplace_beltrami, raise, lower, sphereX")],["operator outputs on the angular grid"])

p("S03","Angular low-pass filter damps every (l,m) mode by a fixed factor",
"Filtering a band-limited field multiplies each spherical-harmonic mode (l,m), up to and including the highest resolved one, by exp(-40 (l/nl)^16) exp(-40 (|m|/nl)^16) where nl is the maximal l, and does nothing else: low modes pass to rounding error, the highest l is removed, no mode is amplified or mixed, the spherical mean is preserved.",
["inputs","configurations"],"all resolutions, both layouts, all band-limited real fields",
"Cannot run here; asserts only a decrease of total variation for one rough field.",
["Source/sphere.cpp"],[("low-pass table applied over (l,m)","Sphere::Sphere, Sphere::filter")],["filter output"])

p("S04","Angular power spectrum is the sum over m of squared mode amplitudes",
"For any band-limited real field, the reported power at each l (0 <= l < nl) is sum over m=-l..l of |f_lm|^2 with orthonormal harmonics: non-negative, quadratic in the field, invariant under rotation about the axis and under sign change, and the l-sum equals the integral of f^2 over the sphere when the field has no content at l = nl. On a three-dimensional field the spectrum is taken shell by shell.",
["inputs","configurations"],"all resolutions, layouts, band-limited fields",
"No test touches the power spectrum.",
["Source/sphere.cpp","Source/grid.cpp"],[("accumulation over stored m>=0 with double weight","Sphere::power_spectrum, Grid::set_angular_power_spectrum")],["spectrum arrays"])

p("S05","Radial-angular mode coefficients: Chebyshev content of the angular amplitude",
"With the Chebyshev scheme, the (n,l) mode coefficients of a 3D field are, for every l < nl, the Chebyshev coefficients n=0..nx-1 (with respect to the compactified radial interval) of the interpolant of the angular amplitude sqrt(sum over m of |f_lm|^2) along the radial points, stored with n as the row and l as the column. They depend on the field only (not on the previous contents of the output or on earlier calls), scale with the magnitude of the field, and the field is unchanged.",
["inputs","configurations","histories"],"all shapes, both layouts, all fields band-limited in angle with arbitrary radial profile, repeated calls, thread counts",
"No test touches the mode coefficients.",
["Source/grid.cpp","Source/cheb.cpp"],[("amplitude of the shell spectrum, then a radial transform per l","Grid::set_n_l_coef")],["coefficient array"])

p("G01","Grid coordinates, flat indexing and row access are consistent and lossless",
"In both memory layouts and both radial schemes, (radial, polar, azimuthal) triples map one-to-one onto flat positions, and every coordinate table (R-theta-phi, Cartesian, angular, radius-l, mode-l) agrees with the index map and the spherical-coordinate formulas. Extracting any row, shell or slice and writing it back is lossless, touches exactly the addressed entries and never reaches outside the arrays. The compactified radius and physical radius are related by r = R/(1-R/L), increasing, and very large but finite at the outer edge R = L.",
["inputs","configurations"],"all grid shapes incl. nlat != nphi, both layouts, both radial schemes, all field data",
"No runnable test builds a grid; the unrunnable ones never check indices, coordinates or row accessors.",
["Source/grid.hpp","Source/grid.cpp"],[("index arithmetic and row get/set","grid.hpp inline functions"),("coordinate tables","Grid::Grid")],["coordinate getters, row accessors"])

p("G02","3D derivatives act on the right axis with the right change of radial variable",
"On any 3D field that the grid resolves exactly (polynomial in compactified radius times spherical harmonics), the derivatives with respect to compactified radius, physical radius (first and second order) and azimuth, the spherical Laplacian and the squared angular gradient equal the analytic ones at every grid point, for either radial scheme and layout, any interval inside the compactification length L, including the point at infinity. Operators do not modify their input or mix different shells or rays.",
["inputs","configurations"],"all shapes, both schemes and layouts, intervals 0<Rmin<Rmax<=L, all exactly resolved fields",
"The only tests cannot run here, use one bump function with one R interval and only assert that an averaged error decreases with resolution.",
["Source/grid.cpp"],[("row-wise application and dR/dr, d2R/dr2 factors","Grid::set_partial_*, set_spherical_lap, set_sphereX, Grid::Grid")],["operator outputs"])

p("G03","3D filter applies the angular and the radial low-pass and keeps the radial ends",
"Filtering a 3D field applies the angular low-pass filter on every shell and then the radial filter of the active scheme (Chebyshev low-pass, or eighth-order Kreiss-Oliger dissipation for finite differences) along every ray, as the documentation describes, except that the innermost and outermost radial values stay those left by the angular filter.",
["inputs","configurations"],"all shapes, schemes, layouts and band-limited-in-angle data with arbitrary radial profile",
"Only a total-variation inequality on one rough data set, in a test that cannot run here; the angular part alone already satisfies it.",
["Source/grid.cpp","Documentation/main.tex"],[("shell loop then ray loop with saved end values","Grid::filter")],["filter output"])

p("G04","Monitors: independent residual and total variation equal their definitions",
"The reported residual is the root-mean-square over all grid points of p - (f_new - f_old)/dt, zero exactly when the update is consistent, and the reported total variation is the per-point average of the Euclidean norm of forward differences along the three axes over all cells: both are non-negative, independent of the number of threads up to summation rounding, and do not modify the fields.",
["inputs","configurations","schedules"],"all grid shapes, layouts, field data, dt, thread counts",
"No test calls either monitor of the grid.",
["Source/grid.cpp"],[("parallel reductions","Grid::norm_indep_res, Grid::total_variation")],["returned numbers, printed progress lines"])

p("E01","Evolution right-hand side is the scalar wave equation on Kerr",
"At every grid point, from inside the horizon to infinity, for every mass, spin |a|<=M, coupling k(psi)=k0+km1/(1+psi)+k1 psi+k2 psi^2/2 and potential V=V2 psi^2/2+V3 psi^3/6+V4 psi^4/24, the time derivative computed for the field is p and the one computed for p makes Box psi + (k'/2k)(grad psi)^2 - V'/k vanish on the Kerr metric in ingoing Eddington-Finkelstein coordinates. The computation depends only on the state passed in, not on earlier calls.",
["inputs","configurations","histories"],"all Kerr parameters, couplings, potentials, exactly resolved fields, schemes and layouts, sequences of calls on one object",
"No test touches the equations of motion; the file is not even compiled by the test build.",
["Source/scalar_eom.cpp","Documentation/main.tex"],[("precomputed coefficient tables in 1/r","Scalar_eom::Scalar_eom"),("pointwise assembly","Scalar_eom::set_k")],["time derivatives of both fields"])

p("E02","Energy density is the normal-normal projection of the stress tensor",
"At every grid point the local energy density equals n^mu n^nu T_mu_nu of the documented action, with n the unit normal of the constant-time slices of Kerr in ingoing Eddington-Finkelstein coordinates: k(psi)/2 times [ (n.grad psi)^2 + h^ab d_a psi d_b psi ] plus V(psi). It is non-negative whenever k>0 and V>=0 outside the coordinate singularity, and the fields are not modified.",
["inputs","configurations"],"all Kerr parameters, couplings, potentials, exactly resolved fields, schemes and layouts",
"No test touches the energy density.",
["Source/scalar_eom.cpp","Documentation/main.tex"],[("rho coefficient tables and assembly","Scalar_eom::Scalar_eom, Scalar_eom::set_rho")],["energy density array"])

p("E03","A time step is one classical RK4 step from the filtered state",
"Advancing the state filters the current level of both fields once and then produces, as the next level, exactly the classical fourth-order Runge-Kutta update of that filtered level with the configured dt, for any initial contents of the work and next-level arrays. Shifting makes the next level current and changes nothing else; any sequence of steps, shifts and diagnostic evaluations gives the same states as the reference integrator.",
["inputs","histories","configurations"],"all states, dt, parameters, schemes, layouts, all sequences of step/shift/energy-density calls",
"No test steps the system or uses the time-level container.",
["Source/scalar_eom.cpp","Source/field.cpp"],[("low-storage RK4 with reused level and slope arrays","Scalar_eom::time_step, Scalar_eom::set_level"),("promotion of the new level","Field::shift")],["time-level arrays after each operation"],
[("n / l / np1 / k","current, intermediate, next level and slope arrays","Source/field.hpp")])

p("E04","Discrete evolution respects the symmetries of Kerr and of the action",
"Evolving a transformed initial state equals the transformed evolution, to rounding, for every symmetry of the problem: rotation about the axis by any number of azimuthal grid steps; reflection through the equatorial plane; reflection of azimuth together with reversal of the spin; overall scaling and superposition when the equation is linear; adding a constant when the field is free (constant coupling, no potential); sign change when coupling and potential are even. An axisymmetric state stays axisymmetric.",
["inputs","histories","configurations"],"all states, Kerr parameters, number of steps, schemes, layouts",
"No test evolves anything.",
["Source/scalar_eom.cpp","Source/grid.cpp","Source/sphere.cpp"],[("coefficients depend on r, cos^2 theta and a only","Scalar_eom::Scalar_eom"),("index map and angular operators","Grid, Sphere")],["states after several steps"])

p("I01","Initial data: normalised compact Y_lm pulse with the requested direction",
"For every grid and parameter set, the initial field is a single (l,m) harmonic times the compactly supported smooth bump between the requested inner and outer physical radii, exactly zero outside, everywhere finite, scaled so that its largest magnitude on the grid equals the requested amplitude (when the pulse is resolved at all). Its time derivative is plus (ingoing), minus (outgoing) or zero times (time-symmetric and any other word) the physical-radius derivative of that field. This holds at every radial point including both ends, for both radial schemes.",
["inputs","configurations"],"all pulse bounds (incl. inside the horizon, beyond the grid, degenerate), amplitudes of either sign, (l,m), directions, schemes, layouts, intervals",
"No test touches initial data.",
["Source/initial_data.cpp"],[("bump, its derivative, rescaling pass","ID::compact_pulse")],["initial field and time-derivative arrays"])

p("O01","CSV snapshots record exactly the grid data, complete and in order",
"Every snapshot file holds, in flat order and with 16 significant digits, one row per entry: its coordinates and value (the raw value for 1D and Cartesian dumps, log10 of the power floored at -16 for spectra), preceded by a header when coordinates are requested; Cartesian dumps keep exactly the points whose value and radius lie strictly inside the requested ranges. Writing appends and never alters earlier content, other files or the data in memory, and an unwritable target is reported without aborting.",
["inputs","configurations","histories"],"all grids, data incl. tiny/huge/zero values, names, indices, ranges, sequences of writes, unwritable directories",
"No test writes or reads a snapshot.",
["Source/io.cpp"],[("append-mode writers","Csv::write, write_R_psl, write_n_psl, write_x_y_z")],["the files"])

p("P01","Parameter file is read exactly, independent of line order and extra lines",
"Reading a parameter file of 'name value' lines returns for every parameter exactly the number or word written under exactly that name (round-trip exact for every normal double written in shortest decimal form), whatever the order of the lines and whatever other lines, names that extend or prefix known names, or blank lines are present. If a required parameter or the file itself is missing, the program reports the missing name and stops before any evolution or output.",
["inputs","configurations"],"all parameter assignments, all permutations and interleavings with foreign lines, all single-parameter omissions",
"The existing tests never read a parameter file.",
["Source/params.cpp","Source/params.hpp"],[("first-token match per line","Params::_read, Params::Params")],["parameter getters, process exit"])

p("L01","Launch script derives horizon, grid bounds and time stepping consistently",
"For every 0<=|a|<=M and configuration, the derived horizon is the outer root of r^2-2Mr+a^2, the inner grid edge is its compactified image (which the simulator maps back to the horizon), the outer edge is the compactification length, the pulse bounds are the given multiples of the horizon. The time step respects the angular bound 6/max(nlat,nphi)^2 and the radial bound (cfl/(nx-1), or 6/nx^2 for Chebyshev) and attains one of them, the number of steps is the whole number of steps in the requested time, and the save interval is the whole number of steps per requested snapshot, never below one.",
["inputs","configurations"],"all masses, spins incl. extremal and negative, lengths, resolutions, evolution times, snapshot counts, both schemes",
"There is no test of the Python layer; the build only parses it.",
["sim_class.py","runscript_template.py"],[("derived parameter formulas","Sim.set_derived_params, Sim.compactification")],["attributes after derivation, parameter file"])

p("L02","Launching hands the exact configuration to the simulator in a fresh directory",
"Launching a run creates a new run directory (never reusing or altering an existing one), writes every setting to its parameter file so that the simulator reads back exactly the configured values, copies the selected executable there, and starts it there with the parameter file and '.' as arguments, the configured thread settings and its output captured, afterwards restoring the working directory. For a cluster it instead writes a job script with the requested resources, thread count and the same command, and submits that script.",
["inputs","configurations","histories"],"all setting values, run targets (local or cluster), sequences of launches",
"There is no test of the Python layer.",
["sim_class.py"],[("directory creation, parameter dump, copy, process start","Sim.make_output_dir, write_sim_params, write_slurm_script, launch_run")],["run directory contents, started command and environment"])

p("T01","Results do not depend on the number or scheduling of threads",
"For any state and configuration, every parallel operation (3D derivatives, filter, spectra, right-hand side, energy density, time step, initial data, level shift) gives bitwise the same arrays for every number of threads, nesting level and interleaving, and reductions agree to summation rounding; no two threads access the same memory without ordering when one of them writes.",
["schedules","inputs","configurations"],"all thread counts, nesting levels, interleavings, grid shapes (fewer rows than threads included), states",
"Tests run one configuration with whatever thread count the machine has and never compare; a race is visible only under particular interleavings.",
["Source/grid.cpp","Source/scalar_eom.cpp","Source/field.cpp","Source/cheb.cpp","Source/sphere.cpp"],[("per-iteration work arrays; disjoint outputs of parallel sections","Grid::*, Scalar_eom::set_k, set_rho, time_step")],["output arrays, race monitor"])

p("M01","Operations are memory-safe, repeatable, independent across objects, leak-free",
"In every supported configuration, any history of creating, using and destroying radial, angular and grid objects never reads or writes outside a buffer or uses uninitialised memory; each object keeps returning the same answers as when it was alone, regardless of other objects being created, used or destroyed. Memory in use does not grow with the number of operations performed.",
["histories","inputs","configurations"],"all interleavings of construct/use/destroy over several live objects of differing sizes, smallest supported sizes included",
"Tests create one object at a time, at two or three sizes, without a memory checker.",
["Source/cheb.cpp","Source/finite_diff.cpp","Source/sphere.cpp","Source/grid.cpp","Source/field.cpp"],[("plan and buffer ownership","constructors, destructors, Sphere::allocate_*, free"),("loop bounds at the ends","FD::*, Cheb::*, grid.hpp")],["sanitizer reports, outputs, heap usage"])

p("X01","A whole run writes the snapshots of the reference solution",
"For any parameter file, either executable run from start to finish writes exactly one pair of snapshot files (field and energy density) for the initial state and for each multiple of the save interval below the number of steps, numbered consecutively, whose radial positions and angular power agree with an independent solver of the documented equations, scheme and filter started from the documented initial data; progress lines report the matching time, residual and total variation. Two runs of the same input give the same files, and the finite-difference and Chebyshev executables agree within discretisation error.",
["inputs","configurations"],"all small parameter files accepted by both executables",
"Neither executable is built by the test build and no test runs one.",
["Source/main.cpp","Source/scalar_eom.cpp","Source/grid.cpp","Source/initial_data.cpp","Source/io.cpp"],[("driver loop: step, save, shift","main")],["snapshot files, stdout"])

p("W01","A launched run ends with the snapshots its configuration asks for",
"For any valid configuration of the run script (mass, spin, length scale, resolution, scheme, couplings, pulse in units of the horizon, evolution time in units of the mass, number of saved times), launching it, locally or by running the submitted job script, alone or after other launches from the same or another launch object, leaves in its own run directory the snapshots and captured progress lines of the simulation that configuration describes: the radial grid from the black hole's outer horizon to infinity, the pulse between the configured multiples of the horizon radius, the smallest of the documented step limits as time step, as many steps as fit in the evolution time, and a snapshot at the start and at each multiple of the save interval (steps divided by saved times, rounded down, at least one) below that number of steps, agreeing with an independent solver.",
["inputs","configurations","histories"],"all small configurations of the run script, both schemes, local and job launches, sequences of launches",
"No test runs the launch script or an executable, let alone one through the other.",
["sim_class.py","Source/main.cpp","Source/params.cpp","Source/initial_data.cpp"],[("derived parameters handed to the simulator","Sim.set_derived_params, Sim.write_sim_params, Params"),("driver loop","main")],["snapshot files, captured output"])

p("B01","Each named executable contains the radial scheme and layout its name promises",
"After any history of builds, cleans and source edits, the recommended compile script leaves both executables built from the current sources, the one named for finite differences using the finite-difference radial grid and the one named for Chebyshev using the Chebyshev grid; likewise the launch script's recompile option rebuilds the selected executable with its own scheme.",
["histories","configurations"],"all sequences of compile-script runs, makes with either option, cleans, recompile launches, stale objects present or not",
"The test build bypasses the project's makefiles and scripts entirely.",
["config.py","Source/Makefile","Makefile","sim_class.py"],[("build orchestration","config.py, Sim.then_recompile, Source/Makefile")],["radial positions written by each executable"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
