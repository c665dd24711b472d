"""Single source of properties.jsonl and MANIFEST.json (written by mkmeta.py)."""
EST = "VolterraBasis/gle_estimation.py"
MOD = "VolterraBasis/models.py"
INI = "VolterraBasis/__init__.py"
F90 = "VolterraBasis/fkernel.f90"
COR = "VolterraBasis/correlation.py"
BAS = "VolterraBasis/basis/"

P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique, state=list(state), observe=list(observe)))


TECH = "TLA+ specification checked with TLC; conformance by TLC validation of traces recorded from the real code"
TRUST = " Trusted: TLC and its exact-rational value overrides, the recording harness, the listed tolerances for floating point rounding."

prop(
    "C01", "Velocities and accelerations are the stated finite differences of positions",
    "A trajectory frame keeps the positions (and velocities and accelerations when given), times and time step it is built from, time fixing replacing the times by a regular grid of the rounded or given step. The derived velocity is the weighted mean of the backward and forward differences (weight one half by default, backward only in the GJF variant), the derived acceleration is the second difference of positions (or the centred difference of given velocities), each at its own time, only for samples where all of them exist, and with jump correction every position difference beyond the threshold is shifted by one period before use. The input frame is never modified, and stacking positions with velocities (and velocities with accelerations) keeps values, order and times.",
    ["inputs", "configurations"], "every trajectory (length >= 2, any dimension, any regular step and start time, numpy or dask), every weight, jump, threshold and time fixing option",
    "The tests build frames from a handful of fixed trajectories and look at shapes; no oracle for the values, the sample a value is attached to, or jump correction.",
    [INI], [("frame construction", INI + " xframe"), ("finite differences", INI + " compute_va, compute_va_gjf, compute_a, compute_a_from_vel"), ("stacking", INI + " concat_underdamped")],
    "Exhaustive TLC check of the difference operators on all short trajectories over a small value set, plus trace validation of recorded calls with exact rational arithmetic." + TRUST, TECH,
)
prop(
    "C02", "Correlations are exact lagged averages, whatever algorithm computes them",
    "The correlation of two series at lag n is the average of first(t)*second(t+n) over the N-n pairs of samples that exist, for every lag below the requested truncation (at most the length of the series). The FFT based and the direct implementations, one dimensional and multi dimensional, give the same values up to rounding, and the correlation of one array with itself correlates all pairs of its rows.",
    ["inputs"], "all series of any length, all pairs of components, all lags and truncations",
    "Tests compare the two implementations on one random series each; argument order, normalisation and wrap-around at large lags are never compared with the definition.",
    [COR], [("zero padding and normalisation", COR)],
    "TLC checks on all short integer series that zero-padded circular correlation equals the lagged average (and that less padding does not), and validates every recorded call against the definition in exact arithmetic." + TRUST, TECH,
)
prop(
    "C03", "Global basis functions match their definitions, derivatives and primitives",
    "Polynomial bases (any of the numpy families), Fourier bases, linear (optionally centred) bases and spline-function bases evaluate, at every point and in every dimension, the functions they are named after, in the documented order, as many as they announce. Gradients and second derivatives are those of the values, with the constant function left out of gradients and second derivatives exactly when constants are removed, and the primitive has the values as its derivative (one dimension).",
    ["inputs", "configurations"], "every basis of these kinds, order, frequency, family, dimension and evaluation point",
    "Tests check shapes of the outputs for one basis of each kind; the numbers are compared with nothing.",
    [BAS + "_basis_features.py"], [("polynomial, Fourier, linear, spline function bases", BAS + "_basis_features.py")],
    "The specification defines the families by their recurrences and the trigonometric functions by their series, in exact arithmetic; every recorded evaluation is validated by TLC; model checks prove the derivative/primitive relations on the polynomial families." + TRUST, TECH,
)
prop(
    "C04", "Local bases: B-splines and smooth indicators",
    "A B-spline basis of a given number and degree evaluates, inside the range it was fitted on, the B-splines of the interpolation (not-a-knot) knot sequence of that range: they are non negative and sum to one, and gradients, second derivatives and (in one dimension) primitives are theirs. Smooth indicator functions are non negative, sum to one everywhere, equal one in the interior of their own state and pass from one to zero along the chosen transition in the stated boundary interval, with matching derivatives.",
    ["inputs", "configurations"], "every number of functions, degree, data range, list of states, transition shape and evaluation point",
    "Tests only check the shape of the result for one configuration.",
    [BAS + "_local_features.py"], [("B-splines, indicators", BAS + "_local_features.py")],
    "Cox-de Boor recurrence and piecewise rational transitions specified in TLA+ with exact rationals; TLC checks partition of unity on them and validates every recorded evaluation." + TRUST, TECH,
)
prop(
    "C05", "Combined and tensorial bases are made of their parts",
    "A combined basis concatenates the functions of its parts in order, for values, gradients, second derivatives and primitives (where its parts have them), and a two dimensional tensorial basis evaluates all products of a function of the first coordinate and a function of the second in a fixed order, with product-rule gradients and second derivatives. Fitting one gives each part the same fit as the part would get on its own data, and the announced number of functions is the number evaluated.",
    ["inputs", "configurations"], "every combination of parts, every data set and evaluation point",
    "Tests check output shapes of one combination.",
    [BAS + "_multidim_basis.py", BAS + "_basis_features.py"], [("combiner", BAS + "_basis_features.py FeaturesCombiner"), ("tensorial basis", BAS + "_multidim_basis.py")],
    "The parts are evaluated on their own and the specification composes them; every recorded evaluation is validated by TLC." + TRUST, TECH,
)
prop(
    "C06", "Finite element bases and the location of points in a mesh",
    "Every point inside the mesh is attributed to an element that contains it (any order of the vertices, one to three dimensions), and the finite element basis evaluates at that point only functions of that element, which sum to one and whose expansion in nodal coefficients reproduces the polynomials of the element's degree. The gradients reproduce those of the same polynomials, evaluation leaves the data as it is, and the mean force on such a basis is the projection of the observable on its values, as with any other basis.",
    ["inputs", "configurations"], "every mesh (1D, 2D, 3D), element type and point inside the mesh",
    "The finite element tests need a network or a library version which is not available and are not among the stable tests; at best they compare shapes.",
    [BAS + "_fem_features.py", BAS + "_mesh_utils.py"], [("element finder and evaluation", BAS + "_fem_features.py")],
    "Containment and polynomial reproduction specified in TLA+ on the mesh itself and validated by TLC on recorded evaluations." + TRUST, TECH,
)
prop(
    "C07", "Averages over several trajectories count every sample once",
    "Every average an estimator computes from several trajectories (Gram matrices, basis means, correlations at every lag) is the mean of the values of the single trajectories weighted by their lengths, and mean forces and effective masses solve the equations of the pooled averages. The result does not depend on the order in which trajectories are given, on the container they are given in, on how many jobs work on them, on whether the data are lazily chunked, and static averages do not change when a trajectory is cut in pieces.",
    ["inputs", "histories", "configurations"], "every list of trajectories of unequal lengths, every order and partition, serial or parallel execution, eager or chunked data",
    "Tests with several trajectories use equal lengths or only check that the result exists.",
    [EST], [("weighted loop over trajectories", EST + " _loop_over_trajs_serial, _loop_over_trajs_parallel")],
    "TLC explores all ways of splitting and merging small sample sets (pooled mean = total mean) and validates recorded pooled values against those recorded from the single trajectories." + TRUST, TECH,
)
prop(
    "C08", "The mean force is the orthogonal projection of the observable on the basis",
    "After computing the mean force, the observable minus the force expansion is uncorrelated, over all samples of all trajectories, with every function of the force expansion of the chosen model, and the stored Gram matrix is the average product of these functions. The basis mean, the Gram matrix of the kernel functions and the effective mass (inverse of the mean product of velocities) are the corresponding sample averages, and setting the force to zero stores one zero coefficient per function and component of the observable.",
    ["inputs", "configurations"], "all trajectories, models, bases, dimensions and observables with a regular Gram matrix",
    "Tests compute the force on one trajectory and compare nothing or a shape.",
    [EST, MOD], [("normal equations", EST + " compute_mean_force, _projection_on_basis"), ("averages", EST + " compute_gram_force, compute_gram_kernel, compute_basis_mean, compute_effective_mass")],
    "Normal equations evaluated in exact arithmetic on recorded data for every model and basis kind." + TRUST, TECH,
)
prop(
    "C09", "Estimated correlations are those the model's Volterra equation needs",
    "The correlations an estimator computes are, for the chosen model, between its kernel functions (first argument earlier), between kernel functions and the observable minus mean force, and the same with the time derivatives of the kernel functions along the trajectory in first place, at every lag up to the truncation. They do not depend on the algorithm or the vectorisation option, without second order methods only the equal time derivative correlation is computed, and the trajectories are left unchanged.",
    ["inputs", "configurations"], "all trajectories, models, bases, dimensions, observables, force coefficients and algorithm options",
    "Tests run one or two models on one data set and look at shapes; argument order, derivative terms and options agree with nothing independent.",
    [EST, MOD], [("correlation of basis vectors", EST + " compute_corrs, _correlation_ufunc"), ("kernel functions of the models", MOD + " basis_vector")],
    "The specification composes each model's series from positions, velocities, accelerations and basis values and correlates them exactly; TLC validates every recorded correlation." + TRUST, TECH,
)
prop(
    "C10", "Projection on the range of a rank deficient basis loses nothing",
    "When the constant is kept in a velocity dependent basis, the estimation projects on the range of the equal time correlation: the projector has orthonormal rows, keeps exactly the directions above the tolerance (the default one being far below any significant one), and all correlations are the projected ones. The kernel as a function of position is the same as that obtained with the constant removed.",
    ["inputs", "configurations"], "all trajectories, bases with constants, tolerances and velocity dependent models",
    "Tests run one projected estimation and look at shapes.",
    [EST, MOD], [("projection", MOD + " _set_range_projection, matmulPrange"), ("projected correlations", EST + " compute_corrs")],
    "Orthonormality, kept and dropped directions and projected correlations evaluated exactly on recorded data." + TRUST, TECH,
)
prop(
    "C11", "First kind inversion: the kernel solves the discretised Volterra equation",
    "For the rectangular, midpoint, trapezoidal and Richardson extrapolated methods the memory kernel is the solution of the first kind equation (observable correlation = minus convolution of basis correlation and kernel) discretised by that quadrature at every available time, the trapezoidal one starting from the given or computed initial value and smoothed by weights 1/4, 1/2, 1/4. The kernel carries one matrix (kernel function by observable component) per point of its time grid, starting at zero with step dt (twice dt for midpoint, six times for Richardson), the correlations are not modified, and unknown methods or a missing initial value are refused.",
    ["inputs", "configurations"], "all correlation functions (any number of functions and components, any length) with invertible leading matrices, all methods and initial values",
    "Tests call each method on one scalar data set and check that the kernel has some shape.",
    [F90, EST], [("solvers", F90 + " kernel_first_kind_*"), ("smoothing, extrapolation, time grids", EST + " compute_kernel")],
    "TLC explores the solver state machines (round trip with the forward quadrature) and validates every recorded kernel against the discretised equation in exact arithmetic." + TRUST, TECH,
)
prop(
    "C12", "Second kind inversion and its initial value",
    "For the second kind methods the kernel at time zero is the given initial value or the solution of (equal time basis correlation) K(0) = (equal time derivative-observable correlation), and at each later time the kernel solves the second kind equation discretised by the rectangle or trapezoidal rule, on the whole time grid of the correlations. These methods are refused when the derivative correlations have not been computed.",
    ["inputs", "configurations"], "all correlation functions (any number of functions and components, any length), both methods, given or computed initial values",
    "Tests call each method on one scalar data set and check that the kernel has some shape.",
    [F90, EST], [("solvers", F90 + " kernel_second_kind_*"), ("initial value", EST + " compute_kernel")],
    "TLC explores the solver state machines and validates every recorded kernel against the discretised equation in exact arithmetic." + TRUST, TECH,
)
GLE = "VolterraBasis/gle_integrate.py"
prop(
    "C13", "The estimated kernel converges to the true kernel as the time step shrinks",
    "When the correlation functions come exactly from a smooth kernel through the Volterra equation, the kernel found by every inversion method converges to that kernel when the time step is refined over the same duration, with the accuracy of the method: first order for the rectangle rules, second order for the trapezoidal and midpoint rules and third order for the extrapolated midpoint rule, except for the first value of the midpoint methods, which converges with first order. This holds for any number of functions and components of the observable.",
    ["inputs", "configurations"], "all smooth kernels and correlation functions, numbers of functions and components, and inversion methods",
    "Tests never compare a kernel with a known one, let alone along a sequence of time steps.",
    [F90, EST], [("solvers", F90 + " kernel_first_kind_*, kernel_second_kind_*"), ("smoothing, extrapolation, initial value", EST + " compute_kernel")],
    "Polynomial correlations and kernels, for which the specification proves in exact arithmetic that the recorded inputs satisfy the continuous equation; TLC compares the errors of recorded kernels at three step sizes." + TRUST, TECH,
)
prop(
    "C14", "Mean force, memory force and noise add up to the observable",
    "Extracting the noise of a trajectory returns, at every sample of the requested slice, the observable unchanged, the mean force of the model's functions, the memory force, which is minus the convolution of the kernel functions along the slice with the kernel by the quadrature rule of the kernel's method, and the noise, which is what remains: the three parts sum to the observable. A truncated kernel enters with its first values only, times count from the start of the trajectory, the trajectory is unchanged, and the call is refused before the mean force is known or for kernels of methods without a rule.",
    ["inputs", "configurations"], "every trajectory, slice, model, basis, dimension, observable, kernel, truncation and quadrature rule",
    "Tests look at the length of the noise for one model; no test compares a memory force with the convolution.",
    [MOD, F90], [("decomposition", MOD + " compute_noise"), ("memory convolution", F90 + " memory_rect, memory_trapz")],
    "The discretised memory force is specified in TLA+ and composed with each model's series; every recorded decomposition is validated in exact arithmetic." + TRUST, TECH,
)
prop(
    "C15", "Correlations with the projected noise follow the orthogonal dynamics",
    "The correlation of a left operand (by default the noise itself, otherwise an observable given by name, as an array, or as a function of the trajectory) with the projected noise at each kernel time is the average over equal starting times of the operand times the observable minus mean force propagated that number of steps by the kernel, by the rectangle or trapezoidal rule belonging to the kernel's method. Over several trajectories the length-weighted mean of the single ones is returned together with the kernel's times. The call is refused when mean force or kernel are missing or the kernel's method has no rule.",
    ["inputs", "configurations"], "every list of trajectories, model, basis, observable, kernel, left operand and quadrature rule",
    "Tests only check that the call returns.",
    [MOD, F90, EST], [("propagation", F90 + " corrs_rect, corrs_trapz"), ("operands and rules", MOD + " compute_corrs_w_noise"), ("pooling", EST + " compute_projected_corrs")],
    "The propagation is a step relation of the TLA+ specification; every recorded correlation is validated against it in exact arithmetic." + TRUST, TECH,
)
prop(
    "C16", "Evolving the Volterra equation solves the discretised equation",
    "Evolving correlation functions from given initial values with the closed model's force and kernel yields, at the requested number of times spaced by the time step and starting with the initial values, the solution of the discretised integro-differential equation of the chosen rule (rectangle, trapezoidal by default, or the stabilised trapezoidal rule, which keeps every later value within zero and one), using only the first values of the kernel when a positive truncation is given. Evolution is refused when force or kernel are not square, when the initial values do not fit, and for models that are not closed.",
    ["inputs", "configurations"], "all kernels, force matrices, initial values, lengths, truncations and rules",
    "Tests evolve one case and look at the shape.",
    [F90, MOD], [("solvers", F90 + " solve_ide_rect, solve_ide_trapz, solve_ide_trapz_stab"), ("wrapper", MOD + " Pos_gle_overdamped.evolve_volterra")],
    "Each rule is a step relation of the TLA+ specification (next value from all previous ones) and every recorded evolution is validated step by step in exact arithmetic." + TRUST, TECH,
)
prop(
    "C17", "Inversion check, flux terms and Laplace transform are the stated quadratures",
    "Checking an inversion returns, at each time of the kernel, minus the trapezoidal convolution of basis correlation and kernel up to that time, or its absolute difference to the observable correlation. Decomposing a flux returns the force term (correlation times force coefficients) and, at each time, minus the convolution of the correlation with the (possibly truncated) kernel over its whole history by the rectangle, trapezoidal or Simpson rule, zero at the first time. The Laplace transform is the Simpson integral of the kernel times exp(-s t) over the kernel's own time axis, at equally spaced s in the requested range. Check and transform are refused when there is no kernel.",
    ["inputs", "configurations"], "all correlations, kernels, time grids, truncations, rules and ranges of s",
    "Tests call them once and check shapes.",
    [EST, MOD, F90], [("check", EST + " check_volterra_inversion"), ("flux", MOD + " flux_from_volterra"), ("integrals", F90 + " rect_integral, trapz_integral, simpson_integral"), ("Laplace transform", MOD + " laplace_transform_kernel")],
    "Quadratures specified in TLA+ (exponentials by bounded series) and evaluated exactly on every recorded call." + TRUST, TECH,
)
prop(
    "C18", "Integrated trajectories obey the generalised Langevin equation step by step",
    "From given initial points (or rest at the origin), every later point of an integrated trajectory follows from the previous ones by one fourth order Runge-Kutta step of the equation of motion: force of the model at the position, recorded noise, and minus the trapezoidal convolution of the model's kernel functions along the whole trajectory so far with the (possibly truncated) kernel. The result has the requested number of points, model time step and times, runs with the same noise are equal, a run continued from part of a trajectory with the remaining noise reproduces the rest, and initial conditions are unmodified consecutive pieces of the given trajectories timed from zero.",
    ["inputs", "histories", "configurations"], "all kernels, force coefficients, bases, dimensions, initial histories, lengths, noises and truncations, for the position dependent and constant kernel integrators",
    "Tests integrate a few steps with random noise and check that it runs.",
    [GLE], [("integration step", GLE + " Integrator_gle, Integrator_gle_const_kernel"), ("initial conditions", GLE)],
    "The integration step is the next-state relation of the TLA+ specification; every recorded step of every run is validated against it with a recorded noise." + TRUST, TECH,
)
prop(
    "C19", "Generated noise has the covariance of the memory kernel",
    "The noise generators are linear in the white noise they draw, and the response to it gives exactly the covariance asked for: coloured noise (one independent component per dimension, with the diagonal of the kernel or its given combination as correlation function) at every pair of times of a run, whatever its length, provided the kernel has decayed within its range, and Karhunen-Loeve noise with the given covariance matrix times the time step, singular ones included. The stationary covariance matrix of a correlation function has it along its diagonals, and an integrator drives its trajectories with the noise of its model's kernel.",
    ["inputs", "histories", "configurations"], "all decaying positive definite kernels, run lengths, dimensions, combination coefficients and covariance matrices",
    "Tests draw one realisation and check its shape; a wrong scale or a wrong end effect cannot be seen in it.",
    [GLE], [("coloured noise", GLE + " ColoredNoiseGenerator"), ("Karhunen-Loeve noise", GLE + " KarhunenLoeveNoiseGenerator")],
    "The driver records the response to every unit impulse of white noise; TLC multiplies responses out to the covariance, which replaces statistics by an exact identity." + TRUST, TECH,
)
prop(
    "C20", "A saved model loads back as the same model",
    "Saving a model, or an estimator with its model, and loading it again, in memory or through a netCDF file, gives a model with the same results (mean force, kernel with its times, projection, Gram matrices, masses, covariances) and the same parameters (time step, truncation, observable, dimensions, inversion method, projection flag), whose evaluations, free energy, noise, projected correlations and Laplace transform agree with those of the original. Saving changes nothing in the model and loading nothing in the saved data, explicitly given arguments take precedence, and saving a loaded model gives the same data again. Files written by an estimator along the way carry its prefix and hold the computed correlations and kernel, and none are written when this is switched off.",
    ["inputs", "histories", "configurations"], "every model class, basis, observable and stage of the estimation at which a model is saved",
    "One test saves and loads one model and looks at no value afterwards; a parameter that is forgotten shows only in the later use of the loaded model.",
    [MOD, EST], [("save and load", MOD + " save_model, load_model"), ("files of the estimator", EST + " saveall")],
    "The specification gives which part of the state a saved model holds and validates it, and every evaluation of the loaded model, on recorded save and load histories." + TRUST, TECH,
)
prop(
    "C21", "The order of operations does not matter beyond what a result is made from",
    "Every result an estimator holds depends only on the operations it is made from: the mean force on the data, the correlations on data and mean force in force at the time, the kernel on the correlations and the method, the projected quantities on these. Any other operation before, in between or after, a repetition included, changes nothing; an operation whose prerequisites are missing or whose option is unknown is refused and leaves every result, and what can be done afterwards, as it was; asking for a value changes nothing, and the trajectories are never modified. Every name the package exports exists.",
    ["histories"], "all sequences of operations of an estimator, refused ones included",
    "Tests run each operation in one order on a fresh estimator; an operation that leaves something behind is seen only by another one, later.",
    [EST, MOD], [("operations", EST + " Estimator_gle"), ("state", MOD + " ModelBase")],
    "The estimator's life cycle is an explicit state machine; TLC explores all histories up to a bound, proves the results' provenance on the model, and generates histories which are replayed on the real code, whose recorded steps are validated against the machine." + TRUST,
    "TLA+ specification checked with TLC; conformance by replay of TLC generated histories and by TLC validation of recorded traces",
)
prop(
    "C22", "Evaluating a model gives its expansion at the points",
    "The mean force, the friction force, the memory kernel (in the projected basis, with the constant part of a hybrid model, or with given coefficients), the free energy (one dimension) and the inverse of a position dependent mass are, at every point asked for, the basis functions at the point times the model's coefficients; coefficients of a wrong shape are refused. The inverse mass coefficients solve the least squares equations of the trajectories, and the numerical free energy is minus the integral of the model's force. Points can be given as lists, arrays or data sets with the same result.",
    ["inputs", "configurations"], "every model, basis, dimension, set of coefficients and points",
    "Tests call the evaluations on a few points and look at shapes.",
    [MOD], [("evaluation", MOD + " force_eval, friction_force_eval, kernel_eval, pmf_eval, inv_mass_eval, pmf_num_int_eval")],
    "Evaluations are specified as expansions over recorded basis values, in exact arithmetic, and every recorded one is validated by TLC." + TRUST, TECH,
)
FIT = "VolterraBasis/fit_memory.py"
PRO = "VolterraBasis/fit_prony.py"
prop(
    "C23", "Functional fits of a kernel are evaluations and least squares of the named form",
    "Evaluating a fit gives the named form (exponential, normalised and double exponential, powers of the hyperbolic secant, Gaussian) with the given parameters at every time; every fit is a stationary point of the sum of squares, returns the form it was asked for, and reproduces data which have that form. Kernels are fitted function by function and component by component, indexed by component then function, and evaluated back in the layout of a kernel. Unknown forms and data of several columns are refused. The asymptotic fit of the integral of a kernel and its friction are the stated least squares and quadrature.",
    ["inputs", "configurations"], "all forms and their aliases, parameters, times, kernels of any number of functions and components",
    "Tests only look at the shape of the evaluated fit of one noisy kernel.",
    [FIT], [("forms and fits", FIT + " memory_fit, memory_fit_eval"), ("kernels", FIT + " memory_fit_kernel, memory_kernel_eval")],
    "The forms and their derivatives by the parameters are specified with series for the elementary functions; TLC checks values, the gradient of the sum of squares and reproduction on every recorded fit." + TRUST, TECH,
)
prop(
    "C24", "A Prony series reproduces every sum of decaying exponentials",
    "The Prony fit of a series which is a sum of exponentials, real, oscillating or alternating, reproduces it at all its times and beyond them, with exactly as many terms as needed when the number kept is given, starts from the first value, and keeps at most the number asked for, none of them diverging unless that is asked for. Evaluating a series gives the first entry of the matrix exponential times the first value. Kernels are fitted entry by entry and evaluated in the layout of a kernel, through the Prony functions or the general fit alike. Inspecting the data returns the part of the series carried by the largest singular values that are kept.",
    ["inputs", "configurations"], "all sums of exponentials, amplitudes, time steps, numbers of terms kept, thresholds and evaluation times",
    "Tests only look at the shape of one evaluated fit.",
    [PRO, FIT], [("fit", PRO + " prony_fit_times_serie, ldl_hankel, clean_eigenvalues"), ("evaluation", PRO + " prony_series_eval, prony_series_kernel_eval"), ("filtering", PRO + " prony_inspect_data")],
    "The specification computes matrix exponentials and their powers in exact arithmetic and follows the series beyond the fitted data; anticirculant Hankel matrices give exactly known singular vectors for the filter." + TRUST, TECH,
)
prop(
    "C25", "An estimator takes its sizes, truncation and description from all its data",
    "From one trajectory or a collection of them, an estimator takes the time step and the dimensions of position and observable, the lengths of the trajectories as their weights, and as number of lags the number of times of the first trajectory up to the truncation time, but at most to the end of the shortest trajectory; correlations and kernel have that length. Descriptions of several blocks of data pool to the description of all samples (count, range, mean, variance, skewness, kurtosis), and the basis is fitted on it. Trajectories without time, time step, a quantity the model needs or the observable are refused wherever they stand in the collection, complete ones are accepted, and being verbose changes no result.",
    ["inputs", "configurations"], "all collections of trajectories, time axes, truncation times, models and observables",
    "Tests use one trajectory and a truncation well inside it.",
    [EST, BAS + "_data_describe.py"], [("construction", EST + " Estimator_gle.__init__, _compute_trunc_ind, _do_check, _do_check_obs"), ("description", BAS + "_data_describe.py")],
    "Truncation and pooled descriptions specified in TLA+ on the recorded time axes and samples, in exact arithmetic." + TRUST, TECH,
)
prop(
    "C26", "Free energy, mass and forces from a histogram are those of its bins",
    "The one dimensional free energy is minus the logarithm of the relative frequencies of all samples of all trajectories in the bins of the given number or rule, zero at its minimum, at the middle of the bins which hold samples; every sample, the ones at both ends included, is counted once. Mass and mean acceleration are averages in the bins, the forces are the derivatives of the interpolating cubic splines of the free energy (scaled by temperature over mean mass) and of mass times frequency (over frequency). The histogram alone is returned on demand, the trajectories are unchanged and bins which are neither number nor rule are refused.",
    ["inputs", "configurations"], "all collections of trajectories, binning rules and temperatures, distributions with empty bins included",
    "Tests call it once and look at nothing.",
    [INI], [("histogram and splines", INI + " compute_1d_fe")],
    "Bins, averages and the interpolating splines (B-splines on not-a-knot knots, collocation solved in exact arithmetic) specified in TLA+." + TRUST, TECH,
)
prop(
    "C27", "The conversion for the Fokker-Planck equation observes the basis itself",
    "Converting an estimator adds to every trajectory, under the given name, the time derivative of the model's kernel functions along the trajectory, makes it the observable of the model with as many components as functions, and switches the projection off; nothing else in the trajectories changes. Mean force, correlations and zero force computed afterwards are those of the new observable.",
    ["inputs", "histories", "configurations"], "all models with a time derivative, bases, dimensions, collections of trajectories and names",
    "One test converts one estimator and only checks that the following call returns.",
    [EST, MOD], [("conversion", EST + " to_gfpe"), ("time derivative", MOD + " basis_vector")],
    "The derivative series of each model are specified in TLA+ (Models) and the recorded conversion and the estimation after it are validated against them." + TRUST, TECH,
)
prop(
    "C28", "Meshes cover the domain they are made for",
    "Uniform and geometric lines have the given ends, number of cells and ratio of consecutive cells; data driven lines run in equal bins from the given bounds, else those of the data; centroid lines and triangulations have the bounds (in two dimensions the given or the convex hull of the data, with negligible edges removed by prolonging their neighbours) and the centres of the clusters of the data as points, each centre the mean of the samples nearest to it, and the cells cover exactly the domain. The intersection of two lines lies on both, and parallel lines have none.",
    ["inputs", "configurations"], "all bounds, ratios, numbers of cells, well separated data and boundaries",
    "Meshes appear in tests only as input of other parts; no test looks at their points.",
    [BAS + "_mesh_utils.py"], [("mesh construction", BAS + "_mesh_utils.py")],
    "Each construction is characterised in TLA+ (spacing, coverage by areas, centres as means, orientation of data against the boundary) and recorded meshes are validated in exact arithmetic." + TRUST, TECH,
)
