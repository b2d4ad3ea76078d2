p("P01", "Public operations never modify the data the caller passes in",
  "No public function or method changes the contents of an array, list or other object that the caller passes to it as an argument, directly or through a view, a callee or a nested function. Only the receiver of a documented in-place operation (fit, normalise, permute, transform, append, set, ...) may change, and a supplied progress logger may be appended to.",
  ["inputs", "programs"], "every public entry point, every array-like argument, every path through the code including nested helpers and early returns",
  "Tests build fresh arrays for each call and never compare them afterwards; a mutation only matters when the caller reuses the array.",
  ["linalg.py", "bandstructure.py", "tight_binding_asym.py", "density_of_states.py", "smearing.py", "bulk_properties.py", "symmetry.py", "unitary_representations.py", "hamiltonian_symmetry.py", "kpaths.py", "qespresso_interface.py", "loss.py"],
  [("fresh copies before in-place arithmetic", "smearing.py cube_precomp/cube_cut_volume, linalg.py conjugate_gradient_solve, loss.py model_error")])
p("P02", "Copies, sums, products and new objects share no mutable data",
  "An object built from caller data, and an object returned by a copy, sum, product, scaling, direct sum or supercell operation, owns its numeric state: no in-place operation of the library on the new object later changes the data it was built from or the operands, nor the other way round. Component objects handed to a constructor (a series, a representation, a symmetry, a logger) are held as they are, and the general band-structure model documents that it shares its coefficient functions with their neighbour table and symmetry.",
  ["histories", "inputs"], "every constructor, copy and operator of the models, Fourier series, symmetries and representations, followed by any sequence of in-place operations on either side",
  "Aliasing shows only when two objects are used alternately; tests use one model at a time.",
  ["bandstructure.py", "tight_binding_asym.py", "tight_binding.py", "symmetry.py", "unitary_representations.py", "hamiltonian_symmetry.py"],
  [("copying constructors and copy methods", "BandStructureModel.__init__/copy, HermitianFourierSeries.__init__/copy, UnitaryRepresentation.__init__/o3/so3, Symmetry.__init__")])
p("P03", "Read-only operations leave the object unchanged and are deterministic",
  "Evaluating, measuring, integrating, plotting or saving a model, density of states, transport integral, symmetry group or representation does not change its observable state, and repeated evaluation uses no random numbers. Internal memo data may be filled in, but never from values that depend on the query.",
  ["histories"], "every query operation of every class, in any order and number of repetitions",
  "Tests call each query a few times on fresh objects; state leaks show only in later, different queries.",
  ["bandstructure.py", "tight_binding_asym.py", "density_of_states.py", "smearing.py", "bulk_properties.py", "symmetry.py", "unitary_representations.py", "hamiltonian_symmetry.py"],
  [("query methods without writes to the receiver", "all classes"), ("memoised area scale / group velocities", "smearing.py samples, bulk_properties.py KIntegral.precompute")])
p("P04", "Process-wide settings are restored on every exit, even on errors",
  "After any public operation returns or raises, process-wide state is as before the call: number print formatting, floating-point error handling, warning filters, seed of the random generators, working directory, environment variables and the library's module-level tables and constants. Drawing random numbers is no change of the seed, plot functions may touch the current figure, and registering pseudopotential files in qespresso_interface.pp_files by the documented loaders is intended.",
  ["fault_sequences", "inputs"], "every public operation, every return and every exception that can leave it (unsupported format, failing file write, failed assertion)",
  "Tests exercise the successful path only; a leaked setting changes the formatting or results of unrelated later code.",
  ["bandstructure.py", "tight_binding_asym.py", "kpaths.py", "density_of_states.py", "qespresso_interface.py"],
  [("print options saved and restored around writing a model", "BandStructureModel.save, AsymTightBindingModel.save"), ("special-point tables", "kpaths.py")])
p("P05", "Hamiltonians, overlaps and their k-derivatives are Hermitian",
  "For every real k the Hamiltonian, overlap, k-gradient and k-Hessian matrices a model evaluates are Hermitian whatever the coefficient matrices of nonzero neighbours are, provided the zeroth matrix is Hermitian (the k-independent-symmetry TightBindingModel: provided all of them are); and normalising a BandStructureModel without symmetriser or an AsymTightBindingModel leaves the zeroth matrix of the Hamiltonian and of the overlap Hermitian.",
  ["inputs", "histories"], "all k arrays (a single point, lists and grids of points), all coefficient matrices, all variants",
  "Eigenvalue routines read one triangle only, so a non-Hermitian matrix yields plausible bands in the sampled cases.",
  ["bandstructure.py", "tight_binding_asym.py"],
  [("adding the conjugate transpose", "BandStructureModel.f/df/ddf, HermitianFourierSeries.f/df/ddf"), ("hermitising the zeroth matrix", "normalize, optimize, optimize_cg")])
p("P06", "Gradients and Hessians are the exact k-derivatives of the Hamiltonian",
  "For every model variant (exponential, cosine/sine, reduced cosine, with or without inversion) the coefficient gradient and Hessian returned for a k point are the first and second derivatives of the coefficient function with respect to k, for every neighbour including the constant term, and the gradient and Hessian of the whole Hamiltonian (df, ddf) are the first and second derivatives of the Hamiltonian f, for a single k point as for arrays of k points.",
  ["inputs", "configurations"], "all k, all neighbours, all variants and parts",
  "Tests compare derivatives in few variants at few points; Hessians of most variants are never compared.",
  ["bandstructure.py", "tight_binding_asym.py", "tight_binding.py"],
  [("coefficient function triples", "_get_tight_binding_coeff_funcs, HermitianFourierSeries.f_i/df_i/ddf_i, BandStructureModel.f/df/ddf")])
p("P07", "Basis changes act as one congruence on all matrices of a model",
  "Normalising or permuting a model applies one and the same basis change, with the conjugate transpose on the row side and the matrix itself on the column side, to every coefficient matrix and to the overlap as well (unitary where the model has no overlap), so the bands stay the same. (A model with a symmetriser is only symmetrised, and entries below the rounding threshold may be set to zero.)",
  ["inputs"], "all models, orders and coefficient matrices",
  "Tests that normalise start from models where a one-sided or partial transform is invisible (identity overlap, diagonal or real matrices).",
  ["bandstructure.py", "tight_binding_asym.py", "tight_binding.py"],
  [("normalize, permute", "BandStructureModel, AsymTightBindingModel")])
p("P08", "A fit always ends normalised with its true final loss logged",
  "Whenever a fit (optimize, optimize_cg of every model) returns - iterations used up, converged, or interrupted from the keyboard inside its loop - the model was normalised after its last change; for the models that log, the log is returned, its last entry holds the loss and the band errors (`error`, with one weight per band) of exactly that returned model for the k-points, reference bands and offset of the fit (not of a batch, and not of the model before the normalisation), and `aborted` is set exactly when the fit was interrupted.",
  ["histories", "fault_sequences"], "every exit of every fit routine of every model: each outcome of the convergence tests, and an interrupt before any statement of the loop",
  "Tests never interrupt a fit, and never compare the last log entry to the returned model.",
  ["bandstructure.py", "tight_binding_asym.py", "tight_binding.py", "logger.py"],
  [("loop else / KeyboardInterrupt handler / final normalise and log", "optimize, optimize_cg")])
p("P09", "Every parameter update of a fit honours the requested constraints",
  "While a fit runs, after every one of its steps: entries that were zero when the steps began stay zero with keep_zeros; the coefficients stay symmetric (a fixed point of the symmetriser) when a symmetriser is set; the constant term does not change with train_k0=False; and the overlap does not change unless train_S is set. This holds for every combination of these options with batches, pseudo inverse, regularisation, momentum and step size. A fit of bands the model does not have (negative offset, or offset plus number of reference bands above the number of bands) is refused before the model changes.",
  ["inputs", "configurations", "histories"], "all iterations of all fit routines under each constraint option",
  "Tests run each fit with default options only.",
  ["bandstructure.py", "tight_binding_asym.py", "tight_binding.py"],
  [("symmetrizer, keep_zeros mask, train_k0", "optimize, optimize_cg"), ("band_offset assertion", "optimize, optimize_cg")])
p("P10", "Saving and loading agree on formats and fields; bad requests touch nothing",
  "save and load pick the format from the file name's extension (.repr python, .json json, tb.dat/hr.dat wannier90 where supported), and an explicitly given format wins over the extension. Every format a model supports is really written or read; anything else - an unknown format or extension, a format that cannot be written, a model that cannot be stored in it - is refused with an exception before any file is opened, so an existing file stays as it was. A JSON model file has the documented layout (band_count; params, one {v, dim, data: [[re, im], ...]} per neighbor, row by row; neighbors in the same order), and the reader takes such files with the neighbors in any order and with plain real numbers.",
  ["inputs", "configurations"], "every file name, every format string, every model",
  "Tests save and load one or two formats of one model and never an unsupported one.",
  ["bandstructure.py", "tight_binding_asym.py", "tight_binding.py", "json_tb_format.py", "wannier90_tb_format.py"],
  [("format dispatch", "save/load of the models"), ("JSON field table", "json_tb_format.py load/save")])
p("P11", "No caller-supplied text can inject commands into a shell",
  "Text supplied by the caller or read from a file (crystal names, directories, prefixes) reaches a shell only after quoting or after being validated against a whitelist that covers the whole string.",
  ["inputs"], "every string argument and attribute, every operation that starts an external program",
  "Tests never start external programs.",
  ["qespresso_interface.py"],
  [("command construction", "QECrystal._run, _run_simple, dielectric_function, fermi_surface, qe_prepare")])
p("P12", "Parallel arrays are reordered, filtered and extended together",
  "Wherever two or more sequences are kept in step by index (neighbours and matrices, k points and bands, group elements and their data), any sort, selection, removal or extension applies the same index operation to all of them before either is used again.",
  ["inputs", "histories"], "every operation that reorders, filters, trims or extends one of a pair of parallel sequences",
  "The sample data is already sorted or symmetric, so a missed permutation is invisible.",
  ["tight_binding_asym.py", "json_tb_format.py", "wannier90_tb_format.py", "qespresso_interface.py", "kpaths.py", "symmetry.py"],
  [("limit_neighbors, limit_neighbor_count, cleanup_neighbors, add_neighbors, load sorting", "tight_binding_asym.py, json_tb_format.py, wannier90_tb_format.py")])
p("P13", "Physical results carry the documented units",
  "Transport coefficients, conductivity, Hall and Peltier tensors, heat capacity, chemical potential and group velocities come out in the units the documentation states, for every option: every sum and comparison combines quantities of the same dimension and every energy, length and charge conversion is applied exactly once.",
  ["inputs", "configurations"], "all lattice matrices, temperatures, moments and scattering times",
  "Tests check a few scalars of one metal with loose bounds; most transport functions are never run.",
  ["bulk_properties.py", "density_of_states.py", "qespresso_interface.py"],
  [("conversion factors", "integrate_df_A, transport_coefficients, drude_factor, conductivity_hall_tensor, constants")])
p("P14", "Symmetry groups and representations are genuine, and operations on them keep them so",
  "Every point group, predefined or generated, is closed under multiplication and inverses, lists every element exactly once, contains the elements its name or its generators imply, and keeps that under copy, transpose, dual, change of basis, product, comparison and membership. Every matrix representation, predefined, generated, or made by sum, product, copies, reordering or the orbital constructors, lists one unitary matrix per group element in the order of the group with the products matching, and marks the basis functions even under inversion correctly.",
  ["configurations", "inputs"], "every predefined group and representation with every option; sums, products and reorderings for arbitrary matrices; several generated groups with and without inversion",
  "Tests use a few of the predefined groups; wrong elements, orders or signs in the others, or in the algebra of representations, give plausible but wrong symmetrised models.",
  ["symmetry.py", "unitary_representations.py", "hamiltonian_symmetry.py"],
  [("literal generator and element tables", "Symmetry static constructors"), ("Symmetry operations", "Symmetry.__init__/transform/dual/from_generator/__mul__/__eq__"), ("representation algebra", "UnitaryRepresentation.match_sym/permute/__add__/__mul__/from_generator"), ("orbitals", "HamiltonianSymmetry.append_*")])
p("P15", "Numerical rules are exact for what they are made for: quadrature, Fermi convolutions, cell cuts, thermodynamics of known bands",
  "The tabulated quadrature rules (gauss_5_df, gauss_7_df, gauss_4_f, gauss_6_f) integrate every polynomial up to their degree exactly against their weight function, for every chemical potential and temperature. convolve_df is the exact convolution of the piecewise linear interpolant of the table, continued by the extrapolation that was selected, with the Fermi window. Every smearing method (cubes, cubes+, tetras, spheres) gives, for an energy that is affine in a cell, the exact (or for spheres the documented ball's) part of the cell below the level, its derivative, and samples whose positions lie on the cut and whose gradients and areas are those of the cut. For bands whose states curve is known in closed form, fermi_energy, bandgap, chemical_potential, energy and heat_capacity return the exact values for every spin factor, including empty, full and gapped fillings.",
  ["inputs"], "all polynomials up to the degree of the rule; all cell positions, gradients and levels; all fillings and temperatures",
  "Tests compare a few curves with loose tolerances and do not see a wrong digit, a wrong branch or a rarely used rule.",
  ["density_of_states.py", "smearing.py", "bulk_properties.py"],
  [("gauss_5_df, gauss_7_df, gauss_4_f, gauss_6_f, convolve_df", "density_of_states.py"), ("DensityOfStates.fermi_energy/chemical_potential/energy/heat_capacity", "density_of_states.py"), ("cube_tetra_cut_volume/dvolume, CubesSmearing, TetraSmearing, SphereSmearing", "smearing.py")])
p("P16", "Every public operation can run under every combination of its options",
  "Whatever flags, optional arguments and enumerated choices a public operation is given, and whatever options its object was constructed with, it reaches no statement that has to fail under those options: a read of a variable or attribute nothing has assigned, a call of a library function with arguments its signature does not accept, an unpacking into the wrong number of parts, a constant index outside a tuple, or a use of None as an object. Every name imported from the standard library exists.",
  ["inputs", "configurations"], "all combinations of flags, optional and enumerated arguments of all public operations and constructors, including those no test uses",
  "Most options and several classes are never executed by the tests; Python reports these errors only when the line runs.",
  ["bandstructure.py", "tight_binding_asym.py", "tight_binding.py", "hamiltonian_symmetry.py", "unitary_representations.py", "symmetry.py", "bulk_properties.py", "qespresso_interface.py", "density_of_states.py"],
  [("definitions and uses", "whole package")])
p("P17", "State counts and their densities are exact derivative pairs",
  "For every smearing method, with gradients given or taken from the data, wrapped or not, the density of a cell is the exact derivative of its state count with respect to the energy on every branch; the combined operation returns the same count and density; the count has no jumps, is 0 far below and 1 far above the values of the cell. The totals of DensityOfStates (states_below, density, states_density) average the cells of every band the energy cuts and add one state for every full band. The thermal derivative convolve_ddf is the derivative of convolve_df in every extrapolation mode, and int_poly is an antiderivative of its documented integrand in both ends.",
  ["inputs", "configurations"], "all energies, grid values, gradients, temperatures and branches of every kernel",
  "Tests compare sampled values with coarse tolerances and only in the default branch.",
  ["smearing.py", "density_of_states.py"],
  [("volume/dvolume/volume_dvolume kernels", "smearing.py"), ("convolve_df/convolve_ddf, int_poly", "density_of_states.py"), ("states_below, density, states_density", "density_of_states.py DensityOfStates")])
p("P18", "Fit quality numbers and optimiser convergence match numerical reference",
  "A fit converges to a local optimum of the weighted loss and reports the exact loss.",
  ["inputs"], "all reference data", "Convergence depends on the data.", ["bandstructure.py", "tight_binding_asym.py", "loss.py"],
  [("optimize, optimize_cg", "models")])
p("P19", "Fermi energy, chemical potential and density integrals are accurate",
  "Electron counts, Fermi energies and thermal integrals agree with the exact integral of the bands up to a bound that shrinks with the grid.",
  ["inputs"], "all models and grids", "Tests sample a few models.", ["density_of_states.py", "smearing.py", "bulk_properties.py"],
  [("fermi_energy, chemical_potential, integrate_df", "density_of_states.py, bulk_properties.py")])
p("P20", "A model saved to a file and loaded again has the same bands",
  "Loading a saved model gives a model with the same Hamiltonian (and overlap) at every k-point: the .repr format for every kind of BandStructureModel (plain, exp, cos_reduced, with and without symmetry and inversion), the .json format of models without symmetry in two and three dimensions, and of models with separate positive and negative neighbors. Complex coefficients, their neighbor order and all digits survive, whatever print options are in effect and however many neighbors there are. Reading a wannier90 tb.dat or hr.dat file gives the sum over all its lattice vectors of H(R)/degeneracy e^{2 pi i k R}, however the degeneracies are broken into lines, in whatever order the vectors come and whether or not both R and -R are listed.",
  ["inputs"], "all models and formats", "Tests never load a model file they have written and read no file with degeneracies other than one.", ["json_tb_format.py", "wannier90_tb_format.py", "bandstructure.py", "tight_binding_asym.py"],
  [("save, load", "models")])
p("P21", "Symmetrisation is the group mean, orbits are complete, and data follows its point",
  "UnitaryRepresentation.symmetrize/symmetrizer and HamiltonianSymmetry.symmetrize/symmetrizer return, for every set of matrices, the mean over all operations of the group (with inversion if the group has it) of the transformed matrices: even and odd orbitals, orbital positions, mirrored neighbours and the on-site matrix included; bonds without a complete set of images vanish. They are therefore projections onto the matrices that obey the symmetry, the fast and the reference version agree, and every call of a prepared symmetrizer gives the same. UnitaryRepresentation.symmetrize2 is the mean over the operations that leave the point in place, Symmetry.symmetrize the mean over the group for tensors and pseudo tensors of any rank. HamiltonianSymmetry.apply and realize_symmetric and UnitaryRepresentation.realize_symmetric_matrices transform a matrix to the image of its k-point with the documented law. Symmetry.realize_symmetric, realize_symmetric_data, complete_neighbors and find_classes produce every image of the given points exactly once, sorted, with the index or data of the point it is an image of; equivalent points are listed once with all their sources (or the mean of their data) on request; reduce_symmetric_data keeps exactly one point of each orbit and refuses data that is not symmetric unless checked=False; k_weight and r_class_size are the inverse order of the stabiliser and the size of the orbit; check_neighbors accepts complete lists and rejects incomplete ones.",
  ["inputs", "configurations"], "all matrices, tensors and data; all groups with or without inversion, neighbour lists, orbital positions and k-points",
  "Tests try random matrices on one or two cubic groups; non-commuting elements of order above two, complex matrices, groups without inversion, pseudo tensors and points at cell edges are not covered.",
  ["symmetry.py", "unitary_representations.py", "hamiltonian_symmetry.py"],
  [("UnitaryRepresentation.symmetrize/symmetrizer/symmetrize2/realize_symmetric_matrices", "unitary_representations.py"), ("HamiltonianSymmetry.symmetrize/symmetrizer/apply/realize_symmetric", "hamiltonian_symmetry.py"), ("Symmetry.symmetrize/realize_symmetric(_data)/reduce_symmetric_data/complete_neighbors/k_weight/r_class_size/find_classes/check_neighbors", "symmetry.py")])
p("P22", "Adding, shifting, scaling, transforming and folding models changes the bands exactly as it says",
  "The sum of two models of one kind has at every k the Hamiltonians (and overlaps) of both on the diagonal and nothing in between, and leaves both operands unchanged; a model plus a number has every band shifted by it, at every k and also when orbitals overlap (H + c S); a model times a number has every band scaled. transform(A) gives at k the matrix the model had at A^T k, permute reorders rows and columns of Hamiltonian and overlap alike, copy gives the same matrices. set_params_complex makes the Hamiltonian the Fourier series of the given matrices and params_complex gives them back, for every kind of model (plain, exp, cos_reduced, with or without inversion). limit_neighbors, limit_neighbor_count and cleanup_neighbors keep exactly the neighbors within the length, the nearest ones, or those whose matrix has at least the given (Frobenius) norm (always the on-site one), each with its own matrix, and report how many were removed; add_neighbors leaves the series unchanged and refuses a list with a neighbor that is there already. A supercell model has at every k exactly the bands (of H and S) of the k-points that fold onto k, for every integer supercell of every lattice.",
  ["inputs"], "all coefficients and k; all kinds of models, cells and neighbour lists",
  "Tests build one or two models and compare them at random k; sums, shifts with overlap, transformations and supercells of skewed lattices are not tested.",
  ["bandstructure.py", "tight_binding_asym.py"],
  [("BandStructureModel/AsymTightBindingModel.__add__/__mul__/transform/permute/copy/supercell", "bandstructure.py, tight_binding_asym.py"), ("set_params_complex/params_complex", "bandstructure.py"), ("HermitianFourierSeries.limit_neighbors/limit_neighbor_count/cleanup_neighbors/add_neighbors/__add__/direct_sum", "tight_binding_asym.py")])
p("P23", "Bands, group velocities, effective masses and fit errors follow their definitions",
  "At every k-point without degeneracies, bands and __call__ of every model return the eigenvalues of H v = E S v; bands_grad returns with them their gradients Re v^+ (dH - E dS) v, in the order and shape (N_k, dim, N_b) of the bands, and bands_grad_hess in addition the Hessians of second-order perturbation theory, including the change of the overlap and of the norm of the eigenvectors when orbitals overlap, and real cross terms that are the same in both orders. geigh, geigvalsh, geigh_grad, eigh_grad and eigh_grad_hess do the same for any Hermitian matrices and perturbations. FreeElectrons returns the plane-wave energies in ascending order, cut at limit_count, with the gradient and Hessian that belong to each band. model_error and model_loss are the weighted root mean square over k of the deviation of the bands from the offset on (and the largest deviation of each band), model_windowed_loss the smallest such deviation over all band offsets (or over all assignments if bands may be skipped) counting reference energies in the window only, and model_error_hist the largest deviation in each energy bin for the best offset (or assignment), also when both have the same number of bands.",
  ["inputs"], "all models, k-points, band tables and weights", "Tests compare gradients and Hessians at a few random points for models without overlap; the losses with windows, skipped bands and equal band counts are not tested.",
  ["linalg.py", "bandstructure.py", "tight_binding.py", "tight_binding_asym.py", "loss.py", "bulk_properties.py"],
  [("eigh_grad, eigh_grad_hess, geigh, geigvalsh, geigh_grad", "linalg.py"), ("bands, bands_grad, bands_grad_hess of the three model classes and FreeElectrons", "bandstructure.py, tight_binding.py, tight_binding_asym.py, bulk_properties.py"), ("model_error, model_loss, model_windowed_loss, model_error_hist", "loss.py")])
