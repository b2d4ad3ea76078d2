SOUND = "Sound up to the engine's tables of which numpy/scipy operations view, copy or write; callables passed in by the caller are assumed not to write their inputs or return views of them."
CLAIMED = {
 "P01": ("static analysis: whole-package abstract interpretation (storage aliasing and write effects)", SOUND),
 "P02": ("static analysis: whole-package abstract interpretation (storage sharing between results and arguments, checked against the in-place write effects of all public operations)", SOUND),
 "P03": ("static analysis: frame conditions from write-effect summaries, plus explicit-flow taint from query arguments to memo fields", SOUND),
 "P04": ("static analysis: typestate of process-wide settings and module-level tables over all normal and exceptional exits (abstract interpretation)", "Sound up to the engine's tables of library calls that change settings; every statement inside the saved region is assumed able to raise."),
 "P16": ("static analysis: definite-assignment, attribute, arity, unpacking and None-use analysis by abstract interpretation of every operation under each option combination", "Reports only constructs that fail on every abstract path of a configuration, loops assumed to run at least once; failures that need particular array contents are not decided."),
 "P11": ("static analysis: string-template taint analysis of every command handed to a shell (abstract interpretation, shell quoting state, whitelist patterns decided from their parse tree)", "Text is raw unless it is a literal, a number, shlex-quoted or checked by a whole-string whitelist; sinks are os.system/os.popen/subprocess with a shell."),
 "P17": ("static analysis: algebraic value numbering (abstract interpretation in a domain of piecewise rational-exponential normal forms; the derivative is taken on the normal form)", "Real arithmetic; points where a case distinction switches are ignored for the derivative; round-off guards (minimum(1, .)) are compared where they do not act. A pair of forms that is neither matched nor separated by a point stays undecided and is counted in the evidence."),
}
TEN = "static analysis: algebraic value numbering of small symbolic tensors (abstract interpretation, arrays as views on buffers of normal forms; "
REAL = "Real arithmetic. Free symbolic k points, neighbours and coefficient matrices at fixed small sizes (two k points, two dimensions, two bands, three neighbours, two symmetry elements). Obligations that are neither proven nor refuted by a differing point stay undecided and are counted in the evidence."
CLAIMED.update({
 "P05": (TEN + "conjugation acts on the normal form)", REAL),
 "P06": (TEN + "derivatives are taken on the normal form)", REAL),
 "P07": (TEN + "the linear map applied to each coefficient matrix is read off the normal forms)", REAL + " numpy.linalg.eigh returns a free unitary matrix."),
})
CLAIMED["P14"] = ("abstract interpretation: constant propagation through tables, constructors and decided loops (closed numbers folded to rationals, 17 digits), symbolic matrices for the algebra of representations, compared with the group axioms and the homomorphism property; nothing is executed",
    "Constants are compared with a tolerance of 1e-7; groups depending on an integer are analysed for 1, 2, 3, 4, 6. Obligations the analysis cannot follow are reported as undecided.")
CLAIMED["P15"] = ("abstract interpretation: constant propagation of the tables, cuts and rules (numbers folded with 17 digits; mu, beta and sampled values stay symbolic where the result is a polynomial in them), compared with closed forms of the exact integrals; nothing is executed",
    "Cells, levels, fillings and temperatures are representatives; the quadrature rules and convolutions are decided for every mu, beta and table value. Bands enter as a stub smearing object with a known states curve.")
CLAIMED["P21"] = ("abstract interpretation: the symmetrisers and orbit functions evaluated with concrete group elements and positions and symbolic matrices (normal forms), compared with the group mean, the transformation law and the orbits derived from the group elements; nothing is executed",
    "Groups (O, O_h, V4, C4, D3, C6 in lattice coordinates, S4, cyclic permutations), positions, neighbour lists and k-points are representatives; the matrices, tensors and data are arbitrary. Stabilisers and orbits are decided for the listed points only.")
CLAIMED["P08"] = ("abstract interpretation path by path: each fit is followed on models with symbolic coefficients for every outcome of its convergence tests and with an interruption before every statement of its guarded block; the state at each exit (coefficients, log entries as normal forms) is compared with the last normalisation and the error of those coefficients; nothing is executed",
    "Two bands, three neighbours, two to four k-points, at most two steps; linear algebra is opaque (equal arguments, equal results), normalisation gives fresh coefficients. An interruption inside a called library function counts as one before or after the statement.")
CLAIMED["P09"] = ("abstract interpretation path by path: each fit is followed on models with symbolic coefficients under each combination of options, the coefficients after every step are compared as normal forms with the constraint (zero entries, symmetriser as a linear projection, fixed parts); refused requests are followed to their exception; nothing is executed",
    "Two bands, three neighbours, two to four k-points, two steps; the symmetriser is one fixed linear projection; the start of the steps (after the first normalisation) is the reference.")
FILES = "abstract interpretation: the writers and readers are evaluated on a modelled disk (an open is recorded, texts carry markers for symbolic values, JSON is a tree), "
FBOUND = "Two orbitals, three neighbours, two and three dimensions, no symmetry or a two-fold rotation; coefficients and k are free symbols. repr and json of a float are taken to give the float back; entries the writer may drop as negligible are not."
CLAIMED["P10"] = (FILES + "and every request (file name, format, model) is compared with what the documentation accepts: what is opened, written, or raised; nothing is executed", FBOUND)
CLAIMED["P20"] = (FILES + "the Hamiltonian of the loaded model is compared as a normal form with that of the saved one, or with the Fourier sum the file describes; nothing is executed", FBOUND)
CLAIMED["P22"] = ("abstract interpretation: the operation is evaluated on models with symbolic coefficients; Hamiltonian and overlap of the result at a symbolic k (normal form) are compared with the matrices the operation stands for, supercells by the traces of the first powers; nothing is executed",
    "Two orbitals, two dimensions (three for coefficients), three to five neighbours; trimming by length with representative numbers; five pairs of cells of twice the volume.")
CLAIMED["P23"] = ("abstract interpretation: the decomposition is opaque (equal matrices have equal eigenvalues and vectors), the returned bands, gradients and Hessians are compared as normal forms with the formulas of perturbation theory, fit errors with their definition on tables of rational numbers; nothing is executed",
    "Two or three bands, one or two variables, no degenerate bands; a guard of 1e-40 in a denominator counts as zero. Windowed errors and histograms on representative tables of 3 k-points.")
NOT_APPLICABLE = {
 "P18": "quantifies over run-time values (convergence of an iterative optimiser, value of the loss): no static argument in reach bounds it; the structural clauses (normalised, logged, constrained) are P08 and P09",
 "P19": "numerical accuracy of integrals against exact values: depends on run-time quantities and grid convergence",
}
