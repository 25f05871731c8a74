import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/magnopy/"
p("P01","Exchange matrix decomposes exactly and every part can be set independently",
 "For every 3x3 matrix held by a MatrixParameter, iso, aniso, dmi (and the *_matrix, symm/asymm, dmi_module, rel_dmi, xx..zz views) are the documented trace, traceless-symmetric and antisymmetric parts and sum back to the matrix. After any sequence of assignments to matrix, iso, aniso (traceless symmetric), dmi or single components, the assigned part has the assigned value and all other parts are unchanged, and the constructor lets iso/aniso/dmi overwrite the corresponding part of matrix. Given arrays are copied, and a value of a wrong shape is refused leaving the parameter unchanged.",
 ["inputs","histories"],"all finite 3x3 matrices and all sequences of part assignments on one parameter",
 "The unit tests set one part once and look only at that part; independence of the other parts after arbitrary sequences of assignments, over all matrices, is not sampled.",
 [S+"spinham/parameter.py"],[("MatrixParameter part getters and setters",S+"spinham/parameter.py: MatrixParameter.iso/aniso/dmi/matrix/xx..zz"),("constructor overwrite order",S+"spinham/parameter.py: MatrixParameter.__init__")])
p("P02","MatrixParameter arithmetic acts as the 3x3 matrix and never aliases operands",
 "Every arithmetic operator of MatrixParameter (+, -, *, /, //, %, @ on either side, unary +, -, abs, ==, .T, numpy functions) gives exactly the result of the same numpy operation on the matrix, for all operands. The operands are left unchanged and the result shares no state with them, so modifying one later never changes the other.",
 ["inputs","histories"],"all pairs of finite matrices, scalars and vectors and later modifications of operands or results",
 "Tests check single hand-picked operands and do not look for shared state between operand and result.",
 [S+"spinham/parameter.py"],[("operator overloads",S+"spinham/parameter.py: MatrixParameter.__add__ .. __eq__"),("array interface",S+"spinham/parameter.py: MatrixParameter.__array_interface__")])
p("P03","Changing the notation never changes the physical Hamiltonian",
 "For every spin Hamiltonian with a defined notation, any sequence of changes of double_counting, spin_normalized, exchange_factor, on_site_factor or notation (predefined name, 3-tuple or 4-tuple) leaves the classical energy of every spin configuration unchanged, i.e. every bond and on-site parameter is rescaled exactly as the notation formula demands, also when several bonds were given the same MatrixParameter object. With double counting each bond (i,j,R) is accompanied by (j,i,-R) with the transposed matrix, without double counting each pair is kept exactly once (the documented canonical member), and returning to the original notation restores the original parameters.",
 ["inputs","histories","configurations"],"all Hamiltonians (atoms, spins, bonds incl. anti-canonical ones, full 3x3 matrices, on-site terms) and all notation histories",
 "The tests convert a few isotropic symmetric models between fixed notations; conservation must hold for arbitrary matrices, bond sets and histories.",
 [S+"spinham/hamiltonian.py"],[("notation setters",S+"spinham/hamiltonian.py: SpinHamiltonian.notation/double_counting/spin_normalized/exchange_factor/on_site_factor"),("mirror bond handling",S+"spinham/hamiltonian.py: _ensure_double_counting, _ensure_no_double_counting"),("predefined notations",S+"spinham/hamiltonian.py: PREDEFINED_NOTATIONS")])
p("P04","Notation is unset until defined and its first definition keeps the parameters",
 "Reading any notation property that was never defined raises NotationError, and defining it for the first time (by attribute, tuple or case-insensitive predefined name, in the constructor or later, before or after adding parameters) keeps all parameter values as given, only completing or removing mirrored bonds as double counting requires. The notation read back equals the one set: predefined names give the documented tuples, a 3-tuple gives equal factors, and anything else raises ValueError leaving the parameters unchanged. As long as a property needed by the present parameters is undefined, Energy, MagnonDispersion, text and Vampire files are refused with NotationError.",
 ["inputs","histories"],"all partial definitions of the notation, orders of definition and accepted or rejected notation values",
 "Tests cover a few orders of definition on one model with isotropic parameters.",
 [S+"spinham/hamiltonian.py",S+"exceptions.py"],[("NotationError guards",S+"spinham/hamiltonian.py: double_counting/spin_normalized/exchange_factor/on_site_factor getters"),("notation parsing",S+"spinham/hamiltonian.py: notation.setter")])
p("P05","The Hamiltonian stores exactly the parameters put into it, over any history",
 "After any sequence of add/remove/set/get/delete operations on bonds, on-site terms and atoms (by Atom object or by name), membership tests, item access, iteration over exchange, on_site and exchange_like, their lengths, magnetic_atoms and I agree with a dictionary model of the history. Under double counting a bond and its mirror are always added, rewritten and removed together with transposed matrices; removing an atom removes exactly its parameters; removing something absent raises KeyError (or is ignored when asked) without changing anything; exchange_like presents on-site terms so that they contribute the same energy with the exchange factor.",
 ["histories"],"all histories of container operations under undefined, double-counted and non-double-counted notation",
 "Tests exercise short fixed sequences, mostly without a notation, and never compare the whole state to a model.",
 [S+"spinham/hamiltonian.py"],[("container operations",S+"spinham/hamiltonian.py: add_exchange, remove_exchange, add_on_site, remove_on_site, remove_atom, __contains__, __getitem__, __setitem__, __delitem__"),("iterators",S+"spinham/hamiltonian.py: _SpinHamiltonian*Iterator"),("magnetic atoms",S+"spinham/hamiltonian.py: magnetic_atoms, I")])
p("P06","Filters keep exactly the matching parameters and copies are independent",
 "filter(max_distance, min_distance, custom_filter) keeps precisely the bonds and on-site terms that satisfy all given conditions (distance <= max, >= min, filter true; on-site distance is zero) with unchanged values, and filtered returns the same result as a new object leaving the original untouched. Objects obtained from copy, filtered or crystal are independent: no later modification of either side changes the other.",
 ["inputs","histories"],"all Hamiltonians, distance windows, predicates and later modifications",
 "Tests filter one small model with a few thresholds and do not check independence of the copies.",
 [S+"spinham/hamiltonian.py"],[("filtering",S+"spinham/hamiltonian.py: filter, filtered"),("copy and crystal",S+"spinham/hamiltonian.py: copy, crystal")])
p("P07","Ferromagnetic energy equals the Hamiltonian evaluated on the spin vectors",
 "For every spin Hamiltonian in every notation and all spin directions, Energy.ferro equals the sum of the bond, on-site and Zeeman terms of the documented Hamiltonian (exchange factor, on-site factor, double counting and spin normalization respected; Zeeman term mu_B * sum g_i S_i h.e_i in meV and Tesla) evaluated on vectors of length S_i along the given directions. Only directions of the input matter, I=1 accepts a bare 3-vector, the arguments are not modified, and the Energy object is independent of later changes of the Hamiltonian. Energy.spins and Energy.g_factors list those of the magnetic atoms in their order and assigning them changes the energies accordingly.",
 ["inputs","configurations"],"all Hamiltonians, notations, magnetic fields and spin directions of any length",
 "There are no energy tests; the value must be right for every combination of notation, spins, g-factors and matrices.",
 [S+"spinham/energy.py",S+"units/inside.py",S+"units/si.py"],[("energy construction",S+"spinham/energy.py: Energy.__init__"),("ferro energy",S+"spinham/energy.py: Energy.ferro"),("on-site scaling",S+"spinham/hamiltonian.py: exchange_like")])
p("P08","Antiferro and spiral energies equal the lattice average of the rotated spins",
 "For every Hamiltonian, cone axis n, spiral vector q and spins of the central cell, Energy.spiral (generic q) and Energy.antiferro (2q a reciprocal lattice vector, q not one) equal the energy per cell of the infinite lattice whose spins in cell R are those of the central cell rotated about n by q.R, including the Zeeman term, which only sees the projection on n. In particular they agree with a brute-force average over a commensurate supercell.",
 ["inputs","configurations"],"all Hamiltonians, axes, commensurate and generic spiral vectors, fields and spin directions",
 "There are no tests of these energies; the formulas involve harmonics that only coincide with the real energy when every term is right.",
 [S+"spinham/energy.py"],[("antiferro energy",S+"spinham/energy.py: Energy.antiferro"),("spiral energy",S+"spinham/energy.py: Energy.spiral")])
p("P09","Energy minimization returns a valid state that is never worse than the start",
 "For every Hamiltonian, field and initial guess, Energy.optimize returns unit spin vectors (and unit cone axis; for antiferro the given q) whose energy is not above that of the initial guess, does not modify the guess, respects max_iterations, and on normal convergence leaves the torques on spins (and on the cone axis) within tolerance. The written history (printed, or in a new file, or in place of an already existing one) starts at the initial state, ends at the returned state, lists their true energies and its energies never increase.",
 ["inputs","histories"],"all small Hamiltonians, fields, initial guesses, tolerances, iteration limits and history steps",
 "There are no tests of the optimizer; monotonicity and validity must hold on every trajectory.",
 [S+"spinham/energy.py"],[("optimizer",S+"spinham/energy.py: Energy.optimize, line search and L-BFGS direction"),("history output",S+"spinham/energy.py: history processors")])
p("P10","Colpa diagonalization is a true Bogoliubov transformation",
 "For every Hermitian positive-definite 2N x 2N matrix D, solve_via_colpa returns E > 0 and G with E = (G^+)^-1 D G^-1 diagonal, G g G^+ = g (bosonic commutation preserved), first N values descending, last N ascending, equal to the moduli of the eigenvalues of gD, also for degenerate spectra and real input. For matrices that are not positive definite it raises ColpaFailed, and D itself is not modified.",
 ["inputs"],"all Hermitian positive-definite matrices of any size incl. degenerate and block ones, and indefinite matrices",
 "There are no tests; correctness for degenerate or nearly degenerate spectra cannot be settled by examples.",
 [S+"magnons/diagonalization.py",S+"exceptions.py"],[("Colpa algorithm",S+"magnons/diagonalization.py: solve_via_colpa")])
p("P11","Magnon energies equal those of linear spin-wave theory for the Hamiltonian",
 "For every Hamiltonian and spin arrangement for which the quadratic boson form is positive definite, MagnonDispersion.omega(k) equals the magnon energies of linear spin-wave theory (linearized spin precession) of the physical Hamiltonian in any notation; h(k) is Hermitian, spectra are real, N-fold, descending, periodic in reciprocal lattice vectors, and omegas/call agree point by point with omega. Where the form is negative definite the energies are the negatives of those of the reversed form (ordered by modulus), at gapless points they vanish within the documented regularization, and where no solution exists zeros or NaN are returned as requested.",
 ["inputs","configurations"],"all Hamiltonians, notations, spin arrangements and wave vectors",
 "There are no tests; the textbook formula must hold at every k for every matrix, spin length and direction.",
 [S+"magnons/dispersion.py",S+"magnons/diagonalization.py"],[("boson matrices",S+"magnons/dispersion.py: MagnonDispersion.J/A/B/C/h"),("local frames",S+"magnons/dispersion.py: span_orthonormal_set"),("spectrum",S+"magnons/dispersion.py: MagnonDispersion.omega/omegas")])
p("P12","Energies and magnon spectra respect the symmetries of the physics",
 "Classical energies (ferro, antiferro, spiral) and magnon spectra are unchanged when all spins, matrices, field and cone axis are rotated together, when atoms are listed in another order or the unit-cell origin of an atom is shifted by lattice vectors (with bonds relabelled accordingly), and when bonds are given from their other end with the transposed matrix. Scaling all parameters scales energies and spectra by the same factor, and reversing all spins without field leaves the energy unchanged. Rotating or scaling the lattice, renaming atoms, moving the origin and standardize() (at the same absolute wave vectors) do not change them either.",
 ["inputs","configurations"],"all Hamiltonians, rotations, atom permutations, origin shifts and bond orientations",
 "Metamorphic relations over all models; no finite list of expected values covers them.",
 [S+"spinham/energy.py",S+"magnons/dispersion.py",S+"spinham/hamiltonian.py"],[("energy sums",S+"spinham/energy.py: Energy.ferro/antiferro/spiral"),("magnon matrices",S+"magnons/dispersion.py: MagnonDispersion")])
p("P13","A Hamiltonian written as text is read back as the same Hamiltonian",
 "For every Hamiltonian with uniquely named atoms, load_spinham_txt(dump_spinham_txt(H)) reproduces cell, atoms (order, names, positions, spins, g-factors, charges; an undefined charge is read as zero), notation, all bonds and (symmetric) on-site parameters, cone axis and spiral vector within the printed precision, for every choice of the write_* options that together determine the matrix (including spin angles). Writing to a file, printing and returning lines give the same text, and dumping the reloaded model gives the same file again up to the order of bonds (when the matrix alone or all three parts are written).",
 ["inputs","configurations"],"all Hamiltonians and all combinations of output options",
 "The io tests need absent example files; no test performs a round trip.",
 [S+"io/txt/internal.py",S+"geometry.py"],[("text writer",S+"io/txt/internal.py: dump_spinham_txt"),("text reader",S+"io/txt/internal.py: load_spinham_txt"),("angles",S+"geometry.py: vector_to_angles")])
p("P14","A Hamiltonian stored in HDF5 is read back exactly, among any other groups",
 "For every Hamiltonian with uniquely named atoms, load_spinham_hdf5 after dump_spinham_hdf5 reproduces cell, atoms in order with spins, g-factors and charges, notation, bonds, on-site terms, cone axis and spiral vector to full floating-point precision, for any number of atoms and bonds. Over any history of dumps into several groups of one file each group holds the model last written to it, existing groups are refused without overwrite and then left intact, replaced with it, and a load without group name succeeds exactly when one Hamiltonian is present.",
 ["inputs","histories"],"all Hamiltonians and all histories of dumps with or without overwrite into named groups",
 "The io tests need absent example files; ordering with ten or more atoms and store histories are never sampled.",
 [S+"io/hdf5/internal.py"],[("HDF5 writer",S+"io/hdf5/internal.py: dump_spinham_hdf5"),("HDF5 reader",S+"io/hdf5/internal.py: load_spinham_hdf5")])
p("P15","Text model files mean what the format specification says",
 "For every valid text model file, load_spinham_txt yields the Hamiltonian defined by the specification: length, energy and coordinate units, scale (one, three or negative numbers), column order and spin forms with their priority, notation keywords and truth values, isotropic/DMI/matrix/symmetric-anisotropy blocks with their overwrite priority, on-site values, cone axis (vectors or angles) and spiral vector in relative or absolute units (inverse to the length units of the cell). Comments, blank lines, extra spaces, keyword case, section order, separator length and ignored columns do not change the result.",
 ["inputs"],"all valid model files: every unit, option, block combination, formatting and ordering",
 "Specification branches combine multiplicatively; tests of the reader depend on absent files.",
 [S+"io/txt/internal.py",S+"io/txt/verify.py"],[("section readers",S+"io/txt/internal.py: load_spinham_txt and section readers"),("filtering and verification",S+"io/txt/verify.py: model file verification")])
p("P16","Malformed text model files are rejected with the verification error",
 "For every text file, load_spinham_txt either returns a Hamiltonian or raises FailedToVerifyTxtModelFile, never another exception and never a silently incomplete model. Removing or corrupting any required element of a valid file (sections, lines, counts, numbers, atom names, units, notation fields) raises FailedToVerifyTxtModelFile.",
 ["inputs","fault_sequences"],"all single and multiple corruptions of valid files and arbitrary texts built from format tokens",
 "The space of malformed files is unbounded; tests of the verifier depend on absent files.",
 [S+"io/txt/verify.py",S+"io/txt/internal.py",S+"exceptions.py"],[("verification",S+"io/txt/verify.py: model file verification"),("verification error",S+"exceptions.py: FailedToVerifyTxtModelFile")])
p("P17","TB2J results are loaded faithfully",
 "For every TB2J exchange file, load_tb2j gives a Hamiltonian in TB2J notation with the file's cell, atoms (names, absolute positions converted to relative, charges and magnetic moments where present) and for every bond the matrix iso + anisotropic + DMI parts present in the file, mirrored for double counting. The same file converted by magnopy-convert-tb2j to txt or hdf5 loads as the same Hamiltonian.",
 ["inputs"],"all TB2J files: any cell, atoms with or without charges and moments, bonds with any subset of J_iso, J_ani and DMI, mirrored or not",
 "There is no TB2J test in the suite.",
 [S+"io/txt/tb2j.py",S+"score/convert_tb2j.py"],[("TB2J parser",S+"io/txt/tb2j.py: load_tb2j"),("conversion script",S+"score/convert_tb2j.py: manager")])
p("P18","Vampire files describe the same Hamiltonian",
 "For every Hamiltonian in any notation, the UCF text from dump_ucf contains the cell, the magnetic atoms with positions and materials, and one tensorial interaction per bond and on-site term, in Joule and Vampire notation (double counting, normalized spins, factor -1/2), such that the Vampire energy equals the energy of the Hamiltonian; dmi=False, anisotropic=False and custom_mask remove exactly the requested part of all tensors, on-site ones included. dump_mat and dump_vampire write a consistent material section per material with the spin length and direction of the atoms.",
 ["inputs","configurations"],"all Hamiltonians, notations, material assignments and output options",
 "There is no test of the Vampire output.",
 [S+"io/txt/vampire.py"],[("UCF writer",S+"io/txt/vampire.py: dump_ucf"),("material writer",S+"io/txt/vampire.py: dump_mat, dump_vampire")])
p("P19","Computing or writing results never changes the Hamiltonian",
 "Creating Energy or MagnonDispersion objects, evaluating or optimizing energies and spectra, dumping to txt, hdf5 or Vampire formats, copying, filtering with filtered and reading any property leave the Hamiltonian given to them observably unchanged: same notation, same bonds in the same representation with the same values, same atoms. A failing call also leaves it unchanged.",
 ["inputs","histories"],"all Hamiltonians (any notation, canonical or not) and all sequences of read-only uses",
 "Side effects show up only as state differences after specific combinations of notation and calls.",
 [S+"spinham/energy.py",S+"magnons/dispersion.py",S+"io/txt/vampire.py",S+"io/txt/internal.py",S+"io/hdf5/internal.py"],[("Energy construction",S+"spinham/energy.py: Energy.__init__"),("dispersion construction",S+"magnons/dispersion.py: MagnonDispersion.__init__"),("writers",S+"io/txt/vampire.py: dump_ucf; "+S+"io/txt/internal.py: dump_spinham_txt; "+S+"io/hdf5/internal.py: dump_spinham_hdf5")])
p("P20","HDF5 model files follow the specification and are interchangeable with text",
 "For every HDF5 model file written by the specification (any length and energy unit in any case, relative or absolute cone axis and spiral vector, optional charge, notation and parameter groups), load_spinham_hdf5 yields the specified Hamiltonian, equal to what the equivalent text file gives; files with missing parts, unknown atoms or unknown units are refused. load_spinham dispatches by explicit format or by extension (.hdf5, exchange.out, otherwise txt) to the same result, passes the options of the loader on and rejects unknown formats.",
 ["inputs"],"all specification-conforming HDF5 files and their text equivalents, all file names and formats",
 "The tests for the HDF5 reader depend on absent files; unit and option combinations are not sampled.",
 [S+"io/hdf5/internal.py",S+"io/__init__.py"],[("HDF5 reader",S+"io/hdf5/internal.py: load_spinham_hdf5"),("format dispatch",S+"io/__init__.py: load_spinham")])
p("P21","Command-line scripts report what the library computes",
 "For every valid model file, magnopy-minimize-energy writes a results file whose reported spin directions, cone axis, spiral vector and summary energies belong together under the library's energy functions for each requested ground-state type, with histories written to the announced files. magnopy-magnon-dispersion writes, for every k point of the path, the energies MagnonDispersion gives for the loaded Hamiltonian.",
 ["inputs","configurations"],"all small model files, formats, ground-state selections, fields, k paths and output options",
 "The scripts have no tests.",
 [S+"score/minimize_energy.py",S+"score/magnon_dispersion.py"],[("minimization script",S+"score/minimize_energy.py: manager"),("dispersion script",S+"score/magnon_dispersion.py: manager")])
p("P22","The physics survives any mix of editing, notations, copies, filters and files",
 "After any interleaving of adding, rewriting and removing parameters and atoms, changing spins and positions of atoms or the cell, changing the notation in any way, filtering, replacing the object by its copy, deepcopy, pickle or filtered version, and storing to HDF5 and loading back, the spin Hamiltonian describes exactly the physical Hamiltonian that results from the same edits applied to notation-free interaction tensors: ferro and spiral energies agree, the parameters agree after translation into the current notation, and magnetic_atoms are the atoms with parameters sorted by index (equal indices in the order of the crystal). A parameter that is not edited never changes its physical value.",
 ["histories","configurations"],"all interleavings of edits, notation changes, copies, filters and storage of one Hamiltonian",
 "Each operation is right alone in the tests; states left behind by one operation (cached names, mirror bonds, stale scale factors) matter only to a later one.",
 [S+"spinham/hamiltonian.py",S+"io/hdf5/internal.py",S+"spinham/energy.py"],[("notation and container state",S+"spinham/hamiltonian.py: SpinHamiltonian"),("storage",S+"io/hdf5/internal.py: dump_spinham_hdf5, load_spinham_hdf5"),("energies",S+"spinham/energy.py: Energy.ferro, Energy.spiral")])
p("P23","Published parts of the magnon Hamiltonian follow the documented formulas",
 "For every Hamiltonian, MagnonDispersion.S lists the spin vectors of the magnetic atoms in their order, v are their directions and u = e1 + i e2 completes them to right-handed orthonormal sets (e1, e2, v); J(k) is the Fourier transform sum over d of J(d) exp(-i k d), with d the full vector between the atoms and on-site terms included; A_ij(k) = sqrt(S_i S_j)/2 u_i J(-k) u_j^*, B_ij(k) = sqrt(S_i S_j)/2 u_i J(-k) u_j, C is diagonal with sum_l S_l v_i J_il(0) v_l, and h(k) = 2 [[A(k) - C, B(k)], [B^+(k), A^*(-k) - C]], which is Hermitian and has the same eigenvalues at equivalent k points. Calling order and the type of k do not matter, and omega with return_G gives all 2N values with the 2N x 2N matrix.",
 ["inputs","configurations"],"all Hamiltonians, notations, spin arrangements and wave vectors (arrays, lists, tuples)",
 "There are no tests of the magnon part; users build on these matrices (form factors, eigenvectors) and not only on energies.",
 [S+"magnons/dispersion.py"],[("boson matrices",S+"magnons/dispersion.py: MagnonDispersion.J, A, B, C, h"),("local frames",S+"magnons/dispersion.py: MagnonDispersion.u, v, S")])
p("P24","Results are reproducible in any process and independent of earlier calls",
 "For every model and sequence of edits, the order of atoms, magnetic atoms and parameters, the energies, magnon spectra, optimised states, written text, Vampire files and models read back are the same in every process, whatever its hash seed and whatever other models were treated before (numbers up to rounding). On one Energy or MagnonDispersion object every call gives the result that a new object with the same settings gives, no matter which evaluations, optimisations and settings preceded it or what was done with other objects in between, and later calls never change results returned earlier. A Hamiltonian that was edited, with any requests in between, answers every request as a new Hamiltonian with the same content. No call changes the settings of the process (handling of floating-point errors, print options, working directory, environment, warnings, locale, standard streams), seeds its random generators or leaves its files open.",
 ["histories","configurations"],"all models, sequences of edits, hash seeds of processes and orders of calls on shared or separate objects",
 "The tests run every function once in one process; dependence on set order, on leftovers in objects and modules or on shared arrays is invisible to them.",
 [S+"spinham/hamiltonian.py",S+"spinham/energy.py",S+"magnons/dispersion.py",S+"io/txt/internal.py",S+"io/hdf5/internal.py",S+"io/txt/vampire.py"],[("order of atoms and parameters",S+"spinham/hamiltonian.py: magnetic_atoms, exchange, on_site, exchange_like"),("state kept between calls",S+"spinham/energy.py: Energy.optimize; "+S+"magnons/dispersion.py: MagnonDispersion")])
p("P25","Settings keep the last accepted value and unusable arguments are refused",
 "After any sequence of assignments, SpinHamiltonian.cone_axis (normalised) and spiral_vector and the settings of Energy (magnetic_field, spins, g_factors, m, wolfe_c1, wolfe_c2) hold a copy of the last accepted value, each independent of the others, and energies follow them. Values that can not be such a setting (not numbers, not array-like, wrong shape or length, zero cone axis) raise ValueError and change nothing. Energy.ferro, antiferro, spiral and optimize refuse spin directions, cone axes, spiral vectors, cases, tolerances and initial guesses of wrong form or length with ValueError, and the object stays usable.",
 ["inputs","histories"],"all sequences of good and bad settings and all malformed arguments",
 "Tests set a property once with a good value; what a refused value leaves behind, and aliasing of the arrays given, is not looked at.",
 [S+"spinham/energy.py",S+"spinham/hamiltonian.py"],[("vectors of the ground state",S+"spinham/hamiltonian.py: cone_axis, spiral_vector setters"),("settings of Energy",S+"spinham/energy.py: magnetic_field, spins, g_factors, m, wolfe_c1, wolfe_c2"),("validation",S+"spinham/energy.py: _starting_ferro, _starting_antiferro, _starting_spiral, Energy.optimize")])
p("P26","A refused operation leaves objects and files as they were",
 "Whenever an operation on a SpinHamiltonian or MatrixParameter raises (cell index or matrix of a wrong form, unknown atoms, wrong keys, absent parameters, unusable notations, factors or vectors, a filter that raises, energies or files wanted before the notation is defined), the object is exactly what it was, and everything done later has the same result as if the refused operation had never been tried. A dump that is refused (txt, HDF5 with or without overwrite, Vampire files), a file that can not be loaded and an optimization refused for its arguments leave every file as it was and create none, while an accepted dump changes only the file (in HDF5: the group) it was asked to write.",
 ["histories","fault_sequences"],"all sequences of accepted and refused operations, all incomplete Hamiltonians and all existing files",
 "Tests check that an exception is raised; what is left behind in half-changed objects and half-written files they do not see.",
 [S+"spinham/hamiltonian.py",S+"spinham/parameter.py",S+"io/hdf5/internal.py",S+"io/txt/internal.py",S+"io/txt/vampire.py"],[("editing of the Hamiltonian",S+"spinham/hamiltonian.py: add_exchange, add_on_site, remove_*, notation setters, filter"),("writing of files",S+"io/hdf5/internal.py: dump_spinham_hdf5; "+S+"io/txt/internal.py: dump_spinham_txt; "+S+"io/txt/vampire.py")])
p("P27","Energies and magnon spectra do not depend on the chosen unit cell",
 "Describing the same crystal with another unit cell (a supercell, skewed, permuted or inverted basis, atoms represented in any cell, parameters in any notation) leaves ferro, antiferro and spiral energies per original cell unchanged (the spins of a copied atom being rotated about the cone axis by q.R), and the magnon spectrum at k is the union of the original spectra at all folded wave vectors. A commensurate spiral (three cells or more, or the alternating state with two) has the energy of the large ferro cell that holds all its spins.",
 ["inputs","configurations"],"all Hamiltonians, unit cells, spin states, wave vectors, fields and notations",
 "There are no such tests; conventions of phases, cell indices and atom order can be wrong together in a way that hand-made examples with one cell do not show.",
 [S+"spinham/energy.py",S+"magnons/dispersion.py",S+"spinham/hamiltonian.py"],[("phases of spirals",S+"spinham/energy.py: Energy.spiral, Energy.antiferro"),("phases of magnons",S+"magnons/dispersion.py: MagnonDispersion.J, A, B, C")])
p("P28","Printed parameters and banners show exactly what they are given",
 "Printing a MatrixParameter with str, with or without a format specification (precision, with any sign, alignment, width and type) shows three aligned rows with all nine numbers in this format, repr evaluates back to an equal parameter (within the printed digits), and printing changes nothing. The banner made by logo shows every given line of information (of the documented length) once and in the given order, or else version, documentation link and release date, all its lines having the same length, not shorter than asked, each starting with the requested comment (if any). The magnopy command prints the requested banner, license, version or help and refuses unknown arguments.",
 ["inputs","configurations"],"all matrices, format specifications, lists of information and options",
 "Tests print nothing; lost, rotated or glued lines and columns are seen by users only.",
 [S+"spinham/parameter.py",S+"_pinfo.py",S+"__main__.py"],[("printing of parameters",S+"spinham/parameter.py: MatrixParameter.__format__, __str__, __repr__"),("banner",S+"_pinfo.py: logo"),("command line",S+"__main__.py: main")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
