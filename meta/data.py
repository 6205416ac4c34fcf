"""what each property says; gen.py turns this and the harness registry into the committed metadata"""
P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs", "configurations"), observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=list(files), mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))


Q = "openms/qmc/"
prop("P01", "Population control preserves and does not bias the walker population",
     "Every available resampling method returns a population of the same size whose members are exact copies of previous walkers "
     "(orbitals, bosonic amplitudes and bookkeeping kept together), keeps the total weight as documented, and in expectation over its "
     "random draws gives every walker the weight it had. Walkers assigned to parallel ranks are split without loss.",
     "all positive weights, all random draws, all walker contents, every resampling method, any rank count",
     "tests run one seed of one method and compare an energy; they never vary the draws or inspect which walker data moves with which weight",
     [Q + "population_control.py", Q + "generic_walkers.py"],
     [("resampling methods", Q + "population_control.py"), ("pack / unpack walkers", Q + "generic_walkers.py"),
      ("periodic weight control", Q + "generic_walkers.py")],
     over=("inputs", "schedules"), observe=["walker object after a weight-control step"])
prop("P02", "Walker overlaps and Green's functions are those of the two determinants",
     "For any trial and walker the overlap is the determinant product over spin channels (squared where one channel stands for both) times "
     "the bosonic overlap, and the Green's function equals the ratio of matrix elements of the two determinants. "
     "Both are invariant under orbital mixing in the way determinants are, and are computed walker by walker.",
     "all complex walkers, trials and bosonic amplitudes with non-zero overlap; one and two spin components; unequal spin populations",
     "tests compare end energies of a few molecules; a wrong transpose, conjugate or spin factor that vanishes for real symmetric data passes",
     [Q + "trial.py", Q + "estimators.py"], [("overlap and Green's function", Q + "trial.py"), ("Green's function helpers", Q + "estimators.py")],
     observe=["overlap and Green's function returned for a walker batch"])
prop("P03", "Electronic local energy is the mixed estimator of the Hamiltonian",
     "For every walker the one-body, Coulomb and exchange energies, from half-rotated or full integrals and from compiled or plain kernels, equal "
     "the mixed matrix element of the second-quantised Hamiltonian divided by the overlap.",
     "all walkers, trials and symmetric integrals; restricted and unrestricted layouts; batches of walkers",
     "tests check total energies of small closed-shell molecules only; they do not exercise open-shell, complex or multi-walker combinations term by term",
     [Q + "trial.py", Q + "estimators.py"], [("local energy kernels", Q + "estimators.py"), ("half rotation", Q + "trial.py")],
     observe=["local energies of a walker batch"])
prop("P04", "Bosonic and electron-boson energies treat every mode's own Fock space",
     "The bosonic energy is the frequency-weighted occupation summed over modes and the electron-boson energy is the coupling expectation times the "
     "displacement expectation of the same mode. Modes may have different numbers of Fock states and any number of modes may be present.",
     "all couplings, frequencies, Green's functions, numbers of modes and Fock sizes",
     "tests use a single mode, where every offset is zero",
     [Q + "estimators.py"], [("bosonic and electron-boson local energies", Q + "estimators.py")], observe=["local energies with bosons"])
prop("P05", "The force bias is bounded without changing its direction",
     "After bounding, no force-bias component exceeds the configured bound in modulus, components already within the bound are unchanged, and larger "
     "ones keep their direction (complex phase). The counter of bounded components counts exactly those changed.",
     "all real or complex bias values and all positive bounds",
     "tests run with one default bound that is rarely reached",
     [Q + "propagators.py"], [("force-bias rescaling", Q + "propagators.py")], observe=["force bias used in the propagation"])
prop("P06", "Mean-field shift and one-body propagator represent the same Hamiltonian",
     "Subtracting the trial mean from every auxiliary-field operator and moving it into the one-body term leaves the Hamiltonian unchanged as an operator, "
     "up to the constant that is accounted for separately. The half-step propagator is the exponential of minus half a time step times the shifted one-body term and acts on each spin channel of every walker.",
     "all symmetric integrals, trials, time steps; one and two spin components",
     "tests compare final energies after many steps within statistical or loose tolerance",
     [Q + "propagators.py"], [("mean-field shift and one-body propagator", Q + "propagators.py")], observe=["propagator after construction", "walker after a one-body step"])
prop("P07", "An auxiliary-field step applies the right operator and importance factor",
     "For every draw of the fields a walker is multiplied by the truncated exponential of the shifted field operator, each walker with its own fields, and the "
     "returned factors are the Gaussian density ratio and mean-shift phase for exactly the fields applied. A full step is half one-body, two-body, half one-body, and the weight update receives the overlaps before and after.",
     "all field draws, walkers, operators; truncation orders 1-6; one and two spin components",
     "tests fix the random seed and compare one energy value; they cannot tell a wrong importance factor from statistical noise",
     [Q + "propagators.py"],
     [("two-body propagation", Q + "propagators.py"), ("exponential kernels", Q + "propagators.py")], over=("inputs", "schedules", "configurations"),
     observe=["walkers and factors after a step"])
prop("P08", "Walker weights stay real, non-negative and follow the phaseless rule",
     "Each step multiplies a walker's weight by the bounded energy exponential and by the positive part of the cosine of the phase of its overlap ratio; weights never "
     "become negative or complex, and the capped hybrid energy stays within the configured window of the energy shift. A walker's update depends on that walker alone.",
     "all complex overlaps before and after, all factors, weights, shifts and caps",
     "tests never reach negative or rotated overlap ratios on purpose",
     [Q + "propagators.py"], [("weight update", Q + "propagators.py")], over=("inputs", "histories"), observe=["walker weights after a step"])
prop("P09", "Factorised integrals reproduce the coupled Hamiltonian",
     "The vectors from full or pivoted factorisation reproduce the two-electron integrals plus the products of all coupling matrices passed in, for any number of modes and shells. "
     "The integrals handed to the propagation describe one-body, Coulomb and dipole self-energy terms exactly once, and the electron-boson coupling carries the square root of half the frequency. "
     "Integrals read from a dump file are the complete tensors the file stands for.",
     "all integrals and couplings, any number of modes, pivot order and shell layout",
     "tests use a single mode and compare energies after truncation",
     [Q + "tools.py", Q + "qmc.py"], [("factorisation", Q + "tools.py"), ("integral assembly", Q + "qmc.py")], observe=["integrals passed to the propagator"])
prop("P10", "Coupled electron-boson propagation acts on both subsystems consistently",
     "The bilinear coupling written through composite fields equals the original product operator for every mode; the bosonic half of a step uses the random numbers drawn for the electronic half. "
     "Electrons feel the displacement of the incoming bosons and bosons the coupling expectation of the incoming electrons; free bosons decay by frequency times occupation in each mode's own Fock space.",
     "all couplings, frequencies, amplitudes, field draws; several modes of different Fock size",
     "tests use one mode and short seeded runs",
     [Q + "propagators.py", Q + "tools.py", Q + "generic_walkers.py"],
     [("electron-boson propagation", Q + "propagators.py"), ("bilinear decomposition", Q + "tools.py"), ("displacement expectation", Q + "generic_walkers.py")],
     over=("inputs", "schedules", "configurations"), observe=["walkers after a coupled step"])
prop("P11", "Orthonormalising walkers keeps their state and books the factor taken out",
     "Orthonormalisation makes each walker's orbitals orthonormal while spanning the same space, divides the removed determinant out of the overlap and accumulates it, and normalises bosonic "
     "amplitudes without changing their direction, sign or phase.",
     "all full-rank real or complex walkers and bosonic amplitudes",
     "tests only see energies, which do not depend on lost factors for a single walker",
     [Q + "qmc.py"], [("orthogonalisation", Q + "qmc.py")], over=("inputs", "histories"), observe=["walker after re-orthogonalisation"])
prop("P12", "Reported averages and error bars are the stated statistics of the data",
     "The energy shift fed back is the weight-averaged energy over exactly the steps of the last block; tail mean and spread, block averages and their error, the normalised autocorrelation "
     "and the outlier filter are the stated statistics of the whole series, in order, for any data.",
     "all series, weights and block lengths",
     "tests never check the statistics, only that runs finish or energies are close",
     [Q + "qmc.py", Q + "tools.py"], [("block averages", Q + "qmc.py"), ("analysis tools", Q + "tools.py")], over=("inputs", "histories"), observe=["reported energies and errors"])
prop("P13", "Bosonic and orbital trial states are the ones named",
     "Coherent bosonic trials are normalised (within the truncation) with amplitudes in the coherent-state ratio for every mode, product states factorise over modes, and oscillator trials return the logarithmic "
     "derivatives and zero-point-free energy of their Gaussian. Without orthogonalised orbitals the electronic trial fills the lowest orbitals of each spin.",
     "all displacements, modes, Fock sizes, positions, masses and frequencies",
     "tests use a single mode at one displacement",
     [Q + "trial.py", Q + "trial_boson.py"], [("trial construction", Q + "trial.py"), ("bosonic trials", Q + "trial_boson.py")], observe=["trial state"])

prop("P14", "Energy estimates are weighted averages over all walkers on all ranks",
     "The energy and each of its contributions reported by a run is the weight-averaged local energy over every walker of every rank, the same on each rank and for any distribution of "
     "walkers over ranks. Block averages, total weights and the rescaling of weights use the same global population and do not depend on how the walkers are distributed.",
     "all walker weights, energies and distributions over ranks; electron-only and coupled propagation",
     "tests run on one rank, where a missing reduction changes nothing",
     [Q + "propagators.py", Q + "qmc.py", Q + "generic_walkers.py"],
     [("energy estimators", Q + "propagators.py"), ("block averages", Q + "qmc.py"), ("weight control", Q + "generic_walkers.py")],
     over=("inputs", "configurations", "schedules"), observe=["energies returned on every rank"])

M = "openms/mqed/"
prop("P15", "QED-HF energy, Fock matrix and J/K are one consistent functional",
     "For any density and light-matter coupling the QED-HF energy is electronic, bilinear, dipole self-energy and photon part each counted once, in the Fock or coherent-state basis, "
     "and the Fock matrix is exactly its derivative with respect to the density. Coulomb and exchange from stored and integral-direct paths agree with the definition plus the dipole terms; "
     "damping and level shift change the Fock matrix only as their definitions state.",
     "all one- and two-electron integrals, densities, couplings, frequencies, photon amplitudes; one and several modes; RHF, UHF densities",
     "tests compare converged total energies of a molecule or two to reference digits; a wrong gradient or an uncounted term only shows for other couplings, bases or options",
     [M + "qedhf.py", "openms/lib/boson.py"],
     [("energy and Fock assembly", M + "qedhf.py"), ("photon dressing", "openms/lib/boson.py")], over=("inputs", "configurations"),
     observe=["energy_elec, get_fock, get_jk, get_hcore results"])
prop("P16", "Photon subsystem: ground states and displacement elements are exact",
     "For every density each cavity mode is put in the ground state of its own photon Hamiltonian (frequency, zero-point and density-dependent bilinear drive) and the reported photon energy is "
     "its expectation value. Displacement and squeezing operators have the exact matrix elements in the truncated Fock basis, and their averages are expectation values in the current photon state.",
     "all dipole expectations, frequencies, displacement differences, squeezing, photon coefficients; several modes and Fock sizes",
     "tests use one mode and mostly a single Fock state, where the photon problem is trivial",
     ["openms/lib/boson.py", M + "qedhf.py"], [("photon Hamiltonian and state", "openms/lib/boson.py"), ("displacement elements", "openms/lib/boson.py")],
     observe=["boson coefficients, photon energy, displacement factors"])
prop("P17", "SC- and VT-QED-HF energy and Fock describe the transformed Hamiltonian",
     "For any density, displacement and coupling fraction the SC- and VT-QED-HF energies equal the expectation of the displacement-transformed Pauli-Fierz Hamiltonian in the dipole basis, "
     "with the Franck-Condon-dressed integrals and the residual coupling, and the Fock matrix is its derivative with respect to the density. The coupling fraction one gives the strong-coupling "
     "method, zero gives QED-HF, and photon energy and photon state use the same dressed Hamiltonian.",
     "all integrals, densities, displacements, fractions, squeezing, frequencies and dipole bases for one mode; stored or Cholesky orthogonalisation",
     "tests look at converged energies for two molecules, where a stationary point hides a wrong derivative",
     [M + "scqedhf.py", M + "vtqedhf.py"], [("transformed energy and Fock", M + "scqedhf.py"), ("residual coupling", M + "vtqedhf.py")],
     over=("inputs", "configurations"), observe=["energy and Fock matrix"])
prop("P18", "Variational gradients are derivatives of the energy they minimise",
     "The gradients reported for the displacement, the coupling fraction and the squeezing parameters are the exact derivatives of the transformed energy at fixed density and photon "
     "state, in the orbital order the parameters are stored.",
     "all integrals, densities, displacements, fractions and squeezing parameters, any photon state of up to three Fock levels",
     "an optimiser with a wrong gradient still moves downhill most of the time, so end-point energies stay close",
     [M + "scqedhf.py", M + "vtqedhf.py"], [("gradients", M + "scqedhf.py"), ("coupling and squeezing gradients", M + "vtqedhf.py")], observe=["gradient attributes after a gradient build"])
prop("P19", "Parameter packing, DIIS and dipole-basis transformations lose nothing",
     "Packing the Fock matrix and variational parameters for acceleration and unpacking them returns every value to its own place for any choice of fixed parameters and modes; the DIIS error vector "
     "is the orbital commutator in the orthonormal basis with the parameter gradients, and the extrapolation is applied to exactly the stored vectors. Dipole-basis, degeneracy resolution and Cholesky orbitals "
     "are exact orthonormalisations that diagonalise the dipole and return matrices unchanged on round trip.",
     "all matrices and parameters; degenerate and non-degenerate dipole spectra; full and rank-deficient overlaps",
     "tests run the default variational options on small molecules with no degeneracy at the block ends",
     [M + "scqedhf.py", M + "vtqedhf.py", M + "diis.py", "openms/lib/scipy_helper.py"],
     [("variable packing", M + "vtqedhf.py"), ("DIIS", M + "diis.py"), ("dipole basis", M + "scqedhf.py"), ("pivoted Cholesky", "openms/lib/scipy_helper.py")],
     over=("inputs", "configurations"), observe=["unpacked parameters and matrices", "error vectors"])
prop("P20", "Cavity setup turns user input into couplings without side effects",
     "From polarisation vectors, coupling strengths and frequencies in any accepted form the photon object stores one unit polarisation, strength and frequency per mode, the dipole coupling is "
     "strength times polarisation times dipole, and the quadrupole part follows the same vectors; complete and incomplete bases and frame shifts follow their definitions. The caller's arrays are not modified.",
     "all polarisation vectors, strengths, frequencies, dipole and quadrupole integrals, number of modes",
     "tests pass one unit vector along one axis",
     ["openms/lib/boson.py"], [("Boson set-up", "openms/lib/boson.py")], over=("inputs", "configurations"), observe=["coupling attributes"])
prop("P21", "Density matrices in the original frame undo the displacement transformation",
     "The one-particle density matrix returned in the original frame, with the photon overlap factors of the Fock amplitudes it is built from, is the transformed-frame density multiplied elementwise in the "
     "dipole basis by the exact displacement overlaps for the method's displacements.",
     "all densities, displacements, fractions, frequencies; Fock cut-off up to the stated bound",
     "tests check diagonal totals only",
     [M + "qedhf.py", M + "scqedhf.py", M + "vtqedhf.py"], [("make_rdm1_org", M + "qedhf.py")], observe=["returned density matrices"])
prop("P22", "Coupled-cluster residuals are those of the transformed Hamiltonian",
     "For any Fock matrix, antisymmetrised integrals, couplings, frequencies and amplitudes the cavity coupled-cluster equations (all three implementations) return the projections of "
     "exp(-T) H exp(T) on the reference onto singles, doubles, photon powers and photon-dressed excitations, for one or several modes; second-order dressed doubles are claimed for one mode.",
     "all integrals, couplings and amplitudes; number of modes, occupied and virtual orbitals, photon orders up to the stated bound",
     "no test runs these equations; a wrong diagram changes the energy by less than any tolerance one would choose",
     [M + "qedcc_equations.py", M + "myqedcc_equations.py", M + "myqedcc_equations_opt.py"],
     [("qedccsd_sn_u2n", M + "qedcc_equations.py"), ("new_qedccsd_sn_u2n", M + "myqedcc_equations_opt.py")], observe=["returned residual tensors"])

prop("P23", "Cavity FCI contractions apply the coupled Hamiltonian exactly",
     "The matrix-vector product of the cavity FCI (one-body, spin-resolved or common Coulomb, electron-boson, boson-boson and boson energy terms, Fock or coherent-state form) is the action of the written "
     "Hamiltonian on the vector for every vector, electron count, number of modes and photon cutoff; electron and photon density matrices are the expectation values of that vector.",
     "all vectors and integrals, for each stated number of orbitals, electrons, modes and photon cutoffs",
     "one test runs one mode of one molecule; several modes, off-diagonal mode couplings and spin-resolved interactions are never run",
     [M + "qedfci.py"], [("contract_1e", M + "qedfci.py"), ("contract_ep", M + "qedfci.py"), ("contract_pp", M + "qedfci.py"), ("make_rdm1p", M + "qedfci.py")],
     observe=["product vectors", "density matrices"])
prop("P24", "Integrals handed to the cavity CC and FCI solvers are the cavity's own",
     "The Fock matrix, antisymmetrised integrals, couplings and frequencies handed to the correlated solvers are the cavity Hamiltonian, with its dipole self-energy, in the given orbitals, each mode with "
     "its own frequency factor, and the caller's objects are left unchanged; lattice models build the stated hoppings, interactions and phonon couplings, each bond once.",
     "all integrals, orbitals, couplings and frequencies; number of orbitals, modes, sites up to the stated bound",
     "tests run one mode, closed chains or no coupling",
     ["openms/lib/boson.py", M + "qedfci.py", "openms/models/hubbard.py", "openms/models/hh_model.py"],
     [("get_integrals4fci", "openms/lib/boson.py"), ("fock", "openms/lib/boson.py"), ("get_gmat_so", "openms/lib/boson.py")], observe=["integral arrays", "arguments after the call"])
prop("P25", "A cavity SCF run returns the energy of the state it returns",
     "Whatever the iterates do, a cavity SCF run reports convergence only when the energy and gradient criteria both hold for its last iterate (after the optional extra diagonalisation), and the returned energy, "
     "orbitals, occupations and variational photon parameters belong together: the energy is that of the returned density, displacements and couplings (and, once converged, photon state), not of an earlier cycle. Bare, squeezed/coherent and variational-transformation runs alike.",
     "all sequences of energies, gradients, orbitals and parameter updates up to the stated number of cycles; with and without coherent states, initial guesses and extra diagonalisation",
     "tests converge tightly, where one stale ingredient changes the last digits only",
     [M + "qedhf.py", M + "scqedhf.py", M + "vtqedhf.py"], [("kernel", M + "qedhf.py"), ("kernel", M + "scqedhf.py")],
     over=("inputs", "histories"), observe=["returned converged flag, energy, orbitals", "attributes after the run"])
prop("P26", "The AFQMC driver follows its schedule and is reproducible",
     "A run measures, orthonormalises and controls the population exactly at the configured steps, in an order in which measured walkers and recorded weights and energies belong to the same step. The random "
     "numbers drawn are determined by the configured seed and the rank, distinct between ranks, and the options of one calculation never change another's or the module defaults.",
     "all step counts, frequencies and option values up to the stated bound; any number of ranks up to the stated bound; sequences of two calculations",
     "tests run one seed on one process with one set of frequencies",
     [Q + "qmc.py", Q + "afqmc.py", Q + "generic_walkers.py"], [("kernel", Q + "qmc.py"), ("walker options", Q + "generic_walkers.py")],
     over=("inputs", "schedules", "histories"), observe=["sequence of measurement, propagation, orthonormalisation and control calls", "random streams per rank"])
prop("P27", "Dynamics steps integrate the equations of motion they state",
     "The Runge-Kutta step is the classical fourth-order one for any right-hand side; a velocity half kick and a drift change exactly the velocities and positions of every atom of every molecule by the force over "
     "mass and the velocity, so that a full step is time reversible; kinetic energies and temperatures follow from the current velocities, and given initial velocities are used.",
     "all positions, velocities, masses, forces, steps and right-hand sides within the stated form; one or two molecules",
     "no test runs the dynamics",
     ["openms/qmd/propagator.py", "openms/qmd/bomd.py", "openms/lib/misc.py"],
     [("rk4", "openms/qmd/propagator.py"), ("BaseMD steps", "openms/qmd/bomd.py"), ("Molecule", "openms/lib/misc.py")], over=("inputs", "histories"), observe=["coordinates, velocities, energies after a step"])
prop("P28", "Spectra, conductivities and spin tensors follow their defining formulas",
     "Exciton Hamiltonians of a chain have the drawn site energies and nearest-neighbour hopping, their spectra (linear and two-dimensional) are the dipole-weighted Lorentzian sums over the right states; every "
     "interband transition contributes to the conductivity above its own frequency; zero-field splitting and g tensors are those of the given D, E and g values.",
     "all energies, couplings, dipoles, widths, frequencies and tensor values; 1-3 sites, 1-2 components",
     "no test runs these models",
     ["openms/models/aggregates.py", "openms/maxwell/hyperbolic.py", "openms/spindy/spin.py", "openms/lib/misc.py"],
     [("DMA", "openms/models/aggregates.py"), ("get_conductivity", "openms/maxwell/hyperbolic.py"), ("zfs_tensor", "openms/spindy/spin.py")], observe=["spectra", "conductivities", "tensors"])

prop("P29", "A new AFQMC calculation starts from its trial state and its own settings",
     "Building a calculation puts each spin's lowest orbitals of the mean field and the system's one-body, factorised and coupling integrals into one and the same orthonormal basis, and every walker starts as an "
     "independent copy of that trial (electrons and bosons) with unit weight, so the energy of the initial population is the energy of the trial. Time step, expansion order, energy scheme, couplings and "
     "population size are those given by the user or the documented defaults.",
     "all integrals, couplings, frequencies and (invertible) orthogonalisations up to the stated size, with and without bosons, restricted and unrestricted",
     "tests compare energies after a run with loose tolerances",
     [Q + "qmc.py", Q + "trial.py", Q + "generic_walkers.py", Q + "tools.py"], [("build, get_integrals", Q + "qmc.py"), ("make_trial", Q + "trial.py"), ("make_walkers", Q + "generic_walkers.py")],
     observe=["walkers, trial, integrals and propagator of a freshly built calculation"])
NA = []
