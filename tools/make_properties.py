"""Regenerate properties.jsonl from the table below."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))


EQ = "cqcpy/cc_equations.py"
CI = "cqcpy/ci_utils.py"
IN = "cqcpy/integrals.py"

prop("C01", "Spin-orbital CC residuals are projections of e^-T H e^T",
     "For any amplitudes, the spin-orbital CCSD and CCD amplitude equations, in "
     "the plain and in the intermediate-based (Stanton) form, return exactly the "
     "singles and doubles projections of the similarity-transformed normal-ordered "
     "Hamiltonian on the reference. The linearised CCD and CCSD equations return "
     "the part of those projections of at most first order in the amplitudes. "
     "This holds for real or complex, Hermitian or non-Hermitian integrals and for "
     "every number of occupied and virtual orbitals, including one or zero.",
     ["inputs"],
     "all occupied/virtual dimensions, all one-electron matrices and "
     "antisymmetric two-electron tensors, all antisymmetric amplitudes, any "
     "memory layout, real or complex",
     "The tests compare the plain and the intermediate form with each other at "
     "one dimension and real Hermitian-like data; an error shared by both forms, "
     "or one that needs other dimensions, complex data or special amplitudes, is "
     "invisible to them, and the linearised equations are only exercised through "
     "the other forms.",
     [EQ, "cqcpy/ov_blocks.py"],
     [("plain diagram-by-diagram residuals", EQ + ": ccsd_simple, ccd_simple, lccd_simple, lccsd_simple"),
      ("intermediate-based residuals", EQ + ": ccsd_stanton, ccd_stanton")],
     ["return values of the public amplitude-equation functions"])

prop("C02", "Ring and ladder CCD residuals contain exactly their diagram class",
     "The ladder-only CCD equation returns the bare doubles integrals plus all "
     "particle-particle, hole-hole and quadratic ladder contractions and nothing "
     "else, and stays antisymmetric in both index pairs. The ring-only CCD "
     "equation returns the Riccati form B + AT + TA + TBT over particle-hole "
     "pairs and nothing else.",
     ["inputs"],
     "all dimensions, all antisymmetric integrals and amplitudes, real or complex",
     "No test evaluates the ring or ladder equations against anything.",
     [EQ], [("ladder residual", EQ + ": ccd_ladder_simple"),
            ("ring residual", EQ + ": ccd_ring_simple")],
     ["return values of the public ring and ladder functions"])

prop("C03", "Unrestricted and restricted CCSD residuals equal the spin-orbital ones",
     "The unrestricted CCSD amplitude equations return, block by block, exactly "
     "what the spin-orbital equations return for the same problem, for any "
     "(also unequal or zero) numbers of alpha and beta occupied and virtual "
     "orbitals. For closed-shell data the restricted equations return the alpha "
     "singles and the alpha-beta doubles of that result.",
     ["inputs"],
     "all alpha/beta occupied/virtual dimensions, all spin-blocked integrals "
     "(alpha-beta block without symmetry, not necessarily Hermitian), all "
     "amplitudes, real or complex",
     "The tests use one dimension with equal alpha and beta spaces, so any mix-up "
     "of alpha and beta dimensions or of transposed mixed-spin blocks that "
     "agrees for equal spaces or symmetric data passes.",
     [EQ], [("spin-integrated residuals", EQ + ": uccsd_stanton, rccsd_stanton")],
     ["return values of the unrestricted and restricted amplitude equations"])

prop("C04", "Spin-orbital Lambda equations are the gradient of the CC Lagrangian",
     "Every spin-orbital CCSD Lambda variant (plain, optimised, optimised with "
     "precomputed intermediates, Stanton form) returns exactly the derivative of "
     "<0|(1+L) e^-T H e^T|0> with respect to the singles and doubles amplitudes, "
     "for any T and L. The CCD Lambda equation returns the doubles derivative "
     "of the doubles-only Lagrangian. Precomputed intermediates stay valid for "
     "any number of evaluations with different L.",
     ["inputs", "histories"],
     "all dimensions, integrals, T and L amplitudes, real or complex; any "
     "sequence of evaluations sharing one intermediates object",
     "The tests compare the variants with one another at one dimension; the "
     "derivative itself is never evaluated, and the CCD equation is only "
     "compared with the CCSD code it shares terms with.",
     [EQ], [("Lambda equations", EQ + ": ccsd_lambda_simple/_opt/_stanton/_opt_int, ccd_lambda_simple"),
            ("intermediates object", EQ + ": lambda_int")],
     ["return values of the Lambda functions"])

prop("C05", "Unrestricted and restricted Lambda equal the spin-orbital gradient",
     "The unrestricted CCSD Lambda equations return, block by block, the "
     "derivative of the CC Lagrangian for the equivalent spin-orbital problem, "
     "for any (also unequal or zero) alpha and beta dimensions. For "
     "closed-shell data the restricted Lambda equations return its alpha singles "
     "and alpha-beta doubles.",
     ["inputs"],
     "all alpha/beta dimensions, spin-blocked integrals, T and L amplitudes, "
     "real or complex",
     "One dimension with equal alpha and beta spaces is tested; the hundreds of "
     "mixed-spin terms are only distinguishable with unequal dimensions and "
     "unsymmetric mixed-spin integrals.",
     [EQ], [("spin-integrated Lambda", EQ + ": uccsd_lambda_opt, rccsd_lambda_opt")],
     ["return values of the unrestricted and restricted Lambda functions"])

prop("C06", "Correlation energies equal the projected Hamiltonian",
     "The spin-orbital, unrestricted and restricted coupled-cluster energy "
     "functions return <0|e^-T H e^T|0> - E_ref for any amplitudes and "
     "dimensions, and agree with each other on equivalent problems. The MP2-type "
     "energies return the part linear in the amplitudes, and the separately "
     "exposed pieces recombine to the total (the quadratic-singles piece "
     "enters with one half).",
     ["inputs"],
     "all dimensions (alpha != beta included), all Fock and two-electron blocks, "
     "all amplitudes, real or complex",
     "Tests evaluate the total for one equal-spin dimension or one molecule "
     "where the singles terms vanish; the unrestricted MP2 energy and the "
     "separate pieces are not evaluated.",
     ["cqcpy/cc_energy.py"],
     [("energy functionals", "cqcpy/cc_energy.py: cc_energy*, mp2_energy, ucc_energy, rcc_energy, ump2_energy")],
     ["return values of the energy functions"])

prop("C07", "Spin-orbital CCSD density matrices are exact expectation values",
     "Every spin-orbital 1- and 2-RDM block, plain and optimised, equals "
     "<0|(1+L) e^-T {X} e^T|0> with X the normal-ordered one- or two-body operator "
     "of that block, for any T and L. With a reference weight w other than one, "
     "the operator is <0|(w+L) ...|0>. Contracted with any Hamiltonian the "
     "blocks give the CC Lagrangian of that Hamiltonian.",
     ["inputs"],
     "all dimensions, all T and L amplitudes, all reference weights, real or complex",
     "Tests check traces or compare optimised with plain forms at one dimension; "
     "no element is compared with an independent value and the reference weight "
     "is never varied.",
     [EQ], [("density blocks", EQ + ": ccsd_1rdm_*, ccsd_2rdm_* and their _opt forms")],
     ["return values of the density functions"])

prop("C08", "Unrestricted and restricted RDMs equal the spin-orbital RDMs",
     "Every spin block returned by the unrestricted 1- and 2-RDM functions equals "
     "the corresponding spin block of the exact spin-orbital density, including "
     "signs of the spin-exchanged blocks and the reference weight, for any (also "
     "unequal or zero) alpha and beta dimensions. For closed-shell amplitudes the "
     "restricted functions return the alpha and alpha-beta blocks.",
     ["inputs"],
     "all alpha/beta dimensions, all T and L amplitudes, all reference weights, "
     "real or complex",
     "The tests contract the blocks with integrals or trace them at one equal-spin "
     "dimension, so compensating errors and errors in blocks that only appear "
     "with unequal dimensions pass.",
     [EQ], [("spin-blocked densities", EQ + ": uccsd_*rdm_*, rccsd_*rdm_*")],
     ["return values of the density functions"])

prop("C09", "In-place update routines add exactly factor times their update",
     "Every in-place update routine of the coupled-cluster equations that takes "
     "a scale factor changes its accumulators by exactly that factor times the "
     "update for factor one, whatever the accumulators held before. It changes "
     "nothing else.",
     ["inputs", "histories"],
     "all update routines, factors (0, negative, fractional), prior accumulator "
     "contents, dimensions",
     "The tests only use the public wrappers, i.e. factor one and freshly made "
     "accumulators.",
     [EQ], [("fac argument of the update kernels", EQ + ": routines with a fac parameter")],
     ["accumulator arrays before and after the call"])

prop("C10", "Spin-orbital/spatial conversions are exact embeddings",
     "Converting Fock blocks, amplitudes, denominators or integrals from spatial "
     "to spin-orbital form places every element in its spin block with the right "
     "fermionic sign, antisymmetrises same-spin integrals when they are given "
     "plain, and leaves spin-forbidden elements zero. Converting back returns "
     "the original tensors. This holds for unequal alpha and beta dimensions "
     "and for complex data, with no precision lost.",
     ["inputs"],
     "all alpha/beta occupied/virtual dimensions including zero, real or complex",
     "The tests use one equal-spin dimension or compare on one atom; the "
     "amplitude round-trip test asserts a tautology.",
     ["cqcpy/spin_utils.py"],
     [("embedding and extraction", "cqcpy/spin_utils.py: *_to_spin, *_to_spatial, int_to_spin, int_to_spin2")],
     ["return values of the conversion functions"])

prop("C11", "Block partition and denominator helpers address every element right",
     "Splitting a two-electron tensor into occupied/virtual blocks returns, for "
     "each named block, exactly that sub-tensor, for any four (also unequal) "
     "index partitions, and rejects tensors whose dimensions do not match. The "
     "denominator and block-diagonal helpers return exactly the defined sums, "
     "differences and placements for rectangular and unequal inputs.",
     ["inputs"],
     "all partitions of the four indices, all orbital-energy vectors of any "
     "length, rectangular matrices",
     "Tests use a few fixed square dimensions; the four-way unequal partition "
     "and the unrestricted denominators are not evaluated elementwise.",
     ["cqcpy/ov_blocks.py", "cqcpy/utils.py"],
     [("slicing with asserted dimensions", "cqcpy/ov_blocks.py: make_two_e_blocks*"),
      ("broadcasted sums", "cqcpy/utils.py: D1, D2, D2u, block_diag")],
     ["return values"])

prop("C12", "Fermi-Dirac occupations are accurate over the whole real line",
     "Occupation and vacancy are accurate to close to machine precision relative "
     "to their exact value for every inverse temperature, energy and chemical "
     "potential, including far tails and extreme arguments, without overflow or "
     "NaN. They lie in [0,1], add up to one, are monotone in the energy, and the "
     "vector forms equal the scalar form elementwise. The energy-to-temperature "
     "conversion is linear with the CODATA constant.",
     ["inputs"],
     "all finite (beta >= 0, energy, chemical potential), vectors of any length",
     "The tests evaluate a handful of moderate arguments; the branch points and "
     "tails, where a wrong branch changes results by less than a test "
     "threshold, are not reached.",
     ["cqcpy/ft_utils.py"],
     [("three-branch evaluation", "cqcpy/ft_utils.py: fermi_function, vfermi_function, ff, ffv, HtoK")],
     ["return values, floating point exceptions"])

prop("C13", "Grand potential and its beta-derivative match the exact formulas",
     "The zeroth-order grand potential equals -ln(1+exp(-beta(e-mu)))/beta and its "
     "derivative equals the exact derivative with respect to beta, to rounding "
     "accuracy on every branch and continuously across the branch points, "
     "without overflow or NaN. Vector and two-spin forms equal the scalar "
     "form elementwise.",
     ["inputs"],
     "all finite (beta > 0, energy, chemical potential), vectors of any length, "
     "different alpha and beta lengths",
     "The tests use finite differences at a few moderate points.",
     ["cqcpy/ft_utils.py"],
     [("three-branch evaluation", "cqcpy/ft_utils.py: grand_potential0, dgrand_potential0, GP0, uGP0, dGP0")],
     ["return values, floating point exceptions"])

prop("C14", "Determinant strings obey fermionic algebra; operators act exactly",
     "Exciting a determinant string gives exactly the sign and determinant of "
     "a+_a a_i acting on it, reports impossible excitations, and never changes "
     "the original string. Single, double (two successive excitations) and mixed-spin "
     "operators applied to a CI vector return the exact operator action projected onto the "
     "given basis, for any vector, any basis and any indices. Equality, "
     "excitation level and boson raising/lowering agree with occupation numbers.",
     ["inputs"],
     "all strings, all index tuples (repeated indices included), all bases "
     "(truncated or permuted) and vectors, real or complex",
     "Only a few operator actions in one full space are tested.",
     [CI], [("string excitation with phase", CI + ": Dstring.excite, Pstring, level, diff"),
            ("operator action", CI + ": s_on_vec ... sasb_on_vec")],
     ["return values and the occupation arrays of the operands"])

prop("C15", "CI matrix elements and H-on-vector follow the Slater-Condon rules",
     "Matrix elements between any two determinants, in spin-blocked and in general "
     "spin-orbital form, equal <bra|H|ket> of the second-quantised Hamiltonian "
     "plus the constant on the diagonal, including every sign. Applying the "
     "Hamiltonian to a CI vector equals multiplication with that matrix, for "
     "any basis ordering or truncation.",
     ["inputs"],
     "all pairs of determinants with any number of electrons, integrals with the "
     "pair-exchange symmetry (not necessarily Hermitian), real or complex, all "
     "bases and vectors",
     "The tests check one spin-blocked FCI energy; the general form, the constant, "
     "and the phases of widely separated double excitations are not checked.",
     [CI], [("Slater-Condon rules", CI + ": ci_matrixel, gci_matrixel"),
            ("matrix-vector product", CI + ": H_on_vec, gH_on_vec")],
     ["return values"])

prop("C16", "CI bases are complete, duplicate-free and correctly graded",
     "Each determinant basis (singles to quadruples; spin-blocked, general and "
     "vibrational) contains every configuration reachable from its reference "
     "with at most the stated number of excitations exactly once, and nothing "
     "else. The reference comes first when it is included, excitation ranks are "
     "in non-decreasing order, and all particle numbers are conserved.",
     ["inputs"],
     "all orbital and electron numbers (unequal alpha/beta, zero, full), all "
     "reference occupations, all mode numbers",
     "Only a few bases are built in tests and only through energies; the "
     "quadruple and vibrational bases are never enumerated.",
     [CI], [("string enumeration", CI + ": s/d/t/q_strings, s/d_pstrings"),
            ("basis assembly", CI + ": ucis*_basis, gcis*_basis, vcis*_basis")],
     ["returned lists of strings"])

prop("C17", "CI coefficients built from CC amplitudes equal those of exp(T)|ref>",
     "The CI vector constructed from singles and doubles amplitudes equals, in "
     "the order of the corresponding basis, the coefficients of exp(T1+T2) acting "
     "on the reference up to the requested excitation order (one to four), in "
     "spin-blocked and general spin-orbital form. This holds for any (also "
     "unequal) spin dimensions, and unsupported orders are rejected.",
     ["inputs"],
     "all dimensions, all amplitudes (real or complex), orders 1-4",
     "Only one low-order spin-blocked case is exercised; third- and fourth-order "
     "products and the general form are not.",
     [CI], [("disconnected products with phases", CI + ": makeCfromT, gmakeCfromT")],
     ["return values"])

prop("C18", "Molecular integrals equal the transformed AO integrals",
     "Every molecular two-electron routine returns the AO repulsion integrals "
     "contracted with the given orbitals, in the index order (chemists' or "
     "physicists'), spin structure and antisymmetry it names, for four arbitrary "
     "different orbital sets of different sizes. Spin-forbidden elements are "
     "zero, and the mean-field shortcuts use the mean field's own orbitals for "
     "restricted and unrestricted references.",
     ["inputs", "configurations"],
     "all molecules/basis sets, all real orbital coefficient matrices (different "
     "for each index, alpha != beta, empty), RHF/UHF/ROHF references",
     "Tests use the same orbitals for all indices or a few blocks on one atom, "
     "where swapping or repeating an index is invisible.",
     [IN], [("integral transformation", IN + ": get_chem*, get_phys* for molecules")],
     ["return values"])

prop("C19", "Periodic and k-point integrals equal the transformed AO integrals",
     "Every periodic two-electron routine returns the AO integrals of the "
     "periodic density fit contracted with the given (bra-conjugated) orbitals "
     "at the given k-points, with the named index order, spin structure and "
     "antisymmetry, and keeps complex values complex. Momentum-forbidden k-point "
     "quadruples give zero, and the full k-point table returns for each triple "
     "the block of the conserving fourth k-point together with the core "
     "Hamiltonian in the orbital basis.",
     ["inputs", "configurations"],
     "all cells, k-points and k-point quadruples, all orbital matrices (real or "
     "complex, different for each index), both index orders",
     "Tests use converged orbitals with the same set on all indices on one or two "
     "cells; forbidden quadruples and real orbitals away from Gamma are not "
     "evaluated.",
     [IN], [("periodic transformation", IN + ": get_*_sol, get_*_solk, get_solk_integrals")],
     ["return values"])

prop("C20", "The ERI block container holds the right blocks for every selection",
     "The integral container built from a mean field holds exactly the "
     "antisymmetrised physicists' spin-orbital blocks selected by the code (all "
     "nine for code zero, exactly one for codes one to nine), with flags that "
     "agree with what is stored. Occupied and virtual spaces follow the "
     "occupation numbers of each spin, in any order, for restricted, restricted "
     "open-shell, unrestricted and periodic references.",
     ["inputs", "configurations"],
     "all selection codes, all reference types, all occupation patterns "
     "(non-aufbau included), molecules and cells",
     "Tests build all blocks for closed-shell or one-atom references; single "
     "selections, non-aufbau occupations and open-shell restricted references "
     "are not looked at.",
     [IN], [("block container", IN + ": eri_blocks")],
     ["attributes of the container object"])

prop("C21", "Random tensor factories honour their shapes and symmetries",
     "Every random tensor factory returns tensors of the advertised shapes whose "
     "permutational symmetries (hermiticity, particle exchange, antisymmetry) "
     "hold exactly and whose blocks are mutually consistent parts of one tensor. "
     "Tensors are generic (no accidental zeros or repeated values beyond the "
     "symmetry), successive calls differ, and reseeding the global generator "
     "reproduces them.",
     ["inputs"],
     "all factories, all dimensions (unequal alpha/beta), all seeds",
     "The factories feed every other test and are never checked themselves: a "
     "factory that produces too symmetric data makes other tests vacuous.",
     ["cqcpy/test_utils.py"],
     [("symmetrisation of random arrays", "cqcpy/test_utils.py: make_random_*")],
     ["return values"])

prop("C22", "Functions do not modify inputs and keep no hidden state",
     "No public function other than the explicit in-place update routines changes "
     "the contents of any array, block object, determinant string, basis list or "
     "mean-field object passed to it, or the state of the global random "
     "generator unless it is a random factory. Repeating a call with equal "
     "arguments gives the same result no matter which calls happened in between, "
     "whether earlier results were overwritten, or whether the same array objects "
     "held other values before. Results do not depend on memory layout.",
     ["inputs", "histories"],
     "all public functions, all call sequences, arrays that are reused and "
     "modified in place between calls, read-only and non-contiguous arrays",
     "Tests call each function once on fresh arrays and never look at the inputs "
     "afterwards.",
     ["cqcpy/cc_equations.py", "cqcpy/cc_energy.py", "cqcpy/ci_utils.py",
      "cqcpy/spin_utils.py", "cqcpy/ft_utils.py", "cqcpy/utils.py",
      "cqcpy/integrals.py", "cqcpy/ov_blocks.py"],
     [("explicit copies before in-place accumulation", EQ + ": .copy() of leading blocks")],
     ["arguments before and after each call; results of repeated calls"])

prop("C23", "Solving real molecules reproduces independent energies and densities",
     "Iterating the library's amplitude and Lambda equations to convergence with "
     "its own integrals for a real molecule gives the CCSD energy, and the "
     "density matrices give the 1-RDM, of an independent CCSD implementation, in "
     "spin-orbital, unrestricted and restricted form. Energies assembled from the "
     "density matrices equal the CC energy at convergence, and CI energies from "
     "the library's bases and matrix elements equal independent CI or FCI "
     "energies.",
     ["inputs", "configurations"],
     "all molecules and basis sets for which the iterations converge, closed and "
     "open shell, all code paths (spin-orbital, unrestricted, restricted)",
     "Tests check pieces on one closed-shell system each; the whole chain from "
     "integrals to densities is not closed for open shells or against an "
     "independent implementation.",
     [EQ, "cqcpy/cc_energy.py", IN, CI, "cqcpy/spin_utils.py"],
     [("chain of integrals, residuals, Lambda, densities", "cqcpy/*.py")],
     ["converged energies and density matrices"])

prop("C24", "Results do not depend on the optional tensor-contraction backend",
     "Every module except the integral routines can be imported and used when "
     "the optional quantum-chemistry package is not installed, and all results "
     "agree to rounding with those obtained when it is installed, including for "
     "complex data and empty dimensions.",
     ["configurations", "inputs"],
     "with and without the optional package; all public numerical functions; all "
     "dimensions, real or complex",
     "The tests run with the package installed, so the fallback is never "
     "executed.",
     [EQ, "cqcpy/cc_energy.py", "cqcpy/ci_utils.py", "cqcpy/spin_utils.py"],
     [("guarded import with fallback", EQ + ", cqcpy/cc_energy.py: try/except ImportError around the einsum import")],
     ["return values in the two configurations"])

ALL = [EQ, "cqcpy/cc_energy.py", "cqcpy/ci_utils.py", "cqcpy/spin_utils.py",
       "cqcpy/ft_utils.py", "cqcpy/utils.py", "cqcpy/integrals.py",
       "cqcpy/ov_blocks.py"]

prop("C25", "Concurrent calls from several threads do not influence each other",
     "When several threads call public functions at the same time, every call "
     "returns what it returns when it runs alone, whatever the interleaving, "
     "both when the calls work on different data and when they share the same "
     "argument objects. The random tensor factories, which share the global "
     "generator, are excepted.",
     ["schedules", "inputs", "histories"],
     "all pairs of public functions except the random factories, all "
     "interleavings of their steps, distinct or shared arguments",
     "Tests are single-threaded; a scratch buffer at module level or an "
     "argument that is changed and restored passes all of them.",
     ALL,
     [("no module-level mutable state; arguments only read", "cqcpy/*.py")],
     ["results of both calls and the arguments after the pair"])

prop("C26", "Calls leave nothing behind: memory, settings, files or output",
     "Calling public functions any number of times with ever new data does not "
     "let memory grow, and no call changes process-wide settings (floating-point "
     "error handling, print options, warning filters, working directory, "
     "environment, thread settings of the integral engine). No call opens "
     "descriptors or leaves files behind, and no call writes to the standard "
     "streams or issues warnings for valid input.",
     ["histories", "inputs"],
     "all public functions, any number of calls, all dimensions, real or complex",
     "Tests call each function a few times and look only at return values.",
     ALL,
     [("functions are free of caches and global settings", "cqcpy/*.py")],
     ["process state around each call; traced memory over series of calls"])

prop("C27", "Unsupported or inconsistent requests are refused, not answered",
     "Occupation strings whose length differs from the stated number of orbitals "
     "or modes, tensors that do not fit the stated partition, expansion orders "
     "other than one to four, spin spaces with different numbers of orbitals in "
     "the CC-to-CI conversion, k-point tables for unrestricted mean fields or "
     "unequal orbital numbers, and perturbative triples all raise an exception. "
     "Valid requests of the same kind are answered before and after a refusal.",
     ["inputs", "histories"],
     "all invalid lengths, shapes, orders, orbital numbers and references",
     "Tests only make valid requests.",
     ["cqcpy/ci_utils.py", "cqcpy/ov_blocks.py", "cqcpy/integrals.py", EQ],
     [("guards", "cqcpy/ci_utils.py: Dstring, Pstring, makeCfromT, gmakeCfromT; "
       "cqcpy/ov_blocks.py: make_two_e_blocks*; cqcpy/integrals.py: "
       "get_solk_integrals; " + EQ + ": ccsd_pt_simple")],
     ["whether an exception is raised"])

prop("C28", "Periodic systems solved with the library match k-point codes",
     "For a periodic system the k-point integrals, in either index order or as "
     "single quadruples, reproduce the mean-field energy, the Fock matrix and the "
     "MP2 energy per cell of an independent k-point code, and the complex CCSD "
     "problem assembled from them, solved in spin-orbital, unrestricted or "
     "restricted form, gives its CCSD energy. Converged amplitudes conserve "
     "crystal momentum, and energies from the density matrices equal the CC "
     "energy. This holds for shifted meshes and any orbital phases and, apart "
     "from MP2, any unitary mixing within the occupied and virtual spaces.",
     ["inputs", "configurations"],
     "all cells, k-meshes and orbital gauges for which the iterations converge; "
     "single k-points with open shells",
     "No test runs the correlated equations on periodic integrals or on any "
     "complex Hamiltonian of a real system.",
     [IN, EQ, "cqcpy/cc_energy.py", "cqcpy/spin_utils.py", "cqcpy/ov_blocks.py"],
     [("chain of k-point integrals, residuals, Lambda, densities", "cqcpy/*.py")],
     ["energies per cell, Fock matrices, amplitudes"])

prop("C29", "Results are the same in every process and environment",
     "Every public function returns the same values, and every determinant basis "
     "in the same order, in any fresh interpreter: whatever the hash seed, the "
     "optimisation flag, the numbers of threads, the locale and working "
     "directory, the order of imports and the order of calls. Random tensor "
     "factories return identical tensors in every process after the global "
     "generator was seeded alike.",
     ["configurations", "histories"],
     "all public functions; interpreters with assertions on or off, any hash "
     "seed, thread count, locale and import order",
     "Tests run in one process with one hash seed, one thread and assertions on.",
     ALL,
     [("functions of their arguments only; no work inside assertions; no order "
       "from hashing", "cqcpy/*.py")],
     ["recorded results of fresh interpreters"])

prop("C30", "Results follow the number type of the data",
     "Real data give real results, complex data without imaginary part give the "
     "same numbers as real data, and conjugating all complex data conjugates the "
     "results. Data in single precision give the double-precision results to "
     "within single precision. Integer arrays are answered exactly like equal "
     "floating-point arrays or refused, never truncated.",
     ["inputs"],
     "all public functions except the integral routines; double, single, 16- to "
     "64-bit integer, complex double and complex single arrays of any dimensions",
     "Tests use double precision only and hardly any complex data.",
     [f for f in ALL if "integrals" not in f],
     [("result arrays take the type of the data", "cqcpy/*.py")],
     ["values and types of results"])

prop("C31", "Working memory grows no faster than four-index tensors",
     "When all numbers of occupied and virtual orbitals are doubled, the peak "
     "memory a coupled-cluster residual, Lambda, density, energy, "
     "spin-conversion or denominator function allocates grows at most like a "
     "four-index tensor (sixteenfold), for any ratio of occupied to virtual "
     "orbitals, real or complex. The vector functions of orbital energies need "
     "memory linear in the number of levels.",
     ["inputs"],
     "all such functions, dimensions large enough that tensors dominate",
     "Tests use tiny dimensions, where a six-index intermediate goes unnoticed.",
     [EQ, "cqcpy/cc_energy.py", "cqcpy/spin_utils.py", "cqcpy/utils.py",
      "cqcpy/ft_utils.py"],
     [("contractions in pairs with at most four-index intermediates",
       "cqcpy/*.py")],
     ["traced peak memory of calls"])

prop("C32", "Example programs print energies that agree with independent codes",
     "Every shipped example program runs to its end without leaving files and "
     "prints, for the system it describes, the energies that independent "
     "programs give for that system: excitation energies with single "
     "excitations, correlation energies with single and double excitations, and "
     "mean-field and second-order perturbation energies of crystals. The same "
     "holds when another closed-shell molecule, basis, integration mesh or "
     "k-point grid is put into the program.",
     ["inputs"],
     "all example programs; closed-shell molecules with a stable mean field, any "
     "basis, any k-point grid",
     "No test runs the example programs.",
     ["examples/cis.py", "examples/cis_H2.py", "examples/cisd.py",
      "examples/cisd_Be.py", "examples/kmp2.py", "examples/kpt_hamiltonian.py"],
     [("determinant-by-determinant Hamiltonian matrices", "examples/cis*.py"),
      ("k-point integrals contracted to energies",
       "examples/kmp2.py, examples/kpt_hamiltonian.py")],
     ["printed output and exit status of the programs"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"),
          "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
