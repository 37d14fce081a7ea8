#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text stays in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["evoMPS/" + f for f in files],
                          "state": state or [],
                          "mechanism": [{"name": n, "where": "evoMPS/" + w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Plain transfer maps equal their defining contraction",
  "Passing a left or right environment matrix through one, two or three sites' tensors (bra and ket tensors may differ, with different bond dimensions) returns exactly the contraction that defines the transfer map, also when the environment is given as an identity or diagonal matrix and when the result is written into a caller's buffer. The left and right maps are adjoint to each other, multi-site maps equal repeated single-site maps, and no input array is modified.",
  ["inputs"], "All physical and bond dimensions (square or rectangular, different for bra and ket), all tensor entries, dense / identity / diagonal environments, with and without an output buffer.",
  "The tests try a handful of random tensors with a few fixed dimensions and check agreement between variants; the claim is a polynomial identity over all dimensions, entries and representations.",
  ["core_common.py", "tdvp_common.py"],
  [("single- and multi-site left/right transfer maps", "core_common.py"), ("dense transfer operator", "tdvp_common.py")],
  ["return values of the transfer-map functions", "contents of the output buffer"])
p("C02", "Operator transfer maps and merged tensors are exact",
  "Transfer maps carrying a one-, two- or three-site operator (given as a matrix/tensor, as a factorised operator, or as an element function) equal the defining contraction of environment, ket tensors, operator and conjugated bra tensors, on both sides. Merged multi-site tensors and their products with an operator or its conjugate carry indices in the documented order, so that every route to the same contraction gives the same result.",
  ["inputs"], "All operators (complex, non-Hermitian), all tensors and dimensions (site-dependent physical dimension), all equivalent routes.",
  "The tests compare a few routes for one random operator with equal dimensions; transposed or conjugated operators are invisible for symmetric or Hermitian test operators.",
  ["core_common.py", "tdvp_common.py"],
  [("operator transfer maps, merged tensors, operator products", "core_common.py"), ("factorised and MPO forms", "tdvp_common.py")],
  ["return values of the operator transfer-map functions"])
p("C03", "Structured matrices behave like the dense matrices they stand for",
  "Identity and diagonal matrix objects give, under every supported product, sum, scaling, transpose, conjugate, inverse, square root, raveling and conversion to a dense array, the same result as the dense matrix they represent. The inner-product, Hermitian-conjugate, chained-product, Hermitian square-root and inverse helpers agree with dense linear algebra for every mix of dense and structured arguments.",
  ["inputs"], "All sizes, real and complex entries, every combination of dense, identity and diagonal operands on either side.",
  "Structured matrices appear only incidentally in the tests, so most operand combinations and in-place paths are never evaluated.",
  ["matmul.py"],
  [("identity and diagonal matrix classes", "matmul.py"), ("chained products, inner products, Hermitian roots and inverses", "matmul.py")],
  ["results of arithmetic on structured matrices"])
p("C04", "Finite-chain construction yields the state that was asked for",
  "Building a finite chain from bond and physical dimensions caps every bond at what its neighbours can support and never enlarges one, and the test for room to grow answers true exactly when some bond lies below both the requested limit and what its neighbours could support. Building from explicit site tensors keeps them unchanged; setting a product state gives exactly the tensor product of the supplied local vectors, for site-dependent physical dimensions.",
  ["inputs", "configurations"], "All chain lengths, all bond-dimension and physical-dimension profiles, all local vectors.",
  "The tests use one or two uniform profiles; a mistake at a particular site or for non-uniform physical dimensions never shows.",
  ["mps_gen.py"],
  [("bond-dimension correction, product state, constructor from tensors", "mps_gen.py")],
  ["bond dimensions and tensors after construction"])
p("C05", "Environments always match the tensors after an update",
  "After a finite chain is updated, each left (right) environment equals the contraction of all sites to its left (right) with themselves, whether canonical form was restored or only the norm was fixed, and partial recomputation over a site range gives the same matrices as a full one. The state then has unit norm, and fixing the norm changes the state only by a positive factor.",
  ["inputs", "configurations", "histories"], "All tensors, lengths and dimension profiles, both gauge choices, both canonicalisation algorithms, with and without canonical-form restoration, after any sequence of edits followed by an update.",
  "The tests look at one or two configurations; stale or misindexed environments show up only for particular ranges and gauge choices.",
  ["mps_gen.py", "tdvp_common.py"],
  [("environment recursions, norm fixing, update", "mps_gen.py")],
  ["environment matrices and norm after an update"])
p("C06", "Restoring canonical form never changes the physical state",
  "Bringing a finite chain into left, right or mixed canonical form multiplies its state vector by a positive normalisation factor and nothing else, with either algorithm and also when rank deficiency shrinks bonds. Afterwards the documented conditions hold: unit environments on the gauge side, diagonal non-negative environments in ascending order on the other where promised, and environments consistent with the new tensors and bond dimensions.",
  ["inputs", "configurations"], "All tensors including rank-deficient ones, all dimension profiles, all gauge choices, centre positions and algorithms.",
  "The tests check norms and a few invariants on full-rank random states of fixed size; gauge errors that preserve the norm, or show only for shrinking bonds, stay hidden.",
  ["mps_gen.py", "tdvp_common.py"],
  [("finite canonical-form restoration", "mps_gen.py"), ("local gauge transformations and their sequences", "tdvp_common.py")],
  ["state vector before/after", "environments and bond dimensions after"])
p("C07", "Finite-chain measurements equal dense quantum mechanics",
  "Expectation values of one-, two- and three-site operators, products of separated operators, connected correlations, operator strings and matrix product operators, and one- and two-site reduced density matrices (in the library's convention, entry (s,t) being the expectation value of |s><t|) of a normalised finite chain equal the values computed from its full state vector. This holds at every site including both ends, for site-dependent physical dimensions and for operators given as arrays or as element functions.",
  ["inputs", "configurations"], "All normalised states, sites, distances, operators (non-Hermitian included) and dimension profiles.",
  "The tests measure a few Hermitian operators in the bulk of one chain with equal local dimensions.",
  ["mps_gen.py", "tdvp_common.py", "core_common.py"],
  [("expectation values, correlations, strings, MPO value, density matrices", "mps_gen.py")],
  ["returned expectation values and density matrices"])
p("C08", "Applying local operators and taking overlaps is exact",
  "Applying a one-site operator at any site, or a matrix product operator on any run of sites, yields exactly the state vector obtained by acting with that operator on the dense state (up to normalisation where an update follows). The overlap of two finite chains equals the inner product of their state vectors, conjugate-linear in the first.",
  ["inputs"], "All states, operators, sites and dimension profiles; pairs of chains with different bond dimensions.",
  "Only a few operator/site combinations are exercised and mostly through norms, so conjugation or index-order errors pass.",
  ["mps_gen.py"],
  [("operator application and chain overlap", "mps_gen.py")],
  ["state vector after application", "returned overlap"])
p("C09", "Truncation keeps the leading Schmidt components only",
  "Truncating a finite chain reduces each bond to at most the requested dimension, discarding the smallest Schmidt coefficients; truncating to the present dimensions leaves the state unchanged. Automatic truncation removes exactly the directions of zero weight, reports whether anything changed, and preserves the state.",
  ["inputs", "configurations"], "All canonical states, target bond profiles and rank-deficient states.",
  "The tests do not compare the truncated state with the best approximation or with the discarded weights.",
  ["mps_gen.py", "mps_uniform.py"],
  [("finite truncation and automatic truncation", "mps_gen.py")],
  ["bond dimensions, Schmidt spectrum and state vector after truncation"])
p("C10", "Saving and loading reproduces the state",
  "Writing any kind of chain (finite, uniform, or finite window between uniform bulks) to a file and reading it back gives an object with the same tensors, environments, dimensions and user data, hence the same physical predictions. Loading a file of incompatible dimensions is refused rather than producing a mixed state.",
  ["inputs", "histories"], "All states of all three kinds, all block sizes and dimension profiles, with and without user data.",
  "No test writes and reads a state.",
  ["mps_gen.py", "mps_uniform.py", "tdvp_uniform.py", "mps_sandwich.py", "tdvp_sandwich.py"],
  [("save/load of the state classes", "mps_gen.py")],
  ["state after a save/load round trip"])
p("C11", "Hermitian factorisations and tangent-gauge bases are what they claim",
  "Hermitian factors multiply back to the factored matrix and their inverses invert them on its support, with null directions dropped consistently; square roots square to the matrix, for dense, diagonal and identity environments. The tangent-space bases are orthonormal, complete (dimension physical times bond minus bond) and orthogonal to the site tensor weighted by the root of the environment, on either side.",
  ["inputs"], "All positive semidefinite matrices (including singular and zero ones), all tensors with and without full rank, all representations.",
  "Tests use well-conditioned full-rank matrices of one size.",
  ["tdvp_common.py", "matmul.py", "nullspace.py"],
  [("Hermitian factorisation, roots, tangent-gauge parametrisation", "tdvp_common.py"), ("null space by QR", "nullspace.py")],
  ["returned factors and bases"])
p("C12", "Energy recursions sum to the exact energy",
  "For a finite chain with any two- or three-site Hamiltonian (missing terms, site-dependent terms, array or element-function form) the accumulated right and left partial energies equal the expectation values of the terms fully inside the respective part, and the reported total energy and local energies equal those of the dense state. This holds in either gauge and after every update.",
  ["inputs", "configurations"], "All states, Hamiltonian ranges and terms, chain lengths down to the interaction range, and gauges.",
  "The tests check the ground energy of two models to a tolerance, which cannot separate left/right bookkeeping or missing-term handling.",
  ["tdvp_gen.py", "tdvp_common.py"],
  [("operator-tensor products and energy recursions", "tdvp_gen.py")],
  ["partial-energy matrices, local and total energy"])
p("C13", "The TDVP tangent vector is the projected gradient",
  "The tangent vector computed for a finite chain satisfies the gauge-fixing condition and is the orthogonal projection of the Hamiltonian acting on the state (minus the energy) onto the variational tangent space, for two- and three-site Hamiltonians. Its reported norm equals the norm of that projected vector.",
  ["inputs", "configurations"], "All normalised full-rank states, Hamiltonians, dimension profiles, chain lengths and sites, in both gauge choices.",
  "The tests watch the energy decrease for two models; a wrong tangent component that still lowers the energy is invisible.",
  ["tdvp_gen.py", "tdvp_common.py"],
  [("projected-gradient parameters and tangent tensors", "tdvp_gen.py"), ("local gradient contractions", "tdvp_common.py")],
  ["tangent tensors and their reported norm"])
p("C14", "Integrator steps follow their tableau exactly",
  "One Euler step subtracts the step size times the tangent vector evaluated at the initial state from every site tensor, in the ordinary and in the low-memory mode alike; one fourth-order Runge-Kutta step combines four tangent evaluations with the classical weights, for finite, uniform (any block length) and window states. A step of size zero leaves the state unchanged, stationary sites are left alone, and so is a tangent vector handed in by the caller.",
  ["inputs", "configurations", "histories"], "All states, complex step sizes, modes and state kinds.",
  "The tests observe only the final converged energy, which a wrong Runge-Kutta weight or stale stage does not change.",
  ["tdvp_gen.py", "tdvp_uniform.py", "tdvp_sandwich.py"],
  [("Euler and Runge-Kutta steps", "tdvp_gen.py"), ("uniform steps", "tdvp_uniform.py"), ("window steps", "tdvp_sandwich.py")],
  ["site tensors after a step"])
p("C15", "Local effective Hamiltonians are exact projections",
  "In the split-step and density-matrix style sweeps, the one-site, bond and two-site effective Hamiltonians applied to a vector equal the full Hamiltonian compressed between the surrounding block states, for local two- and three-site terms and for matrix product operators, at every site including the ends. They are therefore Hermitian whenever the Hamiltonian is, and a split step at maximal bond dimension is the exact evolution up to phase and normalisation.",
  ["inputs", "configurations"], "All states in mixed canonical form, Hamiltonian terms, sites and dimension profiles.",
  "The tests run whole sweeps on one model; a wrong or missing boundary term is masked by convergence tolerances.",
  ["split_step.py", "tdvp_gen.py"],
  [("effective operators of the split-step scheme", "split_step.py")],
  ["action of the effective operators on vectors"])
p("C16", "Uniform states: fixed points, normalisation and gauge restoration",
  "After updating a uniform state of any block length the left and right environments at every block position are fixed points of the block transfer map with eigenvalue one, are positive Hermitian, and have unit overlap. Restoring symmetric, right or left canonical form is a pure gauge transformation: local expectation values and the transfer spectrum are unchanged and the documented unit or diagonal environment conditions hold.",
  ["inputs", "configurations"], "All tensors with a unique dominant transfer eigenvalue, all block lengths, dimensions, gauges and eigensolver choices.",
  "Tests of uniform states check one block length through energies.",
  ["mps_uniform.py", "tdvp_common.py"],
  [("fixed-point solvers, normalisation and gauge restoration for uniform states", "mps_uniform.py")],
  ["environments, tensors and expectation values after an update"])
p("C17", "Uniform measurements equal the infinite-chain values",
  "Expectation values of one-, two- and three-site operators, separated products, connected correlations, reduced density matrices, occupation numbers and operator application for a uniform state equal the contraction of the operator with the environments of the correct block positions, whatever the block length and offset. Values at an offset agree with those of the equivalent blocked state.",
  ["inputs", "configurations"], "All normalised uniform states, block lengths, offsets, distances, and operators (array or element function).",
  "Only block length one or offset zero is measured by the tests.",
  ["mps_uniform.py", "tdvp_uniform.py"],
  [("uniform expectation values", "mps_uniform.py")],
  ["returned expectation values"])
p("C18", "The transfer pseudo-inverse solves its linear system",
  "The iterative routine returns a matrix that, pushed through one minus the phase times the block transfer map, reproduces the input. In pseudo-inverse mode the dominant fixed-point part is removed from the transfer map first. This holds acting from the left and from the right, for any block length, momentum and pair of states, and leaves its inputs unmodified.",
  ["inputs", "configurations"], "All right-hand sides, momenta, left/right, block lengths, bra/ket pairs, with and without projection.",
  "The tests compare against a dense inverse for one block length, few momenta and one state.",
  ["mps_uniform_pinv.py"],
  [("linear operator of the pseudo-inverse and its driver", "mps_uniform_pinv.py")],
  ["returned solution and operator action"])
p("C19", "Uniform energy density and tangent vector are exact",
  "For a uniform state with a two- or three-site Hamiltonian in array, element-function or factorised form, the reported energy density is the block average of the local energies, the partial-energy matrices solve their defining equation with the energy removed on both sides, and the tangent tensors satisfy the gauge condition and equal the projected gradient. All this holds at every position of a block of any length.",
  ["inputs", "configurations"], "All normalised uniform states, Hamiltonians, block lengths and representations.",
  "The tests follow the energy of one or two models with block length one.",
  ["tdvp_uniform.py", "tdvp_common.py"],
  [("uniform energy recursion and tangent vector", "tdvp_uniform.py")],
  ["energy density, partial-energy matrices, tangent tensors"])
p("C20", "The excitation Hamiltonian is the projected Hamiltonian",
  "The effective Hamiltonian used for momentum excitations on a uniform background equals the matrix of the Hamiltonian minus the background energy between the corresponding momentum tangent states, so it is Hermitian for a variationally optimal background and has the right symmetry under reversing momentum. Array and factorised forms of the Hamiltonian give the same operator.",
  ["inputs", "configurations"], "All momenta, two- and three-site Hamiltonians, trivial and domain-wall sectors, bond and physical dimensions.",
  "The tests compare a few eigenvalues of one model at loose tolerance.",
  ["mps_uniform_excite.py", "tdvp_uniform.py"],
  [("excitation operator", "mps_uniform_excite.py")],
  ["action of the excitation operator"])
p("C21", "Window states stay consistent with their bulks",
  "For a finite window between uniform bulks, looking up tensors, environments or dimensions at any site returns the value belonging to that site of the infinite chain, and growing the window on either side by whole unit cells leaves the represented infinite state unchanged. Restoring canonical form keeps expectation values in and around the window and yields unit-norm states with environments that match the tensors.",
  ["inputs", "configurations", "histories"], "All windows and bulks, unit-cell lengths, sites inside and outside, growth sequences.",
  "No stable test covers window states with different bulks or longer unit cells.",
  ["mps_sandwich.py", "tdvp_sandwich.py"],
  [("window lookups, growth, canonical form", "mps_sandwich.py")],
  ["tensors and environments at arbitrary sites", "expectation values before/after"])
p("C22", "Dynamic bond expansion adds exactly the leading missing directions",
  "A step with bond expansion leaves the existing blocks of every tensor as an ordinary step would and fills the new blocks so that the added two-site tangent component is the best approximation, of the allowed rank, to the projection of the Hamiltonian action orthogonal to the one-site tangent space. The reported expansion norm equals the norm of that projection and the new bond dimensions stay within the requested limits.",
  ["inputs", "configurations"], "All full-rank states, two- and three-site Hamiltonians, sites, limits on added and total bond dimension.",
  "The tests only check that expanded runs reach a low energy.",
  ["tdvp_gen.py", "tdvp_common.py", "tdvp_uniform.py", "tdvp_sandwich.py"],
  [("two-site tangent complement and its truncation", "tdvp_common.py"), ("expansion inside steps", "tdvp_gen.py")],
  ["new blocks of the site tensors, reported norms"])
p("C23", "A dissipative step applies drift plus noise and restores the Hamiltonian",
  "One open-system step changes the tensors by the tangent projection of the deterministic drift (Hamiltonian, decay and mean-field terms) plus each jump operator times its own complex Gaussian increment of the right variance. Afterwards the stored Hamiltonian is the one that was there before, and the jump operators are untouched.",
  ["inputs", "configurations"], "All states, jump operators (several per site, real or complex, two- and three-site), Hamiltonians with missing terms, step sizes.",
  "No test uses the open-system class.",
  ["tdvp_gen_diss.py"],
  [("open-system step", "tdvp_gen_diss.py")],
  ["site tensors and Hamiltonian after a step"])
p("C24", "Comparing, blocking, truncating and enlarging uniform states is faithful",
  "The per-site fidelity of a uniform state with a gauge-transformed copy is one, phase and gauge alignment change a state by a phase or gauge only, and converting to single-site blocks keeps all local expectation values. Enlarging the local or bond dimension with zero fill embeds the old tensors unchanged, and truncation keeps the leading Schmidt directions.",
  ["inputs", "configurations"], "All uniform states, block lengths, gauge transformations, phases, new dimensions and offsets.",
  "No stable test compares two uniform states or converts block lengths.",
  ["mps_uniform.py", "tdvp_uniform.py"],
  [("fidelity, alignment, blocking, truncation and enlargement", "mps_uniform.py")],
  ["fidelity, tensors and expectation values after the operation"])
p("C25", "Krylov exponential integration is accurate to its tolerance",
  "The Krylov matrix-exponential routine returns the exponential of the operator applied to the vector within the requested tolerance, for any operator given by its action.",
  ["inputs"], "All operators, vectors, times and tolerances.",
  "Accuracy of an adaptive floating-point iteration cannot be settled by samples.",
  ["sexpmv.py"], [("Krylov exponential", "sexpmv.py")], ["returned vector"])
p("C26", "Long time evolution conserves energy and norm",
  "Real-time evolution of a closed system with the provided drivers conserves norm exactly and energy up to the integrator's order over any number of steps.",
  ["histories"], "All initial states, Hamiltonians, step counts and drivers.",
  "A whole-history floating-point property; tests run a few steps of one model.",
  ["dynamics.py", "tdvp_gen.py", "tdvp_uniform.py"], [("evolution drivers", "dynamics.py")], ["norm and energy along an evolution"])
p("C27", "Compiled and GPU kernels agree with the Python ones",
  "The optional compiled kernels and the GPU routines compute the same transfer maps as the Python implementation for all inputs.",
  ["inputs", "configurations"], "All tensors and dimensions, both implementations.",
  "The tests run with one implementation only.",
  ["core_common.py", "cuda_alternatives.py"], [("selection of kernels", "tdvp_common.py")], ["return values under either implementation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
