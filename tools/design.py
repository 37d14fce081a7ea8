"""per-property text of DESIGN.md"""
TEXT = {
 "C01": dict(
  proved="left and right maps, in place and allocating, dense/diagonal/identity environment, bra and ket of different bond dimensions, "
         "multi-site maps as iterated single-site maps, adjointness as a lemma, frame (no input written):",
  bounded="the same contracts on the real code with real/complex/mixed element types and non-contiguous layouts.",
  open="element types are not modelled symbolically (an output buffer of the wrong type is only seen at run time)."),
 "C02": dict(
  proved="one-, two-, three-site operators, element functions (through `vectorize`/`fromfunction`), factorised operators, MPO maps, merged "
         "tensors and their index order:",
  bounded="the same contracts on the real code."),
 "C03": dict(
  proved="every product, sum, scaling, transpose/conjugate, inverse, root and conversion of `eyemat` and `simple_diag_matrix`, mixed with dense "
         "arrays; `mmul` chains, `adot`, `adot_noconj`, `H`, `invmh`, `sqrtmh`, `invtr`:",
  bounded="the same contracts on the real code, real and complex arguments mixed.",
  open="in-place product of two structured matrices is rejected by the code (documented limitation, excluded); `inv`, `eigh`, `trtri` are assumed contracts."),
 "C04": dict(
  proved="product states and explicit tensors are set site by site, with the stated shapes, for any number of sites; a wrong number of tensors is refused:",
  bounded="capping of the bond dimensions against a brute-force fixed point of `D(n) <= q(n) D(n-1)`, `D(n-1) <= q(n) D(n)`, growth test against its definition, explicit tensors, product states against the dense product."),
 "C05": dict(
  proved="environment recursions over any range by the ghost families `l`, `r`, and the renormalisation:",
  bounded="update in both canonical forms and without, repeated updates, partial ranges, unit norm, positive factor.",
  open="that the update of a state restores canonical form first (C06)."),
 "C06": dict(
  proved="`restore_RCF_r/_l`, `restore_LCF_l/_r` (one site): the new tensor carries the same state (gauge products cancel against their neighbours), the promised side becomes the unit or diagonal environment, at full and at reduced rank; the sweeps `restore_*_seq`, QR and non-QR, for every length and all bond dimensions; `restore_RCF`, `restore_LCF`: which sweep runs on which lists in which order, the state shrinks to the dimensions the sweep leaves, the norm goes into the end tensor with the phase kept, environments of the promised form, in every combination of `use_QR`, `normalize_mps`, `diag_*`, `update_*`:",
  open="LAPACK factorisations are assumed to return what they promise; the rank decision on floating-point data is seen only by the run-time checks.",
  bounded="state vector up to a positive factor, left/right/mixed form, both algorithms, full-rank, rank-deficient and oversized bonds, unnormalised input; promised environments (unit, diagonal, ascending), dimensions, Schmidt values."),
 "C07": dict(
  proved="one-, two-, three-site expectation values and density matrices, separated products for all pairs of sites, strings and MPOs as folds over any number of sites, for dense, diagonal and identity environments:",
  bounded="the same quantities against the dense state vector, at every site, after updates; connected correlations.",
  open="that the environments stored in the object are those of the state is C05."),
 "C08": dict(
  proved="overlap for any length and bond dimensions (fold), operator application on any site, MPO action on a site tensor and on a run of sites, refusals:",
  bounded="MPO application on any run of sites and overlaps against dense vectors."),
 "C09": dict(
  proved="`truncate` of a finite chain of any length: every tensor keeps the trailing block (the leading weights of the ascending canonical form), dimensions as requested, update data and the outermost cut bonds, refusals that leave the state alone; `auto_truncate` asks for the number of weights above the tolerance on every bond and reports whether anything was cut; `_update_after_truncate`; the kept environments obey the recursion of the cut tensors when the cut weights vanish; `truncate` of a uniform block (both gauges):",
  open="that the state is unchanged when the weights cut are zero (a positivity argument) and that the weights are ascending (C06, eigh) are seen by the run-time checks.",
  bounded="bond dimensions after truncation, kept Schmidt values are the leading ones (single-bond optimality), truncation to present dimensions, automatic truncation exactly removes zero weights and reports it."),
 "C10": dict(
  proved="with a file as a ghost value (`save` stores a copy on storage of its own, `load` returns another): the round trip of a finite chain of any length and dimensions into an object of other dimensions, of a uniform block of any length (all environment kinds, user data, `from_file`), of a window with its bulks, energies and counters; the update is called once, after everything is in place; loads of another length, or with a local or bond dimension that does not fit at any one site, or with other bulks are refused and leave the object unchanged:",
  open="`expand`, `truncate`, `expand_q`, `shrink_q` and `autogrow` are checked at run time only; the file format itself is numpy's (assumed).",
  bounded="round trips of finite, uniform, TDVP and window objects through real files, refused loads leave the object unchanged, imports with other dimensions; all files in scratch directories."),
 "C11": dict(proved="`nullspace_qr`, `calc_Vsh` and `calc_Vsh_l` (orthonormal, orthogonal to the scaled tensor, of full dimension, for every shape); `herm_fac_with_inv` (upper and lower: the whole matrix when Cholesky succeeds, else the part above the tolerance for every number of eigenvalues dropped, `inv` on the support), `herm_sqrt_inv` for dense, diagonal and identity arguments, `calc_l_r_roots`:",
  open="the LAPACK factorisations are assumed to return what they promise (full QR: unitary and triangular; eigh: ascending, unitary, reconstructing; Cholesky; triangular inverse): round-off in the decision which eigenvalues are zero is seen only by the run-time checks.",
  bounded="factor/inverse on the support for dense, diagonal, identity, rank-deficient, tiny negative eigenvalues; square roots; tangent bases: orthonormal, complete, orthogonal."),
 "C12": dict(
  proved="each recursion step `calc_K*` (left/right, two/three-site, factorised) equals the sum of transferred energy and local term, with the reported local energy; the methods `calc_C`, `calc_K`, `calc_K_l` over a chain of any length (every site's term, partial energy, local energy and the total, missing terms anywhere, two- and three-site, dense, diagonal and identity environments), by induction along the chain:",
  bounded="all partial energies, total energy and local energies of random chains against the dense Hamiltonian, both gauges, missing terms, function-valued terms, after updates."),
 "C13": dict(
  proved="each parametrisation function `calc_x*` equals its contraction for every combination of missing terms and environment types; the methods `calc_x` / `calc_x_l` hand the right neighbours to them at any site of any chain (two- and three-site, both gauges); `calc_B_n` builds the tangent tensor from the roots and null-space basis of its own site (both gauges, stationary sites, norm), `calc_B` calls it for every site (roots and null-space basis arbitrary: their contracts are C11):",
  bounded="tangent tensors equal the orthogonal projection of H|psi> built from a numerically constructed tangent basis, gauge condition, norm eta."),
 "C14": dict(proved="Euler and Runge-Kutta steps of finite chains, uniform blocks and windows of any length: each of the four tangent evaluations is made at the state of its stage with environments (and merged tensors, C, K) recalculated for that state, every site moves by its own tangent tensor with weights 1/6, 1/3, 1/3, 1/6, stationary sites anywhere, a given tangent vector is left alone (tangent evaluations arbitrary: C13, C19, C21):",
  open="the low-memory Euler step of finite chains is checked at run time only (its list is read and written at two offsets in one loop).",
  bounded="one Euler/RK4 step against tangent vectors evaluated on copies at the stage states, finite (both memory modes, both gauges), uniform (blocks), window; step zero; stationary sites; any phase of the step."),
 "C15": dict(proved="the one-site, bond and two-site operators of `split_step` (mixed canonical form) and the one-site and bond operators of `tdvp_gen` (right canonical form, any environments) applied to an arbitrary vector equal the terms that touch the site plus the energies of the blocks, for two- and three-site terms, at every site of a chain of any length, ends included; matrix product operators of any dimension, and the block operators `calc_MPO_l/rm1`:",
  why="the sweeps that use them are not under contract",
  bounded="one-site, bond and two-site effective Hamiltonians against the dense compression, local and MPO Hamiltonians, every site, Hermiticity; exact evolution at full bond dimension; DMRG-type sweeps never raise the energy.",
  open="known finding: `take_step_split` raises (see section 5)."),
 "C16": dict(why="fixed points by iteration",
  bounded="fixed-point equations, positivity, overlap, gauge invariance of expectation values and spectrum, canonical conditions, rank-deficient states, blocks up to 3."),
 "C17": dict(proved="`expect_1s/2s/2s_tp/3s`, `density_1s`, `basis_occupancy`, `apply_op_1s`, two-point functions and correlations at every distance, strings of any length, for every block length, site offset (any integer, by index modulo the block), and environment type:",
  why="",
  bounded="all expectation values, density matrices, correlations, strings, operator application against a contraction of block tensors with dense fixed points; offsets; blocked states."),
 "C18": dict(proved="`PinvOp.matvec` on both sides, for any block length, momentum, pseudo mode and input, also applied repeatedly (the returned vector stays); `pinv_1mE` and `calc_PPinv` hand the solver exactly this operator and the unchanged right-hand side and return its solution in matrix form and in `out`; the state's own tensors and fixed points unless others are given; nothing else changes:",
  why="that the library solver solves is assumed",
  bounded="the linear operator (matvec, both sides, any block length, momentum, pseudo) against the dense matrix; the solution against the dense solve; input unmodified.",
  open="non-converged solves and ill-conditioned maps are skipped (counted)."),
 "C19": dict(proved="`calc_AA`, `calc_C` (array, element function, sum of products; two and three sites); `calc_K`, `calc_K_left`: the right-hand side given to the solver is the sum of the terms of the block carried to its end, less their energy, the energy density returned is that energy per site, and `K` inside the block follows from the solution by one step each, for a block of any length; `get_B_from_x`; `calc_B`: tangent tensor from the terms that touch the site, for every site of the block:",
  why="fixed points and solver are assumed",
  bounded="energy density, partial energies against the dense defining equation, tangent tensors against the projected gradient of the infinite chain; array, function, factorised forms; blocks up to 3."),
 "C20": dict(why="sums over momentum-dependent geometric series via the pseudo-inverse",
  bounded="effective Hamiltonian (matvec and dense) against momentum tangent states in a dense transfer-matrix calculation, topologically trivial and non-trivial, two- and three-site; Hermiticity; momentum reversal.",
  open="degenerate spectrum of the overlap transfer map between different vacua is skipped."),
 "C21": dict(proved="`get_A`, `get_D`, `get_q`, `get_l`, `get_r` at any site of the infinite chain (stored, bulk, and environments carried on beyond the window by folds of any length), `calc_l` / `calc_r` through the window from and into the bulks, `simple_renorm`, growing on either side by any number of cells of any length (tensor of every site, dimensions, environments at the ends, Hamiltonian terms of the TDVP class):",
  why="canonical form rests on iterative fixed points of the bulks",
  bounded="lookup at any site, growing, canonical form, norm, bulks of different dimension and block length, overlap of windows."),
 "C22": dict(proved="the component of a pair of sites (`calc_BB_Y_2s`, the factorised and the three-site version) is its contraction, with its norm; `calc_BB_2s`: the product of the two new blocks is the leading part of the component (largest singular values above the tolerance, at most the limit) between the inverse roots; the methods over a chain of any length (which neighbours, roots, bases and Hamiltonian tensors go together, where there is no component, the limit from `dD_max` and `D_max`); `take_step(dynexp=True)`: every site's old block makes an ordinary step, the new blocks carry `-i sqrt(dtau)` times the two halves, the rest is empty, and the bond dimensions grow by what was found (both gauges):",
  bounded="new blocks against the best rank-k approximation of the dense two-site component, norm, caps, existing blocks against an ordinary step; finite, uniform, window.",
  open="uniform blocks and windows are checked at run time only; the SVD is assumed (its product, isometries, descending values). `dynexp` with `D_max=0` on windows never expands (left as is, undocumented)."),
 "C23": dict(proved="`take_step_dissipative`: the Hamiltonian of the step is `-i h_n` plus, for each jump operator at site n, `-1/2 L^+ L + (conj<L> + W/dt) L` with `W = sqrt(dt) (z + i z')/sqrt 2` and two standard normal draws of its own; for a chain of any length, two- and three-site terms given as list (any missing), function or not at all, up to two jump operators at the same or different sites; the derived tensors are recalculated for it, the step is taken with length `-dt` and the caller's options; the stored Hamiltonian is the object from before with unchanged terms, jump operators are untouched:",
  open="the step itself is `take_step` (C14); the generator's distribution is assumed; the number of jump operators is 0, 1 or 2.",
  bounded="step with the library's random generator replayed: drift + noise per jump operator, variance by construction of the increments, Hamiltonian restored also after an exception-free step of every kind, jump operators untouched."),
 "C24": dict(why="fixed points and SVD",
  bounded="fidelity against dense transfer spectra, phase/gauge alignment, blocking, truncation, enlargement and shrinking of local and bond dimension."),
}
