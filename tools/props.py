"""The properties, as data (source of properties.jsonl and MANIFEST.json)."""

D = "surface_potential_analysis/"
NOT_APPLICABLE = {}


def P(id, title, statement, over, qtext, why, files, mechanism, technique, note, **extra):
    anchors = {"files": [D + f for f in files], "mechanism": mechanism}
    anchors.update(extra)
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": anchors, "technique": technique, "level_note": note}


PROPS = [
    P("C01", "Cached results are transparent, current and crash-safe",
      "A call through the result cache returns exactly what an evaluation of the wrapped function for the same cache path returned: loading modes return the last saved result without evaluating whenever one exists (also when it is falsy), the other modes evaluate exactly once, only the caching modes save, and without a path nothing is loaded or saved. "
      "A failing function, a failing save, a process dying part-way through a save, and concurrent callers never make a later call fail or return a damaged or foreign result, and exceptions of the function reach the caller unchanged. "
      "The timing decorator changes neither arguments, results nor exceptions.",
      ["histories", "crash_points", "schedules", "fault_sequences"],
      "every history of cached calls (four modes, direct or by default mode, any argument, any path layout), file deletions, failing evaluations and saves, deaths at any byte of a save, and every interleaving of concurrent callers at the points where they can overlap",
      "No test touches the cache; histories, interleavings and crash points cannot be sampled by single-call tests.",
      ["util/decorators.py"],
      "CachedFunction.{call_cached,call_uncached,load_or_call_cached,load_or_call_uncached,__call__}, cached, npy_cached, timed",
      "TLA+ model of the cache checked by TLC; exhaustive history and schedule replay, trace validation of recorded histories with killed processes",
      "Exhaustive over histories of 3 calls (4 thorough) for two arguments and four path layouts, and over all interleavings of 2 (3) callers at load/evaluate/save/publish granularity; recorded longer histories with crashes are validated by TLC. Trusts the file system's rename atomicity and that pickling is deterministic.",
      state=[{"name": "store", "meaning": "per cache path, the result a reader would load"}]),

    P("C02", "Basis conversion preserves the represented vector",
      "Converting coefficients between two bases over the same fundamental grid gives the inner products of the represented vector with the new basis functions: exact relabelling between position-like or between momentum-like bases, the unitary discrete Fourier transform (exp(+2 pi i k x / N) / sqrt(N) for the plane waves) between the two, a product over the axes of stacked (also nested) bases, and the given rows for explicit bases. "
      "Truncated and evenly spaced bases select exactly their documented indices. Conversion of vectors, duals and matrices acts on the named axis only, leaves the input unchanged, round-trips between complete bases, composes, and keeps inner products; converting to the same basis returns the same values; shapes that do not match are refused. A basis by itself converts to and from the positions and the momenta of its whole grid in the same way.",
      ["configurations", "inputs"],
      "every pair of (truncated, transformed, evenly spaced, explicit, stacked, nested) bases over the same grid, every axis of an array of any rank, every coefficient array",
      "Tests convert a handful of shapes; the number of class pairs, sizes, axes and truncations multiplies.",
      ["basis/basis_like.py", "basis/basis.py", "basis/evenly_spaced_basis.py", "basis/explicit_basis.py", "stacked_basis/conversion.py", "basis/stacked_basis.py", "basis/block_fraction_basis.py", "basis/time_basis_like.py", "basis/momentum_basis_like.py"],
      "convert_vector, convert_dual_vector, convert_matrix, __into_fundamental__/__from_fundamental__/__as_transformed__/__into_transformed__/__from_transformed__, ExplicitBasis, ExplicitStackedBasisWithLength, TupleBasis",
      "TLA+ definition of conversion as exact inner products of basis functions (TLC, exact roots of unity), replayed on the real classes; TLC-generated conversion pipelines",
      "Exact matrices for every pair of leaf bases up to 6 (8 thorough) grid points, stacked pairs up to three axes, explicit bases with Gaussian-integer rows, and random conversion pipelines whose coefficients TLC tracks; numerical tolerance 1e-9."),
    P("C03", "Typed containers transform covariantly",
      "Changing the basis of a state vector, dual vector, list of states, operator, diagonal operator, list of operators, noise operator list, probability vector, potential, isotropic kernel, overlap or wavepacket re-expresses the same abstract object: vector legs transform with the conversion, dual legs with its conjugate, list labels and eigenvalues are untouched; the same holds when a leg is in an explicit basis of given states, real or not, orthonormal or not. "
      "The returned container names the requested basis, the argument is not modified, and the fixed-target variants (to position, to momentum) agree with the general ones. Traces, pairings and operator action are therefore independent of the basis.",
      ["configurations", "inputs"],
      "every container kind, every pair of stacked or explicit bases on the same grid, every content",
      "No test covers these conversions beyond two; each has its own leg layout to get wrong.",
      ["state_vector/conversion.py", "operator/conversion.py", "kernel/conversion.py", "potential/conversion.py", "probability_vector/conversion.py", "overlap/conversion.py", "wavepacket/conversion.py"],
      "convert_*_to_basis, convert_*_to_position_basis, convert_*_to_momentum_basis of each container",
      "TLA+ tensor-leg model of all containers (exact, TLC invariants: trace, pairing, covariance), replayed on every conversion function",
      "Sixteen container kinds on systematically sampled pairs of stacked bases up to three axes and twelve points, truncated ones included; numerical tolerance 1e-9; explicit bases of complex (not orthonormal) and of orthonormal states, up to four points."),
    P("C04", "Grids, lattices and index conventions are consistent",
      "For every stacked basis the utilities describe one lattice: positions are sums of index times lattice vector over grid size, wavevectors are sums of index times reciprocal vector with b_i . a_j = 2 pi delta_ij in any handedness, volumes are absolute determinants, momentum indices follow FFT order 0, 1, .., -2, -1, flat and stacked indices are inverse row-major maps (wrapping only when asked), and fundamental quantities use the fundamental grid. "
      "Bases derived from others (fundamental, transformed, single point, given shape or resolution) keep the lattice and the sizes asked for. Time, momentum and bloch-fraction samples lie at offset + i * step intervals, and the midpoint of two points of a ring is taken along the shorter arc.",
      ["configurations", "inputs"],
      "every lattice of one to three dimensions (skewed, left-handed, negative), every basis shape, every index",
      "Tests cover a few points of a few lattices; conventions interact across axes and sizes, odd and even.",
      ["basis/util.py", "basis/conversion.py", "stacked_basis/conversion.py", "stacked_basis/build.py", "stacked_basis/util.py", "basis/time_basis_like.py", "basis/block_fraction_basis.py", "basis/momentum_basis_like.py"],
      "BasisUtil, get_twice_average_nx, basis_as_*, stacked_basis_as_*, position_basis_*, momentum_basis_3d_from_resolution, EvenlySpacedTimeBasis, FundamentalBlockFractionBasis",
      "TLA+ model of lattices and index orders in exact integer arithmetic (duality, bijection and FFT-order invariants by TLC), replayed on BasisUtil and all derivation helpers",
      "Exact for 840 (1220 thorough) lattice and basis combinations up to three axes plus all sampling grids up to n=6 (9), step 4, offset 6."),

    P("C05", "Fourier and spline interpolation reproduces the band-limited signal",
      "Padding or truncating Fourier coefficients keeps the value at each retained frequency and zero-fills the rest, for any list of axes. Interpolating periodic samples to another number of points gives the values of the trigonometric polynomial with the frequencies both grids represent, so it passes through the samples at common points, keeps constants, and gives real values for real samples; doing it on several axes equals one axis after the other, in any order. "
      "Non-uniform and spline interpolation evaluate the same periodic function at the requested points along the requested axis, spline interpolation reproduces cubic polynomials exactly, and the arguments are never modified.",
      ["configurations", "inputs"],
      "every number of samples and points (odd and even, more or fewer), every axis list of arrays of any rank, complex and real samples",
      "Tests interpolate two shapes; odd/even, up/down, axis order and one-sided storage combine.",
      ["util/interpolation.py", "basis/basis_like.py", "state_vector/conversion.py"],
      "pad_ft_points, pad_ft_points_real, interpolate_points_fftn, interpolate_points_rfft(n), interpolate_points_along_axis_spline, interpolate_real_points_along_axis_fourier, interpolate_state_vector_momentum",
      "TLA+ definition of frequency-keeping interpolation (exact exponents, TLC invariants), replayed on every interpolation function",
      "All pairs of sizes up to 6 (9 thorough) exactly, sampled arrays up to rank 3 with any axis order; splines against the exact cubic. Tolerance 1e-9."),
    P("C06", "Periodic wrapping, Bragg folding and path distances respect the lattice",
      "Wrapping indices or points around an origin returns the representative of the same lattice class nearest (in index) to that origin and leaves other axes alone; folding a momentum into the first Brillouin zone returns the equivalent wavevector of least length and keeps it if it is already inside; Bragg planes and points are those of the reciprocal lattice. "
      "Distances along index paths are those of the true (skewed) lattice vectors between consecutive points, wrapped to the nearest image when asked, cumulative distances are their running sums, and coordinates used for slices and projections are an isometric image of the lattice plane.",
      ["configurations", "inputs"],
      "every lattice of one to three dimensions, every origin, index, path and axis pair",
      "Tests cover distances on one or two lattices.",
      ["basis/util.py", "basis/brillouin_zone.py", "stacked_basis/brillouin_zone.py", "stacked_basis/util.py", "stacked_basis/build.py"],
      "wrap_index_around_origin, wrap_x_point_around_origin, calculate_distances_along_path, calculate_cumulative_{x,k}_distances_along_path, get_*_coordinates_in_axes, get_bragg_plane, fold_point_in_bragg_plane, decrement/increment_brillouin_zone",
      "TLA+ integer-lattice model of wrapping, folding and paths (TLC), replayed on the geometry functions",
      "Exact for 1D to 3D integer lattices including skewed ones, all origins of grids up to 8 points and generated paths."),
    P("C07", "Selections, slices and reductions pick exactly the named part",
      "Selecting an item, a diagonal, a band, a time, a slice along axes, or a single index of any list-like object returns exactly the entries named by the row-major index convention, in the order of the requested axes, with the basis of the selected part. Building a list from items and taking it apart again is the identity. "
      "Sums and averages over axes reduce exactly the named axes (all of them by default) and return a basis of what is left.",
      ["configurations", "inputs"],
      "every list-like container, every axis subset in any order, every index (flat, stacked)",
      "Tests cover nothing of this; axis order and default axes have many combinations.",
      ["state_vector/state_vector_list.py", "state_vector/util.py", "operator/operator.py", "operator/operator_list.py", "probability_vector/probability_vector.py", "state_vector/eigenstate_list.py", "wavepacket/get_eigenstate.py", "util/util.py"],
      "get_state_vector, get_state_along_axis, get_probability_along_axis, sum_probability, average_eigenvalues, select_operator, slice_along_axis, slice_ignoring_axes, get_data_in_axes",
      "TLA+ model of row-major selection and reduction (TLC), replayed on every selection function",
      "Shapes up to three axes, all axis subsets and orders sampled by TLC; exact integer data."),
    P("C08", "Operator algebra and functions of operators",
      "Products, sums, differences, scalings, commutators and anticommutators of operators, diagonal operators and lists of them are those of the abstract operators: where operands meet in different bases over one grid the stated one is re-expressed, lists act member by member, and the result names the bases of its outer legs. "
      "Applying an operator to states gives the normalised image and its norm. exp and any function f of an operator equal the sum of f(eigenvalue) times the eigenprojector; eigenvectors returned are normalised, complete and (hermitian) orthonormal with ascending eigenvalues and any index subset; rebuilding an operator from its eigenstates, and changing to its eigenbasis, are exact. Operands are never modified.",
      ["configurations", "inputs"],
      "every operand content, list length, and combination of stacked bases (truncated too) of the legs; every diagonalisable operator",
      "No test covers any of these.",
      ["operator/operations.py", "operator/operator.py", "operator/operator_list.py", "state_vector/eigenstate_calculation.py"],
      "matmul_*, add_*, subtract_*, get_commutator*, get_anti_commutator, apply_operator_to_state(s), exp_operator, apply_function_to_operator, calculate_eigenvectors(_hermitian), operator_from_eigenstates, get_eigenstate_basis*",
      "TLA+ operator algebra over Z[exp(i pi/6)] with exact spectral projectors (TLC: trace, adjoint, associativity, resolution of identity), replayed",
      "About 830 (2000 thorough) operand/basis combinations up to 4 (6) grid points and 96 exact spectral decompositions; tolerance 1e-9 (1e-7 spectral). Operands of plain matmul/add meet in the same basis, as typed."),

    P("C09", "Displacements on a periodic grid, and kernels built from them",
      "Displacements between grid points, as indices or lengths, along one axis or stacked, are differences modulo the period brought within half a period of zero (an origin is subtracted first), depend only on the difference of the points, and name the position basis of the fundamental grid. "
      "Isotropic and axis kernels built from a function hold that function of the distance from state 0; Gaussian and Lorentzian kernels are a^2 exp(-d^2 / 2 lambda^2) and a^2 lambda^2 / (d^2 + lambda^2) of the periodic distance in space (every axis wrapped by itself). Parameters matched to a friction coefficient satisfy a / lambda = sqrt(2 eta k T) / hbar, with lambda the stated fraction of the shortest lattice vector (half of it for the Lorentzian).",
      ["configurations", "inputs"],
      "every grid of one to three axes (truncated or transformed bases, vectors of any direction), every origin, every pair of points",
      "No test covers these functions; the window, odd and even sizes and axis order interact.",
      ["operator/build.py", "kernel/build.py", "kernel/gaussian.py", "kernel/lorentzian.py"],
      "get_displacements_x(_stacked), get_displacements_matrix_nx(_stacked), get_displacements_matrix_x(_stacked), get_total_displacements_matrix_x_stacked, build_*_kernel_from_function*, get_gaussian_*_kernel, get_effective_*_parameters",
      "TLA+ integer model of periodic displacements (TLC: window, antisymmetry, homogeneity, nearest image), replayed on the real functions",
      "All grids of one axis up to 7 (9 thorough) points with five origins, sampled grids of two and three axes up to 12 (18) points. Lattices not aligned with the axes are a recorded finding. Tolerance 1e-9."),
    P("C10", "Norms, inner products, expectation values and averages of states",
      "The inner product is conjugate-linear in the first state and re-expresses the second in the basis of the first; norms, tables, elementwise and eigenvalue-scaled products are those of the states. Expectation values (of an operator, a diagonal operator, over a list) are <a|O|a> whatever pair of bases O is written in; duals conjugate, weighted sums do not. "
      "Averages over label axes keep the other labels in order and honour weights. Single point states are distinct normalised points, basis states are the identity, and free localised states are orthonormal, equally spread over the lowest momenta and centred at the equally spaced points of the cell around the origin.",
      ["configurations", "inputs"],
      "every state, operator and combination of stacked (truncated, sampled, transformed) bases over one grid; every label shape, axis subset and weights",
      "No test covers these; conjugations and basis pairs combine.",
      ["state_vector/state_vector.py", "state_vector/state_vector_list.py", "state_vector/eigenstate_calculation.py", "state_vector/eigenstate_list.py", "state_vector/util.py"],
      "calculate_normalization, calculate_inner_product*, calculate_expectation*, calculate_operator_inner_product, get_weighted_state_vector, average_state_vector, as_(dual_)vector, get_basis_states, get_single_point_state_vector*, get_most_localized_free_state_vectors, get_eigenvalues_list",
      "TLA+ model of states over Z[exp(i pi/6)] in the bases of spec/Bases (TLC: hermitian, unitary, orthogonal), replayed on the real functions",
      "About 440 (900 thorough) state/basis combinations on grids of up to 6 points; tolerance 1e-9."),
    P("C11", "Noise kernels, their representations and their operators agree",
      "Full, diagonal, isotropic and per-axis forms of a noise kernel describe the same correlation K[ij,kl] = sum_s e_s conj(L_s[j,i]) L_s[k,l]: converting between them is exact and reversible where the kernel has the form, and a kernel that does not is refused. "
      "Every decomposition into operators (eigenvalue, Fourier, real Fourier, stacked, Taylor, per axis) gives the kernel back with one eigenvalue per operator; with fewer operators it gives the stated shorter-ranged or largest-eigenvalue part, and operators that do not repeat with the grid are refused unless asked for. Taylor operators of Gaussian and Lorentzian noise have the Taylor coefficients of that kernel. "
      "Finite-temperature operators are L - [H, L] / 4kT in any pair of bases, kernels convert covariantly, and sampled noise has zero mean and correlation hbar K, its split parts summing to it.",
      ["configurations", "inputs"],
      "every hermitian kernel (zero, degenerate, indefinite spectra), every operator list, every grid of one to three axes, every truncation",
      "No test covers any noise kernel.",
      ["kernel/kernel.py", "kernel/build.py", "kernel/conversion.py", "kernel/sample.py", "kernel/solve/_eigenvalue.py", "kernel/solve/_fft.py", "kernel/solve/_taylor.py", "kernel/gaussian.py", "kernel/lorentzian.py"],
      "as_*_kernel_from_*, get_*_kernel_from_*operators, get_periodic_noise_operators_*, truncate_*, get_temperature_corrected_*, convert_*kernel_to_basis, sample_noise_*",
      "TLA+ model of kernels over Z[exp(i pi/6)] with exact spectra (TLC: eigenpairs, discrete Fourier inversion, separability), replayed on the real functions",
      "235 exact kernels (more thorough) up to 6 (12) states; random samples are compared by their first two moments at eight standard errors from a fixed seed."),

    P("C12", "Wavepackets are Bloch states sampled over the Brillouin zone",
      "A wavepacket holds the periodic part of a Bloch state for every sample l of the zone, in any bases of samples and of the unit cell. Its states live on the grid of all cells: the state of sample l is non-zero at the momenta l + L s only, with the coefficients of the periodic part, and gets the phase exp(2 pi i l / L) when moved by one cell; the unfurled state is their sum over sqrt(samples). "
      "Lists of bands, single bands, slices, eigenvalues and averages keep each band's data; re-expressing samples and states is covariant; the Bloch states as a basis convert vectors exactly in both directions. Generated wavepackets hold the stated bands, in ascending energy, of the Hamiltonian at each sample; fewer samples keep their momenta; the tight binding state is the state within one cell of points around the origin.",
      ["configurations", "inputs"],
      "every number of samples and points along one to three axes, every basis of either (truncated, sampled, positions), every sample index in flat or stacked form",
      "Tests cover unfurling and the sample fractions of a few configurations; none of the lists, bases, bands or windows.",
      ["wavepacket/wavepacket.py", "wavepacket/get_eigenstate.py", "wavepacket/conversion.py", "wavepacket/eigenstate_conversion.py", "state_vector/util.py"],
      "unfurl_wavepacket(_list), get_wavepacket_state_vector, get_all_*, get_bloch_states, BlochBasis, get_states_at_bloch_idx, convert_wavepacket_*, generate_(uneven_)wavepacket, get_wavepacket_sample_fractions, get_tight_binding_state(s), get_bloch_hamiltonian, get_most_localized_state_vectors_from_probability",
      "TLA+ model of Bloch states over Z[exp(i pi/6)] (TLC: momenta in bijection, Bloch's theorem, unitarity), replayed on the real functions",
      "About 1600 (3000 thorough) sample/state configurations with 12 dividing the sizes of every axis, up to 36 (48) points; tolerance 1e-9."),
    P("C13", "Localized and Wannier states are the stated mixtures of Bloch states",
      "A localization operator mixes bands at every sample: the localized wavepackets, the Hamiltonian between localized states, and their diagonal and identity forms, are the stated products. Wannier state (i, o) is the sum over samples of localized state i, moved by o unit cells; with orthonormal bands and unitary operators they form an orthonormal basis, and the full Wannier Hamiltonian is the Bloch Hamiltonian in that basis, in its order. "
      "An operator from projections is the unitary closest to the overlaps of bands and projections (for one band: their phase). Localizing at an index gives every Bloch state the stated phase there and changes nothing else. Position operator states are orthonormal mixtures in which position is diagonal, in ascending order. Evenly spaced, single point, Gaussian and exponential states are centred where stated.",
      ["configurations", "inputs"],
      "every operator content, number of bands and states, sample grid of one to three axes and basis of the unit cell; every index in any cell",
      "No test covers localization.",
      ["wavepacket/localization_operator.py", "wavepacket/get_eigenstate.py", "wavepacket/localization/_projection.py", "wavepacket/localization/_operator.py", "wavepacket/localization/_tight_binding.py"],
      "get_localized_wavepackets, get_wannier_states/basis/hamiltonian, get_full_wannier_hamiltonian, get_localization_operator_for_projections, localize_*, get_evenly_spaced_points, get_gaussian_states",
      "TLA+ model of Wannier states over Z[exp(i pi/6)] (TLC: orthonormal, moved by cells, hermitian with the trace kept), replayed on the real functions",
      "About 1760 (3500 thorough) configurations up to 36 (48) points, three bands; tolerance 1e-9. Projected operators are characterised by their overlaps (isometry, positive product)."),
    P("C14", "Incoherent tunnelling conserves probability and gives the stated ISF",
      "A jump matrix (rate from band n0 to n1 with each of nine hops) defines one walker on every torus of cells: A[i, j] sums the rates of all hops from state i to state j, the master equation is M = A^T - diag(sum_k A[i, k]), fewer bands are the leading part, and the jumps are read back from the rates of at least three by three cells; arguments stay as they are. "
      "Occupations evolve as exp(M t) p, probability is conserved at all times, the equilibrium is the stationary state. The ISF is the average of exp(i dk . x) over displacements, from the mean start to each state, brought to the nearest image of the torus; its equilibrium averages weigh the bands by their stationary occupation. Fey's models are those of the two-site chain, and a fit of data that its model describes returns that data.",
      ["configurations", "inputs"],
      "every rate of every hop (one-way, absent, sparse), torus, number of bands, unit cell, location of the bands, start, time and wavevector",
      "No test covers the tunnelling simulation.",
      ["dynamics/incoherent_propagation/tunnelling_matrix.py", "dynamics/incoherent_propagation/eigenstates.py", "dynamics/incoherent_propagation/isf.py", "dynamics/isf.py", "dynamics/tunnelling_basis.py", "dynamics/util.py"],
      "get_jump_matrix_from_*, get_a_matrix_*, resample_tunnelling_a_matrix, get_tunnelling_m_matrix, calculate_tunnelling_*, get_equilibrium_state, calculate_isf_*, get_hop_shift, build_hop_operator, fit_isf_to_*, TunnellingSimulationBandsBasis.from_wavepackets",
      "TLA+ model of the walker with exact integer rates (TLC: conservation, homogeneity, stationary weights by the matrix tree theorem), replayed on the real functions; evolution is compared with the matrix exponential of the specified rates",
      "About 860 (1160 thorough) walkers on tori up to 4 x 4 cells with three bands; tolerance 1e-7 after evolution. Fits are judged on exact data near the starting point only."),
    P("C15", "Hamiltonians are the stated operators",
      "The kinetic energy of a particle of mass m is diagonal in momenta with hbar^2 |k + bloch fraction|^2 / 2m for any (also skewed) lattice, momentum n being that of the basis and the fraction counted in reciprocal lattice vectors; a potential is diagonal in positions. Both, and their sum, are re-expressed in whatever basis the potential is given in (truncated, sampled, momentum or position). "
      "The Hamiltonian over a stack of layers is the same operator restricted to plane waves in the surface and the lowest states of the layer of the minimum; that of oscillator states is the same operator restricted to them. Layer states are the lowest eigenstates of their layer; oscillator states are Hermite functions of the distance along the direction, seen from the stated origin. Arguments stay as they are.",
      ["configurations", "inputs"],
      "every lattice of one to three axes, bloch fraction (negative, beyond the zone), basis, mass, potential; every number of plane waves, layer or oscillator states",
      "Tests cover the surface Hamiltonian of flat one-axis potentials and compare two implementations on one configuration.",
      ["hamiltonian_builder/momentum_basis.py", "hamiltonian_builder/explicit_z_basis.py", "hamiltonian_builder/sho_subtracted_basis.py", "stacked_basis/potential_basis.py", "stacked_basis/sho_basis.py"],
      "hamiltonian_from_mass(_in_basis), hamiltonian_from_potential, total_surface_hamiltonian, select_minimum_potential_3d, get_potential_basis_config_*, sho_axis_3d_from_config, calculate_sho_wavefunction, get_sho_*",
      "TLA+ model of Hamiltonians over Z[exp(i pi/6)] and integer lattices (TLC: hermitian, trace, shift by a reciprocal lattice vector), replayed on the real functions",
      "The compiled extension hamiltonian_generator is not in the repository: a stand-in defined by its python counterpart is used. Sizes up to 12 (24) points; tolerance 1e-9 relative."),
    P("C16", "Quantum evolution keeps norm and energy, and solvers get the stated problem",
      "A state evolves as exp(-i H t / hbar) psi at every stated time (any step and offset, backwards too), for any Hermitian Hamiltonian, degenerate or zero included: norm and energy are kept, eigenstates only change phase, and evolving twice is evolving for the sum. A diagonal Hamiltonian evolves the state re-expressed in its basis; a numerical integration agrees. "
      "Stochastic solvers (qutip, dense and banded compiled ones) are handed the same problem: H / hbar, L / sqrt(hbar), the fundamental time step and the number of steps, trajectories and realizations, up to the common rescaling of time, with nothing lost in the banded form; the trajectories come back in order. The localized solver replaces realizations by a normalized eigenstate of their average, drawn by its occupation, at every output time. "
      "Collapse operators built from rates are one jump each, with the stated amplitude and direction. Arguments stay as they are.",
      ["configurations", "inputs", "histories"],
      "every Hamiltonian, state, time grid and set of collapse operators",
      "No test covers any of the dynamics.",
      ["dynamics/schrodinger/solve.py", "dynamics/stochastic_schrodinger/solve.py", "dynamics/util.py"],
      "solve_schrodinger_equation(_decomposition, _diagonal), get_state_vector_decomposition, solve_stochastic_schrodinger_equation(_rust, _rust_banded, _localized), get_(simplified_)collapse_operators_from_*",
      "TLA+ model of exact evolution over Z[exp(i pi/6)] (TLC: norm and energy conserved, additive, stationary states, bands hold all), replayed on the real functions",
      "The compiled sse_solver_py and qutip.ssesolve are replaced by noiseless exact evolution of what they are handed; the accuracy of noisy integration is not judged. dynamics/diagonalized_stochastic_schrodinger depends on an extension whose contract is not in the repository and is not covered."),
    P("C17", "Overlaps of states are the stated products and transforms",
      "The overlap of states i and j at a point is conj(psi_i(x)) psi_j(x - shift) on a grid that is periodic along each axis, for lists of states, pairs and lists of wavepackets (at the positions of all their cells), in the order (point, i, j); without a shift it is hermitian, its diagonal holds the probabilities and sums to the norms. "
      "Its momentum transform at any wavevector, given as coordinates, as fractions of the reciprocal vectors or within the surface plane, is the sum over points (images nearest to the origin in the surface) of exp(i k . x) times the overlap; keeping n points keeps the n largest. The average over angles is that of the squared modulus. No two stored overlaps share a file name. Arguments stay as they are.",
      ["configurations", "inputs"],
      "every grid of one to three axes (different sizes along each), shift, number of states, wavevector (also between grid points), number of angles, pair of bands and cells",
      "Tests of overlaps do not import; none covers shifts or wavepackets.",
      ["overlap/calculation.py", "overlap/interpolation.py", "overlap/overlap.py", "probability_vector/probability_vector.py"],
      "calculate_(wavepacket_)(list_)overlap, calculate_state_vector_list_overlap, get_single_overlap, get_overlap_momentum_interpolator(_k_fractions, _flat), get_angle_averaged_diagonal_overlap_function, get_overlap_cache_filename, from_state_vector(_list)",
      "TLA+ model of overlaps over Z[exp(i pi/6)] (TLC: hermitian, norms, image-independence on the reciprocal lattice, names in bijection), replayed on the real functions",
      "About 4200 (5500 thorough) configurations up to 24 (36) points; tolerance 1e-9."),
    P("C18", "A potential is the same function of position, however stored, sampled or cut",
      "A potential re-expressed in any basis, or evaluated at any position in or between the points of the grid, is the function whose Fourier coefficients (wavevectors nearest zero) it holds, periodic in the lattice; its derivative along a cartesian axis is that of the same function. A potential sampled at uneven heights is put on an even grid by Fourier interpolation in the surface and a cubic spline through the heights, from the first to the last. "
      "Cutting large values and undoing it are inverse for every cutoff, offset and exponent; normalizing subtracts the lowest value. Potentials loaded from files hold the values, lattice vectors and heights of the file in row-major order and can be converted. High symmetry sites lie at thirds, sixths and halves of the cell (111), halves (100), plus the offset; the lowest path takes the first lowest point along its axis above each (periodic) point of the path, in position space. Positions of an irregular potential are listed once. Arguments stay as they are.",
      ["configurations", "inputs"],
      "every grid of one to three axes, basis (truncated, sampled, momentum or position), position, set of heights, new shape, cutoff, site offset and path",
      "Tests cover the interpolation helpers at a few shapes; none covers conversion, continuous evaluation, files or cutoffs.",
      ["potential/potential.py", "potential/conversion.py", "potential/_comparison_points.py", "potential/point_potential.py", "potential/plot.py"],
      "convert_potential_to_*, get_continuous_potential, get_potential_derivative, interpolate_uneven_potential, (undo_)truncate_potential, load_*, get_*_comparison_points_x2, get_minimum_path, get_point_potential_xy_locations",
      "TLA+ model of potentials over Z[exp(i pi/6)] and integer cubics (TLC: periodic, agrees with the grid, samples kept, lowest), replayed on the real functions",
      "About 2000 (3200 thorough) configurations up to 24 (36) points; splines on cubic polynomials, for which they are exact; tolerance 1e-9 (1e-8 for splines)."),
    P("C19", "Averages of states and trajectories are those of the stated quantity",
      "The mean position, mean wavevector and mean turn exp(2 pi i x / L) of states, on any number of axes and in any basis, are expectation values over their probabilities in positions or momenta; the angle of the turn places a state in the cell and its size gives the spread sqrt(-4 (L / 2 pi)^2 log |turn|). A state that hops around the cell by less than half of it at a time covers the sum of its hops, each trajectory on its own from the same cell. "
      "Mean squared displacements, scattering functions exp(-i k dx) and drifts average over all pairs of records a given lag apart, at times that are the lags; they vanish (or are one) at no lag. The occupations of the eigenstates of a Hamiltonian are squared amplitudes, in order of energy counted from the lowest. Averages over trajectories are drawn at their times with their standard error, whatever is measured. States and positions stay as they are. The scale, measure and range of colours asked for each change their own part of a chart and nothing else.",
      ["configurations", "inputs", "histories"],
      "every basis of one to three axes, list of states, walk around the cell, recorded trajectory (any length and number), lag and Hamiltonian",
      "No test covers these functions.",
      ["state_vector/plot.py", "state_vector/plot_value_list.py"],
      "get_periodic_x_operator, get_coherent_coordinates, get_average_displacements, get_average_isf, get_(average_normalized|normalized_average)_drift, plot_*averaged_occupation_*, plot_spread_*, plot_*eigenstate_occupation*, plot_*value_list_against_*",
      "TLA+ model of expectation values, walks and lag averages over Z[exp(i pi/6)] (TLC: walk agrees with the position, nothing moves in no time, occupations add to the norm), replayed on the real functions and on the curves they draw",
      "About 2900 (4200 thorough) configurations up to 24 (36) points; the sign of drifts is not stated and only their size is judged."),
    P("C20", "Pictures of data on a grid show every value at its place",
      "Curves, meshes and animations of data in any basis on one to three axes show the measured value (real, imaginary, size or angle) of the data in positions or momenta, each against its own position or wavevector. Positions follow the lattice, momenta ascend from the most negative; a curve closes with its first value one step on; a plot over several axes is in the order of axes asked for, at the indices given or those of the largest value. "
      "An animation has one frame for each point of its axis (or each entry of a list), one colour scale, and every frame the right values. Along a path values are those of its points (beyond the cell: their images) against the distance covered, each step as it is or the shortest way round; the lowest path has the lowest value of every column. Colour limits, heights in view and scales fit what is drawn; everything is drawn on the axes given and the data stay as they are. The scale, measure and range of colours asked for each change their own part of a chart and nothing else.",
      ["configurations", "inputs"],
      "every basis of one to three axes, choice of axes and indices, measure, scale and path",
      "No test draws anything.",
      ["util/plot.py", "state_vector/plot.py", "potential/plot.py", "probability_vector/plot.py", "overlap/plot.py", "operator/plot.py", "kernel/plot.py", "state_vector/state_vector_list_plot.py", "stacked_basis/util.py"],
      "plot_data_1d(_x/_k/_n), plot_data_2d_x/_k, animate_data_through_*, plot_state_*, animate_state_*, plot_potential_*, animate_potential_*, get_minimum_path, plot_probability_*, plot_overlap_*, plot_*operator_along_diagonal*, plot_isotropic_*",
      "TLA+ model of what is drawn of data on a grid (TLC: every point once and in order, curves close, the shortest way is shortest), replayed on the plotting functions; the artists they add are compared with the points of the model",
      "About 1200 (1350 thorough) configurations up to 12 (16) points, each through several functions."),
    P("C21", "Wannier90 is handed the right problem and its answer is read back",
      "The surface writes the cell, the grid and the samples of the zone, the overlaps <u_m(k)|u_n(k+b)> for every neighbour k + b = k2 + G that Wannier90 lists (with G left out along ignored axes), and the projections <psi_m(k)|g_n> when there are any, in the order and form of Wannier90's file formats. The matrices U it answers with become the localization operator whose states are sum_m U_mn psi_m. "
      "Setup comes before localization; a single band at a time gives the diagonal operator of the answers; when Wannier90 does not start the user is asked to run it and the files are read afterwards; nothing is left behind. Mirror and exchange operations map samples to samples and are their own inverse.",
      ["configurations", "inputs", "histories"],
      "every list of bands on one to three axes in any basis, grid of samples, choice of ignored axes, projections and answers of Wannier90",
      "No test covers the exchange; Wannier90 is not installed.",
      ["wavepacket/localization/_wannier90.py"],
      "get_localization_operator_wannier90(_individual_bands), localize_wavepacket_wannier90, Wannier90Options, x0_symmetry_op, x0x1_symmetry_op",
      "TLA+ model of the exchange with Wannier90 over Z[exp(i pi/6)] (TLC: steps are one apart and reversible, overlaps of opposite steps are adjoint, a band about one point has the phases of its steps), replayed against a stand-in for the program that parses what the code writes and answers from the model",
      "About 1000 (1500 thorough) sessions with up to three bands and 24 (36) points."),
    P("C22", "Charts of spectra, counts and probabilities show the numbers they are given",
      "Occupations of eigenstates halve with every k T ln 2 above the lowest energy and sum to one, whether the states or the operator are given; eigenvalues are shown in order of size; counts of entries, diagonals or eigenvalues rise by one at each size and end at all of them; errors of truncation are the sums of the weakest strengths, and a truncated list keeps the strongest; "
      "samples of noise are made of the operators kept, each with its strength; histograms count every value once; probabilities per band, per site, in total and averaged over repeats are sums of those given; rates come in order of the part of the state which decays with them. No chart changes what it is given, and each draws the same on an axis of its own. The scale, measure and range of colours asked for each change their own part of a chart and nothing else.",
      ["inputs", "configurations"],
      "every list of energies, matrix, kernel, recorded values and probabilities; every measure and scale; a given axis or none",
      "Charts are not tested; a chart which shows other numbers than those computed misleads without failing.",
      ["operator/plot.py", "kernel/plot.py", "state_vector/eigenvalue_list_plot.py", "state_vector/plot_value_list.py", "dynamics/plot.py", "dynamics/isf_plot.py", "dynamics/incoherent_propagation/plot.py", "probability_vector/plot.py", "util/squared_scale.py", "state_vector/plot.py"],
      "plot_eigenstate_occupations, plot_eigenvalues, plot_operator_sparsity, plot_operator_diagonal_sparsity, plot_kernel_sparsity, plot_kernel_truncation_error, plot_*noise*, plot_value_list_*, plot_probability_*, plot_isf_*, plot_rate_decomposition_against_temperature, SquaredScale",
      "TLA+ model of the numbers of each chart over Z[i] (TLC: occupations halve, diagonals hold each entry once, losses add to the trace, each value falls in one bin, bands and sites add to the same totals), replayed through the real plotting functions and read back from the drawn lines, bars and meshes",
      "About 750 (3200 thorough) spectra, matrices, kernels and histograms of up to 5 levels, 4 x 4 entries and 1300 values."),
    P("C23", "Charts of bands, effective masses and occupations follow from the bands",
      "Energies of bands against momentum and their transforms against displacement are those of the samples, in whatever basis the samples are kept; samples are drawn where they lie in the zone; charts of a wavepacket are those of its unfurled state. The effective mass of a band follows from the part of its energy which turns once with the samples, and so does the mass from localized states: all bands of a free particle have one mass, that of the particle up to the spacing of samples. "
      "A band is filled by the sum of exp(-E/kT) of its samples over that of all; the parts of a state in each band add to the state; no chart changes what it is given. The scale, measure and range of colours asked for each change their own part of a chart and nothing else.",
      ["inputs", "configurations"],
      "every list of bands on one to three axes in any basis of samples and states, direction, plane, choice of bands, measure and scale",
      "Charts and effective masses are not tested; a mass off by a factor which depends on the number of samples looks like physics.",
      ["wavepacket/plot.py", "state_vector/plot.py", "basis/block_fraction_basis.py", "wavepacket/wavepacket.py"],
      "plot_wavepacket_*, get_wavepacket_transformed_energy_effective_mass, get_wavepacket_localized_effective_mass, get_wavepacket_band_occupation, get_average_band_energy, plot_total_band_occupation_against_energy, plot_uneven_wavepacket_eigenvalues_1d_k, EvenlySpacedBlockFractionBasis",
      "TLA+ model of bands over Z[exp(i pi/6)] (TLC: a constant does not change a width, bands of a free particle widen exactly as the odd numbers, occupations halve, bands share the state), replayed through the real charts and functions; placement in charts against those judged by C20",
      "About 430 (1900 thorough) lists of bands with up to 36 (48) points and 12 samples."),
    P("C24", "Charts of points, sites and tables show what lies there, and nothing else",
      "Points of a plane of the grid or of its reciprocal grid are drawn where they lie, seen along the two directions asked for: those of the plane through the given index, all of them, once. The points of a film in its first Brillouin zone are each no nearer to a Bragg point than to the origin, one for each wavevector. "
      "A potential is drawn above each named site of a surface at that site, by heights or lengths, with offsets moving all sites together; each row of a table of energies is drawn once, at its location. A picture puts one bar beside its axes; charts given no axes open one figure and leave the others as they were. The scale, measure and range of colours asked for each change their own part of a chart and nothing else.",
      ["inputs", "configurations", "histories"],
      "every lattice in two or three dimensions, shape, pair of directions, index; every shape of surface and offset; every table; every order of charts on a canvas",
      "Charts are not tested; a point in the wrong place looks like a point.",
      ["stacked_basis/plot.py", "basis/plot.py", "potential/plot_uneven_potential.py", "potential/plot_point_potential.py", "potential/plot.py", "util/plot.py"],
      "plot_*_points_projected_2d, plot_fundamental_*_projected_2d, plot_explicit_basis_state(s)_x, plot_uneven_potential_z*, plot_potential_1d_x2_comparison_*, plot_point_potential_*, get_figure, get_axis_colorbar",
      "TLA+ model of points on integer lattices, sites and tables, and a state machine of charts on a canvas (TLC: planes partition the grid, folding ends in the first zone, rows are drawn once, bars and pictures agree in every history), replayed through the real charts",
      "About 430 (1700 thorough) lattices, surfaces and tables with up to 36 points; histories of three (four) charts."),
    P("C25", "Rates of electronic friction are the stated integrals",
      "The occupation integrand at wavevector k is N(E) (1 - N(E + omega)) for the Fermi function at the given Fermi wavevector and temperature, whatever the sign of omega; its integral runs over the wavevectors of the band from which omega leads to a state of the band, obeys detailed balance (exp(omega / kT) between omega and -omega), is omega / (1 - exp(-omega / kT)) over energies near the Fermi level and at low temperature counts the states which omega lifts above it. "
      "The potential integral is 4 m k_f^3 / (2 pi hbar)^3 int sin(phi) V(q)^2 overlap(q) dphi over phi from 0 to pi with q = k_f sin(phi / 2) and the screened Coulomb potential V, linear in the overlap, real or complex, at all sizes of k_f; the rate is the product of both.",
      ["inputs"],
      "every Fermi wavevector, temperature, omega of either sign and any size, and overlap as a function of q",
      "No test calls this module.",
      ["dynamics/hermitian_gamma_integral.py"],
      "get_hermitian_gamma_occupation_integrand, calculate_hermitian_gamma_occupation_integral, calculate_hermitian_gamma_potential_integral, calculate_real_gamma_integral",
      "TLA+ model in exact rationals (TLC: detailed balance, the telescoping of the occupation integral, closed form and scaling of the potential integral), replayed on the real functions",
      "Energies in steps of kT ln 2 up to 9, omega up to 6 kT ln 2 and (cold) up to beyond the band, overlaps (1 + (q / alpha)^2)^-a with a up to 3; tolerance 1e-4 for occupation integrals near the Fermi level, 1e-7 for potential integrals."),
]
