PBT = 'property-based testing'

prop('C04', 'Difference operators are their stencils and obey vector calculus',
     'Forward, backward and central differences, divergence, centred divergence, '
     'gradient tensor, curl and Laplacian equal their stencil definitions, with '
     'the correct offset, for every spacing, alignment and boundary condition. '
     'On periodic grids the divergence of a curl-derived velocity and the curl of '
     'a gradient vanish, divergence of gradient is the Laplacian, differences are '
     'adjoint up to sign, and the total of any divergence is zero (equal to the '
     'net wall flux otherwise). The operators are linear, translation invariant '
     'and exact on polynomials of the order of the scheme.',
     ['inputs', 'configurations'],
     'all fields, anisotropic grids in 1-3 dimensions, all offsets and boundary '
     'conditions',
     'tests compare a few analytic functions on fixed grids; algebraic identities '
     'must hold for every field and every grid',
     [B + 'finite_differences.py', B + 'boundaries.py'],
     [('difference stencils', B + 'finite_differences.py:stencil_sum')],
     ['results of each operator'],
     'Random exploration: stencil reference in numpy plus exact identities to '
     'rounding.', PBT + ': reference stencils and calculus identities')

prop('C05', 'Interpolation is exact, upstream-biased or bounded as documented',
     'Linear interpolation to any offset reproduces multi-linear fields, is the '
     'identity or a pure shift at aligned offsets, and never leaves the range of '
     'its neighbours; point interpolation returns the multi-linear interpolant, '
     'clamped or wrapped outside as requested. Upwind interpolation returns the '
     'neighbouring value on the upstream side of each face, Lax-Wendroff the '
     'half-step expansion, and limited interpolation blends them so that it '
     'stays between the two neighbours of the face for stable steps. Requests '
     'that move along several axes at once where only one is supported are '
     'rejected.',
     ['inputs', 'configurations'],
     'all fields, velocities of either sign and zero, all source and target '
     'offsets, boundary conditions, time steps within the stability limit',
     'tests use constant velocities and one or two offsets; sign changes, flat '
     'or extremal stencils and walls are sampled once or never',
     [B + 'interpolation.py'],
     [('linear', B + 'interpolation.py:linear'),
      ('upwind', B + 'interpolation.py:upwind'),
      ('limiter', B + 'interpolation.py:apply_tvd_limiter'),
      ('points', B + 'interpolation.py:point_interpolation')],
     ['interpolated values and offsets'],
     'Random exploration against per-face reference formulas.',
     PBT + ' against reference formulas and bounds')

prop('C06', 'Flux-form advection conserves, and matches its finite-volume scheme',
     'Advection of a scalar by centred, upwind, van Leer or flux-limited fluxes '
     'is minus the divergence of face flux (velocity times the interpolated '
     'value), so the total amount never changes on periodic domains or behind '
     'closed walls, and a uniform scalar is unchanged by a divergence-free flow. '
     'The two van Leer formulations agree, and every scheme commutes with '
     'translations, axis permutations and reflections of the periodic flow. '
     'Advection of velocity by itself conserves momentum, component by component, '
     'and the advective time-step limit bounds displacement by the requested '
     'fraction of a cell.',
     ['inputs', 'configurations'],
     'all scalars, all (also non-solenoidal and sign-changing) velocities, '
     'anisotropic 1-3D grids, periodic and closed domains, time steps',
     'tests advect a Gaussian or a constant on fixed grids and check error '
     'growth; conservation and symmetry must hold for every field',
     [B + 'advection.py', B + 'interpolation.py'],
     [('flux form', B + 'advection.py:advect_general'),
      ('van Leer', B + 'advection.py:advect_van_leer')],
     ['advection tendencies', 'stable_time_step'],
     'Random exploration: independent numpy finite-volume model, conservation '
     'to rounding, metamorphic symmetries.',
     PBT + ': finite-volume reference model, conservation and symmetry')

prop('C07', 'Monotone advection schemes create no new extrema',
     'An explicit step of upwind advection in a divergence-free periodic flow '
     'within the CFL limit stays inside the range of the previous values, and '
     'one-dimensional van Leer and flux-limited steps additionally never increase '
     'total variation. Semi-Lagrangian advection stays inside the range of the '
     'previous values for every time step however large, leaves uniform fields '
     'unchanged and moves a field exactly by whole cells when the displacement '
     'is a whole number of cells. These bounds persist over any number of steps.',
     ['inputs', 'histories'],
     'all initial fields, all divergence-free velocities, Courant numbers up to '
     'the limit, repeated steps',
     'boundedness is a statement about all data; tests check total variation for '
     'one smooth profile',
     [B + 'advection.py', B + 'interpolation.py'],
     [('limiter', B + 'interpolation.py:van_leer_limiter'),
      ('semi-Lagrangian', B + 'advection.py:advect_step_semilagrangian')],
     ['fields after each step'],
     'Random multi-step histories with an invariant after every step.',
     PBT + ': step histories with range and variation invariants')

prop('C08', 'Diffusion dissipates, conserves and inverts exactly',
     'Explicit diffusion is the diffusivity times the Laplacian, conserves the '
     'total on periodic and insulated domains, decays every Fourier mode by the '
     'discrete rate, and within the advertised stable step creates no new '
     'extrema. Each implicit solver returns the field whose backward-Euler '
     'residual vanishes under the variable\'s boundary conditions, whatever the '
     'right-hand side, alignment or step size, keeps offset and boundary '
     'conditions, and all solver implementations agree. Implicit steps preserve '
     'the mean and are contractive.',
     ['inputs', 'configurations'],
     'all fields, diffusivities, step sizes, spacings, periodic, Neumann and '
     'Dirichlet conditions (also inhomogeneous where supported), 1-3 dimensions',
     'tests solve one or two problems per boundary type on fixed grids',
     [B + 'diffusion.py', B + 'fast_diagonalization.py', B + 'array_utils.py'],
     [('implicit solves', B + 'diffusion.py:solve_fast_diag')],
     ['residual of the implicit equation', 'totals', 'ranges'],
     'Random exploration; residual evaluated with the finite-difference '
     'Laplacian, not with the solver\'s matrices.',
     PBT + ': residual oracle and conservation invariants')

prop('C09', 'Fast diagonalization equals dense linear algebra',
     'Applying a scalar function of a sum of per-axis symmetric operators by fast '
     'diagonalization equals applying that function to the assembled dense '
     'operator, for every accepted implementation, and the pseudo-inverse '
     'satisfies the Moore-Penrose conditions including on singular operators. '
     'The one-dimensional Laplacian matrices equal the finite-difference '
     'Laplacian acting on unit vectors for every boundary condition and '
     'alignment. Invalid inputs (non-symmetric operators, wrong shapes, '
     'implementations that need circulant operators) are rejected.',
     ['inputs', 'configurations'],
     'random symmetric and circulant operators, sizes 1-8 per axis, 1-3 axes, '
     'real and complex data, all implementations, batch of right-hand sides',
     'tests check a few fixed operators; correctness of eigen-decompositions, '
     'cut-offs and axis order is a statement about all operators',
     [B + 'fast_diagonalization.py', B + 'array_utils.py'],
     [('diagonalization', B + 'fast_diagonalization.py:transform'),
      ('pseudo-inverse', B + 'fast_diagonalization.py:pseudoinverse'),
      ('Laplacian matrix', B + 'array_utils.py:laplacian_matrix')],
     ['operator applied to vectors'],
     'Random exploration against numpy dense eigen-decomposition.',
     PBT + ': differential against dense numpy linear algebra')

prop('C10', 'Pressure projection yields the divergence-free part',
     'Projecting any velocity, with any of the pressure solvers and any supported '
     'boundary conditions, gives a field whose discrete divergence vanishes to '
     'solver tolerance, that differs from the input by a discrete gradient, and '
     'keeps offsets and boundary conditions. The projection is idempotent, '
     'linear, leaves divergence-free input and its total momentum unchanged, '
     'removes pure gradients, and never increases kinetic energy. All solvers '
     'agree up to a constant in pressure.',
     ['inputs', 'configurations'],
     'all velocities, anisotropic grids in 2-3 dimensions, periodic, channel, '
     'and fully enclosed domains, every solver and implementation',
     'tests project a few fixed fields on square grids with loose tolerances',
     [B + 'pressure.py', B + 'fast_diagonalization.py'],
     [('projection', B + 'pressure.py:projection'),
      ('solvers', B + 'pressure.py:solve_fast_diag')],
     ['divergence, energy and momentum after projection'],
     'Random exploration with divergence, orthogonality and idempotence oracles.',
     PBT + ': projection laws (divergence, orthogonality, idempotence)')

prop('C11', 'Navier-Stokes stepping preserves the invariants of the flow',
     'Every step of the incompressible solvers, explicit or implicit in '
     'diffusion, returns a velocity on the same grid, offsets and boundary '
     'conditions with zero discrete divergence (between walls: whenever '
     'diffusion is explicit or absent), conserves total momentum on periodic '
     'domains without forcing, and changes it by exactly the applied force '
     'otherwise. Stepping commutes with periodic translations, axis '
     'permutations and reflections of the state, depends on viscosity and '
     'density only through their documented combination, and leaves uniform '
     'flow at rest or in constant motion. With viscosity and no force, '
     'energy decays within the stability limit, and the suggested time steps '
     'never exceed the advective and diffusive limits.',
     ['inputs', 'histories', 'configurations'],
     'all initial velocities, viscosities, densities, forcing, advection '
     'schemes, solvers and time integrators; any number of steps',
     'tests run a few canonical flows; the invariants must hold along every '
     'trajectory',
     [B + 'equations.py', B + 'time_stepping.py', B + 'pressure.py',
      B + 'advection.py', B + 'diffusion.py'],
     [('explicit equations', B + 'equations.py:semi_implicit_navier_stokes'),
      ('implicit diffusion',
       B + 'equations.py:implicit_diffusion_navier_stokes')],
     ['state after every step'],
     'Random short trajectories with invariants after each step and metamorphic '
     'symmetry pairs.', PBT + ': trajectory invariants and metamorphic symmetry')

prop('C12', 'Time integrators and trajectories are what they claim',
     'Each explicit Runge-Kutta integrator equals its Butcher tableau applied '
     'stage by stage with projection after each stage, is exact on polynomial '
     'forcing up to its order and reproduces its stability polynomial on linear '
     'problems. Repeating a step k times, scanning it, or building a trajectory '
     'of m frames with k inner steps equals calling the step the same number of '
     'times in order, with or without the initial frame and post-processing. '
     'Running in pieces equals running at once.',
     ['inputs', 'histories', 'programs'],
     'all right-hand sides, tableaux, step counts (including zero and one), '
     'splittings of a run, nested structures of state',
     'tests compare convergence rates and one trajectory length',
     [B + 'time_stepping.py', B + 'funcutils.py'],
     [('Runge-Kutta', B + 'time_stepping.py:navier_stokes_rk'),
      ('loops', B + 'funcutils.py:trajectory')],
     ['state sequences'],
     'Random linear/polynomial/non-linear systems against a numpy Runge-Kutta '
     'and plain Python loops.', PBT + ' against reference integrator and loops')

prop('C13', 'Coarsening a flow preserves fluxes, divergence and means',
     'Coarsening a staggered velocity by face averaging keeps it '
     'divergence-free if it was, and always carries the mean flux through '
     'every coarse face and total momentum, on the coarse grid over the same '
     'domain. Box-filtered coarsening preserves the mean of periodic fields, '
     'preserves constants compatible with the boundary conditions and '
     'commutes with translation by coarse cells. Spectral coarsening (by the '
     'same factor on every axis) keeps exactly the resolved Fourier modes; '
     'destinations that do not divide the source are rejected.',
     ['inputs', 'configurations'],
     'all velocities, coarsening factors per domain, 1-3 dimensions, anisotropic '
     'domains, boundary conditions',
     'tests coarsen one random field by one factor',
     [B + 'resize.py', B + 'array_utils.py'],
     [('face averages', B + 'resize.py:downsample_staggered_velocity'),
      ('filter', B + 'resize.py:top_hat_downsample'),
      ('spectral', B + 'resize.py:downsample_spectral')],
     ['coarse fields'],
     'Random exploration against block-average and Fourier truncation models.',
     PBT + ': conservation laws and reference block averages')

prop('C14', 'Array helpers agree with their numpy definitions',
     'Slicing, splitting and concatenating nested structures along an axis are '
     'inverse to each other and act leaf by leaf like numpy; block reduction '
     'applies the reduction to each block; unstacking returns the slices. '
     'One-dimensional interpolation agrees with linear interpolation inside the '
     'samples and with the requested fill or extrapolation outside, for every '
     'axis and query shape. Orthonormalization returns an orthonormal basis '
     'spanning the input together with triangular coefficients.',
     ['inputs'],
     'all shapes, axes (also negative), split points, block sizes, query points '
     'inside, on and outside the samples',
     'tests cover single literal arrays per helper',
     [B + 'array_utils.py'],
     [('helpers', B + 'array_utils.py:interp1d')],
     ['returned arrays'],
     'Random exploration against numpy/scipy.',
     PBT + ': differential against numpy')

prop('C15', 'Forcing and filtering act as documented on every grid',
     'Each body force equals its closed-form expression at the points where '
     'its velocity component lives, for every grid, scale, wavenumber, '
     'amplitude, offset and dimension, sums of forcings add, and linear drag '
     'is the coefficient times the velocity. Filtering in wavenumber space '
     'is linear, translation invariant, multiplies each Fourier mode by the '
     'given function of wavenumber (and removes the mean), and returns real '
     'fields for real input. Filtered forcings inject energy only in the '
     'selected wavenumber band.',
     ['inputs', 'configurations'],
     'all velocities, anisotropic 2-3D periodic grids with arbitrary domains, '
     'parameters of every forcing',
     'tests only check types, shapes and one statistic',
     [B + 'forcings.py', B + 'filter_utils.py', S + 'forcings.py'],
     [('forcings', B + 'forcings.py:kolmogorov_forcing'),
      ('filters', B + 'filter_utils.py:filter')],
     ['forcing fields', 'filtered spectra'],
     'Random exploration against closed forms and an independent DFT.',
     PBT + ' against closed forms and DFT reference')

prop('C16', 'Initial conditions are solenoidal, scaled and reproducible',
     'Generated turbulent initial velocities are divergence-free to solver '
     'tolerance, have the requested maximum speed, live on staggered offsets '
     'with the requested boundary conditions, and are a function of the random '
     'key only. Velocities built from functions are the projected samples of '
     'those functions. The reference vortex problem supplies a divergence-free '
     'velocity that the solver decays at the analytic viscous rate.',
     ['inputs', 'configurations'],
     'all random keys, grids (non-square, 2-3D), maximum speeds, peak '
     'wavenumbers, user functions',
     'tests draw one key on one grid',
     [B + 'initial_conditions.py', B + 'validation_problems.py',
      C + 'initial_conditions.py'],
     [('random fields', B + 'initial_conditions.py:filtered_velocity_field'),
      ('functions', B + 'initial_conditions.py:initial_velocity_field')],
     ['divergence', 'maximum speed', 'equality across repeated calls'],
     'Random keys and parameters; statistical shape of the spectrum is only '
     'checked through its band limit.',
     PBT + ' over keys and parameters')

prop('C17', 'Subgrid models are dissipative, frame-invariant and consistent',
     'The Smagorinsky eddy viscosity is non-negative, equals (Cs * filter '
     'width) squared times the strain-rate magnitude, vanishes for uniform '
     'motion, scales with velocity and is unchanged by adding a constant '
     "velocity. The eddy-viscosity model's acceleration is the divergence of "
     'twice viscosity times strain, conserves momentum on periodic domains, '
     'never adds kinetic energy, and with constant viscosity reduces to '
     'ordinary diffusion of divergence-free flow. Explicit and implicit '
     'subgrid solvers reduce to the plain ones when the constant is zero, '
     'the explicit one keeps the flow divergence-free and adds exactly the '
     'eddy acceleration, and the implicit one follows it to first order in '
     'the time step.',
     ['inputs', 'configurations'],
     'all velocities, constants, viscosity functions, periodic anisotropic 2-3D '
     'grids',
     'tests check that a viscosity is produced and one solver runs',
     [B + 'subgrid_models.py'],
     [('eddy viscosity', B + 'subgrid_models.py:smagorinsky_viscosity'),
      ('stress divergence', B + 'subgrid_models.py:evm_model')],
     ['viscosities', 'accelerations', 'energy budgets'],
     'Random exploration against an independent numpy strain computation.',
     PBT + ': energy/momentum invariants and reference stress')

prop('C18', 'Collocated solvers satisfy the same guarantees',
     'On collocated grids, centred advection is the divergence of interpolated '
     'flux and conserves totals, diffusion is the documented wide Laplacian, and '
     'pressure projection removes the centred divergence, is idempotent and '
     'conserves momentum. A step of the collocated Navier-Stokes solver keeps '
     'centred divergence at zero, conserves momentum, commutes with translation '
     'and axis permutation, and leaves uniform flow unchanged. Its random initial '
     'velocities are centred, solenoidal and have the requested maximum speed.',
     ['inputs', 'histories', 'configurations'],
     'all periodic velocities on odd and even anisotropic grids, viscosities, '
     'densities, forcing, numbers of steps',
     'tests run one flow on one grid',
     [C + 'advection.py', C + 'diffusion.py', C + 'pressure.py',
      C + 'equations.py', C + 'initial_conditions.py'],
     [('projection', C + 'pressure.py:projection'),
      ('equations', C + 'equations.py:semi_implicit_navier_stokes')],
     ['divergence, momentum after each step'],
     'Random short trajectories with invariants.',
     PBT + ': invariants and metamorphic symmetry')

prop('C19', 'Spectral transforms round-trip, de-alias and invert vorticity',
     'Padded and truncated transforms are exact inverses on resolved modes, '
     'make products of resolved fields alias-free, and real and complex '
     'variants agree (even numbers of points). Velocity recovered from any '
     'zero-mean vorticity is divergence-free and has that vorticity, and '
     'spectral curl and filters act mode by mode as documented, on every '
     'domain size. Low-pass masks keep the modes inside their cut-off, are '
     'symmetric in sign of the wavenumber and commute with translation.',
     ['inputs', 'configurations'],
     'all fields, even sizes, anisotropic domains, mask orders and cut-offs',
     'tests round-trip one or two fields on a fixed square grid',
     [S + 'utils.py'],
     [('de-aliasing', S + 'utils.py:truncated_rfft'),
      ('vorticity inversion', S + 'utils.py:vorticity_to_velocity'),
      ('filters', S + 'utils.py:exponential_filter')],
     ['transformed arrays'],
     'Random trigonometric polynomials against direct numpy evaluation.',
     PBT + ': round trips and exact trigonometric references')

prop('C20', 'Spectral equations have the right tendencies',
     'Explicit plus implicit terms of each spectral equation equal the '
     'right-hand side of its PDE evaluated on resolved trigonometric fields, for '
     'every domain, viscosity, drag, forcing and parameter, and the implicit '
     'solve inverts (1 - dt * linear term) exactly. Tendencies keep real fields '
     'real and conserve what the PDE conserves: the mean of Burgers and '
     'Kuramoto-Sivashinsky, energy and enstrophy of inviscid vorticity '
     'transport, and mass of the Schrodinger equation. They commute with '
     'translations of the domain.',
     ['inputs', 'configurations'],
     'all band-limited states, domain lengths, viscosities, steps, and switches '
     'of each equation',
     'tests integrate one initial condition per equation',
     [S + 'equations.py', S + 'forcings.py'],
     [('equations', S + 'equations.py:NavierStokes2D')],
     ['explicit_terms', 'implicit_terms', 'implicit_solve'],
     'Random band-limited states against direct pointwise evaluation of the PDE.',
     PBT + ' against direct PDE evaluation')

prop('C21', 'Implicit-explicit steppers match their schemes to their order',
     'Each implicit-explicit stepper equals its published scheme on every '
     'linear and non-linear split system, reduces to its explicit part when '
     'the implicit part is zero and to its implicit part when the explicit '
     'part is zero, and reaches its nominal order (the SIL3 scheme: third '
     'order for linear explicit terms). Steps are exact for steady states, '
     'unconditionally stable for stiff decay, act on nested state leaf by '
     'leaf, and malformed coefficient tables are rejected. Filtering steps '
     'apply the filter after every step.',
     ['inputs', 'histories', 'programs'],
     'all split systems (real and complex, scalar and pytree), step sizes, '
     'coefficient tables, numbers of steps',
     'tests measure accuracy on a few ODEs',
     [S + 'time_stepping.py', S + 'utils.py'],
     [('steppers', S + 'time_stepping.py:imex_runge_kutta')],
     ['state after each step'],
     'Random split ODEs against numpy implementations of the schemes.',
     PBT + ': differential against reference schemes, order tests')

prop('C22', 'Dataset quantities obey Parseval, symmetry and unit conversions',
     'Saving a trajectory and reading its grid back from the attributes '
     'gives the same grid, coordinates and values, for staggered and centred '
     'data with any leading dimensions. Vorticity, speed, kinetic energy and '
     'enstrophy equal their pointwise definitions; Fourier transforms '
     'satisfy Parseval and band-summed spectra add up to the total energy; '
     'periodic correlations equal direct sums, are largest at zero '
     'displacement for a field with itself and are translation equivariant. '
     'Isotropic spectra sum the modes of each shell of wavenumbers.',
     ['inputs', 'configurations'],
     'all fields, numbers of samples and times, odd and even square and '
     'non-square grids where supported, domain lengths',
     'tests run the pipeline on a single smooth example',
     [D + 'xarray_utils.py'],
     [('conversion', D + 'xarray_utils.py:velocity_trajectory_to_xarray'),
      ('spectra', D + 'xarray_utils.py:energy_spectrum'),
      ('binning', D + 'xarray_utils.py:groupby_bins_sum')],
     ['datasets and data arrays'],
     'Random exploration against direct numpy sums.',
     PBT + ' against direct sums and Parseval identities')

prop('C23', 'Evaluation statistics and losses match their definitions',
     'Errors are zero exactly for identical data; averages, correlations of '
     'states, autocorrelations and threshold or spectrum summaries equal '
     'their definitions whatever the order of dimensions, and correlations '
     'lie in [-1, 1] and are invariant to positive scaling. Training losses '
     'are non-negative, vanish on perfect predictions, equal the stated '
     'averages over batch, time and space, and scale quadratically. '
     'Reductions over a named batch equal reductions of the whole batch '
     'whichever axis holds it.',
     ['inputs'],
     'all datasets with optional sample dimension, thresholds, masks, batch and '
     'time lengths',
     'tests check one or two arrays',
     [D + 'evaluation.py', M + 'metrics.py'],
     [('summary', D + 'evaluation.py:compute_summary_dataset'),
      ('losses', M + 'metrics.py:l2_loss_cumulative')],
     ['returned statistics'],
     'Random exploration against numpy definitions.',
     PBT + ': differential against numpy definitions')

prop('C24', 'Periodic, mirrored and tiled convolutions equal direct convolution',
     'Convolution layers with periodic or mirrored padding, and their '
     'transposed forms, compute the direct convolution of the padded field '
     'for every kernel size, dilation, stride and dimension, keep the '
     'spatial shape and (periodic ones) commute with translation, as do the '
     'network towers built from them. Splitting a domain into tiles, '
     'exchanging halos, convolving and reassembling gives the same answer as '
     'the untiled periodic convolution for every layout, and tiling and '
     'untiling are inverse. Rescaling layers map the range of non-constant '
     'data onto the requested range.',
     ['inputs', 'configurations'],
     'all inputs, kernel sizes (odd and even), rates, strides, channels, tile '
     'layouts, 1-3 dimensions',
     'tests use one or two kernel sizes and layouts',
     [M + 'layers.py', M + 'layers_util.py', M + 'tiling.py', M + 'towers.py'],
     [('padding', M + 'layers_util.py:periodic_convolution'),
      ('tiling', M + 'tiling.py:apply_convolution')],
     ['layer outputs'],
     'Random exploration against direct numpy convolution and roll equivariance.',
     PBT + ': differential against direct convolution, equivariance')

prop('C25', 'Learned stencils satisfy their polynomial accuracy constraints',
     'For every stencil, derivative order, accuracy order and grid step (the '
     'same on each axis), the coefficients produced by constraint layers, '
     'for any network output, differentiate or interpolate polynomials below '
     'the accuracy order exactly, as do the standard coefficients they start '
     'from, and orders a stencil cannot reach are rejected. Extracting '
     'patches by shifts or by convolution gives the same values for every '
     'stencil, and fused evaluation of several derivatives equals separate '
     'evaluation. Learned interpolation therefore reproduces constants '
     'everywhere and is independent of the chosen extraction method.',
     ['inputs', 'configurations'],
     'all stencils (shifted, staggered, one- and multi-dimensional), orders, '
     'steps and network outputs',
     'tests check a few stencils with a fixed step',
     [M + 'layers_util.py', M + 'layers.py', M + 'interpolations.py'],
     [('constraints', M + 'layers_util.py:polynomial_accuracy_constraints'),
      ('layers', M + 'layers.py:PolynomialConstraint'),
      ('patches', M + 'layers_util.py:extract_patches')],
     ['stencil coefficients', 'interpolated fields'],
     'Random stencils and logits against moment conditions.',
     PBT + ': moment conditions and differential extraction')

prop('C26', 'Learned components keep the guarantees of the solver around them',
     'The modular Navier-Stokes model built from standard components equals '
     'the base solver step for step. Whatever a network outputs, corrections '
     "in divergence form conserve each component's total, learned "
     'interpolation and correction models return states on the same grid '
     'with offsets and boundary conditions kept, and steps of the model with '
     'the explicit solver stay divergence-free. Splitting stacked arrays '
     'into aligned fields and stacking them back is lossless and keeps '
     'component order.',
     ['inputs', 'configurations'],
     'all states, network parameters (random), component choices, 2D grids',
     'tests only check output shapes',
     [M + 'equations.py', M + 'networks.py', M + 'advections.py',
      M + 'interpolations.py', M + 'pressures.py', M + 'diffusions.py',
      M + 'forcings.py', M + 'viscosities.py'],
     [('modular step', M + 'equations.py:modular_navier_stokes_model'),
      ('divergence form', M + 'networks.py:aligned_field_from_split_divergence')],
     ['states after a model step'],
     'Random states and parameters; differential against the base solver.',
     PBT + ': differential against the base solver, conservation')

prop('C27', 'Encoding, decoding and rollout preserve the simulated state',
     'Decoding an encoded state returns the data it encodes: the last frames '
     'along the time axis, for aligned, latent and vorticity representations '
     '(solenoidal velocity, even number of points), and linear interpolation '
     'between staggered and collocated ones, with the offsets and boundary '
     'conditions of the physics they stand for. A model trajectory equals '
     'repeated single steps, its input frames are kept or dropped as '
     'requested, and rollouts with inner steps sample the same path. '
     'Training utilities are pure: noise is added to the first frame only, '
     'streaming means equal the mean of all batches, and a train step '
     'applies exactly one optimizer update.',
     ['inputs', 'histories'],
     'all trajectories, time axes, frame counts, inner steps, batch counts',
     'tests check shapes and one example',
     [M + 'encoders.py', M + 'decoders.py', M + 'model_builder.py',
      M + 'model_utils.py', M + 'train_utils.py', M + 'time_integrators.py'],
     [('encoders', M + 'encoders.py'), ('rollout', M + 'model_builder.py'),
      ('training', M + 'train_utils.py')],
     ['decoded arrays', 'trajectories', 'optimizer state'],
     'Random exploration; round trips and differential against Python loops.',
     PBT + ': round trips and rollout histories')

prop('C28', 'Simulation code is transparent to jit, vmap and differentiation',
     'Compiling a solver step or operator gives the same result as running it '
     'eagerly, mapping it over a batch equals running each member alone, and '
     'nothing depends on what ran before. Derivatives of a step agree with '
     'finite differences of the step, forward and reverse mode agree, and '
     'gradients are finite for finite states including flat and resting ones. '
     'Single precision inputs give results within single-precision error of '
     'double precision.',
     ['inputs', 'programs', 'configurations'],
     'all states and all public steps and operators on periodic and wall-bounded '
     'grids',
     'tests run each function in one mode',
     [B + 'equations.py', B + 'advection.py', B + 'diffusion.py',
      B + 'pressure.py', B + 'grids.py', B + 'interpolation.py'],
     [('pytree fields', B + 'grids.py'),
      ('safe division', B + 'interpolation.py:safe_div')],
     ['outputs in each mode', 'Jacobian-vector products'],
     'Random exploration; differential across execution modes.',
     PBT + ': differential across execution modes')

prop('C29', 'Visualization maps data to images without distortion',
     'Quantile normalization maps plus and minus the chosen quantile of the '
     'magnitude of the data to the ends of the colour range and is monotone '
     'and symmetric, and resizing honours the requested longest side, keeps '
     'the aspect ratio and copies nearest pixels. A trajectory becomes one '
     'image per frame in time order, oriented and coloured as the same array '
     'would be alone, and images placed side by side keep their pixels, '
     'order and separation. Movies contain every image in order.',
     ['inputs'],
     'all 2D trajectories, sizes, colour maps and quantiles',
     'tests check only image sizes',
     [D + 'visualization.py'],
     [('images', D + 'visualization.py:trajectory_to_images')],
     ['image pixels'],
     'Random exploration against per-pixel recomputation.',
     PBT + ' against per-pixel reference')

prop('C30', 'Results do not depend on the units of measurement or the origin',
     'Measuring length, time, mass and scalars in other units multiplies each result '
     'by the factor its dimension prescribes, over many orders of magnitude and in '
     'single as in double precision, and moving the origin of the domain changes '
     'nothing: this holds for shifts, differences, interpolation, advection schemes, '
     'diffusion and pressure solves, Navier-Stokes steps of every kind with forcing, '
     'time-step limits, filters and masks, random and prescribed initial velocities, '
     'coarsening, spectral solvers, dataset quantities and spectra, and stencil '
     'coefficients.',
     ['inputs', 'configurations'],
     'all units and origins (within floating-point range), all public operators, '
     'steps and dataset quantities whose tolerances are relative',
     'tests run at one scale near unity, where absolute thresholds and missing '
     'factors of spacing, density or time step are invisible',
     [B + 'finite_differences.py', B + 'advection.py', B + 'diffusion.py',
      B + 'pressure.py', B + 'equations.py', B + 'subgrid_models.py',
      B + 'forcings.py', 'jax_cfd/collocated/equations.py',
      'jax_cfd/spectral/equations.py', D + 'xarray_utils.py'],
     [('cut-off of eigenvalues', B + 'pressure.py:_rhs_transform'),
      ('dealiasing filter', 'jax_cfd/spectral/utils.py:circular_filter_2d')],
     ['results in each system of units'],
     'Random exploration of units; metamorphic (dimensional) relation.',
     PBT + ': metamorphic relation between systems of units')
