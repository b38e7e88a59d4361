"""What each property says and what its check covers (source of properties.jsonl, MANIFEST.json and the tables of DESIGN.md)."""

COMMON_ASSUMPTIONS = [
    'floats are modelled as extended real numbers (finite reals, +inf, -inf, NaN): rounding, overflow and underflow are not modelled',
    'exp, log, square roots and user supplied potentials are exact; potentials, drifts and simulators marked arbitrary are '
    'uninterpreted functions of their arguments',
    'base random draws (normal, uniform, gumbel, exponential, Poisson, integers) are arbitrary values of their support, '
    'a function of the random key only; the statistical quality of the generator is trusted',
    'ties of measure zero (a uniform draw exactly equal to a threshold) are excluded where the property is about real draws',
    'JAX tracing and its primitives are trusted to mean what the encoding says; every run compares encoding and real code on sample inputs',
]

TECH = 'symbolic execution of the traced code (jaxpr) + SMT (z3, cvc5)'

REG = []


def prop(id, title, statement, over, quant, why, files, mechanism, bounds, how, na=None, tech=None, level_note=None):
    REG.append(dict(tech=tech, id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                    mechanism=mechanism, bounds=bounds, how=how, na=na, level_note=level_note))


M = 'mocat/src/'

prop('C01', 'Metropolis correction accepts exactly when the uniform draw is below alpha',
     'One accept/reject decision returns the proposed state (with its extras) when a fresh uniform draw is below the acceptance '
     'probability and the current state otherwise, records the probability it used in [0,1], and counts an undefined (NaN) '
     'probability as zero. The Metropolis-Hastings probability is min(1, target ratio times reverse/forward proposal ratio), so an '
     'infinite potential is never entered. A sampler without a correction keeps every proposal, and each transition refreshes, then '
     'proposes, then corrects, and counts one iteration.',
     ['inputs', 'histories'], 'all states, potentials (finite, infinite, NaN), acceptance values, proposal densities and keys',
     'tests run a few seeds on Gaussian targets and compare averages; a wrong accept rule on NaN or infinite potentials or a biased '
     'ratio for asymmetric proposals stays inside their tolerance',
     [M + 'mcmc/metropolis.py', M + 'mcmc/sampler.py'],
     [('Metropolis.correct', M + 'mcmc/metropolis.py'), ('mh_acceptance_probability', M + 'mcmc/metropolis.py'),
      ('MCMCSampler.update', M + 'mcmc/sampler.py')],
     'one transition; state dimension 2; extras of fixed structure',
     'The real correction is executed on fully symbolic states, extras, acceptance value (extended real) and key; the solver compares every '
     'field of the result with the textbook rule on every path.')

prop('C02', 'Random-walk Metropolis steps are exact',
     'A random-walk transition proposes the current value plus a standard normal vector times the square root of the step size and accepts with '
     'min(1, exp(current potential - proposed potential)) of the tempered target. The stored potential always belongs to the stored value, '
     'and for a noisy potential the current estimate is kept, never redrawn. All draws of a transition and of consecutive transitions use distinct keys.',
     ['inputs', 'histories'], 'all start points, step sizes, temperatures, potentials and draws',
     'tests check means and covariances of seeded runs with loose tolerances; they cannot see a stale cached potential or a reused key',
     [M + 'mcmc/standard_mcmc.py', M + 'mcmc/metropolis.py'],
     [('RandomWalk.proposal', M + 'mcmc/standard_mcmc.py'), ('RandomWalk.acceptance_probability', M + 'mcmc/standard_mcmc.py')],
     'dimensions 1-3, 6 and 12; one transition from an arbitrary state (inductive) and two consecutive transitions',
     'One update of the real sampler over an uninterpreted potential, arbitrary start and draws, is compared with the textbook kernel; key terms are checked '
     'for reuse in a free key algebra.')

prop('C03', 'Leapfrog integration is velocity Verlet: reversible and volume preserving',
     'The leapfrog integrator follows velocity Verlet for the tempered potential, returns all positions, half-step momenta and matching cached potentials and gradients, '
     'and running it again from the end point with flipped momenta returns exactly to the start. The map on positions and momenta preserves volume.',
     ['inputs'], 'all potentials, start points, momenta, step sizes and temperatures',
     'tests integrate a few fixed Gaussian cases; reversibility and volume preservation must hold for every potential and step size',
     [M + 'utils.py'], [('leapfrog', M + 'utils.py')],
     'steps x dimension: up to 8x1, 3x2, 4x3, 3x5, 4x10 (10x4, 8x6, 2x25 thorough); volume: dimension 1 up to 3 steps, dimension 2 one step (dimension 3 thorough)',
     'The real integrator runs symbolically with uninterpreted gradients; trajectories, the round trip and the determinant of the automatic-differentiation Jacobian are compared exactly.')

prop('C04', 'Underdamped Langevin / HMC transitions keep the extended target invariant',
     'A transition negates and refreshes the momenta by the exact Ornstein-Uhlenbeck solution (full refresh for infinite friction), proposes the leapfrog end point with negated '
     'momenta, and accepts with min(1, exp(Hamiltonian drop)). The proposal is an involution satisfying detailed balance, and on every outcome the stored potentials and '
     'gradients are those of the stored value at the current temperature.',
     ['inputs', 'histories'], 'all potentials, states, momenta, step sizes, frictions, temperatures and draws',
     'a missing momentum flip, stale gradients or a biased acceptance still samples nearly the right moments in a seeded test',
     [M + 'mcmc/standard_mcmc.py', M + 'utils.py'],
     [('Underdamped.always', M + 'mcmc/standard_mcmc.py'), ('Underdamped.proposal', M + 'mcmc/standard_mcmc.py'),
      ('Underdamped.acceptance_probability', M + 'mcmc/standard_mcmc.py')],
     'leapfrog steps x dimension up to 3x2, 5x3, 2x5, 5x8 (8x5, 2x20, 9x3 thorough); one transition from an arbitrary consistent state (inductive)',
     'One real update from an arbitrary state with consistent caches, against an independently written kernel; detailed balance is checked directly.')

prop('C05', 'Quasi-Newton preconditioning is consistent',
     'The low-rank factors built from remembered positions and gradients describe mutually inverse matrices satisfying the secant equation; products, transposed products and '
     'determinants agree with the dense matrices. Momentum refresh, leapfrog and acceptance all use the same mass matrix, the memory keeps the most recent positions with '
     'their own potentials and gradients, and unfilled slots are ignored. Preconditioned leapfrog is reversible.',
     ['inputs', 'histories'], 'all remembered positions, gradients, factors, momenta and potentials',
     'tests only run the sampler on a Gaussian; mismatched kinetic energy and refresh would show as a slight bias only',
     [M + 'mcmc/qn_underdamped.py', M + 'utils.py'],
     [('bfgs_sqrt_pqut', M + 'utils.py'), ('bfgs_sqrt_prod', M + 'utils.py'), ('QNUnderdamped', M + 'mcmc/qn_underdamped.py')],
     'memory x dimension up to 4x3, 3x5 (5x1, 6x4 thorough); sorted memory of 2 pairs with 0-2 slots filled; inverse/secant: 1 pair in dimension 1-3, 2-3 pairs in dimension 1; 1-5 leapfrog steps; positive curvature',
     'Factors, products and one sampler transition executed symbolically against dense linear algebra.')

prop('C06', 'Step-size adaptation follows Robbins-Monro',
     'Adaptive correction first applies the wrapped correction and then moves the tuned parameter, on log or plain scale, by scale*iteration^(-exponent) times the gap between the recorded '
     'metric and its target, in the direction the tuning states, only until the cut-off iteration. The recorded parameter is the one used next, other parameters are untouched, on the log scale it '
     'stays positive, and an unset step size starts from 2.38^2/dimension.',
     ['inputs', 'histories'], 'all parameters, metrics (including NaN), targets, iterations, cut-offs and draws',
     'tests look at the final acceptance rate of one run; sign, exponent or cut-off errors are visible only for other settings',
     [M + 'mcmc/metropolis.py'], [('RMMetropolis.correct', M + 'mcmc/metropolis.py'), ('RMMetropolis.adapt', M + 'mcmc/metropolis.py')],
     'one adaptation step with arbitrary values; exponents 2/3, 1, 1/2; two adaptive random-walk transitions in dimension 1',
     'The real adaptive correction against the closed-form update for arbitrary metric, target, iteration number and cut-off.')

prop('C07', 'A run returns every visited state in order, exactly up to termination',
     'A run starts from the given state (or the prior sample, or zero) and the given key (whatever key the extra settings hold), applies the transition to the previous state until the criterion first holds or the iteration limit is reached, and returns the initial '
     'state followed by every visited state, nothing more. A run of n Markov steps returns n states, and the stacked loop stops exactly at the first state failing its condition.',
     ['inputs', 'histories', 'schedules'], 'all transitions, conditions and termination points within the limit',
     'tests run fixed lengths with fixed samplers; off-by-one truncation or a skipped/duplicated state at one termination point is not sampled',
     [M + 'sample.py', M + 'utils.py', M + 'mcmc/sampler.py', M + 'transport/sampler.py'],
     [('run', M + 'sample.py'), ('while_loop_stacked', M + 'utils.py'), ('MCMCSampler.startup', M + 'mcmc/sampler.py')],
     'loops of at most 25 iterations, runs of up to 101 states (lengths up to 7, 30 and 101), ensembles of 2 particles with and without a given start',
     'The real loop runs with uninterpreted transition and condition; for every cut length the result is compared with the plain recursion.')

prop('C08', 'Result containers: join appends, indexing slices, copies share no state',
     'Joining two result containers appends every array present in both (nested containers too), adds the times, keeps static labels and leaves both operands unchanged. Indexing a container applies the same '
     'index to every array field, nested ones included, and leaves scalars, labels and the original untouched. Assigning to a copy never changes the original, and passing a container through compiled code keeps '
     'every field under its own name.',
     ['inputs', 'configurations'], 'all array contents, container structures of the tested shapes and index expressions',
     'tests use a couple of containers with distinct constants; a swapped or shared field is visible only for other structures or values',
     [M + 'core.py'], [('cdict.__add__', M + 'core.py'), ('cdict.__getitem__', M + 'core.py'), ('cdict.copy', M + 'core.py')],
     'containers of up to seven fields, two nesting levels, arrays up to 3x2; eight index forms',
     'Containers filled with symbolic arrays go through the real operations; every field of the result is compared with the array operation it stands for.')

prop('C09', 'A target is prior plus temperature times likelihood, with exact gradients',
     'The potential of a target is its prior potential plus the temperature times its likelihood potential, at the stored temperature and at any temperature asked for, and every gradient is the exact derivative of the '
     'corresponding potential. This stays true after prior or likelihood is replaced and for noisy targets, which receive the caller\'s random key in value and gradient alike. In one dimension scalars, '
     'length-one vectors and columns of points mean the same points.',
     ['inputs', 'configurations'], 'all potentials, points, temperatures and keys; construction orders',
     'tests evaluate Gaussian targets at temperature one; stale gradients after replacement or a temperature on the wrong term pass them',
     [M + 'core.py'], [('Scenario.potential', M + 'core.py'), ('Scenario.tempered_potential', M + 'core.py'), ('Scenario.__setattr__', M + 'core.py')],
     'dimensions 1-3, arbitrary (uninterpreted) potentials',
     'The real scenario methods run over uninterpreted prior and likelihood functions (with uninterpreted derivatives) and are compared with the formula.')

prop('C10', 'Numerical helpers equal their textbook definitions',
     'The Gaussian potential, for scalar, diagonal or full precision given directly or as a root, is half the squared Mahalanobis distance plus, when asked for, the normalising constant, whichever parametrisation is used. '
     'Pairwise distances, localisation (taper) matrices, leave-one-out index sets and Kalman gains equal their definitions. Equivalent parametrisations always give the same value.',
     ['inputs', 'configurations'], 'all points, means, precisions, roots, radii and indices within the sizes',
     'tests compare a few fixed matrices, often diagonal or identity, for which a wrong transpose or scale is invisible',
     [M + 'utils.py'], [('gaussian_potential', M + 'utils.py'), ('leave_one_out_indices', M + 'utils.py'), ('gc_matrix', M + 'utils.py'), ('kalman_gain', M + 'utils.py')],
     'dimensions 1-3 and 5 (taper matrices up to dimension 12)',
     'The real functions run on symbolic vectors and triangular factors; values are compared exactly with the definitions.')

prop('C11', 'Gaussian model densities are the densities of their own draws',
     'In every model with Gaussian pieces (linear-Gaussian inverse problems, linear and non-linear Gaussian state-space models, stochastic volatility) each density is, up to a constant, the log density of the draw the model '
     'itself generates: the density of mean plus root times noise is half the squared noise. This holds for every covariance, also one assigned after construction, and for every time gap. Omitted means, '
     'matrices and covariances default to zero, identity and identity.',
     ['inputs', 'configurations'], 'all means, matrices, covariances, states, times and noise',
     'tests use identity or diagonal covariances and unit time steps, for which transposed roots and missing scale factors cancel',
     [M + 'utils.py', M + 'abc/scenarios/linear_gaussian.py', M + 'ssm/linear_gaussian/linear_gaussian.py', M + 'ssm/nonlinear_gaussian.py', M + 'ssm/scenarios/stochastic_volatility.py'],
     [('reset_covariance', M + 'utils.py'), ('LinearGaussian.transition_potential', M + 'ssm/linear_gaussian/linear_gaussian.py'),
      ('NonLinearGaussian.transition_sample', M + 'ssm/nonlinear_gaussian.py'), ('StochasticVolatility', M + 'ssm/scenarios/stochastic_volatility.py')],
     'state dimensions 1-2 (3 for covariance roots), observation dimensions 1-2; covariances as arbitrary Cholesky products',
     'The real samplers and densities run symbolically on the same draw; the solver shows density(draw) - noise norm/2 does not depend on anything but the parameters.')

prop('C12', 'Built-in targets are the densities they are named after',
     'Every built-in target (Gaussian, Gaussian mixture, double well, Rastrigin, banana, funnel, the one-dimensional growth model) evaluates the potential of the documented density, with its exact gradient, pointwise and '
     'vectorised. Mixture components are normalised densities weighted by their weights. Replacing a parameter of an existing target (mean, covariance, weights) takes effect in every later evaluation.',
     ['inputs', 'configurations', 'histories'], 'all points, temperatures and parameters',
     'tests evaluate at fixed points or only check shapes; non-diagonal covariances, unequal components and later changes are not sampled',
     [M + 'scenarios/toy_examples.py', M + 'scenarios/twodim/toy_examples.py', M + 'scenarios/twodim/vectorise.py', M + 'ssm/scenarios/nonlinear1d.py'],
     [('Gaussian', M + 'scenarios/toy_examples.py'), ('GaussianMixture', M + 'scenarios/toy_examples.py'), ('Banana', M + 'scenarios/twodim/toy_examples.py')],
     'dimensions 1-3 (some up to 6), mixtures of 2 components (dimension 1-2), grids up to 3x4',
     'The real potentials and gradients run on symbolic points and parameters and are compared with independent formulas.')

prop('C13', 'Kernel derivative methods are the derivatives of the kernel',
     'Every kernel (Gaussian, preconditioned Gaussian, inverse multiquadric) returns its documented value, its gradients in the first and second argument are the derivatives of that value, and the mixed-derivative method returns the '
     'diagonal of the second mixed derivative. Parameters given in a call apply to that call only; changed stored parameters apply from then on. Bandwidth rules are the mean or median pairwise distance over '
     'the square root of twice the log of the number of points.',
     ['inputs', 'configurations', 'histories'], 'all points, bandwidths, exponents, offsets and preconditioners',
     'tests compare with automatic differentiation at bandwidth one only',
     [M + 'kernels.py'], [('Gaussian', M + 'kernels.py'), ('PreconditionedGaussian', M + 'kernels.py'), ('IMQ', M + 'kernels.py'), ('mean_bandwidth_update', M + 'kernels.py')],
     'dimensions 1-4, scalar and per-coordinate bandwidths; bandwidth rules with 2-3 points',
     'The real methods run on symbolic points and parameters and are compared with automatic derivatives of an independently written kernel.')

prop('C14', 'Stein methods follow the kernelised Stein identity of the target',
     'Every step of Stein variational gradient descent moves each particle along the mean, over the ensemble (or the batch drawn for it), of kernel times minus target gradient plus the kernel gradient, at the current temperature, '
     'bandwidth and step size; caches belong to the new positions. The squared kernel Stein discrepancy is the weighted double sum of the Stein kernel of kernel and target. '
     'Runs are independent of earlier runs of the same sampler and never reuse random keys.',
     ['inputs', 'configurations', 'histories'], 'all particles, targets (uninterpreted), kernels (uninterpreted), weights, bandwidths, step sizes and batch draws',
     'tests check convergence on Gaussians and that a large sample has a smaller discrepancy than a small one; sign errors in single terms pass',
     [M + 'transport/svgd.py', M + 'metrics.py'], [('SVGD.update', M + 'transport/svgd.py'), ('ksd', M + 'metrics.py')],
     '2-4 particles in dimension 1-2, 1-2 steps, batches of one',
     'The real sampler and discrepancy run over an arbitrary kernel (value, gradients and mixed derivatives unrelated symbols) and an arbitrary target.')

prop('C26', 'Run diagnostics equal their definitions',
     'Autocorrelations are the sums of lagged products of the whole centred series over the lag-zero sum, at every lag asked for. Integrated autocorrelation time is one plus twice their sum up to the requested lag, or the first lag '
     'above five times the estimate (the last lag when there is none), and effective sample size is length over it. Weight-based effective sample size is invariant to a constant shift of the log weights, and '
     'squared jumping distances average squared differences of consecutive states.',
     ['inputs', 'configurations'], 'all series, weights and numbers of lags within the sizes',
     'tests compare correlated with independent series qualitatively',
     [M + 'metrics.py'], [('autocorrelation', M + 'metrics.py'), ('integrated_autocorrelation_time', M + 'metrics.py'), ('log_ess_log_weight', M + 'metrics.py')],
     'series of 2-9 values (window rule: up to 15 lags), 1-6 weights',
     'The real functions run on symbolic series (Fourier transforms unrolled exactly) and are compared with direct sums.')

prop('C15', 'Root bracketing keeps a sign change and stops exactly when it may',
     'For every function and interval the bracketing root search returns bounds inside the original interval with their function values, keeps a sign change between them, and shrinks them in every step. '
     'It stops exactly when an end value is within tolerance, when there is no sign change (then with the bounds unchanged), or when its iterations are used up. Bounds may be given as list or array.',
     ['inputs', 'schedules'], 'all functions (uninterpreted, not assumed monotone or continuous), intervals and tolerances',
     'tests search one increasing and one decreasing parabola branch',
     [M + 'utils.py'], [('bisect', M + 'utils.py')],
     'up to 3 search steps (4 in the thorough tier)',
     'The real loop is unrolled over an uninterpreted function; every path is checked against the bracket invariants.')

prop('C16', 'SMC reweights, resamples and estimates evidence consistently',
     'In each step of sequential Monte Carlo the ensemble is resampled exactly when the effective sample size is at most the chosen share, in proportion to the weights, with all fields of a particle moving together and weights reset; '
     'each particle then makes the chosen number of kernel steps at the current temperature, its log weight grows by minus the temperature increase times its likelihood potential, and evidence grows by the log ratio of '
     'total weights. Cached potentials, gradients, effective sizes and acceptances belong to the new particles and temperature.',
     ['inputs', 'schedules', 'configurations'], 'all ensembles, weights, targets (uninterpreted), step sizes, temperatures and random draws',
     'tests look at the final mean and covariance of a Gaussian; wrong evidence, stale caches or a reweighting at the wrong place pass',
     [M + 'transport/smc.py', M + 'metrics.py'], [('SMCSampler.update', M + 'transport/smc.py'), ('MetropolisedSMCSampler.forward_proposal', M + 'transport/smc.py'), ('TemperedSMCSampler.adapt', M + 'transport/smc.py')],
     '1-6 particles in dimension 1-2, one step from an arbitrary state (inductive), 1-3 kernel steps; positive current temperature',
     'The real update runs on a symbolic ensemble with symbolic draws and is compared, path by path, with an independent formula; whole runs over a schedule of two temperatures are followed too.')

prop('C17', 'Tempering follows its schedule or moves forward by the effective-size rule',
     'With a temperature schedule the run visits exactly its temperatures, once each, and stops at the last. Without one, the next temperature lies between the current and the final one; it is the final one whenever that keeps '
     'the chosen share of effective sample size. A run ends when the final temperature is reached, iterations are used up or many values are NaN, and leaves the target at the final temperature.',
     ['inputs', 'schedules', 'configurations'], 'all ensembles, weights, likelihood values and temperatures',
     'tests check the adapted temperatures are increasing in a few runs',
     [M + 'transport/smc.py'], [('MetropolisedSMCSampler.next_temperature_adaptive', M + 'transport/smc.py'), ('TemperedSMCSampler.__setattr__', M + 'transport/smc.py'), ('TemperedSMCSampler.termination_criterion', M + 'transport/smc.py')],
     '2 particles, up to one search step for adaptive temperatures; schedules of up to 3 temperatures',
     'The real search, schedule and termination code run on symbolic ensembles; results are compared with the rule stated on exact effective sizes.')

prop('C18', 'ABC samples carry their own simulation and the weight of their proposal',
     'Every importance ABC sample, the first included, is a fresh draw of the proposal with its own simulated data and the distance between these and the observations; its weight is prior density over proposal density inside the '
     'acceptance ball and zero outside, and a requested acceptance rate sets the ball to that quantile of the distances. Markov chain ABC accepts a Gaussian move with its fresh simulation with the prior ratio inside the ball and '
     'never outside, moving all recorded fields together, and adaptive chains steer threshold and steps towards their targets.',
     ['inputs', 'schedules', 'configurations'], 'all priors, simulators (uninterpreted), data, thresholds, step sizes and random draws',
     'tests look at sample means of one model; weights of single samples, stale simulations or an unweighted first sample pass',
     [M + 'abc/importance.py', M + 'abc/mcmc.py', M + 'abc/abc.py'],
     [('ImportanceABC.update', M + 'abc/importance.py'), ('RandomWalkABC.update', M + 'abc/mcmc.py'), ('RMMetropolisDiagStepsize.__call__', M + 'abc/mcmc.py'), ('ABCScenario.distance_function', M + 'abc/abc.py')],
     'dimension 1-2, data of 1-2 values, 3 importance samples, 1-2 chain steps, 3-4 distances for the quantile, whole rejection runs of 2-3 samples',
     'The real samplers run on symbolic data and draws over an uninterpreted prior and simulator; results are compared with the acceptance rule and weights written from the statement.')

prop('C30', 'ABC sequential Monte Carlo shrinks the ball over a consistent ensemble',
     'Each step fixes the next threshold by the schedule or as a quantile of distances, gives weight only to particles inside the ball, resamples when the effective sample size is below its share, moves surviving particles by the chain '
     'kernel at the new threshold and keeps all fields of a particle together. '
     'A run starts from prior draws with one simulation each, reports mean acceptance of the moved particles, and ends when it falls to its limit or iterations are used up.',
     ['inputs', 'schedules', 'configurations'], 'all ensembles, weights, distances, simulators (uninterpreted), thresholds and random draws',
     'tests look at the final mean of one model; mixing up fields of particles or thresholds of different steps pass',
     [M + 'abc/smc.py', M + 'abc/mcmc.py', M + 'transport/smc.py'],
     [('ABCSMCSampler.update', M + 'abc/smc.py'), ('MetropolisedABCSMCSampler.forward_proposal', M + 'abc/smc.py'), ('ABCSMCSampler.startup', M + 'abc/smc.py')],
     '2-3 particles in dimension 1-2, one step from an arbitrary ensemble (inductive), 1-2 kernel steps; schedules given, removed and replaced',
     'The real update runs on a symbolic ensemble with symbolic draws and is compared, path by path, with an independent formula.')

prop('C19', 'State-space path potentials, their gradients and simulation follow the model',
     'The smoothing potential of a path is the initial potential of its first state plus one transition potential per step plus one likelihood potential per observation, for paths of any length, and its gradient is the gradient of '
     'that sum with one row per time. Each combined potential-and-gradient function belongs to its own potential. Simulation draws the first state from the initial distribution, every later state from its predecessor and '
     'every observation from its state, at the given times and each from its own randomness.',
     ['inputs', 'configurations'], 'all initial, transition and likelihood potentials (uninterpreted), paths, observations and times',
     'tests evaluate linear Gaussian paths of one length; short paths, times paired with the wrong states or dependent draws pass',
     [M + 'ssm/ssm.py'], [('StateSpaceModel.smoothing_potential', M + 'ssm/ssm.py'), ('StateSpaceModel.grad_smoothing_potential', M + 'ssm/ssm.py'), ('StateSpaceModel.simulate', M + 'ssm/ssm.py')],
     'paths of 1-9 states in dimension 1-2, observations of 1-2 coordinates',
     'The real functions run over an uninterpreted model on symbolic paths and are compared with the written-out sum, its derivative and the chain of draws.')

prop('C20', 'Particle filters start, resample, propagate and weigh correctly',
     'Particles start as independent draws weighed by the first observation (equally when there is none). In each step they are resampled in proportion to their latest weights exactly when the effective sample size is below its share, '
     'drawn from the proposal, and their log weight grows by transition density times likelihood over proposal density, while all earlier states, observations and times are kept. A whole run is the start followed by one such '
     'step per further observation, no two of them sharing randomness.',
     ['inputs', 'schedules', 'configurations'], 'all models (uninterpreted), particles, weights, observations, times and random draws',
     'tests compare a filter mean of one linear Gaussian model with loose tolerance; correlated draws, stale weights or mixed-up histories pass',
     [M + 'ssm/filtering.py'], [('propagate_particle_filter', M + 'ssm/filtering.py'), ('resample_particles', M + 'ssm/filtering.py'), ('run_particle_filter_for_marginals', M + 'ssm/filtering.py')],
     '2-4 particles, states of 1-2 coordinates, one step from an arbitrary ensemble (inductive) and runs of 1-5 steps',
     'The real filter runs on symbolic particles and draws over an uninterpreted model; every path is compared with the rule, and the keys of all draws are shown to be unrelated.')

prop('C21', 'Optimal proposals and ensemble Kalman steps are exact for Gaussian noise',
     'For non-linear dynamics with Gaussian noise and linear observations the optimal proposal density times its weight is transition density times likelihood for every state and observation, its particles are drawn from that '
     'density, and its first particles follow the initial state given the first observation. The ensemble Kalman filter forecasts with noise, uses the gain of the ensemble covariance and perturbed observations, and keeps equal '
     'weights. This holds for every covariance, not only diagonal ones.',
     ['inputs', 'configurations'], 'all dynamics (uninterpreted), states, observations, observation matrices and covariances',
     'tests use identity covariances, for which transposed or unsquared factors cannot be told apart',
     [M + 'ssm/nonlinear_gaussian.py'], [('OptimalNonLinearGaussianParticleFilter', M + 'ssm/nonlinear_gaussian.py'), ('EnsembleKalmanFilter', M + 'ssm/nonlinear_gaussian.py')],
     'states and observations of 1-2 coordinates, ensembles of 2-5 members, covariances given by arbitrary triangular roots',
     'The real code runs on symbolic matrices; densities, moments of draws and the ensemble step are compared as rational functions with the conditional Gaussian.')

prop('C22', 'Backward simulation draws paths from the smoothing distribution of the particles',
     'Every simulated path takes its last state by the last weights and each earlier state by weight times transition density to the state already drawn; it consists of filter particles only and each choice has its own randomness. '
     'The rejection version proposes by the weights and accepts with transition density over one bound that no density seen exceeds, starts again with a larger bound when one does, and makes an exact draw after the chosen '
     'number of attempts. The number of transition evaluations reported is the number made.',
     ['inputs', 'schedules', 'configurations'], 'all models (uninterpreted), particles, weights, bounds, numbers of attempts and random draws',
     'tests compare smoother means of one model with loose tolerance',
     [M + 'ssm/backward.py'], [('backward_simulation_full', M + 'ssm/backward.py'), ('backward_simulation_rejection', M + 'ssm/backward.py'), ('forward_filtering_backward_simulation', M + 'ssm/backward.py')],
     '2-3 particles, 1-4 times, 1-3 simulated paths, up to 3 rejection attempts (4 in the thorough tier)',
     'The real code runs on symbolic particles, weights and draws; every path is compared with the written-out choice rule.')

prop('C23', 'Fixed-lag smoothing joins kept pasts to new recent paths consistently',
     'A new observation moves the particles one step by the chosen filter and leaves states older than the lag unchanged except for whole-path resampling; each old path is joined to a recent path with probability its weight times '
     'the ratio of the transition density from the kept state to that from the recent path itself. After joining, the paths are equally weighted; paths not longer than the lag keep their weights (or are simulated backwards). '
     'Resampling, propagation, backward simulation and joining use unrelated randomness.',
     ['inputs', 'schedules', 'configurations'], 'all models (uninterpreted), particles, weights, lags and random draws',
     'tests compare smoother means of one model with loose tolerance',
     [M + 'ssm/online_smoothing.py'], [('propagate_particle_smoother', M + 'ssm/online_smoothing.py'), ('fixed_lag_stitching', M + 'ssm/online_smoothing.py')],
     '2-3 particles, paths of 1-4 times, lags 1-3, up to 2 rejection attempts',
     'The real code runs on symbolic particles and draws over an uninterpreted model; every path is compared with the written-out joining rule.')

prop('C24', 'Kalman filter and smoother are exact conditioning of the joint Gaussian',
     'For linear Gaussian models, with matrices that may change over time, filter means and covariances are those of each state given the observations so far, and smoother means, covariances and second moments across neighbouring '
     'times are those given all observations. The potentials and draws of the model belong to the same means and covariances at every time.',
     ['inputs', 'configurations'], 'all observations, initial means, transition and observation matrices and noise roots',
     'tests use one time-homogeneous model, for which square roots, transposes and times of the matrices cannot be told apart',
     [M + 'ssm/linear_gaussian/kalman.py', M + 'ssm/linear_gaussian/linear_gaussian.py'],
     [('run_kalman_filter_for_marginals', M + 'ssm/linear_gaussian/kalman.py'), ('run_kalman_smoother_for_marginals', M + 'ssm/linear_gaussian/kalman.py'), ('LinearGaussian', M + 'ssm/linear_gaussian/linear_gaussian.py')],
     'up to 4 times with scalar states (5 thorough), up to 2 with states and observations of 1-2 coordinates; single steps from arbitrary Gaussians (inductive) in dimension 2',
     'The real recursions run on symbolic matrices and observations; results are compared as rational functions with conditioning of the joint Gaussian of all states.')

prop('C25', 'Ensemble Kalman inversion moves, tempers and stops as defined',
     'In each step every member moves by the gain of the tempered joint covariance of members and simulated data times its misfit, perturbed in proportion to the remaining noise, and new data are simulated at the moved members from '
     'unused randomness. Temperatures start at zero and follow the given schedule (which starts at zero), the default growth, or the effective-size rule, always forward and never beyond the final one. '
     'A run ends exactly when the final temperature is reached, iterations are used up, all spreads fall below their share of the initial spread in the same coordinates, or a value is NaN.',
     ['inputs', 'schedules', 'configurations'], 'all ensembles, simulators (uninterpreted), data, temperatures and random draws',
     'tests look at final means of one model',
     [M + 'transport/teki.py', M + 'transport/sampler.py'],
     [('TemperedEKI.update', M + 'transport/teki.py'), ('TemperedEKI.termination_criterion', M + 'transport/teki.py'), ('AdaptiveTemperedEKI.next_temperature', M + 'transport/teki.py'), ('calculate_covariances', M + 'transport/teki.py')],
     '2-3 members (4 at given positions) of 1-2 coordinates with 1-2 data values, one step from an arbitrary ensemble; temperature increments below one, or exactly one; up to 1 search step',
     'The real update runs on symbolic ensembles and draws; results are compared as rational functions with the definition.')

prop('C27', 'Built-in simulation models follow their stated dynamics',
     'Simulated g-and-k, Ricker, Lotka-Volterra, epidemic and Lorenz models follow their defining equations: quantile transform, population recursion, events chosen by hazard with waiting times of the total rate, vector field. '
     'Observations of event models are the state after all events up to the observation time, for any starting time, and never of a later event. Priors, their draws and the maps to unconstrained coordinates belong together, and '
     'rates and waiting times are never negative.',
     ['inputs', 'configurations'], 'all parameters, states, times and random draws',
     'tests run one g-and-k model and compare posterior means',
     [M + 'abc/scenarios/gk.py', M + 'abc/scenarios/ricker.py', M + 'abc/scenarios/lotka_volterra.py', M + 'abc/scenarios/SIR.py', M + 'ssm/scenarios/lorenz63.py', M + 'ssm/scenarios/lorenz96.py'],
     [('GKUniformPrior.full_data_sample', M + 'abc/scenarios/gk.py'), ('lotka_volterra_simulate', M + 'abc/scenarios/lotka_volterra.py'), ('sir_single_step', M + 'abc/scenarios/SIR.py'), ('ricker_simulate', M + 'abc/scenarios/ricker.py'),
      ('lorenz96_dynamics', M + 'ssm/scenarios/lorenz96.py')],
     'two data values, three Ricker steps, up to 3 events, 2-3 observation times, Lorenz 96 of 4-6 variables; the normal quantile function is uninterpreted and the ODE library is represented by one Euler step',
     'The real simulators run on symbolic parameters and draws and are compared with the defining equations.')

prop('C29', 'Runs depend on their arguments only, not on earlier use of the same objects',
     'A run with a given target, sampler, key and start gives the same result whether these objects are new or were used before, also when parameters of target or sampler were changed in between; the same holds for the operations on '
     'state-space models. A run leaves the starting state and extra settings, particles or kernel it is given as they were, and results of earlier runs (with the parameters they report) do not change afterwards. '
     'A copy of a sampler follows its own parameters and schedule, not those of the original.',
     ['inputs', 'histories', 'configurations'], 'all targets and models (uninterpreted, with a parameter), parameter values before and after, starts and random draws',
     'tests use every object once, so stale compiled functions, shared mutable state and aliased results never show',
     [M + 'sample.py', M + 'utils.py', M + 'mcmc/qn_underdamped.py', M + 'ssm/filtering.py', M + 'ssm/backward.py', M + 'ssm/online_smoothing.py', M + 'transport/teki.py'],
     [('run', M + 'sample.py'), ('_leapfrog', M + 'utils.py'), ('ParticleFilter', M + 'ssm/filtering.py'), ('TemperedEKI.startup', M + 'transport/teki.py')],
     'histories of two runs, copies of seven samplers, one setting changed between two uses (57 pairs of sampler and setting); chains of 2-3 states, ensembles of 2 members, 1-2 iterations; two times of a state-space model',
     'Both uses and a third one with new objects are traced together with symbolic parameters; all fields of the second and third result are compared. A copy of a used sampler is compared with a new sampler of the same '
     'parameters, and the original with its state before. Large terms are replaced by symbols that are equal when the terms are.')

prop('C28', 'Saving results never loses results stored before',
     'Saving to a file that already holds results is refused, and leaves it as it is, unless overwriting is asked for. When overwriting, whichever single operation fails (a full disk, a field that cannot be stored, a failing file '
     'operation) and wherever the process stops, the file holds either all of the old results or all of the new ones, and a new file is never seen with part of the results. A save that succeeds can be loaded with every field as it '
     'was, and neither the saved object nor other stored results change.',
     ['crash_points', 'fault_sequences', 'histories'], 'every point where the process may stop, every fraction of a file written by then, every single failing operation, with and without an existing file',
     'tests save once in an empty folder; losing old results needs a crash or a failing write while overwriting',
     [M + 'core.py'], [('save_cdict', M + 'core.py'), ('load_cdict', M + 'core.py'), ('cdict.save', M + 'core.py')],
     'one save with one failure (a failing operation or a stop), folders of up to 3 files, first 8 operations; the process stops, not the machine (no lost disk caches); stored contents are opaque (complete, partial or absent)',
     'The real save runs in a scratch folder once per path condition; its file operations become a transition system, and the solver decides over path condition, stopping point and fraction written. A model is replayed by stopping '
     'the real code there (exit before the operation, or a file size limit inside a write).',
     tech='bounded model checking of recorded file operations (symbolic crash point and contents) with z3')

prop('C31', 'A setting acts the same however it is given to a sampler',
     'A setting of a sampler has the same effect whether it is given when the sampler is made, assigned to the sampler afterwards, or passed with the run, and also when the run itself makes the sampler from its class. '
     'The settings of an adaptive correction have the same effect whether given when it is made or assigned to it later, and whether it is assigned to the sampler or passed with the run.',
     ['configurations', 'inputs'], 'all values of numeric settings, starts, targets (uninterpreted) and random draws',
     'tests pass settings in one way each, so a value that is read too early or overwritten by a default goes unnoticed',
     [M + 'core.py', M + 'sample.py', M + 'mcmc/sampler.py', M + 'mcmc/metropolis.py', M + 'mcmc/standard_mcmc.py', M + 'mcmc/qn_underdamped.py', M + 'transport/sampler.py', M + 'transport/smc.py', M + 'transport/svgd.py',
      M + 'transport/teki.py', M + 'abc/importance.py', M + 'abc/mcmc.py', M + 'abc/smc.py'],
     [('run', M + 'sample.py'), ('MCMCSampler.startup', M + 'mcmc/sampler.py'), ('SMCSampler.startup', M + 'transport/smc.py'), ('ABCSMCSampler.startup', M + 'abc/smc.py')],
     '59 pairs of sampler and setting; ensembles of 2, one transition, choice of temperature, threshold, resampling or stopping after the start, or chains of 2-4 states; settings that fix a shape at one value each',
     'The sampler is made in each of the three ways and traced with the setting symbolic; every resulting field is compared. The root search (its own property) is an arbitrary function of everything it is given.')

CHECKS = {r['id']: r for r in REG}
