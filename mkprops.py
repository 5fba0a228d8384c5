#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay easy to edit)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))

D = 'cbx/dynamics/'
prop('C01', 'The consensus point is the Gibbs-weighted mean of the selected particles',
 'In every step of every consensus dynamic with a single consensus point per run, the consensus of each active run is the average of that run\'s selected particles (of their historical best positions in the memory-based dynamics) with weights proportional to exp(-alpha * energy), using that run\'s own alpha. It stays finite, inside the convex hull of those particles, and unchanged when a constant is added to the objective, however large the energies or alpha are (as long as one selected energy is finite and none is minus infinity). Particles outside the selected batch and particles of other runs have no influence on it.',
 ['inputs', 'configurations'], 'all energy patterns (ties, huge, negative, infinite, widely spread), per-run alphas, batch selections, active-run subsets, one- and multi-dimensional particles, every dynamic, numpy and torch',
 'Two tests compare the mean for one random ensemble with alpha=1 and energies of order one; overflow, ties, infinite energies, per-run alpha, terminated runs, other dynamics and the torch path are never compared with a formula.',
 [D+'pdyn.py', D+'cbo.py', D+'cbo_memory.py', D+'pso.py', D+'hypersurfacecbo.py', 'cbx/utils/torch_utils.py'],
 [('compute_consensus_default', D+'pdyn.py'), ('CBXDynamic.compute_consensus', D+'pdyn.py'), ('compute_consensus_rescale', D+'hypersurfacecbo.py'), ('compute_consensus_torch', 'cbx/utils/torch_utils.py')],
 [('consensus', 'consensus point per active run', 'CBXDynamic'), ('alpha', 'heat parameter per run', 'CBXDynamic')], ['dyn.consensus after dyn.step()'])
prop('C02', 'A CBO step applies the drift-diffusion update to exactly the selected particles',
 'One CBO step moves every selected particle x of an active run to x - lamda*dt*D + sigma*sqrt(dt)*s(D)*xi, where D is the (corrected) difference of x to its run\'s consensus point, xi is the sampled vector, and s(D) is the Euclidean norm of D (isotropic), D componentwise (anisotropic) or 1 (constant noise). The Heaviside correction keeps D exactly where the particle\'s energy exceeds the objective at the consensus point and zeroes it elsewhere; the regularised one scales it by (1+tanh(gap/eps))/2. Particles that are not selected (outside the batch in partial mode) do not move.',
 ['inputs', 'configurations'], 'all noise models and corrections, batch sizes, partial and full updates, active-run subsets, noise answers, one- and multi-dimensional particles, parameters dt, lamda, sigma, eps',
 'The tests check one step with default parameters and a custom noise; the built-in noise models and corrections are only checked for shape, never for value, and never with several runs, batches or multi-dimensional particles together.',
 [D+'cbo.py', D+'pdyn.py', 'cbx/noise.py', 'cbx/correction.py'],
 [('cbo_step', D+'cbo.py'), ('isotropic_noise/anisotropic_noise/constant_noise', 'cbx/noise.py'), ('heavi_side_correction', 'cbx/correction.py')],
 [('x', 'particle positions', 'ParticleDynamic')], ['dyn.x before and after dyn.step()'])
prop('C03', 'Memory dynamics track each particle\'s historical best and move by their rule',
 'In CBO with memory and in particle swarm optimisation, after every step the stored best position of each particle is the position with the smallest objective value among all positions that particle has been evaluated at so far, and its stored energy is the objective value there. The positions (and, for the swarm, velocities) of selected particles follow the published update driven by the attraction to the consensus of the best positions, the attraction to the particle\'s own best position, and one noise term for each. Particles outside a partial batch and terminated runs keep positions, velocities, best positions and energies.',
 ['inputs', 'histories', 'configurations'], 'all objective answers (improve, worsen, tie) per particle and step, all noise answers, batch modes, active-run subsets, multi-dimensional particles',
 'The tests run these dynamics only with all particles and all runs active and check counts, shapes and final distance on three functions; no test looks at the stored best positions after a step or at the update formula.',
 [D+'cbo_memory.py', D+'pso.py'],
 [('CBOMemory.inner_step', D+'cbo_memory.py'), ('PSO.inner_step', D+'pso.py')],
 [('y', 'historical best position per particle', 'CBOMemory, PSO'), ('energy', 'objective value at y', 'CBOMemory, PSO'), ('v', 'velocity', 'PSO')], ['dyn.x, dyn.y, dyn.v, dyn.energy after each step'])
prop('C04', 'AdamCBO keeps bias-corrected moments of the drift and steps by them',
 'Every AdamCBO step updates, for selected particles only, the first and second moment estimates of the drift (difference to the consensus) as exponential averages with the two given factors, and moves those particles by -lamda * m_hat / (sqrt(v_hat) + eps) plus sigma times the noise, where m_hat and v_hat are the moments divided by 1 minus the factor to the power of the 1-based iteration number. Moments and positions of unselected particles and of terminated runs stay as they were.',
 ['inputs', 'histories', 'configurations'], 'all short histories of objective and noise answers, moment factors, batch modes, active-run subsets',
 'test_adam_cbo stubs out every step test ("ToDo"), so neither the moments nor the update are checked on any input.',
 [D+'adamcbo.py'], [('AdamCBO.inner_step, update_moments', D+'adamcbo.py')], [('m, v', 'moments', 'AdamCBO')], ['dyn.x after each step'])
prop('C05', 'MirrorCBO moves dual variables and keeps the primal particles feasible',
 'Every MirrorCBO step adds the CBO increment (drift computed from the primal particles and the consensus) to the dual variables of the selected particles, leaves other dual variables unchanged, and sets each primal particle to the inverse mirror map of its dual variable. After every step all primal particles of a constrained mirror map lie in its feasible set: ball with its radius and center, hyperplane, sphere, square boundary with its radius, Stiefel manifold, open box (-1,1), probability simplex, non-negative numbers for the entropy.',
 ['inputs', 'histories', 'configurations'], 'every registered mirror map with default and non-default parameters, all short histories of noise answers, batch modes, noise models, corrections, initial points inside and outside the set and on its axes',
 'Two tests check membership after one random step for the unit ball and one hyperplane; all other maps are only checked not to crash, and no test checks the dual update, other radii/centers, or several steps.',
 [D+'mirrorcbo.py'], [('mirror_step', D+'mirrorcbo.py'), ('Projection*, LogBarrierBox, NegativeLogEntropySimplex, ...', D+'mirrorcbo.py')], [('y', 'dual variables', 'MirrorCBO')], ['dyn.x, dyn.y after each step'])
prop('C06', 'HyperSurfaceCBO never leaves the surface and moves by the projected update',
 'After every HyperSurfaceCBO step all moved particles lie on the chosen surface (unit sphere, hyperplane a.x=b, Stiefel manifold). The new position is the surface projection of x plus the tangential projection of lamda*dt*consensus + sigma*noise minus the curvature correction dt*sigma^2/2 * (Laplacian of the distance) * |drift|^2 * normal (isotropic noise), with every noise model ending on the surface. For anisotropic noise on the sphere the correction is dt*sigma^2/2 * (|D|^2 + sum(D^2) - 2*|D*x|^2) * x with D the drift; the intermediate point is assumed not to be the origin, where the sphere projection is undefined.',
 ['inputs', 'histories', 'configurations'], 'surfaces, dimensions, noise answers over several steps, parameters, noise types, batch modes, active-run subsets',
 'test_hypersurface_cbo stubs out the step tests; nothing checks that a particle is on the surface, and only the default sphere is ever constructed.',
 [D+'hypersurfacecbo.py'], [('HyperSurfaceCBO.inner_step', D+'hypersurfacecbo.py'), ('proj / proj_tangent_space', D+'hypersurfacecbo.py')], [], ['dyn.x after each step'])
prop('C07', 'Drift-constrained and regularised CBO steps solve their implicit equations',
 'A step of drift-constrained CBO moves each selected particle by minus the solution u of (I + dt/eps * Hessian) u = lamda*dt*drift + dt/eps * gradient + sigma*noise, with gradient and Hessian of the sum of squared constraints at the particle; without constraints this is the plain CBO step. A step of the regularisation-combination dynamic evaluates the objective plus the squared constraint divided by nu and moves each selected particle to the solution z of z + dt/eps * 2*g(x)*grad g(z) = x - lamda*dt*drift + sigma*noise. With independent noise switched on, only runs whose spread around the consensus is below the threshold are perturbed.',
 ['inputs', 'histories', 'configurations'], 'constraint lists (none, one, several; plane, sphere, quadric), points, noise answers, parameters, batch modes, active-run subsets',
 'The step tests of both dynamics are stubbed out and both are only ever constructed without constraints, so the constrained code paths are not run at all.',
 [D+'driftconstrainedcbo.py', D+'regcombinationcbo.py', 'cbx/constraints.py', 'cbx/regularizers.py'], [('dc_inner_step', D+'driftconstrainedcbo.py'), ('RegCombinationCBO.inner_step', D+'regcombinationcbo.py')], [], ['dyn.x before and after dyn.step()'])
prop('C08', 'Covariance noise is scaled by the square root of the weighted covariance',
 'With covariance noise (and hence in consensus-based sampling), the noise of each active run is sqrt(2*dt*c) times S times the sampled vector, where S is the symmetric positive semidefinite square root of the covariance of that run\'s particles around its consensus with weights exp(-alpha*energy), and c is 1+alpha in sampling mode and 1 in optimisation mode. This holds for every mode, per-run alpha, degenerate (rank-deficient or zero) ensembles and any subset of active runs; S stays finite and real.',
 ['inputs', 'configurations'], 'ensembles including collapsed and rank-deficient ones, per-run alphas, modes, active-run subsets, noise answers',
 'One test compares the covariance on one random ensemble; the factor, the mode, degenerate ensembles, terminated runs and the complete sampling step are not tested.',
 ['cbx/noise.py', D+'cbs.py', D+'pdyn.py'], [('covariance_noise', 'cbx/noise.py'), ('update_covariance, compute_mat_sqrt', D+'pdyn.py'), ('CBS', D+'cbs.py')], [], ['dyn.x before and after dyn.step()', 'compute_mat_sqrt'])
prop('C09', 'Polarized consensus weights every particle by kernel times Gibbs weight',
 'In polarized CBO the consensus seen by particle i of a run is the average of that run\'s selected particles j with weights proportional to exp(-factor * neglog k(x_i, x_j) - alpha * energy_j), where factor is alpha or 1 depending on the chosen mode. For each built-in kernel the value and its negative logarithm agree, the kernel is symmetric and equals 1 at zero distance: with r the distance of two flat particles it is exp(-r^2/(2 kappa^2)) (Gaussian), exp(-r/kappa) (Laplace), 1 for r<kappa and 0 otherwise (Constant), 1/(1+(r/kappa)^2) (InverseQuadratic), and exp(-(r/(kappa*rmax))^2) with rmax the largest distance within the run (Taz). The weights of one run never depend on other runs. An infinitely wide Gaussian kernel reproduces the ordinary consensus.',
 ['inputs', 'configurations'], 'all kernels, kappa, factor modes, per-run alphas, point configurations including coincident points, batch modes, active-run subsets, several runs, numpy and torch consensus functions',
 'One test checks one random ensemble with the Gaussian kernel, kappa=1 and alpha=1; the other kernels are checked for shape only.',
 [D+'polarcbo.py', 'cbx/utils/torch_utils.py'], [('compute_polar_consensus', D+'polarcbo.py'), ('*_kernel', D+'polarcbo.py')], [], ['dyn.consensus after dyn.step()', 'kernel(x,y), kernel.neg_log(x,y)'])
prop('C10', 'The runs of one ensemble evolve independently of each other',
 'An ensemble with M runs evolves, run by run, exactly as M separate one-run dynamics with the same initial particles, per-run parameters, noise and batches, including when some runs have been terminated. This covers positions, energies, consensus, best particles and energies, update norms and evaluation counts, for every dynamic, noise model, correction, kernel and batching mode.',
 ['inputs', 'histories', 'configurations'], 'all dynamics, noise models, corrections, kernels, batch modes, termination patterns of the runs, objective shapes',
 'The tests mostly use several runs but compare only shapes or single values; nothing compares a multi-run ensemble with separate runs, and the two tests that terminate runs terminate all of them at once.',
 ['cbx/dynamics', 'cbx/noise.py', 'cbx/correction.py'], [('array-level runs, active_runs_idx indexing', D+'pdyn.py')], [('active_runs_idx', 'runs not yet terminated', 'ParticleDynamic')], ['full observable state after each step'])
prop('C11', 'Terminated runs freeze while the remaining runs continue',
 'Once the termination check has found that a criterion holds for a run, further steps leave that run\'s particles, energies, best particle, best energy and evaluation count unchanged as long as the criterion holds, while every other run keeps being updated. (Dynamics with memory evaluate their initial particles with the first step and record the best of them then.) The check reports termination exactly when every run meets at least one criterion, lists as active exactly the runs that meet none, and names the met criteria as the reason.',
 ['histories', 'configurations'], 'all assignments of termination times to runs, all dynamics, noise models, corrections and batch modes, several criteria per run',
 'Every existing test terminates all runs in the same iteration, so the partially terminated state is never reached.',
 [D+'pdyn.py', 'cbx/dynamics'], [('select_active_runs, terminate', D+'pdyn.py'), ('set_batch_idx_*', D+'pdyn.py')], [('active_runs_idx, term_reason', 'termination state', 'ParticleDynamic')], ['state after each step'])
prop('C12', 'Each built-in termination criterion fires exactly when its condition holds',
 'Per run, the criteria fire exactly when: the current minimum energy is below the tolerance; the last update norm is below the tolerance; the evaluations used plus one batch would exceed the maximum; the iteration count has reached the maximum; the time has reached the maximum; the consensus energies of the last `patience` iterations have a standard deviation below the threshold (never before `patience` iterations). Criteria given by name, by dictionary or as object behave identically, and optimisation stops at the first check at which every run meets some criterion.',
 ['histories', 'configurations'], 'all short per-run histories of energies and updates, thresholds at and around the observed values, combinations of criteria, several runs, batch sizes',
 'Each criterion is tested once, for one trajectory in which all runs behave the same, and stagnation only with one run.',
 ['cbx/utils/termination.py', D+'pdyn.py'], [('*_term', 'cbx/utils/termination.py'), ('optimize', D+'pdyn.py')], [], ['dyn.terminate(), dyn.active_runs_idx, dyn.it at the end of optimize()'])
prop('C13', 'Best-so-far tracking is exact, monotone and consistent with the objective',
 'After every step, the best energy of each run is the minimum of all objective values obtained for its particles during the steps so far, never increases, and the stored best particle is a point at which the objective has exactly that value. optimize() returns these best particles. This holds for all dynamics, batch modes, ties, infinite values, partially terminated runs and repeated optimize() calls.',
 ['histories', 'inputs', 'configurations'], 'all assignments of objective values from a small alphabet to the evaluated points over short histories, all dynamics, batch modes and termination patterns',
 'Tests look at the best particle only after one step on a hand-made ensemble or as a distance to the minimum of a smooth function after 50 steps; a stored particle that does not belong to the stored energy passes them.',
 [D+'pdyn.py', D+'cbo_memory.py', D+'pso.py'], [('update_best_cur_particle, update_best_particle', D+'pdyn.py')], [('best_energy, best_particle', 'best so far', 'ParticleDynamic')], ['dyn.best_energy, dyn.best_particle, return value of optimize()'])
prop('C14', 'Function evaluations are counted exactly, per run',
 'The evaluation counter of each run always equals the number of points of that run at which the objective has actually been evaluated (shape check, initialisation, steps, corrections, termination checks, resampling), and counting promoted objectives report the total number of points they were evaluated at. Terminated runs stop accumulating once terminated, and the counter is correct for every dynamic, batch size and particle dimension.',
 ['histories', 'configurations'], 'all dynamics, corrections, batch modes, termination patterns, criteria and resamplings that evaluate, single and multi-dimensional particles, objective shapes',
 'One test compares the total for default settings without correction, batching, terminated runs or multi-dimensional particles.',
 [D+'pdyn.py', D+'pso.py', D+'cbo_memory.py', 'cbx/correction.py', 'cbx/utils/termination.py', 'cbx/utils/resampling.py', 'cbx/utils/objective_handling.py'], [('eval_f', D+'pdyn.py'), ('cbx_objective.__call__', 'cbx/utils/objective_handling.py')], [('num_f_eval', 'evaluations per run', 'ParticleDynamic')], ['dyn.num_f_eval, f.num_eval versus a recording objective'])
prop('C15', 'Batches partition each random permutation of the particles as configured',
 'In every step each active run uses a batch of exactly min(size, N) different particles, taken consecutively from a uniformly drawn permutation of its N particles; within one permutation no particle is used twice. When too few indices are left, the "resample" variant drops them and draws a new permutation, while the "concat" variant uses all left-over indices first and fills the batch with the first particles of the new permutation that are not yet in it, so that usage counts of two particles never differ by more than one. The objective is evaluated on exactly the batch, partial mode moves exactly the batch, non-partial mode moves all particles, the draw depends only on the batch seed, and a size of None or >= N means no batching.',
 ['histories', 'configurations'], 'all permutation outcomes over several epochs for small N, all sizes, both variants, both partial modes, several runs with terminated ones',
 'Tests do one batched step and read the indices the code itself reports; epochs, exhaustion of the permutation, the concat variant and terminated runs are never exercised.',
 [D+'pdyn.py'], [('init_batch_idx, set_batch_idx_batched', D+'pdyn.py')], [('indices', 'remaining permutation', 'CBXDynamic')], ['points passed to the objective, particles that moved, dyn.consensus_idx, dyn.particle_idx'])
prop('C16', 'The history is a faithful record of the run',
 'With tracking configured, the history holds for each tracked name the initial entry where documented (particles) plus one entry for every save_int-th iteration starting with the first; each entry equals the tracked quantity at that moment and never changes afterwards, whatever steps, in-place updates or resets follow. Extra trackers and arbitrary attribute names are recorded likewise, and unknown names only warn.',
 ['histories', 'configurations'], 'all tracked names and combinations, save intervals, all dynamics, operation sequences of step, optimize and reset',
 'No test inspects the content of the history.',
 ['cbx/utils/history.py', D+'pdyn.py', D+'mirrorcbo.py'], [('init_history, track', D+'pdyn.py'), ('track_*', 'cbx/utils/history.py')], [('history', 'recorded values', 'ParticleDynamic')], ['dyn.history'])
prop('C17', 'Dynamics do not share state and never modify the user\'s inputs',
 'Any interleaving of constructing, stepping, optimising and resetting two dynamics built from the same objective, initial array and configuration objects gives each of them exactly the result it has alone. The user\'s initial array, configuration dictionaries and lists are never modified, and later changes the user makes to the initial array do not affect the dynamic.',
 ['schedules', 'histories', 'configurations'], 'all interleavings of short operation sequences of two dynamics, all dynamics, noise, batch and tracking configurations',
 'Every test uses one dynamic at a time and fresh configuration objects.',
 ['cbx/dynamics', 'cbx/utils/history.py', 'cbx/scheduler.py'], [('copying of inputs in __init__', D+'pdyn.py')], [], ['full observable state of both dynamics, inputs'])
prop('C18', 'With a seed and given particles a run is reproducible',
 'Two dynamics constructed with the same initial particles, seed and settings produce bitwise identical trajectories, whatever the state of the global random generators and however often they were used in between. Different seeds give different noise, and the batch seed determines the batches independently of the noise seed.',
 ['histories', 'configurations'], 'all dynamics and noise models, batch modes, seeds, perturbations of the global random state between any two steps',
 'No test uses the seed argument.',
 [D+'pdyn.py', D+'driftconstrainedcbo.py', 'cbx/noise.py', 'cbx/utils/resampling.py'], [('set_array_backend_funs', D+'pdyn.py'), ('batch_rng', D+'pdyn.py')], [], ['trajectories'])
prop('C19', 'Default post-processing keeps particles finite and bounded, and only that',
 'With the default post-processing, after every step of every dynamic all particle coordinates are finite and within [-max_thresh, max_thresh], even if noise or objective produced NaN, infinities or huge values. Coordinates that were finite and within the bounds are not altered by post-processing, and a user-supplied post-processing callable is called exactly once per step with the dynamic and replaces the default.',
 ['inputs', 'fault_sequences', 'configurations'], 'fault patterns (NaN, +inf, -inf, huge) injected at any particle, coordinate and step of short histories, all dynamics, thresholds, numpy and torch',
 'No test produces a non-finite or out-of-range value.',
 [D+'pdyn.py', D+'regcombinationcbo.py', 'cbx/utils/torch_utils.py'], [('post_process_default', D+'pdyn.py'), ('post_process_default_torch', 'cbx/utils/torch_utils.py')], [], ['dyn.x after each step'])
prop('C20', 'Schedulers update parameters exactly once per iteration and within bounds',
 'A multiplicative schedule multiplies the named parameter by its factor after each iteration and never lets it exceed its maximum; several schedules are applied in order, each run\'s value separately. The effective-sample-size schedule sets each run\'s alpha, within its bounds, to the value whose effective sample size (sum w)^2/sum w^2 with w=exp(-alpha*energy), for finite energies, equals eta*N up to the bisection resolution or its tolerance. optimize() applies the default, effective, given or no schedule as requested, once after every step.',
 ['inputs', 'histories', 'configurations'], 'parameter values, factors, maxima, list orders, iteration counts, energy patterns including ties and huge spreads, eta, several runs with different energies',
 'Tests cover two multiply schedules on one run and one bisection with eta=1 and an odd-shaped energy array.',
 ['cbx/scheduler.py', D+'pdyn.py', D+'cbs.py', 'cbx/utils/torch_utils.py'], [('multiply, effective_sample_size, bisection_solve', 'cbx/scheduler.py'), ('optimize', D+'pdyn.py')], [], ['dyn.alpha, dyn.sigma, dyn.dt after each iteration'])
prop('C21', 'A promoted objective equals the user\'s function at every particle',
 'For an objective given on single particles, on one run, or on the whole ensemble, the promoted objective maps every ensemble of shape (M,N,d) - including M, N or d equal to one - to the array of shape (M,N) whose entry (m,n) is the user\'s function value at particle (m,n), without truncation or mixing of entries. Objectives whose output shape does not fit are rejected on construction, non-callables and unknown declarations are refused, and the evaluation counter of an objective on flat particles grows by exactly the number of particles.',
 ['inputs', 'configurations'], 'all ensemble shapes up to a bound, objective declarations, return types (python int, float, bool, numpy scalar, length-one array) mixed over particles',
 'Two tests use one shape (6,5,7) and one float-valued function.',
 ['cbx/utils/objective_handling.py', D+'pdyn.py'], [('_promote_objective, cbx_objective_f1D, cbx_objective_f2D', 'cbx/utils/objective_handling.py'), ('check_f_dims', D+'pdyn.py')], [], ['dyn.f(x)', 'f.num_eval'])
prop('C22', 'Library objectives are pointwise, shape-preserving and match their formulas',
 'Every objective of the library maps any array (..., d) of its supported dimension to (...) - in particular ensembles with one run or one particle - where each value depends only on its own point and equals the documented formula for every parameter setting. The minimiser locations an objective declares attain, up to rounding of the digits given, the smallest value of the function over its documented domain (default parameters).',
 ['inputs', 'configurations'], 'all objectives, constructor parameters including documented array-valued ones, shapes including ones, a lattice of points including zeros, axes and declared minima',
 'One shape test per objective with default parameters on one random array, which the single-run shapes escape; no value is tested.',
 ['cbx/objectives.py'], [('apply of each objective', 'cbx/objectives.py')], [], ['objective(x)'])
prop('C23', 'Constraint derivatives and solvers agree with the constraint functions',
 'For each constraint type the gradient and Hessian are the derivatives of the constraint value, and those of the squared constraint follow from them; for any list of constraints the sums run over all of them. Each linear-solve routine returns the solution of the linear system it names at every point, with zero, one or several constraints alike.',
 ['inputs', 'configurations'], 'constraint types and parameters (scaled normals, non-symmetric quadrics), lists of up to three constraints, a lattice of points including zeros and points on the constraint set, factors',
 'Tests cover sphere values and gradient, and of the solvers only one zero- and one single-constraint identity and a shape.',
 ['cbx/constraints.py'], [('Constraint, MultiConstraint and subclasses', 'cbx/constraints.py')], [], ['constraint methods'])
prop('C24', 'Resampling perturbs exactly the indicated runs and keeps its counters right',
 'Applying a resampling perturbs, by sigma_indep*sqrt(dt) times sampled noise, all particles of exactly those active runs that at least one indicator selects, once each, and increments exactly their counters. The loss indicator selects a run exactly when its best energy has not improved for the waiting number of calls (then starts over), the update indicator when the last update norm is below its threshold, and the consensus indicator when the consensus moved less than the threshold in all of the remembered (at most patience) calls, for dynamics with one consensus point per run; the optional best consensus is the lowest-energy consensus seen at resampling times.',
 ['histories', 'inputs', 'configurations'], 'all short per-run histories of improve/stall, update norms, consensus moves and terminated runs; combinations of indicators',
 'There are no tests of resampling.',
 ['cbx/utils/resampling.py'], [('resampling, loss_update_resampling, ensemble_update_resampling, consensus_stagnation', 'cbx/utils/resampling.py')], [('wait, best_energy', 'per-run stall counters', 'loss_update_resampling')], ['dyn.x before/after, num_resampling'])
prop('C25', 'The torch backend computes the same dynamics as the numpy backend',
 'A dynamic converted to torch and its numpy original, given the same particles, objective, parameters, noise and batches, have equal positions, consensus, energies, best particles and energies, update norms, counters and termination decisions after every step, up to floating point accuracy of the chosen precision, for every dynamic that accepts tensors (CBO, MirrorCBO, PolarCBO with its torch consensus function, and the constrained dynamics without constraints) with isotropic, anisotropic or constant noise. The user\'s tensor is not modified.',
 ['inputs', 'histories', 'configurations'], 'noise models, batch modes, active-run subsets, schedulers, precisions, particle dimensions, injected NaN',
 'The torch tests only check that a run finishes with the right shape.',
 ['cbx/utils/torch_utils.py', D+'pdyn.py'], [('to_torch_dynamic', 'cbx/utils/torch_utils.py')], [], ['observable state after each step'])
prop('C26', 'optimize() equals the manual loop and can be split, repeated and reset',
 'optimize() performs exactly the loop check-termination, step, schedule update, and nothing else that affects the result: any split of n iterations into optimize() calls, manual steps and checks gives the same state as one call (for criteria that judge the current state), whatever verbosity and print interval. The iteration counter and the time advance by one and dt per step; after reset() the counter, the time and the recorded history, and only these, are as at the start with the same tracked quantities, and a new optimisation can run its full number of iterations. With verbosity 0 nothing is printed.',
 ['histories', 'configurations'], 'all sequences of step/optimize/reset operations up to a depth, all dynamics, schedulers, verbosity and print intervals',
 'One test calls optimize, reset, optimize once and looks only at the counter.',
 [D+'pdyn.py', D+'cbs.py'], [('optimize, step, reset', D+'pdyn.py'), ('run', D+'cbs.py')], [('it, t', 'iteration and time', 'ParticleDynamic, CBXDynamic')], ['state after each operation, stdout'])
prop('C27', 'Ensembles are initialised with the requested shape and range',
 'Given initial particles of shape (d), (N,d) or (M,N,...), of floating point or integer type, the dynamic works on a private floating point copy with the same values and shape (1,1,d), (1,N,d) or unchanged; without them it draws an (M,N,d) ensemble with every coordinate in [-1,1] and refuses a missing dimension. The initialisation helper returns arrays of the requested shape, uniform ones within the requested bounds, normal ones scaling with the standard deviation, and refuses unknown methods and shapes.',
 ['inputs', 'configurations'], 'all shapes up to a bound, all dynamics, array and tensor inputs, bounds, random-generator answers at the extremes',
 'A few fixed shapes are tested; values, privacy of the copy and bounds other than [-1,1] are not.',
 [D+'pdyn.py', 'cbx/utils/particle_init.py'], [('init_x, init_particles', D+'pdyn.py'), ('init_particles', 'cbx/utils/particle_init.py')], [], ['dyn.x after construction'])
prop('C28', 'Regularised objectives and penalty schedules follow their definition',
 'A regularised objective equals the original objective plus lamda times the regulariser to the power p at every particle, with each run\'s own lamda. The penalty schedule multiplies, per run, theta by its factor where the (weighted) mean constraint violation over the particles of the run is at most 1/sqrt(theta), and otherwise divides theta and multiplies lamda by theirs, never exceeding the given maxima; the regulariser functions equal the distances or norms they are named after.',
 ['inputs', 'histories', 'configurations'], 'all regularisers with default and other parameters, powers, per-run penalties, short histories of satisfied/violated outcomes per run, maxima',
 'There are no tests of regularizers.',
 ['cbx/regularizers.py'], [('regularize_objective, regularization_paramter_scheduler', 'cbx/regularizers.py')], [('lamda, theta', 'penalty state per run', 'regularizers.py')], ['f(x), f.lamda, scheduler.theta'])
prop('C29', 'Success evaluation reports exactly the runs that meet every criterion',
 'The distance criterion lists exactly the runs whose best particle is strictly closer to the true minimiser than the tolerance in the chosen norm, the value criterion exactly those whose best particle\'s objective is strictly below the threshold, and the combined evaluation the runs listed by every criterion, with matching number and rate; nothing is printed when verbosity is zero.',
 ['inputs', 'configurations'], 'all success patterns of up to three runs, dimensions including one, norms, tolerances on both sides of the distances, combinations of criteria',
 'There are no tests of success evaluation.',
 ['cbx/utils/success.py'], [('dist_to_min, value_thresh, evaluation', 'cbx/utils/success.py')], [], ['returned dictionaries, stdout'])
prop('C30', 'Plots show the state of the requested run, dimensions and iteration',
 'The live plot shows, after each update, the particles, consensus and drift arrows of the selected run and dimensions from which the last step of that run was computed; the history plot shows at index i exactly the recorded particles, consensus and drift of index i. Objective plots evaluate the objective on the requested window, and plotting never changes the dynamic.',
 ['histories', 'configurations'], 'runs, dimension pairs, one- and higher-dimensional particles, batch modes, plotted items, all history indices',
 'The plotting tests only check that nothing crashes.',
 ['cbx/plotting.py'], [('PlotDynamic, PlotDynamicHistory', 'cbx/plotting.py')], [], ['offsets of the matplotlib artists'])
prop('C31', 'Packed network parameters reproduce the networks they came from',
 'Flattening the parameters of several torch models into a particle array and evaluating the models through the packed representation gives, for each particle, the output, loss and accuracy of the corresponding model (networks without buffers); the property map assigns to each parameter name its own disjoint slice with its shape, covering the particle exactly, for every choice and order of parameter names.',
 ['inputs', 'configurations'], 'model architectures, numbers of models, parameter name subsets and orders, input batches',
 'There are no tests of these functions.',
 ['cbx/utils/torch_utils.py'], [('flatten_parameters, get_param_properties, eval_model(s), eval_loss(es), eval_acc', 'cbx/utils/torch_utils.py')], [], ['returned tensors'])
prop('C32', 'Mirror maps are inverse to each other, or projections onto their set',
 'For each registered mirror map with a differentiable potential the gradient map is the gradient of the potential, and followed by the conjugate gradient map returns every point of the domain unchanged up to rounding, componentwise finite also at zero. For each projection map the conjugate map returns a point of the set, leaves points of the set unchanged, and no other point of the set is closer to its argument; selection by name, dictionary or object yields the same map with the given parameters.',
 ['inputs', 'configurations'], 'all maps with default and other parameters, a lattice of points including zero, boundaries and far outside, ensemble shapes',
 'The maps are only checked not to crash.',
 [D+'mirrorcbo.py'], [('grad, grad_conj', D+'mirrorcbo.py')], [], ['grad(x), grad_conj(y)'])
prop('C33', 'Results do not depend on labelling or on the origin',
 'Relabelling the particles within runs, or the runs of an ensemble, together with their noise, relabels the result of every step of every dynamic and changes nothing else. For the dynamics without constraints or mirror map, translating particles and objective together translates all trajectories, consensus points and best particles and leaves energies, counters and decisions unchanged, up to rounding and for particles whose energies do not tie.',
 ['inputs', 'histories', 'configurations'], 'all permutations of up to four particles and three runs, several translations, all dynamics, noise models, corrections, kernels over short histories',
 'Tests use one labelling and origin-centred objectives.',
 ['cbx/dynamics', 'cbx/noise.py', 'cbx/correction.py'], [('symmetric update formulas', 'cbx/dynamics')], [], ['observable state after each step'])
prop('C34', 'Equivalent ways of writing a configuration give the same run',
 'How a configuration is written never influences the result: a noise model, correction, consensus function, kernel, mirror map, surface, constraint, post-processing, termination criterion, tracker, schedule, sampler or array function given by name, by dictionary, as object of the library or as a user-written callable that computes the same; an option left out, None or spelled out with its default; alpha as a number or as an equal column per run; the objective as 1D, 2D, 3D function or library class; verbosity and saved evaluation points. All observables at every termination check, the history, the counters, the termination reasons and the returned particle coincide, also after a reset.',
 ['configurations', 'histories'], 'every constructor option of every dynamic in all its spellings, single and in pairs, with and without batches, runs terminating one after the other',
 'Tests use one spelling at a time and never compare two.',
 ['cbx/dynamics', 'cbx/noise.py', 'cbx/correction.py', 'cbx/utils', 'cbx/scheduler.py'],
 [('option handling', D+'pdyn.py'), ('get_noise', 'cbx/noise.py'), ('get_correction', 'cbx/correction.py'), ('select_term', 'cbx/utils/termination.py')], [], ['observable state at each termination check, history, term_reason'])
prop('C35', 'What is printed or saved on request is the true state, silence is kept',
 'With verbosity 0 nothing is printed. Otherwise optimize() names the dynamic, reports after every print_int-th iteration, starting with the first, (by default every save_int-th) the time, the minimum energies and the evaluation counts of all runs at that moment, with verbosity 2 also alpha, and at the end the best energies; resampling and success evaluation print exactly the runs concerned. With save_consensus_eval_points the dynamics whose consensus is that of the current particles keep, for every particle, the position at which its stored energy was evaluated, whatever was moved, batched or terminated since.',
 ['histories', 'configurations'], 'all dynamics, verbosities, print and save intervals, batches, sets of terminated, resampled and successful runs',
 'Tests never look at the output or at the saved points.',
 [D+'pdyn.py', D+'cbs.py', 'cbx/utils/resampling.py', 'cbx/utils/success.py'],
 [('optimize, print_cur_state, print_post_opt, maybe_save_consensus_eval_points', D+'pdyn.py')], [], ['standard output', 'consensus_eval_points'])
prop('C36', 'A dynamic written by the user gets the bookkeeping of the library',
 'A dynamic a user writes by overriding inner_step (and, calling the inherited ones, pre_step or post_step) of ParticleDynamic or CBXDynamic is kept book of like the library ones: every step runs pre-step, inner step and post-step once, in this order; afterwards the current best of each run is the smallest stored energy with its particle (of the positions before the step, where the pre-step kept them), the best energy and particle are the best ones of all steps so far, the update norm is the Frobenius norm of the displacement of the run divided by N, the configured history entries are recorded, post-processing has run once and the counters have advanced. optimize() terminates such a dynamic by the given criteria and returns its best particles. The update of CBO written this way, with the offered consensus, correction, noise and index sets, gives the same run as CBO.',
 ['histories', 'configurations'], 'all histories of energies and moves within a deviation bound, base classes, shapes, sets of terminated runs',
 'Tests have no dynamic of their own.',
 [D+'pdyn.py', D+'cbo.py'],
 [('pre_step, inner_step, post_step, step, optimize, track, update_best_cur_particle, update_best_particle', D+'pdyn.py')], [], ['state after each step', 'history'])
pathlib.Path(__file__).with_name('properties.jsonl').write_text(''.join(json.dumps(p) + '\n' for p in P))
for p in P:
    assert len(p['title']) <= 80, p['title']
print(len(P), 'properties')
