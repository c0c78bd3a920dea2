#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (run by hand after editing the table)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = 'filterpy/kalman/'
KFp = K + 'kalman_filter.py'
H, I, C, X = 'histories', 'inputs', 'configurations', 'fault_sequences'
P = []


def prop(id, title, statement, over, q, why, where, mc=None):
    """where: list of (mechanism name, 'file:symbol')"""
    files = []
    for _, w in where:
        f = w.split(':')[0]
        if f not in files:
            files.append(f)
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in where])), mc))


prop('P01', 'Kalman filter histories give the exact Bayesian posterior',
     'After any history of predictions (with or without control input or per-call model overrides), measurement updates '
     '(in any accepted measurement form, with or without per-call noise/measurement-matrix overrides), missing measurements and '
     'reassignments of the model, the Kalman filter state and covariance are the mean and covariance of the exact linear-Gaussian '
     'posterior, and keep the shape the user gave the state. The procedural predict and update functions give the same results. '
     'Residual, gain and system uncertainty after an update are those of that update.',
     [H, I, C], 'all operation histories, all shapes of state/measurement/control, all overrides',
     'Tests run a few fixed trajectories of one or two shapes, mostly predict/update alternation with scalar measurements; '
     'control input, overrides, reassignment and missing measurements are almost never mixed.',
     [('predict', KFp + ':KalmanFilter.predict'), ('update', KFp + ':KalmanFilter.update'),
      ('procedural', KFp + ':predict/update')])

prop('P02', 'A missing measurement changes no estimate, in any filter',
     'Updating any filter that documents it (linear, steady-state, correlated, square-root, information, extended, unscented, cubature, '
     'ensemble, fading-memory, H-infinity, interacting multiple model, multiple-model bank) with None as the measurement leaves its state estimate, covariance and model '
     'probabilities exactly as they were, at any point of any history, and the filter continues afterwards as if the call had not happened. '
     'The recorded measurement shows the absence, and the recorded posterior equals the current estimate.',
     [H, X], 'every subset of steps of a history whose measurement is missing, for every filter',
     'Tests pass None to one or two filters once; a missing measurement that corrupts later steps, mode probabilities or bookkeeping is not exercised.',
     [('update(None)', KFp + ':KalmanFilter.update'), ('imm', K + 'IMM.py:update'), ('mmae', K + 'mmae.py:update'),
      ('ukf', K + 'UKF.py:update'), ('ckf', K + 'CubatureKalmanFilter.py:update'), ('ekf', K + 'EKF.py:update'),
      ('enkf', K + 'ensemble_kalman_filter.py:update'), ('sqrt', K + 'square_root.py:update'),
      ('info', K + 'information_filter.py:update'), ('fading', K + 'fading_memory.py:update'),
      ('hinf', 'filterpy/hinfinity/hinfinity_filter.py:update')])

prop('P03', 'Covariances stay symmetric positive semi-definite and shrink on update',
     'At every point of every history the covariance reported by every covariance-propagating filter is finite, symmetric and positive semi-definite (up to rounding relative to the prior), '
     'including when the measurement noise is many orders of magnitude smaller than the prior or the problem is badly scaled. '
     'A measurement update of a single-model filter never increases the uncertainty in any direction, and (for the standard and square-root Kalman filters) this survives '
     'long runs without process noise.',
     [H, I, C], 'all histories, all noise ratios down to 1e-12, all shapes',
     'Tests compare a few well conditioned trajectories; symmetry/definiteness loss shows only at extreme ratios or after long runs.',
     [('Joseph form', KFp + ':KalmanFilter.update'), ('QR', K + 'square_root.py:update'), ('unscented', K + 'UKF.py:update')])

prop('P04', 'Batch processing equals step-by-step processing',
     'Filtering a whole sequence with any batch function gives exactly the means, covariances and priors obtained by calling predict and update one step at a time '
     'with the same per-step models, noises, controls and missing measurements, in predict-first and in update-first order. '
     'For the Kalman-type filters a saver passed to the batch function records every step and the filter ends in the same state as the step-by-step filter; the g-h batch functions leave the filter itself unchanged.',
     [H, I, C, X], 'all measurement sequences (with every pattern of missing measurements), all per-step override lists, both orders',
     'Tests compare one sequence per filter with constant models and no missing measurement, no controls and one order.',
     [('KF', KFp + ':KalmanFilter.batch_filter'), ('procedural', KFp + ':batch_filter'), ('UKF', K + 'UKF.py:batch_filter'),
      ('fading', K + 'fading_memory.py:batch_filter'), ('H-inf', 'filterpy/hinfinity/hinfinity_filter.py:batch_filter'),
      ('g-h', 'filterpy/gh/gh_filter.py:GHFilter.batch_filter'), ('g-h-k', 'filterpy/gh/gh_filter.py:GHKFilter.batch_filter')])

prop('P05', 'RTS smoothing returns the exact smoothed posterior of every step',
     'Given the filtered means and covariances of any measurement sequence (without control input), the Rauch-Tung-Striebel smoother returns for every step the mean and covariance of the '
     'state conditioned on all measurements of the sequence, for constant and for per-step transition matrices, process noises and (unscented) time steps, with any pattern of missing measurements. '
     'The last smoothed estimate equals the filtered one, the smoothed covariance never exceeds the filtered one, and the inputs are not modified.',
     [H, I, C], 'all measurement sequences, all per-step models',
     'Tests smooth one constant-model trajectory and check closeness to the truth, not optimality; index shifts with time-varying models are invisible there.',
     [('KF', KFp + ':KalmanFilter.rts_smoother'), ('procedural', KFp + ':rts_smoother'), ('UKF', K + 'UKF.py:rts_smoother')])

prop('P06', 'Queries are pure and results are never modified afterwards',
     'Asking a filter for a prediction, a hypothetical update, a residual, a projected measurement, a likelihood or a string representation changes nothing in the filter, and its answer '
     'agrees with what actually performing the operation would give. No operation modifies the arrays the user passed in, and no later operation modifies state estimates or covariances previously obtained from the filter.',
     [H, I], 'all interleavings of queries with mutating operations, in all orders',
     'Tests read each query once after a fixed sequence and never compare earlier results again.',
     [('KF queries', KFp + ':KalmanFilter.get_prediction/get_update/residual_of/measurement_of_state'),
      ('fading', K + 'fading_memory.py:get_prediction'), ('sqrt', K + 'square_root.py:residual_of'),
      ('H-inf', 'filterpy/hinfinity/hinfinity_filter.py:get_prediction')])

prop('P07', 'The square-root filter equals the Kalman filter',
     'For any history of predictions (with and without control), updates (with and without a noise override given as the square root of the measurement noise), missing measurements and reassignments, the square-root filter reports the same state, covariance, process '
     'and measurement noise, system uncertainty and its inverse, prior and posterior as the exact Kalman filter; its square-root factors reproduce the covariances they stand for. This remains true for badly scaled problems.',
     [H, I, C], 'all histories and shapes', 'One test follows a fixed 1-measurement trajectory.',
     [('update/predict', K + 'square_root.py:SquareRootKalmanFilter')])

prop('P08', 'The information filter equals the Kalman filter',
     'For any history of predictions (with and without control), updates (with and without an inverse-noise override) and missing measurements, the information filter has the same '
     'state, and an information matrix equal to the inverse of the covariance, as the exact Kalman filter, and reports the same measurement log-likelihoods. '
     'Without a prior, or with information about only part of the state, its information matrix is still exact, and its state is the exact estimate as soon as the measurements determine it.',
     [H, I, C], 'all histories, with full, partial or no prior information', 'Tests follow fixed 1-measurement trajectories without control; the likelihood is not compared.',
     [('update/predict', K + 'information_filter.py:InformationFilter')])

prop('P09', 'The extended Kalman filter is the linearization at the current estimate',
     'For any history, with any measurement function, Jacobian, extra arguments for them, custom residual, noise override and control, each extended Kalman filter update is the exact Gaussian update with the measurement function and its Jacobian evaluated at the '
     'current estimate, so that on linear problems it equals the Kalman filter. The combined predict-and-update operation equals the prediction followed by the update.',
     [H, I, C], 'all histories, functions and shapes', 'One radar trajectory is tested for closeness to the truth.',
     [('update', K + 'EKF.py:update'), ('predict_update', K + 'EKF.py:predict_update'), ('predict', K + 'EKF.py:predict')])

prop('P10', 'Sigma-point filters equal the Kalman filter on linear problems',
     'When the process and measurement functions are linear, the unscented filter (with any of the provided sigma point schemes and parameters) and the cubature filter give, for every history of predict-update cycles with overrides, changing time steps and missing measurements, the '
     'state, covariance, residual, gain and system uncertainty of the exact Kalman filter.',
     [H, I, C], 'all cycle histories, sigma point families and parameters, shapes', 'Tests compare a single trajectory loosely with the Kalman filter.',
     [('UKF', K + 'UKF.py:UnscentedKalmanFilter'), ('CKF', K + 'CubatureKalmanFilter.py:CubatureKalmanFilter'), ('UT', K + 'unscented_transform.py')])

prop('P11', 'Reported likelihoods are those of the most recent measurement',
     'After any history, the log-likelihood, likelihood and Mahalanobis distance reported by a filter are those of the residual of its most recent measurement under its system uncertainty, whenever and in whatever order they are read, and the likelihood is the exponential of the log-likelihood but never zero. '
     'Reading them changes nothing.',
     [H, I], 'all histories and read orders', 'Tests read the value right after one update, so stale caching is invisible.',
     [('KF', KFp + ':KalmanFilter.log_likelihood'), ('EKF', K + 'EKF.py:log_likelihood'), ('UKF', K + 'UKF.py:log_likelihood'),
      ('CKF', K + 'CubatureKalmanFilter.py:log_likelihood'), ('fading', K + 'fading_memory.py:log_likelihood')])

prop('P12', 'Sequential measurement processing equals joint processing',
     'With measurement noise that is block diagonal, incorporating the components of a measurement one block at a time, in any partition into contiguous blocks and in any order, gives the same state and covariance as incorporating the whole measurement at once, with the filter\'s own or overridden noise and measurement matrix.',
     [H, I], 'all partitions, all orders, all histories', 'One test with one partition.',
     [('update_sequential', KFp + ':KalmanFilter.update_sequential')])

prop('P13', 'Prior, posterior and measurement records always reflect the latest step',
     'After every prediction the recorded prior equals the state and covariance at that moment, after every update (also with a missing measurement) the recorded posterior does, and the recorded measurement is the one passed, for every filter that has these records. The records are independent copies: later steps do not modify them.',
     [H], 'all histories of all filters with the records', 'Tests check the records once, at the end of a run.',
     [('KF', KFp + ':KalmanFilter'), ('EKF', K + 'EKF.py'), ('UKF', K + 'UKF.py'), ('CKF', K + 'CubatureKalmanFilter.py'), ('EnKF', K + 'ensemble_kalman_filter.py'),
      ('sqrt', K + 'square_root.py'), ('info', K + 'information_filter.py'), ('fading', K + 'fading_memory.py'), ('IMM', K + 'IMM.py'), ('MMAE', K + 'mmae.py')])

prop('P14', 'Steady-state and correlated-noise updates are exact',
     'Steady-state prediction and update (object and procedural) apply the filter\'s current gain to the residual and leave gain and covariance unchanged, and with the converged gain give the standard filter\'s results. '
     'The correlated update gives the exact posterior when process and measurement noise are cross-correlated, and the standard update when the correlation is zero; both may be mixed with standard operations in any order.',
     [H, I, C], 'all histories, shapes and correlation matrices', 'Tests use a single 1-measurement trajectory.',
     [('steady', KFp + ':predict_steadystate/update_steadystate'), ('correlated', KFp + ':KalmanFilter.update_correlated')])

prop('P15', 'The IMM estimator is the exact interacting-multiple-model recursion',
     'For any bank of filters, any mode-transition matrix and any history of predict-update cycles, mode probabilities stay a probability vector and follow Bayes\' rule with each mode\'s measurement likelihood, each mode filter is started from the moment-matched mixture for its mode, and the reported state and covariance are the mixture of the mode filters moment-matched with the reported mode probabilities. '
     'Identical modes reproduce the single Kalman filter, and reordering the modes reorders the result.',
     [H, I, C], 'all banks, transition matrices and histories (including extreme likelihood ratios)', 'Tests check one trajectory for plausibility.',
     [('IMM', K + 'IMM.py:IMMEstimator')])

prop('P16', 'The multiple-model bank weights its filters by Bayes\' rule',
     'For any bank, prior and history, the model probabilities stay a probability vector proportional to prior times the product of all measurement likelihoods (until a probability becomes negligible), the reported state is the probability-weighted mean, and the covariance is that of the mixture. With one filter the bank equals that filter.',
     [H, I, C], 'all banks, priors, histories', 'One trajectory is run without comparing the mixture.',
     [('MMAE', K + 'mmae.py:MMAEFilterBank')])

prop('P17', 'Sigma points and weights reproduce the mean and covariance they encode',
     'For every mean, positive definite covariance, dimension and parameter setting, the sigma points and weights of every scheme have weights for the mean summing to one, reproduce mean and covariance exactly, are the documented number and positions of points, and use the user-supplied square root (of the points) and subtraction. '
     'The unscented transform of given sigma points returns their weighted mean and covariance plus noise, with the supplied mean and residual functions.',
     [I, C], 'all means, covariances, parameters and dimensions', 'Tests check a few numbers for one parameter set.',
     [('Merwe/Julier/Simplex', K + 'sigma_points.py'), ('UT', K + 'unscented_transform.py'), ('cubature', K + 'CubatureKalmanFilter.py:spherical_radial_sigmas')])

prop('P18', 'The unscented filter applies exactly the user\'s functions and sigma points',
     'For nonlinear process and measurement functions, custom mean, residual and state-addition functions, custom square roots (given to the filter or to its sigma points), extra arguments, changed time steps and noise overrides, every predict-update cycle of the unscented filter is the documented scaled unscented transform recursion over the configured points. '
     'Angle-valued components are therefore handled correctly when the corresponding functions are supplied.',
     [H, I, C], 'all histories, functions, arguments', 'Tests check closeness to the truth on two nonlinear problems.',
     [('UKF', K + 'UKF.py:UnscentedKalmanFilter'), ('UT', K + 'unscented_transform.py')])

prop('P19', 'The cubature filter is the documented third-degree spherical-radial rule',
     'For nonlinear process and measurement functions with extra arguments, changed time steps and noise overrides, every predict-update cycle of the cubature filter equals the third-degree spherical-radial cubature recursion (2n equally weighted points at the scaled columns of the covariance square root), computed with the given mean and residual functions when there are any.',
     [H, I, C], 'all histories, functions, arguments', 'One trajectory compared loosely with the unscented filter.',
     [('CKF', K + 'CubatureKalmanFilter.py:CubatureKalmanFilter')])

prop('P20', 'The ensemble filter is the stochastic ensemble recursion for every noise draw',
     'For every sequence of random draws, prediction moves every ensemble member through the process function and adds its own draw of process noise, the update moves every member by the ensemble gain applied to its own perturbed innovation, and the reported state and covariance are the ensemble mean and spread (minus the gain correction after an update). '
     'Random draws are taken with the documented covariances and the ensemble keeps its size.',
     [H, I, C], 'all histories and all noise draws', 'Tests run with real randomness and check loose closeness.',
     [('EnKF', K + 'ensemble_kalman_filter.py:EnsembleKalmanFilter')])

prop('P21', 'Fixed-lag smoothing filters exactly and revises only the lag window',
     'For every measurement sequence and lag, the fixed-lag smoother\'s filter output equals the Kalman filter, each new measurement revises at most the last N estimates, older estimates are final, one estimate per measurement is kept, and batch smoothing gives the same estimates as recursive smoothing. '
     'The estimates inside the lag window are the conditional means given the measurements used for them.',
     [H, I, C], 'all measurement sequences, lags, shapes', 'The test compares error magnitudes of one run.',
     [('smooth', K + 'fixed_lag_smoother.py:smooth'), ('smooth_batch', K + 'fixed_lag_smoother.py:smooth_batch')])

prop('P22', 'g-h filters follow their recursions and their published gain formulas',
     'For every measurement history, gain change, order and time step the g-h, g-h-k and order filters compute predict-then-correct estimates, residuals and records by the documented recursion, for scalar and vector states. The variance-reduction factors, bias error and the gain-design functions return the values that their defining optimality '
     'or steady-state conditions imply.',
     [H, I, C], 'all histories, gains, time steps', 'Tests compare a few trajectories and constants.',
     [('gh', 'filterpy/gh/gh_filter.py')])

prop('P23', 'The recursive least-squares filter equals the batch polynomial fit',
     'After n measurements the least-squares filter of order 0, 1 or 2 reports the value and derivatives at the latest sample of the least-squares polynomial fitted to all n samples (for n greater than the order), the documented residual and standard-deviation errors, and a reset filter behaves as a new one.',
     [H, I, C], 'all measurement sequences, lengths, orders, time steps', 'Two noisy fixed sequences are compared to the truth.',
     [('update', 'filterpy/leastsq/least_squares.py:update'), ('errors', 'filterpy/leastsq/least_squares.py:errors')])

prop('P24', 'Fading-memory filters weight the past exactly by their fading factor',
     'The polynomial fading-memory filter of order 0, 1 or 2 follows, for every measurement history, the documented fixed-gain recursion, and its variance and truncation-error outputs are the steady-state values of that recursion. '
     'The fading-memory Kalman filter equals the Kalman filter whose predicted covariance is inflated by the squared fading factor before process noise is added, for every history.',
     [H, I, C], 'all histories, fading factors, orders', 'Few trajectories; variance outputs not compared.',
     [('memory', 'filterpy/memory/fading_memory.py'), ('fading KF', K + 'fading_memory.py')])

prop('P25', 'Discretization gives the exact transition and process noise',
     'For every dimension, time step, noise density, block size and ordering the discrete and continuous white-noise matrices, the van Loan discretization and the linear ODE discretization equal their defining integrals, are symmetric positive semi-definite and consistent under reordering; kinematic transition matrices are the exact '
     'Taylor transitions and compose over time, and kinematic filters are assembled from them in the requested order.',
     [I, C], 'all dimensions, time steps, block sizes, orderings', 'Tests compare some entries for dt=1 or one dt.',
     [('Q', 'filterpy/common/discretization.py'), ('kinematic', 'filterpy/common/kinematic.py')])

prop('P26', 'Gaussian arithmetic and density functions are exact',
     'Gaussian products, sums, densities, log-densities, likelihoods, Mahalanobis distances, error-consistency (NEES) values, cumulative probabilities and covariance-ellipse parameters equal their mathematical definition for every admissible scalar, vector and matrix argument form. '
     'Products are commutative and associative, and inputs are not modified.',
     [I, C], 'all argument values and forms', 'Tests compare handfuls of values.',
     [('stats', 'filterpy/stats/stats.py')])

prop('P27', 'Discrete Bayes prediction and update are exact on every belief',
     'Discrete Bayes update is the normalized product of likelihood and prior, and prediction is the shift-and-blur of the belief by the offset and kernel with the selected boundary mode, for every belief, offset (positive, negative, beyond the length), odd kernel and likelihood; a circular prediction with a normalized kernel preserves total probability. Prior beliefs passed in are not modified.',
     [H, I], 'all beliefs, kernels, offsets, modes, and sequences', 'Tests check a few shifts of small beliefs.',
     [('discrete', 'filterpy/discrete_bayes/discrete_bayes.py')])

prop('P28', 'Resampling draws particles exactly in proportion to their weights',
     'For every weight vector and every random draw, each resampling function returns as many valid indexes as there are particles, never selects a particle of zero weight, and selects exactly the particles prescribed by its scheme: systematic and stratified take the particle at one point of each of N equal strata, residual keeps floor(N w) copies and fills the rest by residual weight, multinomial inverts the cumulative weights. '
     'Averaged over uniform draws every particle is selected N w times.',
     [I], 'all weight vectors and all random draws', 'No test of resampling exists beyond smoke level.',
     [('resampling', 'filterpy/monte_carlo/resampling.py')])

prop('P29', 'The saver records a faithful, independent history of any filter',
     'After any history in which save is called at arbitrary moments, the saver holds for every attribute and computed property one independent copy per save, equal to the value at that moment, honouring the options to skip private, callable or ignored attributes and to save at construction. Conversion to arrays and flattening keep all values, and later filter steps never change what was saved.',
     [H, C], 'all interleavings of filter operations and saves, all options, all filters', 'Tests save one trajectory of two filters and check lengths.',
     [('Saver', 'filterpy/common/helpers.py:Saver')])

prop('P30', 'Numeric helper functions meet their definitions on every input form',
     'Measurement reshaping accepts exactly the documented forms and keeps the values, the diagonal inverse and the outer-product sum equal their definitions, the Runge-Kutta step is the classical fourth-order step, copying states makes independent copies, and filter comparison reports exactly the attributes that differ.',
     [I, C], 'all inputs', 'Helpers are tested on one or two inputs.',
     [('helpers', 'filterpy/common/helpers.py')])

prop('P31', 'Filter instances are independent of each other',
     'Operations on one filter object never influence another: for any interleaving of the operations of two filters (of the same or of different kinds, also when constructed with default arguments, or when sharing model matrices and sigma-point objects), each behaves exactly as when run alone. Creating or using further instances changes nothing in existing ones.',
     ['schedules', H, C], 'all interleavings of two operation sequences over all filter classes', 'Tests never run two instances interleaved.',
     [('constructors', KFp + ':KalmanFilter.__init__'), ('EKF', K + 'EKF.py'), ('UKF', K + 'UKF.py'), ('IMM', K + 'IMM.py'), ('gh', 'filterpy/gh/gh_filter.py')])

prop('P32', 'Random variates follow the documented Student t distribution',
     'The Student-t generator draws from a t distribution with the requested degrees of freedom, scaled by the given standard deviation and shifted by the given mean. Consecutive draws are independent of each other.',
     [I], 'all parameters, all outcomes of the random source', 'A test would have to sample.',
     [('rand_student_t', 'filterpy/stats/stats.py:rand_student_t')])

prop('P33', 'Exactly the documented argument domains are accepted',
     'Impossible dimensions and orders, mismatching numbers of filters, probabilities or sequence elements, states of unequal shape, fading factors below one, damping factors outside [0, 1] and measurements or vectors of the wrong size are '
     'rejected with an exception, and leave an existing object as it was. '
     'Everything inside the documented domain is accepted and yields attributes of consistent shapes before and after the first prediction and update, and the matrix dimension self test passes exactly when the shapes fit together.',
     [C, I], 'all dimensions, orders, lengths and shapes', 'Tests construct a handful of valid objects and try one or two invalid ones.',
     [('linear filters', KFp + ':KalmanFilter.__init__'), ('self test', KFp + ':KalmanFilter.test_matrix_dimensions'), ('sqrt', K + 'square_root.py:__init__'),
      ('info', K + 'information_filter.py:__init__'), ('fading', K + 'fading_memory.py:__init__'), ('enkf', K + 'ensemble_kalman_filter.py:__init__'),
      ('imm', K + 'IMM.py:__init__'), ('mmae', K + 'mmae.py:__init__'), ('ukf batch', K + 'UKF.py:batch_filter'), ('kinematic', 'filterpy/common/kinematic.py'),
      ('noise', 'filterpy/common/discretization.py'), ('gh', 'filterpy/gh/gh_filter.py'), ('lsq', 'filterpy/leastsq/least_squares.py'), ('memory', 'filterpy/memory/fading_memory.py')])

prop('P34', 'Plots draw the documented curves and ellipses',
     'The ellipses drawn for a two-dimensional Gaussian are, for each requested variance, standard deviation or confidence interval, the points at exactly that Mahalanobis distance from the mean, and the three-dimensional surface likewise. '
     'The Gaussian density and distribution curves and the discrete cumulative curve show the exact function values over the requested (or default) range, on the axes given or else the current ones.',
     [I, C], 'all means, covariances, sizes, forms and options', 'Tests only call the plotting functions and look at nothing.',
     [('ellipse', 'filterpy/stats/stats.py:plot_covariance'), ('surface', 'filterpy/stats/stats.py:plot_3d_covariance'), ('pdf', 'filterpy/stats/stats.py:plot_gaussian_pdf'),
      ('cdf', 'filterpy/stats/stats.py:plot_gaussian_cdf'), ('discrete', 'filterpy/stats/stats.py:plot_discrete_cdf')])

prop('P35', 'The printed form of an object shows its current attribute values',
     'At every point of every history the textual representation of a filter names its class and shows under each name the current value of that attribute, and asking for it changes nothing. '
     'The printing helpers reproduce every number of their argument under its label, one row per line, columns transposed on one line, elements of lists with their index.',
     [H, C], 'all histories of all filters, all array shapes', 'Tests print and look at nothing.',
     [('helpers', 'filterpy/common/helpers.py:pretty_str'), ('kf', KFp + ':KalmanFilter.__repr__'), ('gh', 'filterpy/gh/gh_filter.py:GHFilter.__repr__')])

prop('P36', 'The H-infinity filter is its documented minimax recursion',
     'Each H-infinity update changes P into F*inv(inv(P) - gamma*Q + H\'inv(V)H)*F\' + W and adds to x the gain F*inv(inv(P) - gamma*Q + H\'inv(V)H)*H\'inv(V) times the residual z - Hx, with the current models; a prediction only '
     'moves x to Fx + Bu, and a missing measurement changes nothing. With gamma = 0 and F = I this is the Kalman filter with process noise W; '
     'the reported gain, residual, measurement and noise inverse are those of the step, and batch processing equals the single steps.',
     [H, C], 'all histories of predictions, updates, gaps and reassignments', 'The one test runs a single trajectory and asserts nothing.',
     [('recursion', 'filterpy/hinfinity/hinfinity_filter.py:HInfinityFilter.update'), ('batch', 'filterpy/hinfinity/hinfinity_filter.py:HInfinityFilter.batch_filter')])

prop('P37', 'Inverse functions, hooks and sigma-point classes of the user are honoured',
     'The inverse function set as `inv` (e.g. a pseudo inverse) is the one every update, correlated or sequential update and smoother of that filter uses, so that with a pseudo inverse singular innovation covariances '
     '(repeated, exact or perfectly correlated sensors) give the minimum-norm gain and exact posterior, and it can be changed at any time for that filter only. An extended filter with an overridden predict_x uses it in predict and predict_update; '
     'a user-defined sigma-point class is used like the built-in ones.',
     [H, C, I], 'all histories, inverse functions and systems', 'Tests never set an inverse function or override a hook.',
     [('inv', KFp + ':KalmanFilter.update'), ('correlated', KFp + ':KalmanFilter.update_correlated'), ('smoother', KFp + ':KalmanFilter.rts_smoother'), ('unscented', K + 'UKF.py:UnscentedKalmanFilter.update'),
      ('ensemble', K + 'ensemble_kalman_filter.py:EnsembleKalmanFilter.update'), ('hook', K + 'EKF.py:ExtendedKalmanFilter.predict_x')])

prop('P38', 'A copy of a filter continues exactly like the original, independently',
     'A deep copy (or pickled copy) of any filter, taken at any point of its history, has the same state, and from then on each of the two objects behaves exactly like an uncopied filter with its own history: '
     'no operation on one, and no modification of its arrays in place, has any effect on the other.',
     [H, C], 'all histories and all copy points', 'Tests never copy a filter.',
     [('kf', KFp + ':KalmanFilter'), ('imm', K + 'IMM.py:IMMEstimator'), ('ukf', K + 'UKF.py:UnscentedKalmanFilter'), ('gh', 'filterpy/gh/gh_filter.py:GHFilter')])

prop('P39', 'Integer data give the same results as the equal real numbers',
     'States, covariances, models, noises, control inputs and measurements given as integer arrays give, in every filter and over every history, the results of the equal real numbers: nothing is truncated, rounded or refused. '
     'The same holds for smoothers, batch processing, sigma points, the unscented transform, Gaussian and numeric helper functions and polynomial filters.',
     [H, I, C], 'all histories with integer-valued data', 'Tests use integers in single places only.',
     [('kf', KFp + ':KalmanFilter.update'), ('smoother', KFp + ':rts_smoother'), ('fls', K + 'fixed_lag_smoother.py:FixedLagSmoother.smooth'), ('imm', K + 'IMM.py:IMMEstimator'),
      ('memory', 'filterpy/memory/fading_memory.py:FadingMemoryFilter'), ('gh', 'filterpy/gh/gh_filter.py:GHFilterOrder')])

prop('P40', 'Measurements of different sizes can be mixed in one history',
     'A linear (object, procedural or batch), extended or unscented filter can be updated in any history by its own sensor and, with a measurement matrix or function given for the one call, by sensors of any other number of rows, with their noise as a matrix '
     '(or as a scalar for the filter objects): every update is the exact one for that sensor. Residual, gain, system uncertainty, records and likelihoods are those of that measurement, and after it missing measurements, further updates, the printed form and a saver work as usual.',
     [H, C], 'all mixtures of sensors', 'Tests keep one measurement size per filter.',
     [('kf', KFp + ':KalmanFilter.update'), ('proc', KFp + ':update'), ('batch', KFp + ':KalmanFilter.batch_filter'), ('ekf', K + 'EKF.py:ExtendedKalmanFilter.update'), ('ukf', K + 'UKF.py:UnscentedKalmanFilter.update')])

prop('P41', 'How arrays are stored makes no difference',
     'States, covariances, models, noises, controls and measurements may be read-only, column-major, strided or reversed views, in either byte order, and one array may serve several roles at once: every filter, batch function, smoother and numeric function then gives over every history '
     'the results it gives for plain separate arrays. (The g-h order and polynomial fading-memory filters, which work on the given state in place, need a writable one.)',
     [H], 'all histories under every way of storing the arguments', 'Tests use fresh C-ordered arrays.',
     [('kf', KFp + ':KalmanFilter'), ('ekf', K + 'EKF.py:ExtendedKalmanFilter'), ('ukf', K + 'UKF.py:UnscentedKalmanFilter'), ('imm', K + 'IMM.py:IMMEstimator'), ('stats', 'filterpy/stats/stats.py')])

prop('P42', 'Units of measurement make no difference',
     'When every component of state and measurement is expressed in other units, however small or large, with models, noises and user functions converted accordingly, every filter, batch function, smoother and numeric function gives over every history the same estimates, covariances, gains, residuals and records in the new units, '
     'the same mode probabilities and Mahalanobis distances, and log-likelihoods shifted by the logarithm of the factors. No absolute threshold or regularization influences a result, and the polynomial filters are equally independent of the unit of time.',
     [H, C], 'all histories in all systems of units', 'Tests use numbers of order one.',
     [('stats', 'filterpy/stats/stats.py'), ('kf', KFp + ':KalmanFilter'), ('ekf', K + 'EKF.py:ExtendedKalmanFilter'), ('ukf', K + 'UKF.py:UnscentedKalmanFilter'), ('imm', K + 'IMM.py:IMMEstimator'), ('lsq', 'filterpy/leastsq/least_squares.py')])

prop('P43', 'Filters may run concurrently and inside each other\'s functions',
     'Different filter objects, smoothers, point schemes and numeric functions used in different threads at the same time, or from inside a model, residual, mean or process function the library is calling, give exactly what each of them gives when it runs alone: wherever one is interrupted by any amount of work on others, '
     'no state, covariance, gain, residual, likelihood or returned value of either changes. Nothing the library computes with is kept in places that two running operations share.',
     [H, C], 'all switching points, schedules with bounded preemptions', 'Tests run one operation at a time.',
     [('ut', 'filterpy/kalman/unscented_transform.py'), ('kf', KFp + ':KalmanFilter'), ('ukf', K + 'UKF.py:UnscentedKalmanFilter'), ('ckf', K + 'CubatureKalmanFilter.py:CubatureKalmanFilter'), ('imm', K + 'IMM.py:IMMEstimator'), ('disc', 'filterpy/common/discretization.py')])

NA = {}
TECH = {'P43': 'stateless model checking of the real code under a controlled scheduler (sys.settrace): every switching point for a single interruption, every schedule of a grid for two preemptions between threads'}
NOTE = {}
DEFAULT_TECH = ('explicit-state / stateless bounded model checking: exhaustive enumeration of operation histories of the real code in '
                'lock-step with an independent reference model')
GRID_TECH = ('bounded exhaustive model checking of the real functions: complete enumeration of a finite argument/environment space against '
             'an independent reference')


def main():
    sys.path.insert(0, V)
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, _ in P:
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, p['id']
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, _ in P:
        i = p['id']
        m = os.path.join(V, 'props', i.lower() + '.py')
        if i in NA:
            na.append(dict(property=i, reason=NA[i]))
            continue
        if not os.path.exists(m):
            na.append(dict(property=i, reason='check under construction'))
            continue
        src = open(m).read()
        ns = {}
        for line in src.splitlines():
            if line.startswith('LEVEL'):
                exec(line, ns)
        grid = "TECHNIQUE = 'GRID'" in src
        checks.append(dict(
            property=i, quick_cmd='./check %s' % i, thorough_cmd='./check %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=TECH.get(i) or (GRID_TECH if grid else DEFAULT_TECH), level=ns['LEVEL'],
            level_note='Holds for every behaviour inside the bounds stated in the evidence file (operation alphabets, depths, shapes and numeric '
                       'palettes); numeric agreement within float tolerance; trusts numpy linear algebra and the reference model in mc/.'))
    man = dict(version=1, setup_cmd='./check --selftest', checks=checks, not_applicable=na)
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'n/a')


main()
