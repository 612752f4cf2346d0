"""Writes properties.jsonl and MANIFEST.json from one table (run it after changing the table)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None),
                  _technique=technique, _note=note))


LAW = ('explicit-state exploration of the real code over every outcome of every random draw (patched jax.random), '
       'exact law compared with ')
STD = ('Exhaustive within the stated bounds: the real functions are executed under jit+vmap with every draw of '
       'jax.random replaced by an enumerated choice, and the resulting exact output law is judged. Trusted: the choice layer '
       '(mc/rng.py), which is itself checked by running the code with real keys and looking every output up in the '
       'explored support. ')

prop('P01', 'Conditional SMC leaves the smoothing law invariant',
     'For any state-space model, any measurement sequence and any number of particles, if the reference trajectory '
     'follows the posterior law of the latent path given the measurements (with arbitrary reference labels), then the '
     'trajectory returned by one conditional SMC step follows the same law, with and without backward sampling, and for '
     'every resampling scheme offered; labels and trajectory returned are consistent with each other.',
     ['inputs', 'configurations', 'schedules'],
     'every bounded two-valued model, measurement sequence, reference path and labelling, particle number, resampling '
     'scheme, and every outcome of every random draw',
     'tests run one chain on one Gaussian model and compare moments with a loose tolerance, so that a bias smaller than '
     'Monte Carlo error, or one that shows only for some labellings or weights, passes',
     ['fbs/samplers/csmc/csmc.py', 'fbs/samplers/csmc/resamplings.py'],
     [('csmc_kernel', 'fbs/samplers/csmc/csmc.py'), ('forward_pass', 'fbs/samplers/csmc/csmc.py'),
      ('backward_sampling_pass', 'fbs/samplers/csmc/csmc.py')],
     LAW + 'the posterior (invariance)', STD + 'Models are two-valued with K<=3 steps and N<=3 (4) particles.')

prop('P02', 'Conditional resampling pins the reference and keeps the offspring law',
     'Conditional resampling always returns the reference label at the requested output slot, only labels in range and '
     'never a zero-weight particle. For every scheme and every weight vector the law of the other labels is the one the '
     'unconditional scheme has given that slot (so that averaging over the reference gives every particle its expected '
     'number of offspring, proportional to its weight).',
     ['inputs', 'schedules'], 'every weight vector with small integer ratios, every pair of slots, every outcome of the '
     'draws, float32 and float64', 'tests average 100000 draws for one weight vector',
     ['fbs/samplers/csmc/resamplings.py'],
     [('multinomial/killing/systematic', 'fbs/samplers/csmc/resamplings.py')],
     LAW + 'the exact conditional law of the scheme', STD)

prop('P03', 'Resampling is unbiased, in range and never picks a zero weight',
     'For every normalised weight vector, each unconditional resampling scheme returns as many labels as particles, all in '
     'range, none of weight zero, and the expected number of copies of each particle is the number of particles times its '
     'weight. Systematic and stratified resampling give every particle the copies their one-per-stratum construction '
     'prescribes, systematic always within one of its expectation.',
     ['inputs', 'schedules'], 'every weight vector with small integer ratios (and boundary uniforms next to 0 and 1), '
     'float32 and float64, every outcome of the draws', 'no test exercises the unconditional schemes on their own',
     ['fbs/samplers/resampling.py'],
     [('multinomial/stratified/systematic/killing', 'fbs/samplers/resampling.py')],
     LAW + 'the law of the scheme', STD)

prop('P04', 'The Gibbs sampler leaves the conditional law of state and path invariant',
     'For any forward noising model and its matching reverse model, if the current state and its noised path follow the '
     'conditional law given the observation, then after one Gibbs step the new state and path follow it too, in each mode of '
     'operation (explicit or conditional-SMC backward pass, explicit reference at the terminal time or the noised state, '
     'extra keyword arguments forwarded to all user functions). The returned state is the end of the returned path and the '
     'returned flags say exactly which labels changed.',
     ['inputs', 'configurations', 'schedules'], 'every bounded two-valued joint model, observation, current state, path and '
     'labelling, mode, and every outcome of every random draw',
     'tests compare moments of one chain on one Gaussian model in two modes',
     ['fbs/samplers/gibbs.py', 'fbs/samplers/csmc/csmc.py'],
     [('gibbs_kernel', 'fbs/samplers/gibbs.py'), ('force_move', 'fbs/samplers/gibbs.py')],
     LAW + 'the conditional law (invariance)', STD + 'The diffusion-bridge option (documented as unused) is excluded: '
     'its continuous bridge is decided by P11 only.')

prop('P05', 'Particle MCMC targets the exact conditional law with any number of particles',
     'One particle Metropolis-Hastings step leaves the extended target (particles, measurement path, chosen particle) '
     'invariant for any number of particles and any resampling scheme, so that its state has the exact conditional law; the '
     'reported acceptance probability and flag are those of the step, and a rejected step returns its inputs unchanged. The '
     'preconditioned Crank-Nicolson proposal preserves the law of the measurement path for every step size.',
     ['inputs', 'configurations', 'schedules'], 'every bounded two-valued model, measurement path, resampling scheme, chosen '
     'slot, and every outcome of every draw', 'tests compare moments of one chain on one model with one resampling scheme',
     ['fbs/samplers/smc.py'],
     [('pmcmc_kernel', 'fbs/samplers/smc.py'), ('pmcmc_filter_step', 'fbs/samplers/smc.py'),
      ('pcn_proposal', 'fbs/samplers/smc.py')],
     LAW + 'the extended target (detailed balance and invariance)', STD)

prop('P06', 'The particle filter estimates the likelihood without bias',
     'For any state-space model, measurement sequence, number of particles and unbiased resampling scheme, the exponential '
     'of minus the returned negative log likelihood has expectation equal to the exact likelihood of the measurements, in log '
     'and non-log mode, and together with the particles it estimates unnormalised filtering expectations without bias at every '
     'time. The full history and the last-step output agree.',
     ['inputs', 'configurations', 'schedules'], 'every bounded two-valued model, measurement sequence, particle number, '
     'resampling scheme, mode and every outcome of every draw', 'tests compare one run with many particles to a Kalman filter',
     ['fbs/samplers/smc.py', 'fbs/samplers/resampling.py'],
     [('bootstrap_filter', 'fbs/samplers/smc.py'), ('pmcmc_filter_step', 'fbs/samplers/smc.py')],
     LAW + 'the exact likelihood and filtering law', STD)

prop('P07', 'The forced-move selection keeps the particle weights invariant',
     'For every normalised weight vector, selecting the next label by the forced-move step from a label distributed as the '
     'weights gives a label distributed as the weights, with detailed balance, moving as often as the Metropolis-Hastings rule for '
     'the renormalised other weights allows. The reported number is the probability of accepting a move, also when '
     'one weight is (nearly) one or some are zero.',
     ['inputs', 'schedules'], 'every weight vector with small integer ratios up to 5 particles, every reference label, both '
     'precisions, every outcome of the draws', 'no test exercises it on its own',
     ['fbs/samplers/gibbs.py'], [('force_move', 'fbs/samplers/gibbs.py')],
     LAW + 'the Metropolis-Hastings kernel', STD)

prop('P08', 'Random draws are independent: no random key is consumed twice',
     'Within one call of any sampler, simulator, loss or data function, every random draw is made with a key of its own: no key '
     'is drawn from twice, drawn from and also split, or split twice, on any branch, and every output is a function of the '
     'given key only. Two calls with the same key give the same result, and changing the key alone changes the noise.',
     ['inputs', 'configurations', 'programs'], 'every library entry point taking a key, every mode, all branches and loop '
     'iterations', 'a reused key gives well-formed results with the right marginals; only joint laws differ, which no test checks',
     ['fbs/samplers/smc.py', 'fbs/samplers/gibbs.py', 'fbs/samplers/csmc/csmc.py', 'fbs/sdes/linear.py',
      'fbs/sdes/simulators.py', 'fbs/dsb/base.py', 'fbs/data/base.py', 'fbs/data/images.py', 'fbs/data/bayesian.py'],
     [('key splitting discipline', 'all functions with a key argument')],
     'exhaustive key-flow exploration of the real code (all branches), each key a resource used at most once',
     'Every entry point is executed with tracked keys over all branches of lax.cond/switch and all iterations of loops; a '
     'reuse is a violation. Assumes draws go through jax.random.')

prop('P09', 'Forward noising simulation has the exact law of the linear SDE',
     'For every supported linear SDE, time grid and start value, the simulated path starts at the given value, is Gaussian and '
     'has the exact transition mean and variance of the SDE between consecutive times with independent increments; the marginal-only '
     'option returns independent draws of the exact marginal law at each given time, relative to the given (by '
     'default the first) time. This holds for scalar and array-valued states, also under batching.',
     ['inputs', 'configurations', 'schedules'], 'a grid of SDE parameters, start values, uniform and non-uniform grids, state '
     'shapes, and every outcome of a moment-matching finite noise',
     'tests compare Monte Carlo moments at the end of one uniform grid for one SDE',
     ['fbs/sdes/linear.py'], [('simulate_cond_forward', 'fbs/sdes/linear.py')],
     LAW + 'closed-form joint moments', STD + 'Paths are shown affine in the Gaussian noise by exploring its sign patterns and '
     'three-point quadratures, so mean and covariance determine the law.')

prop('P10', 'Closed-form transitions, scores and bridges agree with their SDE',
     'For every supported linear SDE and any two times, the closed-form transition (factor and variance) solves the mean and '
     'variance differential equations of the drift and dispersion the same object reports, composes over intermediate times '
     '(Chapman-Kolmogorov) and tends to the stationary law it is designed for; mean and variance methods agree with it. The '
     'conditional score is the gradient of the transition log density, and the bridge drift adds the '
     'squared dispersion times the gradient of the log density of hitting the target.',
     ['inputs', 'configurations'], 'a dense grid of SDE parameters, start times (zero and not), end times, states and targets',
     'tests check a few values of one parametrisation, mostly starting at time zero',
     ['fbs/sdes/linear.py', 'fbs/utils.py'],
     [('discretise_linear_sde', 'fbs/sdes/linear.py'), ('bridge_drift', 'fbs/sdes/linear.py'), ('cond_score_t_0', 'fbs/sdes/linear.py'),
      ('discretise_lti_sde', 'fbs/utils.py')],
     'exhaustive enumeration of a bounded grid of configurations of the real code against an independent numerical oracle',
     'Every point of the grid is executed and compared with an independent high-accuracy ODE solution / numerical derivative.')

prop('P11', 'Simulators take the steps they say, at the times they say',
     'Euler-Maruyama, the discrete-time simulator, the reverse-time simulator and the bridge simulator visit exactly the given times '
     '(subdivided as requested, for increasing and decreasing grids), evaluate drift and dispersion at the left end of each '
     'substep, and add independent Gaussian noise with the right variance, one fresh variate per substep and component. The '
     'path option returns the start value, all intermediate values and the terminal value; the bridge ends at its target when '
     'asked to, and the reverse simulator uses the time-reversed drift plus squared dispersion times score.',
     ['inputs', 'configurations', 'schedules'], 'grids of times, substep numbers, drifts and dispersions (time-dependent), state '
     'shapes and all sign patterns of the noise', 'tests compare terminal moments of one constant-coefficient SDE on one grid',
     ['fbs/sdes/simulators.py'],
     [('euler_maruyama', 'fbs/sdes/simulators.py'), ('reverse_simulator', 'fbs/sdes/simulators.py'),
      ('discrete_time_simulator', 'fbs/sdes/simulators.py'), ('doob_bridge_simulator', 'fbs/sdes/simulators.py')],
     LAW + 'a reference integrator', STD)

prop('P12', 'Training losses are the objectives they document',
     'For every network, batch, SDE and time setting, the denoising score matching losses (full and memory-saving) are the '
     'variance-weighted mean squared error to the conditional score along exactly simulated noised data at times inside the '
     'training interval, and their expectation over the noise is minimised by the true score. The iterative proportional fitting '
     'losses are the mean squared errors of the documented backward mean-matching targets along the simulated path, the '
     'vectorised variant giving the same value as the sequential one.',
     ['inputs', 'configurations', 'schedules'], 'families of affine networks, batches, grids and loss types, random or fixed '
     'times, and every outcome of the enumerated noise and times',
     'no test evaluates the losses other than by training a network and looking at samples',
     ['fbs/sdes/linear.py', 'fbs/dsb/base.py'],
     [('make_linear_sde_law_loss', 'fbs/sdes/linear.py'), ('make_ou_score_matching_loss', 'fbs/sdes/linear.py'),
      ('ipf_loss_disc / ipf_loss_cont / ipf_loss_cont_v', 'fbs/dsb/base.py')],
     LAW + 'an independently written objective', STD)

prop('P13', 'The Gaussian Schrodinger bridge interpolates its marginals',
     'For any two Gaussian laws and any diffusion coefficient, the returned mean and covariance functions equal the two given laws '
     'at the end times, and the Gaussian process driven by the returned drift and the given diffusion coefficient has exactly the '
     'returned mean and covariance at all times between. The induced end-point coupling is the entropy-regularised optimal '
     'transport plan for that diffusion coefficient.',
     ['inputs', 'configurations'], 'a grid of means, covariances (dimension 1 to 3, correlated, badly scaled), coefficients and times',
     'the test looks at one pair of Gaussians with unit coefficient',
     ['fbs/sdes/linear.py', 'fbs/utils.py'], [('make_gaussian_bw_sb', 'fbs/sdes/linear.py')],
     'exhaustive enumeration of a bounded grid of configurations of the real code against an independent numerical oracle',
     'Every point of the grid is executed; Fokker-Planck moment equations and Sinkhorn optimality are checked by independent formulas.')

prop('P14', 'Image masks split every image into disjoint parts that reassemble exactly',
     'For every image size, restoration task and random draw, the observed and the unobserved pixel sets are disjoint and '
     'together cover the image, with the sizes the task announces: a square of the requested size inside the image, shifted along its diagonal, for inpainting; all but one '
     'pixel of each block for super-resolution of images whose sides the rate divides. Splitting an image (or a batch or path of images) and reassembling it gives '
     'the same image, splitting a reassembled pair gives the pair, whatever mask partitions the pixels and in whatever order it lists them; one observed part is shared by a batch of hidden parts; and every admissible position is drawn equally often.',
     ['inputs', 'configurations', 'schedules'], 'every small image shape, channel number, task size, batch shape and every '
     'outcome of the position draws', 'the test draws one mask per task from one key',
     ['fbs/data/images.py'],
     [('gen_mask', 'fbs/data/images.py'), ('unpack', 'fbs/data/images.py'), ('concat', 'fbs/data/images.py')],
     LAW + 'a set-theoretic specification', STD)

prop('P15', 'Data enumeration visits every item at most once per epoch, uniformly',
     'One enumeration of a dataset yields as many disjoint chunks of exactly the batch size as fit, each item at most once and, when '
     'the batch size divides the data, each exactly once, in uniformly random order; each chunk returned consists of the '
     'items its indices name. Random subsets contain distinct items, each equally likely, and image pairs are made of an '
     'item and its own corruption. The loaders keep every item of their part of the file once, and the test part shares no item with the '
     'training part, whatever keys the two are loaded with.',
     ['inputs', 'configurations', 'schedules', 'histories'], 'every dataset size and batch size up to a bound and every outcome of the draws',
     'no test covers enumeration',
     ['fbs/data/base.py', 'fbs/data/images.py'],
     [('init_enumeration', 'fbs/data/base.py'), ('enumerate_subset', 'fbs/data/base.py'), ('draw_subset', 'fbs/data/base.py')],
     LAW + 'the uniform law over arrangements', STD)

prop('P16', 'Matrix and Gaussian utilities satisfy their defining equations',
     'For all symmetric positive semi-definite matrices, the matrix square root is symmetric positive semi-definite and squares to its '
     'argument by either method; the Bures-Wasserstein distance and the Kullback-Leibler divergence of two Gaussians equal their '
     'definitions, are non-negative and vanish for equal laws. The discretisation of a linear time-invariant SDE gives the matrix '
     'exponential and the exact noise covariance.',
     ['inputs'], 'all matrices of small dimension with entries from a grid (including singular and ill-scaled ones), both methods',
     'tests use one or two random well-conditioned matrices',
     ['fbs/utils.py'],
     [('sqrtm', 'fbs/utils.py'), ('bures_dist', 'fbs/utils.py'), ('kl', 'fbs/utils.py'), ('discretise_lti_sde', 'fbs/utils.py')],
     'exhaustive enumeration of a bounded grid of inputs of the real code against an independent numerical oracle',
     'Every matrix of the grid is executed and compared with an independent computation in numpy.')

prop('P17', 'Training steps and parameter averaging follow their schedules',
     'For every history of training steps, one training step returns the parameters and the optimiser state its optimiser prescribes for the gradient '
     'of the loss at the current parameters, and the loss before the update, whether or not compiled. The averaged parameters '
     'track the parameters before the start step, are the documented exponential average at every multiple of the period from then on, and are '
     'unchanged at other steps.',
     ['histories', 'configurations'], 'every start step, period, decay of a grid and every step history up to a bound, several optimisers',
     'no test covers the averaging schedule',
     ['fbs/nn/utils.py'], [('make_optax_kernel', 'fbs/nn/utils.py')],
     'explicit-state exploration of all step histories up to a bound on the real code against a reference transition system',
     'All histories up to the bound are executed on the real functions; exact comparison with a reference transition system.')

prop('P18', 'Network wrappers preserve shape, parameters and per-item semantics',
     'Flattened network parameters rebuild exactly the original parameters and the wrapped network computes what the network itself '
     'computes for them, for every input shape and time, with the output shaped like the input (a batch of one may lose its batch axis); every item of a batch is processed as it would be alone. The '
     'sinusoidal time embedding has the documented frequencies for every even size, and pixel shuffling is the bijection that moves '
     'channel blocks to space.',
     ['inputs', 'configurations'], 'every network class offered, small batch sizes, times, embedding sizes and shuffle scales',
     'tests only check shapes of a few configurations',
     ['fbs/nn/base.py', 'fbs/nn/utils.py', 'fbs/nn/models.py', 'fbs/nn/unet.py'],
     [('make_st_nn', 'fbs/nn/base.py'), ('sinusoidal_embedding', 'fbs/nn/base.py'), ('PixelShuffle', 'fbs/nn/utils.py'),
      ('make_nn_with_time', 'fbs/nn/utils.py')],
     'exhaustive enumeration of a bounded grid of configurations of the real code against an independent oracle',
     'Every configuration of the grid is executed; exact relations are checked. Learned quality is out of scope.')

prop('P19', 'Twisted SMC weighs its proposals correctly',
     'For any unconditional chain, twisting function and proposal, the particles and weights of twisted SMC represent the chain '
     'conditioned by the final twisting function: the resampled population together with the product of mean incremental weights '
     'estimates expectations under the unnormalised target without bias, at every number of particles. Returned weights '
     'are normalised and belong to the returned particles, and each incremental weight is the ratio of twisted target to proposal '
     'density along the ancestor of the particle. Transition and proposal are given the time their step starts from, twisting functions the '
     'time of the particles they are evaluated at.',
     ['inputs', 'configurations', 'schedules'], 'every bounded two-valued chain, twisting functions, proposals, resampling schemes '
     'and every outcome of every draw', 'no test covers twisted SMC',
     ['fbs/samplers/smc.py'], [('twisted_smc', 'fbs/samplers/smc.py')],
     LAW + 'the exact unnormalised target', STD)

prop('P20', 'Backward smoothing and sampler initialisation follow the filter output',
     'Given any stored filter particles, the backward smoother picks the terminal state uniformly among the last particles and every earlier '
     'state among the particles of its own time with the backward weights, so that with particles representing the filtering laws the '
     'returned path follows the smoothing law. The Gibbs initialisation returns a state and a path with the law of '
     'running its documented parts (forward noising, filter, and smoother or renewed noising) in sequence: with the filter option the state is a '
     'fair draw from the last filter population and the path is its renewed noising, with the smoother option the state is the end of the '
     'smoothed path that is returned.',
     ['inputs', 'configurations', 'schedules'], 'every population of two-valued filter particles, measurement sequence and every '
     'outcome of every draw', 'the test looks at marginal moments on one Gaussian model with many particles',
     ['fbs/samplers/smc.py', 'fbs/samplers/gibbs.py'],
     [('bootstrap_backward_smoother', 'fbs/samplers/smc.py'), ('gibbs_init', 'fbs/samplers/gibbs.py')],
     LAW + 'the exact backward-sampling law', STD)

prop('P21', 'Image corruptions do what the task says',
     'For every image and random draw, each corruption returns an image of the same shape: painting zeroes exactly one square of the requested '
     'size at one of the admissible places and keeps all other pixels; blurring convolves each colour channel with the drawn '
     'Gaussian kernel and rescales the result to [0, 1] (a constant one to zeros); down-sampling makes blocks of one of the ratios (dividing the sides) constant with a pixel of the block. Choosing the '
     'task by name applies that corruption with its size, joining and splitting clean and corrupted images are inverse, and clipping '
     'limits pixels to [0, 1] leaving others as they are.',
     ['inputs', 'configurations', 'schedules'], 'all tasks, several image shapes and channel numbers, all admissible draws',
     'tests only check that images of one shape can be produced',
     ['fbs/data/images.py'],
     [('paint', 'fbs/data/images.py'), ('conv', 'fbs/data/images.py'), ('downsample', 'fbs/data/images.py'), ('normalise', 'fbs/data/images.py')],
     LAW + 'an independent numpy specification', STD)

prop('P22', 'The crescent benchmark is self-consistent',
     'The sampler of the crescent benchmark draws the parameter from the documented Gaussian prior and the observation from the documented '
     'likelihood given that parameter, for every noise level and shape parameter. Its prior log density, likelihood, score and '
     'gridded posterior are those of the same model: the score is the gradient of the joint log density, and the posterior '
     'is proportional to prior times likelihood and integrates to one on its mesh.',
     ['inputs', 'configurations', 'schedules'], 'grids of shape and noise parameters, points, observations, meshes (also non-square), and '
     'all outcomes of the enumerated noise', 'the test only plots or compares the sampler with itself',
     ['fbs/data/bayesian.py'], [('Crescent', 'fbs/data/bayesian.py')],
     LAW + 'the documented model', STD)


prop('P23', 'The Gaussian experiments run the samplers on the posterior they report',
     'For every dimension, reference SDE and command-line option of the Gaussian-process regression (toy) and Gaussian Schroedinger-bridge '
     '(sb) experiment scripts: the observation is drawn from the stated Gaussian model and the saved gp_mean and gp_cov are its exact '
     'posterior moments; each sampler is given the exact noising path of that observation in reversed time, ending at the observation, and a '
     'transition sampler, transition density and measurement density that are one Euler step of the exact time reversal at every time of '
     'the grid; its reference sampler has the exact conditional terminal law; options are passed on, the chain state is threaded from '
     'sweep to sweep, every random draw uses its own key, and the saved samples are the drawn ones in order (a weight-fair draw for the '
     'filters; starting from a path with its own likelihood estimate for particle MCMC; consistent initial, proposal and twisting '
     'functions for twisted SMC; the exact conditional reverse SDE for conditional score guidance; the exact conditional law of the '
     'Euler chain given the measurement path for the Kalman filter).',
     ['inputs', 'configurations', 'histories'], 'every script, dimensions 1 to 3, both SDEs, every listed option; all grid times and chain '
     'steps of a run, the random inputs entering affinely and determined completely', 'the scripts have no tests at all',
     ['experiments/toy/gp_gibbs.py', 'experiments/toy/gp_filter.py', 'experiments/toy/gp_pmcmc.py', 'experiments/toy/gp_twisted.py',
      'experiments/toy/gp_csgm.py', 'experiments/toy/gp_kf.py', 'experiments/sb/gibbs.py', 'experiments/sb/filter.py'],
     [('transition_sampler', 'experiments/toy/gp_gibbs.py'), ('measurement_cond_logpdf', 'experiments/toy/gp_filter.py')],
     'Each script is executed whole, with the library samplers recorded or run on enumerated noise, ' + LAW + 'closed-form Gaussian laws', STD)
prop('P24', 'The image restoration scripts run the samplers on the model they claim to sample',
     'For every task (inpainting and super-resolution, fixed and random masks, MNIST and CelebA shapes, and the Schroedinger-bridge '
     'super-resolution), SDE, parameter set (last or averaged) and method of the image scripts: the test images come from the test part of the '
     'data set and every run on an image is given that image\'s observation and mask; the checkpoint is the one of the data set, SDE and '
     'epoch asked for, with a network built as in training; the transition sampler and density and the likelihood handed to the samplers are '
     'one Euler step of the reverse SDE with the given score on the full image, split by the mask, at every time of the grid; forward, '
     'reference and initial samplers, twisting and proposal functions are consistent with it; the chain state is threaded from iteration to '
     'iteration; every random draw uses its own key; every saved array and picture is the restored image of its own iteration, with the '
     'observed pixels unchanged; conditional score guidance follows the stated scheme.',
     ['inputs', 'configurations', 'histories'], 'every script, task, method and option; all grid times, test images and iterations of a run',
     'the scripts have no tests at all',
     ['experiments/imgs/inpainting.py', 'experiments/imgs/supr.py', 'experiments/imgs/inpainting_twisted.py', 'experiments/imgs/supr_twisted.py',
      'experiments/imgs/inpainting_csgm.py', 'experiments/imgs/supr_csgm.py', 'experiments/sb_imgs/supr.py'],
     [('transition_sampler', 'experiments/imgs/inpainting.py'), ('likelihood_logpdf', 'experiments/imgs/supr.py')],
     'Each script is executed whole on synthetic data with a known score in place of the network and the library samplers recorded; all '
     'handed-over functions, histories and saved files are compared with a reference; ' + LAW + 'closed-form Gaussian laws', STD)

prop('P25', 'The training scripts fit and save the model that the restoration scripts load',
     'For every option of the training scripts (data set, SDE, loss type, memory saving, schedule, clipping, batch size, number of epochs, of '
     'random times and of bridge iterations): the loss is made for the chosen SDE and network on the whole time interval with random times; every '
     'epoch goes through the training images (never a test image) once in a fresh random order, every step uses a fresh key; parameters and '
     'optimiser state are threaded from step to step by the optimiser that the options describe, and the parameter average starts after 300 '
     'steps counted over all epochs; the checkpoint saved every hundred epochs holds the current parameters and their average under the name '
     'that the restoration scripts load. Schroedinger-bridge training alternates the backward process (simulated forward from data, by the '
     'reference SDE in the first iteration) and the forward process (simulated backward from fresh reference samples at reversed times), each '
     'with the current parameters of the other, and saves both after every iteration.',
     ['inputs', 'configurations', 'histories'], 'every option value; every epoch, optimisation step and bridge iteration of a run',
     'the scripts have no tests at all',
     ['experiments/imgs/train.py', 'experiments/sb_imgs/train.py', 'fbs/nn/utils.py', 'fbs/data/images.py'],
     [('ema_kernel', 'experiments/imgs/train.py'), ('sb_kernel', 'experiments/sb_imgs/train.py')],
     'Each script is executed whole on labelled images with a loss of known gradients; the history of loss calls, parameters, averages and '
     'saved checkpoints is compared step by step with a reference trainer, and the derivation of every key is audited', STD)

prop('P26', 'Methods are compared on the same problems; tables and figures are faithful',
     'Two commands with the same seed and task pose the same problem: the k-th test image and mask are the same for every image restoration '
     'script, method, number of particles and first image, and the Gaussian-process (and bridge) experiments with the same number have the same '
     'posterior. Results of different commands of a comparison are saved under different names, and every name that a table or figure '
     'script reads is one that the corresponding command saves. Every number printed by the table scripts and every curve and contour of the '
     'figure scripts equals its definition (error of the moments of the samples against the exact posterior, averaged over the repetitions; '
     'image similarity against the original of the same number; autocorrelation; densities) for the method it is labelled with.',
     ['inputs', 'configurations', 'histories'], 'every method, starting image and result file of the shipped tables and figures',
     'the scripts have no tests at all',
     ['experiments/tabulators/tabulate_toy.py', 'experiments/tabulators/tabulate_imgs.py', 'experiments/tabulators/plot_sb.py',
      'experiments/tabulators/plot_toy_contours.py', 'experiments/tabulators/plot_autocorrs_toy.py', 'experiments/tabulators/plot_autocorrs_imgs.py',
      'experiments/tabulators/plot_pmcmc_trace.py', 'experiments/tabulators/plot_img_coalescence.py', 'experiments/tabulators/plot_imgs_appendix.py',
      'experiments/tabulators/plot_sb_imgs.py', 'experiments/tabulators/plot_sb_imgs_anime.py', 'experiments/tabulators/plot_imgs.py',
      'experiments/imgs/inpainting.py', 'experiments/imgs/supr.py', 'experiments/toy/gp_filter.py'],
     [('path_head', 'experiments/tabulators/tabulate_imgs.py'), ('err_bures', 'experiments/tabulators/tabulate_toy.py')],
     'Every producing script is executed for every configuration of a comparison and its test cases and file names are compared; every tabulator is '
     'executed on labelled synthetic results and each printed or plotted value is recomputed', STD)


prop('P27', 'The shipped drivers run the experiments that the tables and figures need',
     'Run under their shell, in whatever order their background jobs end, the shipped drivers (local and cluster) issue only commands that the '
     'scripts accept; they wait for all jobs that they start, and jobs that run at one time claim at most the whole memory. For every '
     'comparison all methods are run with the same problem options, on the experiment numbers 0 to 99 once each (images: on the stated test '
     'images and seeds), in the folder from which the data are read and with the output folders in place; no command overwrites a result of '
     'another; every result that a table or figure script reads is produced; a local and a cluster driver of one experiment run the same '
     'commands; restoration loads the checkpoints that training with the shipped options writes, with the same network and data set; and '
     'the integrity script counts exactly the result files that are present for each method.',
     ['schedules', 'configurations', 'histories'], 'every driver, every order of ends of its background jobs among the explored ones, every command issued and '
     'every file read by the tabulators', 'no test runs a driver',
     ['experiments/run_toy_all.sh', 'experiments/run_toy_all_local.sh', 'experiments/run_imgs_all.sh', 'experiments/run_sb_all.sh',
      'experiments/run_train.sh', 'experiments/run_sb_train.sh', 'experiments/check_integrity.sh'] + [f'experiments/bashes/{n}.sh' for n in (
          'imgs_gibbs', 'imgs_pmcmc', 'imgs_filter', 'imgs_twisted', 'imgs_csgm', 'imgs_gibbs_local', 'toy_gibbs', 'toy_gibbs_dardel',
          'toy_gibbs_local', 'sb_gibbs_dardel', 'sb_filter_dardel', 'sb_imgs', 'imgs_pmcmc_local', 'imgs_filter_local', 'imgs_twisted_local', 'imgs_csgm_local') +
          tuple(f'toy_{m}{s}' for m in ('filter', 'pmcmc', 'twisted', 'csgm') for s in ('', '_local', '_dardel'))],
     [('SLURM_ARRAY_TASK_ID', 'experiments/bashes/toy_gibbs.sh'), ('nsamples', 'experiments/check_integrity.sh')],
     'Each driver runs under bash with the programs it starts replaced by recorders whose end is scheduled by the explorer; the '
     'commands are compared with each other, with the parsers of the scripts and with the files that the scripts save and the tabulators read', STD)


prop('P28', 'The data preparation converts every image once and faithfully',
     'For every raw data set the converters write every image once, in file order, its pixel values divided by 255 in single precision with the '
     'colour planes as channels, training and test images apart, under the file and array names and in the shapes that the loaders read. The '
     'half-size CelebA images are the antialiased linear reduction of the full-size ones, in the same order. The preparation command fetches and unpacks '
     'before it converts, converts before it removes the raw files, and removes nothing else. The generated keys are a thousand distinct '
     'keys, equal to those that are shipped with the experiments.',
     ['inputs', 'histories'], 'every file, image, pixel and channel of data sets of the real sizes; every command of the preparation',
     'the converters have no tests; their real input is not part of the repository',
     ['experiments/datasets/make_cifar10.py', 'experiments/datasets/make_cifar10.sh', 'experiments/datasets/celebaHQ/convert.py',
      'experiments/generate_rng_keys.py', 'fbs/data/images.py'],
     [('load_batch', 'experiments/datasets/make_cifar10.py'), ('images64', 'experiments/datasets/celebaHQ/convert.py')],
     'Exhaustive execution of the real converters on complete raw data sets in which every image, pixel, channel and byte value is distinguishable; '
     'every value written is compared with its source and taken through the real loaders; the commands of the preparation are recorded in order',
     'Exhaustive over images and pixels for one synthetic raw data set per converter; the reduction to half size is evaluated on nine images '
     '(all of them need tens of gigabytes); decoding of JPEG files is replaced.')

prop('P29', 'Sampling functions are pure: key and arguments alone decide the result',
     'Whatever a function that takes a key returns depends on that key and its arguments only: after any history of calls of the same or other functions, '
     'on the same or other instances, interpreted or compiled, the same call gives the same result bit for bit; compiled and interpreted calls agree, '
     'and so do a call batched over keys and the single calls; different keys give different results; in the default single precision of JAX the results have the same '
     'structure and are finite. Neither importing the library nor calling it changes the configuration of JAX, the state of other generators or the working folder.',
     ['histories', 'configurations'], 'every ordered pair of consecutive calls of a group of entry points, interpreted or compiled, two instances of every class; '
     'every entry point with a key', 'tests call each function once, in one order, and mostly compiled',
     ['fbs/samplers/smc.py', 'fbs/samplers/gibbs.py', 'fbs/samplers/csmc/csmc.py', 'fbs/samplers/csmc/resamplings.py', 'fbs/samplers/resampling.py',
      'fbs/sdes/linear.py', 'fbs/sdes/simulators.py', 'fbs/dsb/base.py', 'fbs/data/base.py', 'fbs/data/bayesian.py', 'fbs/data/images.py', 'fbs/__init__.py'],
     [('csmc_kernel', 'fbs/samplers/csmc/csmc.py'), ('_enumerate_jit', 'fbs/data/images.py'), ('init_enumeration', 'fbs/data/base.py')],
     'Exhaustive exploration of call sequences on the real code: a cyclic history that contains every ordered pair of actions (entry point, interpreted or compiled, key) is '
     'executed and every result compared with the first one of its action', 'Sequences are exhaustive for consecutive pairs; a memory that needs three particular calls in a row is '
     'found only when the walk happens to contain them.')


def main():
    have = [p for p in P if os.path.exists(os.path.join(ROOT, 'mc', p['id'].lower() + '.py'))]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    man = dict(version=1, setup_cmd='./setup.sh',
               checks=[dict(property=p['id'], quick_cmd=f'./check {p["id"]} --tier quick',
                            thorough_cmd=f'./check {p["id"]} --tier thorough',
                            evidence_file=f'evidence/{p["id"]}.json', technique=p['_technique'],
                            level='model_checking', level_note=p['_note'].strip()) for p in have],
               not_applicable=[dict(property=p['id'], reason='not claimed yet: its check is still being built')
                               for p in P if p not in have],
               notes='No hooks: the checks drive /repo unmodified, with jax.random and jax control flow replaced at import '
                     'time by the explorer in mc/rng.py. Genuine defects: KNOWN_FINDINGS.txt and DESIGN.md.')
    json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
