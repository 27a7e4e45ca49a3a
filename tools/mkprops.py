"""Writes properties.jsonl (one source, so MANIFEST, DESIGN and checks use the same ids)."""
import json, os
S='src/mfpml/'
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],mechanism=[dict(name=n,where=S+w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=S+c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
DOE=['design_of_experiment/sf_samplers.py','design_of_experiment/mf_samplers.py']
# ---- design of experiments
p('D01','Samplers return the requested number of points, all inside the design space',
 'For any design space, number of samples and seed, a single-fidelity Latin hypercube, random or Sobol sampler returns an array with exactly the requested number of rows and one column per variable, and every point satisfies its own variable\'s lower and upper bound. A multi-fidelity sampler returns one such array per fidelity, highest fidelity first, with the counts that were asked for, each fidelity inside its own bounds when fidelities are sampled independently. The fixed-number sampler repeats the flattened design space once per requested sample.',
 ['inputs','configurations'],'all design spaces (any dimension, negative, asymmetric, integer typed, nested lists), counts from 1 up, seeds, skips and per-fidelity spaces',
 'Tests draw one or two designs on one space and compare with stored numbers; they reach one dimension layout and no asymmetric per-variable bounds, large counts or per-fidelity spaces.',
 DOE,[('scaling to bounds',DOE[0]),('per-fidelity scaling',DOE[1])],['get_samples return value'])
p('D02','Multi-fidelity designs keep fidelity order, nesting and count rules',
 'With nesting on, the points of every higher fidelity are a selection without repetition of the points of the next lower fidelity, for any number of fidelities. With nesting off, each fidelity has its own design. A request whose counts decrease from a higher to a lower fidelity is rejected with an assertion error and never answered.',
 ['inputs','configurations'],'all count lists with 1..5 fidelities, with equal and increasing counts, both sampler families, all seeds',
 'Tests build one two-fidelity design with fixed counts; three or more fidelities, equal counts and rejected requests are not reached.',
 DOE[1:],[('selection of the nested subset',DOE[1]),('count rule',DOE[1])],['get_samples return value or exception'])
p('D03','A design depends only on the space, the counts and the seed',
 'Two requests with the same design space, counts and seed give bit-identical designs, no matter which sampler object answers, which requests it answered before, how often it is asked, or what state the global random generator is in. Different seeds give different designs for the random samplers. A request never modifies the design space or the list of counts passed by the caller.',
 ['histories','inputs'],'all histories of requests on shared and fresh sampler objects, interleaved with arbitrary use of the global random generator',
 'Tests call each sampler once; hidden dependence on earlier calls, on the global generator, or damage to caller data shows only over call histories.',
 DOE,[('explicit seeding',DOE[0]),('explicit seeding per fidelity',DOE[1])],['get_samples return value','caller arguments after the call'])
p('D04','Latin hypercube and Sobol designs stratify every variable',
 'A Latin hypercube design of n points (and every independently drawn multi-fidelity Latin hypercube level) has exactly one point in each of the n equal slices of each variable\'s range. A Sobol design of 2^k points that starts at the beginning of the sequence, or is skipped by a multiple of 2^k points, has exactly one point in each of the 2^k equal slices of each variable\'s range.',
 ['inputs','configurations'],'all dimensions, counts, seeds and design spaces',
 'Tests compare a few stored numbers; the stratification must hold for every count, dimension, seed and range.',
 DOE,[('scipy LatinHypercube / Sobol and linear scaling',DOE[0])],['get_samples return value'])
p('D05','Saved designs reload exactly as the most recent design',
 'After any sequence of requests and saves, the file written by a save, named with the given name plus the pickle extension, reloads to exactly the design returned by the latest request made before that save. Saving never changes the design, and other saved files keep their content.',
 ['histories'],'all interleavings of requests and saves to several file names on several samplers',
 'No test saves a design.',
 DOE,[('pickling of the latest design',DOE[0]),('pickling of the latest design',DOE[1])],['files written by save_data'],
 [('samples / data','latest design',DOE[0])])
p('D06','Sobol designs are consistent under extension and skipping',
 'For a fixed space and seed, asking for more Sobol points keeps the points of the shorter design as its first rows, and skipping s points gives exactly the rows s, s+1, ... of the unskipped sequence; the default skip equals the number of variables when the space is given as one row of bounds per variable. All fidelities of an independent multi-fidelity Sobol design with a common space are prefixes of one sequence.',
 ['inputs','configurations'],'all dimensions, counts, skips and seeds',
 'Tests compare one stored Sobol design; relations between designs of different lengths and skips are not tested.',
 DOE,[('fast_forward by num_skip',DOE[0]),('fast_forward by num_skip',DOE[1])],['get_samples return value'])
# ---- problems
PR=['problems/functions.py','problems/sf_functions.py','problems/mf_functions.py','problems/sf_cons_functions.py']
p('P01','Problem evaluation is pointwise, column shaped and leaves its input alone',
 'Evaluating any benchmark objective, fidelity or constraint on an array of n points returns an n-by-1 array of finite numbers whose i-th entry is the value of the i-th point alone, independent of the other points and of earlier evaluations, and does not change the input, for every point of the input domain including its corners. Calling a multi-fidelity problem on a list of designs returns the high-fidelity responses of the first and the low-fidelity responses of the second.',
 ['inputs','histories'],'all benchmark problems, all points of the domain, all batch sizes and orders',
 'Tests evaluate two functions at a few points.',
 PR,[('batch evaluation',PR[1]),('dispatch to fidelities',PR[2])],['f, hf, lf, f_cons, call'])
p('P02','The declared optimum is attained at the declared point and never beaten',
 'For every benchmark problem that declares an optimum, each declared optimal point lies in the input domain, satisfies the constraints, and evaluates to the declared optimum within a tolerance of 1e-3 relative to max(1,|optimum|). No point of the input domain (feasible point, for constrained problems) has a high-fidelity value below the declared optimum by more than that tolerance.',
 ['inputs'],'all points of the domain of all problems, all dimensions of the scalable ones',
 'Tests never compare declared optima with function values.',
 PR,[('declared optimum constants',PR[1]),('declared optimum constants',PR[2]),('declared optimum constants',PR[3])],['optimum, optimum_scheme, input_domain','f, hf, f_cons'])
p('P03','Problem instances are independent and reject unsupported dimensions',
 'The dimension, domain, optimum, optimal point and values reported by a problem instance, through attributes and accessors alike, agree with the dimension and published domain it was created for, its fidelity cost ratio (where it has one) with the costs it was created with, and none of them ever change because other instances, of any dimension or class, are created or evaluated. Creating a fixed-dimension problem with any other dimension fails with an assertion error.',
 ['histories','inputs'],'all interleavings of creating and using instances of all problems with all dimensions',
 'Tests create one instance per test.',
 PR,[('dimension check',PR[1]),('instance data',PR[1]),('accessors',PR[0])],['attributes and accessors of instances'])
p('P04','Benchmark functions follow their published formulas at every fidelity',
 'Every benchmark objective, every fidelity and every constraint equals its published closed-form formula at every point of the domain to within 1e-6 relative accuracy, and functions provided in both a single- and a multi-fidelity variant agree at high fidelity.',
 ['inputs'],'all points of the domain of all problems; scalable problems in all dimensions and with all parameter values',
 'Tests check Branin and one Forrester variant at a handful of points.',
 PR[1:],[('closed forms',PR[1]),('closed forms',PR[2]),('closed forms',PR[3])],['f, hf, lf, f_cons'])
# ---- evolutionary algorithms
EA=['optimization/evolutionary_algorithms.py']
e=EA[0]
p('E01','PSO and DE never evaluate a point outside the design space',
 'In every run of particle swarm or differential evolution, each point handed to the objective, in every generation, lies within the lower and upper bound of its own variable, and so does every reported best point and every stored sample.',
 ['histories','inputs','configurations'],'all objectives, seeds, population sizes, generations, step sizes, rates, strategies and (asymmetric, negative, narrow) design spaces',
 'Tests run each optimizer once and look at the final value only.',EA,[('replacement of points that left the space',e)],['arguments of the objective','results'])
p('E02','Reported best is the best of everything evaluated',
 'The reported best value is the minimum of all objective values obtained in the run and the reported best point is a point that was evaluated with that value. The best-so-far history has one entry per completed generation including the initial one, never increases, and each entry is the minimum over all evaluations up to that generation with a matching point. The result record lists the population and responses of every completed generation, and agrees with the separately returned best value and point, also when the run stops early.',
 ['histories','inputs','configurations'],'all objectives (with ties, plateaus, negative values), seeds, settings and stopping thresholds',
 'Tests check closeness of the final value to a known optimum.',EA,[('best tracking',e),('final results',e)],['results of run_optimizer, objective call log'])
p('E03','Evaluation budget and early stopping are exact',
 'A run with population p and g generations calls the objective on p points at a time, exactly g+1 times when no threshold is given. With a threshold it stops right after the first generation (after the initial one) whose best-so-far value is strictly below the threshold and otherwise uses the full budget. The objective receives the extra arguments given by the caller unchanged on every call.',
 ['histories','inputs','configurations'],'all settings, objectives and thresholds, including values equal to the threshold',
 'Tests use no early stopping and do not count evaluations.',EA,[('main loop',e)],['objective call log'])
p('E04','Particle swarm moves follow the stated update rule and velocity limit',
 'Each particle moves by a velocity equal to inertia weight times its previous velocity plus the cognitive rate times the displacement to its own best point so far plus the social rate times the displacement to the swarm\'s best point so far, each component limited in magnitude to the configured fraction of the variable\'s range; initial velocities are between zero and that limit. Only coordinates that would leave the space are replaced, by a value inside the bounds; a particle\'s own best is updated whenever its new value is not worse.',
 ['histories','inputs','configurations'],'all objectives, seeds, rates, weights, velocity limits and spaces',
 'Tests look only at the final optimum; a wrong memory or a missing limit still converges on smooth problems.',EA,[('velocity update and clamp',e),('personal best memory',e)],['points evaluated in successive generations'])
p('E05','Differential evolution builds trials and selects survivors as specified',
 'Each trial equals its parent except in at least one coordinate taken from the mutant, where the mutant is a base vector (another population member, or the best point so far for the best strategy) plus the step size times a difference of two population members, all other than the parent; coordinates that would leave the space are replaced inside it, and a crossover rate of one takes every coordinate and of zero exactly one coordinate from the mutant. A trial replaces its parent exactly when its value is strictly smaller, so no member of the population ever gets worse, and the stored population and responses of each generation are the survivors. Undefined strategies are rejected with an error.',
 ['histories','inputs','configurations'],'all objectives, seeds, step sizes, crossover rates, population sizes and both strategies',
 'Tests look only at the final optimum.',EA,[('mutation and crossover',e),('greedy selection',e)],['points evaluated in successive generations','all_samples / all_responses'])
p('E06','Optimizer runs are reproducible and independent of earlier runs',
 'With the global random generator seeded equally, running an optimizer object again, or a fresh one with the same settings, on the same problem evaluates the same points and returns identical results, whatever the object ran before (other dimensions, spaces, objectives, early-stopped or failed runs). Results returned by an earlier run, the values the objective returned and the caller\'s design space are never changed by the optimizer.',
 ['histories'],'all sequences of runs on shared and fresh optimizer objects',
 'Each test runs an optimizer once.',EA,[('re-initialisation at the start of a run',e)],['results of run_optimizer over call sequences'])
p('E07','The step checkpoint always describes the last completed generation',
 'When step saving is on, after a crash of the objective at any evaluation following the first completed generation after the initial one the checkpoint file contains exactly the samples, responses and best values and points of all generations completed before the crash, and after a complete run it agrees with the returned results. When step saving is off no file is written.',
 ['crash_points','histories'],'all evaluation indices at which the objective can fail, both optimizers, all settings',
 'No test saves steps or lets an objective fail.',EA,[('checkpoint after each generation',e)],['step_results.pickle'])
# ---- models
M=['models/gaussian_process.py','models/mf_gaussian_process.py','models/hierarchical_kriging.py','models/scale_kriging.py','models/co_kriging.py','models/kernels.py','models/basis_functions.py']
p('M01','Surrogate predictions are pure, pointwise and column shaped',
 'Predicting with any trained surrogate (Gaussian process, hierarchical, scaled and co-Kriging, high and low fidelity) at n points returns n-by-1 means, and n-by-1 nonnegative standard deviations when asked; the mean is the same with and without the standard deviation, and each entry equals the prediction at that point alone. Predicting any number of times in any order never changes later predictions, the training data or the query points.',
 ['histories','inputs'],'all sequences of predictions of any batch size on all models, noise settings and training sets',
 'Tests call predict once per model and compare with stored numbers.',M[:5],[('predict',M[0]),('predict',M[2]),('predict',M[3]),('predict',M[4])],['predict, predict_lf'])
p('M02','Retraining forgets everything but the new data',
 'Training a surrogate object on a data set gives the same predictions, noise level and hyper-parameters as training a freshly created surrogate with the same settings on that data under the same optimizer and random state, whatever data it was trained on or predicted before; training another model changes nothing for this one. Training and predicting never modify the arrays or lists passed in, and overwriting those arrays afterwards does not change predictions.',
 ['histories','inputs'],'all sequences of trainings and predictions on all models with known, zero and unknown noise',
 'Tests train each object once; Bayesian optimization retrains one object many times.',M[:5],[('reset at the start of training',M[0]),('noise prior',M[4])],['predictions after sequences of train calls'])
p('M03','Noise-free surrogates interpolate their training data',
 'With noise set to zero, the Gaussian process, the low-fidelity part of each multi-fidelity model, and the high-fidelity mean of each multi-fidelity model reproduce every training response at its training point within numerical accuracy, and the standard deviation there is numerically zero for the Gaussian process, hierarchical and co-Kriging models, relative to the spread of the responses. This includes data with constant responses.',
 ['inputs','configurations'],'all well-separated training sets, dimensions, spaces, response scales and offsets',
 'Tests compare predictions at other points with loose tolerances.',M[:5],[('kernel system solve',M[0]),('scaling',M[1])],['predict at training points'])
p('M04','Gaussian process posterior equals the universal Kriging equations',
 'For given hyper-parameters and noise, the Gaussian process mean is the generalised-least-squares trend plus the kernel-weighted residual, and its variance is the process variance (the maximum-likelihood estimate) times one minus the explained part plus the trend-uncertainty part, plus the noise variance, all after scaling inputs to the unit cube by the design space and responses to zero mean and unit deviation and transformed back to original units. This holds for constant, linear and quadratic trends and for zero, given and learned noise.',
 ['inputs','configurations'],'all data sets, query points, design spaces, hyper-parameters, trends and noise settings',
 'Tests check one data set with fixed expected numbers or a loose tolerance.',[M[0],M[5],M[6]],[('training equations',M[0]),('prediction equations',M[0])],['predict under a prescribed hyper-parameter choice'])
p('M05','Multi-fidelity posteriors equal their defining equations',
 'For given hyper-parameters and noise, hierarchical Kriging is universal Kriging of the high-fidelity data with the low-fidelity prediction as its single trend; scaled Kriging is the scale factor times the low-fidelity prediction plus a Gaussian process on the remaining discrepancy with independent variances added; co-Kriging is the joint conditional distribution of the autoregressive two-level model. Means and standard deviations agree with these equations in original units.',
 ['inputs','configurations'],'all two-fidelity data sets, design spaces, hyper-parameters, scale factors and noise settings',
 'Tests check each model on one problem with loose tolerance.',M[1:6],[('hierarchical Kriging equations',M[2]),('scaled Kriging equations',M[3]),('co-Kriging equations',M[4])],['predict and predict_lf under prescribed hyper-parameters'])
p('M06','Hyper-parameter fitting returns the best candidate within its bounds',
 'The fitted hyper-parameters (length scales, learned noise, scale factor) always lie within the configured bounds, the number of local searches is one more than the configured restarts, and the fitted value is the best of all candidates by the model\'s negative log-likelihood (concentrated over the process variance without noise, of unit process variance otherwise, on scaled data; squared error of the scaled low-fidelity prediction for the scale factor of scaled Kriging). When an optimizer object is supplied it is used instead, on the full box of hyper-parameter bounds, and its best point is adopted unchanged.',
 ['inputs','configurations','histories'],'all models, noise settings, kernel and scale bounds, restart counts and supplied optimizers',
 'Tests use default optimisation and look at predictions only.',M[:6],[('restart loop',M[0]),('restart loop',M[2]),('restart loop',M[4])],['hyper-parameters after training, optimizer call log'])
p('M07','Trend basis functions produce exactly the monomials up to their degree',
 'For every array of n points in d variables, the constant, linear and quadratic trend bases return exactly the columns 1; 1,x1..xd; and 1, x1..xd followed by all products xi*xj with i<=j in lexicographic order, row by row, without changing the input.',
 ['inputs'],'all dimensions, numbers of points and values',
 'Tests check one small array per basis.',[M[6]],[('column construction',M[6])],['basis function call'])
p('M08','The kernel is the anisotropic Gaussian correlation in both call forms',
 'The kernel matrix of two point sets has entries exp(-sum_k 10^theta_k (x_k-y_k)^2), plus only a 1e-10 stabilising term of each point with itself (the main diagonal for the matrix of a set with itself; at most where points coincide for two different sets), for every log length-scale parameter vector; it is symmetric in its arguments, and evaluating it with explicit parameters or after setting those parameters gives the same matrix. Evaluation with explicit parameters never changes the stored parameters, bounds or inputs. The Kronecker delta of two point sets is one exactly where points coincide.',
 ['inputs','histories'],'all point sets, dimensions, parameter vectors and sequences of parameter changes and evaluations',
 'No test evaluates the kernel directly.',[M[5]],[('distance and exponential',M[5])],['kernel matrix calls'])
# ---- acquisition
AQ=['optimization/sf_uncons_acqusitions.py','optimization/sf_cons_acqusitions.py','optimization/mf_acqusitions.py']
p('A01','Single-fidelity acquisition values equal their definitions',
 'For every surrogate, expected improvement, probability of improvement, lower confidence bound and constrained expected improvement (expected improvement times the product of the probabilities that each constraint is at most zero), all as quantities to be minimised, equal their closed-form definitions in terms of the surrogate\'s mean and standard deviation and the smallest observed objective response. The value of a point does not depend on the other points of a batch or on earlier evaluations, and evaluating never changes the surrogate or the points.',
 ['inputs','configurations'],'all means, standard deviations (down to zero), incumbents, numbers of constraints, weights and batch sizes',
 'Tests run whole optimizations and check the final value.',AQ[:2],[('closed forms',AQ[0]),('closed forms',AQ[1])],['eval'])
p('A02','Multi-fidelity acquisition values equal their definitions',
 'For every surrogate, point, cost ratio and fidelity, augmented expected improvement, variable-fidelity expected improvement, variable-fidelity lower confidence bound and extended probability of improvement equal their closed-form definitions in terms of both fidelities\' means and standard deviations, sample correlations and the cost ratio, zero where the deviation vanishes for the improvement-based ones. Fidelities other than 0 and 1 and, for variable-fidelity expected improvement, models other than hierarchical Kriging are refused with a ValueError. The value of a point does not depend on the other points of a batch or on earlier evaluations, and evaluating never changes the surrogate or the points.',
 ['inputs','configurations'],'all means, standard deviations, incumbents, cost ratios, weights, fidelities and batch sizes',
 'Tests run whole optimizations and check the final value.',AQ[2:],[('closed forms',AQ[2])],['eval'])
p('A03','Queries stay in the design space and pick the best point and fidelity',
 'The point proposed by any acquisition query lies within the surrogate\'s design space and its acquisition value is at most that of any point of a dense sample of the space up to search tolerance. Multi-fidelity queries choose the fidelity whose best acquisition value is lower, high fidelity on ties, and return the point found for it; a supplied optimizer is used for every search of acquisition values, with the same objective and bounds, and its best point is returned unchanged. Extended probability of improvement is measured against the smallest predicted mean in the space. Queries never change the surrogates.',
 ['inputs','configurations'],'all acquisitions, surrogates, design spaces, cost ratios and supplied optimizers',
 'Tests use the default search only and check the final value.',AQ,[('query',AQ[0]),('query',AQ[1]),('fidelity choice',AQ[2])],['query'])
# ---- Bayesian optimization
B=['optimization/sf_uncons_bo.py','optimization/sf_cons_bo.py','optimization/mf_uncons_bo.py']
mb=[('optimization loop',f) for f in B]
p('B01','BO archives are append-only and record exactly the evaluations made',
 'Starting from an initial design of the requested size (per fidelity) inside the domain, every iteration of any of the three Bayesian optimization loops evaluates the problem exactly once, at exactly the queried point and only at the queried fidelity (objective and constraints for constrained problems), and appends exactly that point and its responses to the archive of that fidelity. Earlier archive rows, initial designs and other fidelities are never changed, over any number of successive runs.',
 ['histories','inputs'],'all sequences of queried points, fidelities and responses, over several successive runs, for all three loops',
 'Tests look at the final best value only.',B,mb,['problem call log, archive after each iteration'],[('sample / response','archive',B[0])])
p('B02','The incumbent and its history are exactly the best of the archive',
 'After initialisation and after every iteration of the unconstrained and multi-fidelity loops, the incumbent value is the minimum of the (high-fidelity) responses in the archive and the incumbent point is an archived point with that value; low-fidelity responses never influence it. The incumbent history has one entry for the initial design and one per iteration, is non-increasing, and earlier entries never change.',
 ['histories','inputs'],'all sequences of responses with ties, negative values, low-fidelity values below the incumbent, and several successive runs',
 'Tests check the final best against a known optimum.',[B[0],B[2]],[mb[0],mb[2]],['best, best_x, histories after every iteration'])
p('B03','BO stops exactly at its iteration budget or error threshold',
 'A run performs iterations until either the given number has been made in this run or the relative error of the incumbent to a known optimum (absolute error if that optimum is zero) is below the given threshold (for the multi-fidelity loop: not above it), and stops at the first moment either holds; each further run gets a fresh iteration budget and continues from the current archive. Problems without a known optimum always use the full budget.',
 ['histories','inputs','configurations'],'all budgets including zero, thresholds, optima (negative, zero, unknown), responses and sequences of runs, for all three loops',
 'Tests use one threshold on one problem with a positive iteration budget.',B,mb,['problem and query call log'])
p('B04','Every query sees a surrogate trained on the full current archive',
 'Whenever a loop asks the acquisition for a point, the surrogates it passes (objective and every constraint, or both fidelities) hold exactly the current archive in order and reproduce its responses, and it passes the current incumbent and the caller\'s cost ratio where the acquisition takes them.',
 ['histories','inputs'],'all sequences of responses and fidelities over several runs, for all three loops and all multi-fidelity surrogates',
 'Tests cannot see stale surrogates: the loops still converge.',B,mb,['arguments of acquisition queries'])
p('B05','Constrained BO only ever reports feasible incumbents',
 'After initialisation and every iteration of the constrained loop, the incumbent value is the minimum objective among archived points whose constraints are all at most zero, every reported incumbent point is feasible and attains that value, and while no archived point is feasible the incumbent value is infinite and no point is reported. The incumbent history has one entry per step consistent with this and never increases.',
 ['histories','inputs'],'all sequences of objective and constraint values with one or more constraints, values exactly zero, ties between feasible and infeasible points, infeasible starts',
 'Tests run one constrained problem and check nothing about feasibility.',B[1:2],mb[1:2],['best, best_x, histories after every iteration'])
p('B06','BO runs are reproducible from the seed and leave caller data alone',
 'Creating an optimizer object with some problem, acquisition, initial size, settings and seed and then running it (with no other random activity in between) always produces identical archives, incumbents and histories, whatever random numbers were drawn or objects were created and run before. Different seeds give different initial designs, and neither the problem nor the list of initial sizes is modified.',
 ['histories','inputs'],'all three loops, all seeds, settings and preceding activity',
 'Tests run each loop once per seed.',B,[('seeding in the constructor',f) for f in B],['archives and histories of repeated runs'])
p('B07','A failed expensive evaluation leaves BO state consistent and resumable',
 'If the acquisition, the objective, a fidelity or a constraint raises an error during an iteration, the error reaches the caller and the archive, incumbent and histories are exactly those after the last completed iteration; a later run on the same object continues from there as if the failed iteration had not been attempted.',
 ['crash_points','fault_sequences','histories'],'all positions of failing queries and evaluations in all sequences of iterations and runs, for all three loops',
 'No test lets an evaluation fail.',B,mb,['object state after the exception and after resuming'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
