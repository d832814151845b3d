import json
MB="pyrichlet/mixture_models/_base.py"; MU="pyrichlet/mixture_models/_utils.py"; WB="pyrichlet/weight_models/_base.py"
W=lambda n:"pyrichlet/weight_models/_%s.py"%n
ALLW=[WB]+[W(n) for n in "dirichlet_distribution dirichlet_process pitman_yor_process geometric_process beta_in_beta beta_in_dirichlet beta_bernoulli beta_binomial equal frequency".split()]
VARW=[WB]+[W(n) for n in "dirichlet_distribution dirichlet_process pitman_yor_process geometric_process equal frequency".split()]
MIX=[MB]+["pyrichlet/mixture_models/_%s_mixture.py"%n for n in "dirichlet_distribution dirichlet_process pitman_yor_process geometric_process beta_in_beta beta_in_dirichlet beta_bernoulli beta_binomial equal_weighted frequency_weighted".split()]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Reported weights are a valid sub-probability vector at every instant",
 "After any sequence of drawing, extending, conditioning and resetting a weight model, including calls that failed or were interrupted part-way, the weights it reports are finite, non-negative and sum to at most one (to one for the finite models). The size, normalised and cumulative forms it reports describe those same weights. Every label it draws (one or many) is an integer index inside the reported structure.",
 ["histories","fault_sequences","inputs"],"all ten weight models, all parameter values in their domain, all operation histories, all random streams (rare extreme draws included), failure or interruption at any instruction of any call",
 "The tests draw fresh weights with one seed and check two moments; none issues a sequence of calls, an extreme draw, an interruption or a label draw.",
 ALLW,[("stick-breaking product rebuilt from stick lengths in one assignment","pyrichlet/weight_models/*.random, .complete"),("inverse-CDF label draw",WB+":random_assignment")],
 [("w","current truncated weights",WB)],["get_weights, get_normalized_weights, get_normalized_cumulative_weights, get_size, random_assignment"])
p("C02","Extending a realization only appends, reaches the target, and returns",
 "Asking a drawn realization for more weights, for more covered mass (any level in [0,1)) or for the likelihood of an assignment keeps every weight already reported, leaves at least the requested number of weights or mass present (finite models already hold everything), and always returns. The returned array is the structure reported from then on, asking for what is already covered changes nothing, the likelihood returned is that of the weights reported, and appended weights continue the same realization (in the geometric special cases all successive ratios stay equal). A mass level outside [0,1) is rejected without changing anything.",
 ["histories","inputs","fault_sequences"],"all ten weight models, all parameters, all interleavings of extension requests with one another and with draws, all random streams, earlier calls possibly interrupted",
 "No test calls complete or tail at all; Gibbs fits use them with one seed and only the final density is looked at.",
 ALLW,[("append new sticks, never redraw old ones","pyrichlet/weight_models/*.complete"),("grow until covered",WB+":tail"),("closed-form size for the geometric tail",W("geometric_process")+":tail")],
 [("w","current truncated weights",WB)],["complete, tail, assignation_log_likelihood, get_weights"])
p("C03","Unconditioned weights follow the documented prior law",
 "Whatever was done to a weight model before, the weights drawn when nothing is fitted (never fitted, or reset) follow the prior the model names: Dirichlet, GEM stick-breaking of the Dirichlet and Pitman-Yor processes, geometric, or the dependent stick-breaking of the beta-in-beta, beta-in-Dirichlet, beta-Bernoulli and beta-binomial models with their limiting cases. The law is the same whether the vector is drawn at once or grown in several steps, and labels drawn from it occur with its weights as probabilities.",
 ["histories","inputs","schedules"],"all weight models, all parameter values, every preceding history of calls (including failed ones), every way of splitting the growth of the vector into calls",
 "Tests compare two first and second moments to one decimal place for default parameters and a single fresh draw; wrong indices, parameters or stale state pass.",
 ALLW,[("beta sticks with model-specific parameters","pyrichlet/weight_models/*.random, .complete")],(),["random, complete, get_weights, random_assignment"])
p("C04","Weights drawn after conditioning follow the exact posterior",
 "After a model is conditioned on any vector of group labels, the weights it draws (drawn at once or grown later) follow the posterior law of its prior given those labels, and cover every observed group with positive weight. This holds for the models whose posterior the library samples directly. For the models it samples by an auxiliary chain, alternating draws of weights and of labels leaves the joint law of weights and labels unchanged, and repeated draws given fixed labels forget their start and follow the posterior. Beta-in-beta with 0 < x < 1 draws its sticks from their posterior given the success location p in use, and updates p as its method names: not at all, from its prior, from the law of a geometric process given the labels, from its law given the sticks in use (inverse sampling) or to the top of that law (maximum likelihood).",
 ["histories","inputs"],"all weight models with an exact or chain posterior, all parameters, all label vectors (gaps, single group, many groups, permuted order), every preceding history of fits and draws",
 "Only end-to-end Gibbs runs touch conditional draws, with well separated clusters whose densities are insensitive to the weights; one-decimal tolerance.",
 ALLW,[("conjugate counts: own group and later groups","pyrichlet/weight_models/*.random"),("auxiliary-variable update",W("beta_bernoulli")+", "+W("beta_in_dirichlet")+", "+W("beta_binomial"))],(),["fit, random, complete"])
p("C05","Conditioning again or resetting fully replaces what was fitted before",
 "Conditioning a weight model on new labels, or resetting it, makes its next fresh draw identical to that of a newly built model brought to the same condition with the same random stream: nothing drawn, fitted, extended, queried, failed or interrupted earlier has any influence. Models that draw the posterior through an auxiliary chain are held to this for resets and for the support of the draw.",
 ["histories","fault_sequences","crash_points"],"all weight models, all pairs of histories ending in the same conditioning, interruption or failing call at any instruction of the earlier history",
 "Tests never fit a weight model twice, never reset one, and never interrupt one.",
 ALLW,[("conditioning vector replaced",WB+":fit, reset"),("sticks cleared at the start of a draw","pyrichlet/weight_models/*.random")],
 [("d","labels conditioned on",WB)],["fit, reset, random"])
p("C06","Variational weights agree with the sampled posterior",
 "When the variational assignment probabilities are all zero or one, the mean weight and mean log-weight a model reports for each group equal the averages over weights drawn from the posterior given those same labels (for truncated models, for all but the closing group). For any assignment probabilities the mean weights are non-negative, sum to at most one (to one for the Dirichlet, Dirichlet-process, equal and frequency models), and depend only on the last fit, whatever happened before.",
 ["histories","inputs"],"the six models with variational support, all parameters, all assignment matrices, all earlier histories of fits and draws",
 "Variational tests only compare a final one-dimensional density to one decimal place; no test looks at the variational weights or relates the two inference paths.",
 VARW,[("coordinate update of q(w)","pyrichlet/weight_models/*.fit_variational"),("moments under q","pyrichlet/weight_models/*.variational_mean_w_j, .variational_mean_log_w_j")],(),["fit_variational, variational_mean_w_j, variational_mean_log_w_j, random"])
p("C07","Every saved Gibbs draw is complete, coherent and counted once",
 "A Gibbs fit saves exactly one draw per subsampling period after burn-in, and the reported numbers of draws, groups and atoms always agree with each other and with the saved draws. In every saved draw each observation carries a label of an existing component whose weight exceeds that observation's slice level, the weights not instantiated total less than every slice level, every instantiated component has a mean and a symmetric positive-definite covariance of the data's dimension. This also holds after a fit was interrupted or a call inside it failed, and later fits resume.",
 ["histories","fault_sequences","configurations","crash_points"],"all ten mixture models, initialisation methods, burn-in/iteration/subsampling settings, data sets, random streams, sequences of cold and warm fits, failing calls and interruptions inside them",
 "Tests run one uninterrupted fit with default iteration counts and look at the MAP density only; saved draws are never inspected.",
 MIX+[MU],[("save bookkeeping",MB+":_save_params"),("slice update and truncation",MB+":_update_weights"),("allocation by Gumbel-max over active components",MB+":_update_d")],
 [("sim_params, n_groups, n_atoms, affinity_matrix, total_saved_steps","saved chain and its counters",MB)],["get_sim_params, get_n_groups, get_n_theta, gibbs_eap_affinity_matrix"])
p("C08","Saved draws never change afterwards",
 "Once a draw has been saved, or recorded as the most likely one, no later sampling step, warm or failed fit, query or weight-model call made through the model changes it: each draw reads back exactly as when it was saved, in the same position, until a new cold fit starts.",
 ["histories","fault_sequences","schedules"],"all mixture models, all continuations of a history (warm starts, queries, variational fits, interruptions)",
 "Tests never look at saved draws, let alone twice.",
 MIX+ALLW,[("draw captured as a snapshot",MB+":_get_run_params"),("state replaced rather than updated in place","pyrichlet/weight_models/*.random, "+MB+":_update_*")],
 [("sim_params, map_sim_params","recorded draws",MB)],["get_sim_params, gibbs_map_density, gibbs_eap_density"])
p("C09","Results depend only on data, settings and the supplied random generator",
 "Two executions with the same data, the same settings, the same sequence of calls and generators in the same state give identical fits and identical answers to every query. Process, hash seed, wall clock, global random state, memory layout and anything else computed before in the process have no influence.",
 ["schedules","configurations","histories"],"all mixture and weight models, all call sequences, all ambient process states",
 "Each test runs once in one process; a second source of entropy would pass every one of them.",
 MIX+ALLW+["pyrichlet/utils/validators.py",MU],[("one generator threaded through every sampler",MB+":__init__, "+MU),("k-means seeded from the same generator",MU+":kmeans_cluster_size_biased")],(),["fit_gibbs, fit_variational and all query methods"])
p("C10","Independent models never influence each other under any interleaving",
 "When several threads work on separate models (each with its own generator) each obtains exactly what it would obtain alone, for every interleaving of their instructions. Threads that only query one fitted model concurrently each get the answers a single thread would get.",
 ["schedules","histories"],"two to four threads, all mixture and weight models, all preemption sequences at instruction granularity inside the library, interruptions of one thread included",
 "All tests are single-threaded and build one model each.",
 MIX+ALLW+["pyrichlet/utils/functions.py"],[("all state lives on the instance",MB+":__init__, "+WB+":__init__")],(),["all public methods"])
p("C11","A cold fit is indistinguishable from the fit of a new model",
 "Starting a fit without warm start on a model with any past — earlier fits on other data, other dimensions or by the other method, warm starts, failed or interrupted fits — gives exactly the draws, most likely draw, flags and answers that a newly built model with the same settings would give on the same data with the same random stream. In particular default priors are those of the new data.",
 ["histories","fault_sequences","crash_points"],"all mixture models, all past histories, interruption or failing call at any instruction of the past, both inference methods, all initialisation methods",
 "Every test fits a model exactly once.",
 MIX+ALLW,[("re-initialisation of chain state",MB+":_initialize_gibbs_params, _initialize_variational_params"),("default priors from data",MB+":_initialize_common_params")],
 [("mu_prior, psi_prior, nu_prior, map_*, sim_params, weight_model","state a past fit leaves behind",MB)],["fit_gibbs, fit_variational, all queries"])
p("C12","Warm start continues exactly where the previous fit stopped",
 "Splitting a fit into a first fit and any number of warm-started continuations gives exactly the state and draws of one uninterrupted fit of the same total length with the same random stream, for both inference methods and whatever was queried or fitted by the other method in between. A warm start that is interrupted or fails keeps all draws saved before it as they were, and a further warm start continues from there with valid draws.",
 ["histories","fault_sequences","crash_points","schedules"],"all mixture models, all ways of splitting the iterations, arbitrary queries between the parts, interruption at any instruction of a part",
 "No test uses warm_start.",
 [MB]+ALLW,[("warm start skips initialisation only",MB+":fit_gibbs, fit_variational")],
 [("theta, d, u, weight_model, var_d, var_theta","live chain state",MB)],["fit_gibbs, fit_variational, get_sim_params"])
p("C13","The MAP draw is the most likely state visited since the cold start",
 "After any sequence of one cold fit and warm continuations, including failed ones, the reported maximum a posteriori draw is a state the chain really visited, the reported log-likelihood is the likelihood of that state for the fitted data, and no saved draw has a higher one. Density and clustering queries for the MAP use exactly that state and always succeed once a fit has completed.",
 ["histories","fault_sequences","configurations"],"all mixture models, initialisations, iteration settings (zero burn-in and single iterations included), data sets, failing calls during the fit",
 "Tests only compare the MAP density with the true density to one decimal, for long chains.",
 [MB,MU],[("keep parameters of the best likelihood so far",MB+":_update_map_params"),("likelihood of data and labels",MB+":_run_log_likelihood")],
 [("map_sim_params, map_log_likelihood","best state and its likelihood",MB)],["gibbs_map_density, gibbs_map_cluster, map_sim_params, map_log_likelihood"])
p("C14","Queries are read-only",
 "Density, affinity, clustering and accessor queries never change the fitted model: asked again at any later time before the next fit they give the same answer, and a chain continued after any number and order of queries, successful or failing, is identical to one continued without them; answers are fresh objects the caller may overwrite.",
 ["histories","fault_sequences"],"all query methods with all arguments, in all orders and positions between fits, on all mixture models",
 "Tests make exactly one query after one fit.",
 [MB,MU],[("queries evaluate saved parameters only",MB+":gibbs_*, var_*"),("plain snapshots instead of auto-filling atoms",MB+":_get_run_params")],(),["gibbs_*, var_*, get_*"])
p("C15","Posterior summaries equal their definition over the saved draws",
 "The expected density is the average over saved draws (or over the last requested ones) of that draw's weighted normal mixture; the affinity of two fitted observations is the fraction of saved draws putting them in one group, hence symmetric with unit diagonal; for new points it is the fraction of draws whose most likely groups agree; the MAP clustering gives each point its most probable component with the complementary probability as uncertainty. This holds after every history of cold, warm, failed and interrupted fits.",
 ["histories","fault_sequences","inputs"],"all mixture models, all histories of fits, all evaluation points, dimension and component selections, all numbers of periods",
 "Tests query only the MAP density at the training points after one fit.",
 [MB,MU],[("accumulated co-clustering counts",MB+":_save_params, gibbs_eap_affinity_matrix"),("mixture evaluation",MU+":mixture_density, cluster")],
 [("affinity_matrix / total_saved_steps","running co-clustering sum",MB)],["gibbs_eap_density, gibbs_map_density, gibbs_eap_affinity_matrix, gibbs_map_cluster"])
p("C16","A fit that did not complete never passes for a fitted model",
 "Before a first successful fit by a method, every query of that method is refused with the library's not-fitted error. When a cold fit fails or is interrupted at any instant, each later query of that method is either refused the same way or answered exactly as before that fit began; it never mixes old and new data or reports convergence of an earlier fit. A variational fit reports convergence only if its last run met the tolerance within the iteration limit with finite parameters, and a fit by one method never changes the other method's answers (except a cold Gibbs fit that starts from a variational one).",
 ["crash_points","fault_sequences","histories"],"all mixture models, both methods, invalid inputs, failing calls and interruptions at every instruction of a fit, after any earlier history",
 "No test makes a failing or interrupted fit or queries an unfitted model.",
 [MB,"pyrichlet/exceptions.py"],[("fitted flags",MB+":fit_gibbs, fit_variational"),("guards",MB+":gibbs_*, var_*")],
 [("gibbs_fitted, var_fitted, var_converged","fitted flags",MB)],["all query methods, var_converged"])
p("C17","The Gibbs sampler leaves the model's joint law invariant",
 "Alternating one Gibbs step given the data with drawing new data given the sampled components and labels leaves the joint law of weights, labels, components and data equal to the prior model: label-sharing probabilities, group counts, component means, variances and data moments keep their prior values, however the chain is cut into warm-started pieces. Components a chain uses for the first time are independent draws from the component prior.",
 ["schedules","histories","configurations"],"mixture models whose weight posterior is sampled exactly or by an invariant chain, all prior settings, sample sizes and dimensions, all cuts into warm starts",
 "Tests check a point estimate on two far-apart clusters to one decimal, which many wrong samplers satisfy.",
 [MB,MU]+ALLW,[("atom update from normal-inverse-Wishart posterior",MU+":posterior_norm_invw_params, random_normal_invw"),("slice weight update",MB+":_update_weights"),("label update",MB+":_update_d, "+MU+":gumbel_max_sampling")],(),["fit_gibbs(warm_start=True), get_sim_params"])
p("C18","Observations are taken by value, whatever container carries them",
 "A fit uses the numbers its argument held when it was called and gives the same result for the same numbers in a list, array, series or data frame. It never modifies the caller's object, nor the caller's prior parameters, and a caller changing those objects at any moment afterwards — during sampling from another thread or between queries — changes neither the chain nor any answer.",
 ["schedules","histories","inputs"],"all mixture models, containers, dtypes and memory layouts, all instants during and after a fit at which the caller mutates the object",
 "Tests pass one array and never touch it again.",
 [MB],[("defensive copy and cast",MB+":_initialize_common_params, _cast_observations")],
 [("y","fitted observations",MB)],["fit_gibbs, fit_variational, queries with y=None"])
p("C19","A variational fit is internally coherent",
 "After any completed variational fit with finite result the assignment probabilities of every observation are positive and sum to one; the expected density is a non-negative function whose integral over the data space equals the total expected weight of its components, in any dimension; the components' sum equals the whole; the affinity of new points is consistent with their assignment probabilities, and the clustering picks for each point its most probable component and reports the complement of that probability. Component parameters are the conjugate update of the prior with the assignment probabilities, marginal densities over chosen coordinates are the integrals over the others, and assignment probabilities of new points are proportional to the exponential of expected log weight plus expected log density, so that with a single group the expected density is the exact posterior predictive. This holds after every history and however the fit is cut into pieces.",
 ["histories","inputs","fault_sequences"],"the six mixture models with variational support, data of several dimensions, duplicated points, more components than clusters, all initialisations, fits after any history",
 "Tests evaluate a one-dimensional density at training points to one decimal.",
 [MB,MU,"pyrichlet/utils/functions.py"]+VARW,[("coordinate ascent",MB+":_maximize_variational"),("Student-t predictive",MB+":var_eap_density, pyrichlet/utils/functions.py:density_students_t"),("responsibilities",MB+":_update_var_d, var_map_cluster, var_eap_affinity_matrix")],
 [("var_d, var_theta","variational parameters",MB)],["var_eap_density, var_map_density, var_map_cluster, var_eap_affinity_matrix"])
p("C20","Bundled data sets load completely or not at all",
 "Loading a bundled data set returns every complete record of the shipped file, features and labels aligned row by row, however the underlying reads are split, delayed or retried; when a read fails the call raises instead of returning part of the data. Every call returns fresh objects: changing one result never affects another, also when several threads load at once.",
 ["fault_sequences","schedules","histories"],"both loaders, all splittings of the file into short reads, transient and permanent read errors at any offset, all interleavings of several loads",
 "No test loads a data set.",
 ["pyrichlet/utils/_loaders.py","pyrichlet/utils/_data/penguins.csv","pyrichlet/utils/_data/chaetocnema.csv"],[("column selection and row filtering","pyrichlet/utils/_loaders.py")],(),["load_penguins, load_chaetocnema"])
p("C21","Progress reporting never influences the sampling",
 "Showing progress, with any clock behaviour (stalls, jumps forwards or backwards) and any splitting or delay of the terminal output, leaves draws, flags and answers identical to the same fit without it and performs exactly the configured number of iterations; with progress off nothing is written. If writing progress fails, the fit raises or carries on, and a later cold fit still equals that of a new model.",
 ["fault_sequences","schedules","configurations"],"both inference methods, all mixture models, all clock traces, all output failures at any write",
 "No test enables progress output.",
 [MB],[("iterators wrapped only for display",MB+":fit_gibbs, fit_variational")],
 [("show_progress","display flag",MB)],["fit_gibbs, fit_variational with show_progress"])
p("C22","Density formulas match the normal and Student-t laws at fixed parameters",
 "For fixed given parameters the normal mixture density, its marginals over selected coordinates and the Student-t and normal precision-parameterised densities equal their textbook formulas at every point.",
 ["inputs"],"all points and all parameter values","Tests sample one data set with identity-like parameters in one dimension.",
 [MU,"pyrichlet/utils/functions.py"],[("closed-form evaluation",MU+":mixture_density")],(),["mixture_density, density_students_t, density_normal"])
p("C23","The pair plot draws the MAP clustering it is asked to draw",
 "The pair plot shows, for each pair of features, the fitted observations coloured by their MAP cluster, the MAP density on the diagonal and one ellipse per occupied component, for every dimension and number of groups.",
 ["inputs"],"all fitted models","No test plots.",
 [MB],[("plotting",MB+":gibbs_map_pairplot")],(),["matplotlib figure"])
p("C24","A mixture class is the composition it was built to be",
 "A mixture built by any of the ten mixture classes draws weights exactly like the weight model of its name built from the same weighting arguments and the same generator or seed, reports and uses the iteration counts and component priors it was given (in any documented form: number, list or array), and takes the documented default for every omitted argument: those of the weight model, and for component priors the mean, the covariance and the dimension of the observations fitted. It behaves exactly as if built alone with every argument given explicitly, whatever other models are built, fitted, queried or fail to be built before or in between, also when several models share one generator.",
 ["histories","configurations","fault_sequences"],"all ten mixture classes, all subsets and forms of their arguments, any number of other models and failing constructions interleaved, shared and separate generators",
 "Tests build each class with one fixed set of arguments and compare a density to one decimal place; a dropped, swapped or shared argument passes.",
 MIX+ALLW,[("arguments forwarded to the weight model and the base class","pyrichlet/mixture_models/_*_mixture.py"),("default component priors",MB+":_initialize_common_params")],
 [("weight_model, mu_prior, lambda_prior, psi_prior, nu_prior, total_iter, burn_in, subsample_steps","settings",MB)],["constructors, fit_gibbs, fit_variational, weight_model"])
p("C25","Variational modal weights and MAP density sit at the mode of the fit",
 "After any variational fit the modal weight a weight model reports for each group is made of the modes of the Beta laws that the fit gives it (of the group's own weight for the Dirichlet model, of the sticks for the Dirichlet and Pitman-Yor processes, of the success probability for the geometric process; the equal and observed frequencies for the other two): non-negative, summing to at most one, zero beyond the last group, dependent on the last fit only, or refused with ValueError where some mode is not unique. The variational MAP density is the sum of these weights times the normal densities at the joint mode of each component's mean and precision, for any coordinates, component or points.",
 ["histories","inputs","fault_sequences"],"the six models with variational support and their mixtures, all parameters, all assignment probabilities, all earlier histories of fits, draws, failures and interruptions",
 "No test looks at a modal weight; the MAP density is compared to one decimal place for one well separated fit.",
 VARW+[MB,MU],[("modes of q(w)","pyrichlet/weight_models/*.variational_mode_w_j"),("plug-in density",MB+":var_map_density")],(),["variational_mode_w_j, var_map_density"])
p("C26","A request outside its domain is refused and leaves no trace",
 "A request outside its documented domain is refused with an exception at every point of every history: to a weight model, a level outside [0, 1), a size that is not an integer (complete; random where it is documented), a draw with neither labels nor size, a draw given labels beyond the dimension of a Dirichlet distribution, a variational quantity before any variational fit, assignment probabilities of another dimension than the Dirichlet distribution's, an unknown update method or generator, a concentration not above minus the discount; to a mixture, observations or query points that are no numeric table, an unknown initialization method, a variational fit without a number of groups where none is known, any query of a method that has not been fitted, iterations not exceeding the burn-in. A refused request to a weight model, and refused observations or query points, leave everything as it was: every later draw, fit and answer, and the random numbers used, are those of a model that never got the request.",
 ["histories","inputs","fault_sequences"],"all weight models and mixture classes, all earlier and later histories of fits, draws and queries, interrupted or failing calls in between",
 "No test makes an invalid request.",
 ALLW+MIX+[MB],[("level and size checks",WB+":tail, complete"),("labels checked against the dimension",W("dirichlet_distribution")+":random"),("observations parsed before anything is replaced",MB+":_parse_observations, fit_gibbs, fit_variational"),("iterations checked",MB+":__init__")],
 [],["tail, complete, random, variational_*, constructors, fit_gibbs, fit_variational, queries"])
with open("/verif/properties.jsonl","w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
print(len(P))
