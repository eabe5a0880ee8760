"""Writes properties.jsonl and MANIFEST.json (run from /verif)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe='public API', state=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': [observe], 'hook_needed': None}
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})

prop('C01', 'The most recent constraint governs each parameter',
 "After any sequence of adding, replacing, removing and copying constraints on a parameter set, measurement or prior, every parameter is governed by exactly the most recent constraint put on it (and by its own component of a correlated one), and a removed or never-constrained parameter by none. Central values, lists of parameters, random draws (jointly for correlated parameters), one-dimensional errors, and single and total log-probabilities - with any subset excluded, absolute or relative to the best point - all reflect exactly that. A copy and its original do not influence each other.",
 ['histories', 'inputs'], 'all histories of add/set/remove/copy on containers of all kinds, uni- and multivariate distributions, all exclusions',
 'The tests build one or two fixed containers and check one override; interactions of partial overrides, removals, orderings and exclusions over long histories are not sampled.',
 ['flavio/classes.py'], [('Constraints.add_constraint/remove_constraint/copy', 'flavio/classes.py'), ('Constraints.get_logprobability_all, get_random_all, get_1d_errors_*', 'flavio/classes.py')])

prop('C02', 'Densities, cumulatives, errors and marginals of distributions agree',
 "For every kind of probability distribution and all valid arguments, the log-density, density, cumulative, percentile function, central value, left and right errors, support and random draws describe one and the same distribution: the density integrates to the differences of the cumulative, percentiles invert the cumulative, the relative log-density vanishes at the central value, draws follow the cumulative, and limit-type distributions put the stated confidence below the limit. For a multivariate normal distribution, excluding or reducing components gives exactly the marginal over the remaining components in their original order; a numerically defined multivariate distribution is profiled over the excluded components. Numerically defined distributions obey all this up to the resolution of their grid.",
 ['inputs', 'configurations'], 'all distribution classes, all valid arguments and evaluation points, all subsets of excluded components',
 'Tests compare a handful of fixed numbers per class; agreement between the different views for all arguments (signs, extreme skewness, shifted supports, component subsets) is not covered.',
 ['flavio/statistics/probability.py', 'flavio/statistics/functions.py', 'flavio/math/functions.py'], [('ProbabilityDistribution subclasses', 'flavio/statistics/probability.py'), ('confidence_level', 'flavio/statistics/functions.py')])

prop('C03', 'Convolving and combining constraints follows Gaussian error algebra',
 "Convolving uncertainties of one quantity keeps the central value and adds normal variances in quadrature (delta uncertainties add nothing, component-wise for correlated vectors), and combining independent measurements of one quantity yields the inverse-variance weighted mean and variance, whatever the order, number and grouping of the inputs; for numerical distributions the result is the normalised convolution or product of the densities. The inputs themselves are left unchanged.",
 ['inputs', 'programs'], 'all finite collections of uni- and multivariate distributions, all orders and groupings, all central values',
 'Tests convolve and combine two or three fixed distributions; order independence, many inputs and mixed kinds are not sampled.',
 ['flavio/statistics/probability.py'], [('convolve_distributions', 'flavio/statistics/probability.py'), ('combine_distributions', 'flavio/statistics/probability.py')])

prop('C04', 'A constraint string means exactly the central value and errors written',
 "Every constraint string in the documented notation - optional signs, parenthesised digit errors, plus-minus errors, asymmetric errors, several errors in a row, powers of ten, surrounding parentheses, ranges, upper limits, multiplicative errors, spaces and Unicode minus signs - is read as exactly the central value and the list of uncertainties it states: each symmetric error a normal, each asymmetric error an asymmetric normal distribution, and a number without error a fixed value. A string that is not in the notation is rejected with an error instead of being read as something else. The errors extracted from a string or from constraints, and constraints written as dictionaries (with numbers or numeric strings), equal the ones stated, also once applied to a parameter.",
 ['inputs'], 'all strings generated by the notation, and near-misses',
 'Tests parse about a dozen literal strings; the notation generates unboundedly many combinations of signs, exponents, digit counts and error kinds.',
 ['flavio/_parse_errors.py'], [('constraints_from_string, errors_from_string', 'flavio/_parse_errors.py'), ('dict2dist', 'flavio/statistics/probability.py')])

prop('C05', 'Saving and reloading constraints preserves them exactly',
 "Dumping any parameter set or measurement to its dictionary, YAML text or file form and reading it back yields a container that constrains the same parameters or observables with the same central values, errors and log-probabilities, and keeps measurement metadata; nothing that was removed or replaced reappears. Dumping does not change the dumped container, and a second dump is identical to the first.",
 ['histories', 'inputs'], 'all containers reachable by any history of additions and removals with any distribution kinds; all dump forms',
 'Tests round-trip one small measurement and one parameter set with fresh containers only.',
 ['flavio/classes.py', 'flavio/measurements.py', 'flavio/parameters.py', 'flavio/statistics/probability.py'], [('get_yaml_dict/from_yaml_dict', 'flavio/classes.py'), ('write_file/read_file', 'flavio/measurements.py, flavio/parameters.py'), ('ProbabilityDistribution.get_dict', 'flavio/statistics/probability.py')])

prop('C06', 'Every way of writing an input file means the same constraints',
 "Measurement and parameter input files give exactly the stated constraints whichever accepted layout is used: values as strings, numbers, lists or dictionaries, observables with arguments as lists or dictionaries, correlations as a full matrix, a triangular matrix or a single number, several error components. Each observable gets its own central value and total error, correlated observables the stated correlations in the stated order, metadata goes to its measurement only, and one entry never influences another.",
 ['inputs'], 'all files in the accepted layouts: number of entries, errors, correlation forms, argument forms and metadata',
 'Tests read a few hand-written entries; combinations of layouts, orders and sizes are not sampled.',
 ['flavio/measurements.py', 'flavio/parameters.py'], [('_load, _load_new, _fix_correlation_matrix', 'flavio/measurements.py'), ('_read_yaml_object_values*', 'flavio/parameters.py')])

prop('C07', 'A likelihood counts each selected measured observable exactly once',
 "A measurement likelihood is the sum, over exactly the currently defined measurements selected by its include/exclude lists, of the log-probability of those of its own observables they measure (minus explicitly excluded ones), with observables outside the likelihood marginalised away; pseudo-measurements take part only on request. The reported number of observations counts exactly these measured observables, the total likelihood adds the prior of exactly the fit parameters, and an observable no selected measurement constrains is refused at construction.",
 ['histories', 'configurations', 'inputs'], 'all registries of measurements, observable lists, include/exclude/pseudo settings, exclusions and absolute/relative evaluation',
 'Tests use a single toy likelihood with one or two measurements; selection combinations and later changes of the measurement registry are not covered.',
 ['flavio/statistics/likelihood.py', 'flavio/classes.py'], [('MeasurementLikelihood.get_measurements/log_likelihood_pred/get_number_observations', 'flavio/statistics/likelihood.py'), ('ParameterLikelihood, Likelihood', 'flavio/statistics/likelihood.py')])

prop('C08', 'Likelihoods and predictions never use stale values',
 "Every evaluation of a prediction or a likelihood equals what a fresh evaluation of the current arguments would give, whatever was evaluated before with the same objects: previous parameter values (including sign flips and values differing arbitrarily little), previous or re-initialised Wilson-coefficient objects, changed options of those objects, temporary objects, and changes of the measurements in between.",
 ['histories', 'inputs'], 'all histories of evaluations alternating parameter points, Wilson-coefficient objects (flavio and wilson ones) and options on shared likelihood and coefficient objects',
 'Caching errors need a particular order of at least two to four evaluations with particular values; tests evaluate once or twice.',
 ['flavio/statistics/likelihood.py', 'flavio/physics/eft.py', 'flavio/classes.py'], [('MeasurementLikelihood.get_predictions_par cache', 'flavio/statistics/likelihood.py'), ('WilsonCoefficients.from_wilson shared cache and options', 'flavio/physics/eft.py')])

prop('C09', 'Fast likelihoods add experimental and theory covariances aligned',
 "The Gaussian likelihood built by the fast method has, for every ordering and number of observables, the weighted mean and combined covariance of exactly the selected measurements plus the covariance of the standard-model predictions, each entry belonging to its own observable pair. Covariances saved and loaded again, also with other orderings or additional observables in the file, give the same likelihood; cached covariances are reused unless recomputation is requested; the constructed pseudo-measurement never enters another likelihood.",
 ['configurations', 'histories', 'inputs'], 'all observable orders/subsets, numbers of measurements, save/load/force histories',
 'Tests build two fixed likelihoods; permutations, single-observable cases, reloads and reuse histories are not sampled.',
 ['flavio/statistics/likelihood.py'], [('SMCovariance, MeasurementCovariance load_dict/get', 'flavio/statistics/likelihood.py'), ('FastLikelihood.make_measurement', 'flavio/statistics/likelihood.py')])

prop('C10', 'Citations are complete, scoped and independent of history',
 "The set of papers reported for a prediction depends only on the observable and its arguments, never on what was computed before, and equals the set collected when the same prediction runs in a fresh session. Collecting in nested scopes attributes each registration to the innermost open scope only and restores the outer scope on exit, also after errors; clearing empties a collection, resetting restores its initial entries, registering is idempotent and unknown keys are refused.",
 ['histories', 'inputs', 'fault_sequences'], 'all histories of predictions, nested scopes, register/clear/reset and exceptions; all observables',
 'Caches make the defect depend on earlier computations; tests query a single observable in a fresh process.',
 ['flavio/citations.py', 'flavio/classes.py', 'flavio/physics'], [('Citations, CitationScope', 'flavio/citations.py'), ('Observable.theory_citations', 'flavio/classes.py'), ('lru_cache functions that register', 'flavio/physics/bdecays/matrixelements.py, flavio/physics/running/masses.py')])

prop('C11', 'Predictions are pure functions of parameters, coefficients and arguments',
 "Every prediction gives bit-for-bit the same result for the same parameter values, Wilson coefficients, observable arguments and configuration, independently of the order of evaluation and of everything evaluated or switched in between, and it never alters the parameter values, coefficient object or default parameter set it is given. Switching a configurable implementation takes effect immediately and switching back restores the original results.",
 ['histories', 'configurations', 'inputs'], 'all observables, evaluation orders, interleaved parameter points, new-physics points and implementation switches',
 'Each test evaluates its own observable in a fixed order with default settings; cross-talk via caches or shared dictionaries needs particular orders.',
 ['flavio/physics', 'flavio/classes.py', 'flavio/config.py'], [('lru_cached functions', 'flavio/physics'), ('AuxiliaryQuantity.get_implementation', 'flavio/classes.py'), ('conjugate_par and other parameter transformations', 'flavio/physics/common.py')])

prop('C12', 'Wilson coefficients mean new physics only',
 "With all Wilson coefficients zero, unset or absent every prediction equals the standard-model one; coefficients read back at the scale, theory and basis where they were set are the values set with all others of the sector zero, old and new sector names give the same values, and re-initialising an object forgets its previous content. Handing a coefficient object to a prediction does not change its coefficients, and flavio's own and the plain wilson object give the same prediction for the same point and parameters.",
 ['inputs', 'histories'], 'all observables, sectors, coefficient points and (re)initialisation histories',
 'Tests check a few sectors and observables at fixed points.',
 ['flavio/physics/eft.py', 'flavio/functions.py'], [('WilsonCoefficients', 'flavio/physics/eft.py'), ('np_prediction, sm_prediction', 'flavio/functions.py')])

prop('C13', 'Reported dependencies of a prediction are sound',
 "A parameter that is not reported as one the prediction of an observable depends on never changes that prediction when varied, and every reported name is a defined parameter; Wilson coefficients of sectors not reported as dependencies never change the prediction. Asking for dependencies has no side effects and does not depend on what was computed before.",
 ['inputs', 'histories'], 'all observables, all parameters and sectors, arbitrary variations, warm and cold caches',
 'Tests look at two observables and check for a few names only.',
 ['flavio/functions.py'], [('get_dependent_parameters_sm, AwareDict', 'flavio/functions.py'), ('get_dependent_wcs, AwareWilson', 'flavio/functions.py')])

prop('C14', 'Theory uncertainties sample exactly the requested variations',
 "Theory uncertainties, covariances and error budgets are the standard deviations and covariances of the predictions over random parameter points in which exactly the requested parameters vary (jointly when correlated) and all others sit at their central values, in the order of the given observables and from the given parameter set. Parallel and serial evaluation with the same random numbers agree, and observable arguments given positionally, by keyword or in tuples mean the same.",
 ['configurations', 'schedules', 'inputs'], 'all observable lists, parameter subsets, parameter sets, numbers of samples and threads',
 'Tests check one observable with loose statistical tolerance and do not check which parameters varied.',
 ['flavio/functions.py'], [('np_uncertainty, sm_uncertainty', 'flavio/functions.py'), ('sm_covariance', 'flavio/functions.py'), ('sm_error_budget', 'flavio/functions.py')])

prop('C15', 'Named objects and observable descriptions behave as a consistent registry',
 "For each class of named objects, after any sequence of creations, redefinitions, deletions and clearings, looking up a name yields the latest live object of that class (or an error), searching lists exactly the live names matching the pattern in definition order, and classes do not see each other's objects. Observable descriptions convert between tuple, list and dictionary form without loss for any argument order and reject wrong arguments; derived observables apply their function to the listed observables in order; measurement look-up lists exactly the live measurements constraining the observable; categories list it wherever it was filed.",
 ['histories', 'inputs'], 'all histories of registry operations and all observable/argument forms',
 'Tests create one or two objects; histories with redefinition, deletion and clearing are not sampled.',
 ['flavio/classes.py'], [('NamedInstanceClass', 'flavio/classes.py'), ('Observable.argument_format/from_function/get_measurements/taxonomy', 'flavio/classes.py')])

prop('C16', 'Reloading default parameters restores the pristine parameter set',
 "Reading the default parameters resets a parameter set to one and the same content whatever was done to it before, and the result does not depend on how often or in which order parameter sources are read. Loading a form-factor or PDG source on top changes exactly that source's parameters, to exactly the stated values, errors and correlations, and leaves every other parameter and every other parameter set untouched.",
 ['histories', 'configurations'], 'all histories of modifications, source loads and resets of several parameter sets',
 'Tests read defaults once.',
 ['flavio/classes.py', 'flavio/parameters.py', 'flavio/physics/bdecays/formfactors'], [('ParameterConstraints.read_default', 'flavio/classes.py'), ('read_pdg, _read_yaml_object_*', 'flavio/parameters.py'), ('bsz_load, load_ffs, lattice_load', 'flavio/physics/bdecays/formfactors')])

prop('C17', 'Robust optimisation returns an honest and best-effort result',
 "The robust minimiser and maximiser return a point and a function value that belong together, never worse than the starting point when they report success, try the requested methods in order for the requested number of tries, start each new try from the improved end point of an unsuccessful one, stop at the first success, pass extra arguments through, and leave the starting point unmodified. Maximising a function is the same as minimising its negative.",
 ['inputs', 'fault_sequences'], 'all sequences of method outcomes (success/failure, improved/not improved), numbers of tries and methods',
 'Tests run one easy function where the first method succeeds.',
 ['flavio/math/optimize.py'], [('minimize_robust, maximize_robust, minimize_migrad', 'flavio/math/optimize.py')])

prop('C18', 'Likelihood definitions survive dumping, loading and including files',
 "Dumping a likelihood definition of any kind and loading the text reproduces the same observables (in order), parameters, measurement selection and modified parameter constraints, and therefore the same log-likelihood. File inclusion in YAML resolves relative names against the including file at any nesting depth, merges included lists in order with inline entries kept, and is equivalent to writing the content in place.",
 ['inputs', 'configurations'], 'all likelihood definitions and all include trees',
 'Tests dump one instance per class and include one file.',
 ['flavio/io/instanceio.py', 'flavio/io/yaml.py', 'flavio/statistics/likelihood.py'], [('YAMLLoadable load/dump', 'flavio/io/instanceio.py'), ('SafeIncludeLoader', 'flavio/io/yaml.py')])

prop('C19', 'Related observables satisfy their defining relations',
 "At every parameter and new-physics point the observables that are defined through one another agree: binned rates are additive over adjacent bins and approach the differential rate for narrow bins, lepton-flavour ratios are quotients of the corresponding rates, averages over lepton or B-meson species lie between their members, rates are not negative, CP-averaged and CP-asymmetric angular observables follow from each other when the CP-conjugate is taken, and binned normalised observables lie within the range of their unbinned values.",
 ['inputs'], 'all observables of the families, all bins, all parameter and Wilson-coefficient points',
 'Tests compare single observables with reference numbers at the default point.',
 ['flavio/physics'], [('bin-integrated observables and ratios', 'flavio/physics/bdecays')])

prop('C20', 'The CKM matrix is unitary and running couplings compose',
 "For all physical inputs the CKM matrix in every parametrisation is unitary, reproduces its input magnitudes and phase, and derived CKM angles and combinations follow from its elements, summing to the unitarity relations. Evolving running couplings and masses between scales is the identity for equal scales, composes through intermediate scales, is inverted by running back and decreases monotonically where asymptotic freedom demands it, independent of earlier calls.",
 ['inputs', 'histories'], 'all physical inputs and parametrisations, all scales and intermediate scales',
 'Tests use one default input and a few scales.',
 ['flavio/physics/ckm.py', 'flavio/physics/running'], [('get_ckm and implementations', 'flavio/physics/ckm.py'), ('get_alpha, get_mq, rg_evolve_sm', 'flavio/physics/running/running.py')])

prop('C21', 'Plot data correspond to the function and measurements plotted',
 "The data computed for likelihood contours, density plots and one-dimensional plots are the values of the given function at exactly the stated grid points with the stated orientation, for any ranges, step numbers and numbers of threads, relative to the best value; smoothing keeps the grid, contour levels are the confidence levels of the stated numbers of sigmas and dimensions. Data points drawn for binned or differential observables carry the bin, central value and errors of their own measurement.",
 ['inputs', 'schedules'], 'all functions, ranges, steps, thread numbers and measurement sets',
 'Tests only check that plotting functions run.',
 ['flavio/plots/plotfunctions.py', 'flavio/statistics/functions.py'], [('likelihood_contour_data, density_contour_data, ...', 'flavio/plots/plotfunctions.py'), ('delta_chi2, pull', 'flavio/statistics/functions.py')])

prop('C22', 'Combining measurements of an observable uses exactly the right ones',
 "Combining the measurements of an observable uses every currently defined measurement of that observable with exactly those arguments, restricted to the requested names and never a pseudo-measurement, each contributing its own one-dimensional marginal exactly once, whatever the order in which measurements were defined; it fails with an error if there is none. The result agrees with the combination of the individual marginals.",
 ['histories', 'configurations'], 'all measurement registries (uni-/multivariate, several argument values, removals) and include lists',
 'Tests combine two fixed measurements.',
 ['flavio/functions.py', 'flavio/statistics/probability.py'], [('combine_measurements', 'flavio/functions.py')])

if __name__ == '__main__':
    with open('properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    import mkmanifest
    mkmanifest.write(P)
