PROPS = []


def P(id, title, statement, over, text, why, files, mech, na=None, technique=None, note=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                      anchors=a, na=na, technique=technique, level_note=note))


ENGINE = ('Abstract interpretation of the current sources over every public entry point; trusts the models of numpy, scipy, pandas '
          'and wrapt in sa/ext.py and assumes arguments of the documented kinds. ')

P('P01', 'Data handed in by the caller is never modified',
  'No array, DataFrame, Series, list, dictionary or parameter object passed to a public function, constructor, method or parameter '
  'setter of the package is modified by that call or by any later operation on the object it was given to: the caller sees the '
  'same contents before and after.',
  ['inputs', 'histories'], 'every public callable, every documented kind of argument, and every later call on an object that kept '
  'a reference to it',
  'Whether a write reaches the caller depends on dtype, memory layout, container type and on aliases kept across calls; tests compare '
  'results, rarely the inputs afterwards.',
  ['copulae/'], [('defensive copies in the maps over arrays', 'copulae/special/_specfunc.pyx'),
                 ('option merging', 'copulae/copula/estimator/estimator.py'),
                 ('parameter setters', 'copulae/elliptical/*.py, copulae/mixtures/gmc/parameter.py')],
  technique='ownership/alias dataflow over an abstract interpretation of all entry points',
  note=ENGINE + 'Every in-place effect whose target may alias a caller region is reported. Fitting the inner copula a MarginalCopula was built '
  'with is by design and outside the property.')


P('P02', 'Queries never change the object they are asked on',
  'Calling any query of a copula, parameter object or summary (pdf, cdf, random, log_lik, tau, rho, lambda_, itau, irho, drho, dtau, psi, '
  'ipsi, A, summary, to_marginals, str/repr, every property getter ...) leaves the object as it was: parameters, dimension, stored data, '
  'column labels, bounds and fit results are the same before and after, whether the call returns or raises. Only fit, the parameter '
  'setters and item assignment change an object.',
  ['inputs', 'histories'], 'every query on every object state reachable through construction, fitting and parameter updates, for every argument',
  'A query that caches, clips, sorts or relabels its own state corrupts only later calls, and only in particular call orders; tests query '
  'each object once or twice.',
  ['copulae/'], [('stored state behind the queries', 'copulae/copula/base.py, copulae/elliptical/abstract.py, copulae/empirical/distribution.py, '
                  'copulae/mixtures/gmc/gmc.py, copulae/marginal/__init__.py')],
  technique='effect analysis (attribute writes and in-place mutation) over an abstract interpretation of all queries from all reachable abstract states',
  note=ENGINE + 'Attributes created by a query for the first time (a cache under a new name) are allowed; attributes that existed must keep their value.')

P('P03', 'A seed fully determines every random draw, and no seed means none is set',
  'Every public function with a seed (or random_state) argument, called with a seed - 0 included - takes all its random draws from generators '
  'seeded by that argument before the first draw, so equal calls give equal results. Called without a seed it draws from numpy\'s global '
  'generator and does not reseed it, so np.random.seed called beforehand by the user makes the results reproducible.',
  ['inputs', 'histories'], 'every seed value including 0 and None, every path through every callable that draws random numbers',
  'A draw taken before seeding, a falsy test on the seed, or a branch that falls back to entropy shows only for particular seeds, families or '
  'dimensions.',
  ['copulae/'], [('random()', 'copulae/archimedean/*.py, copulae/elliptical/*.py, copulae/indep/indep.py, copulae/empirical/distribution.py, copulae/marginal/__init__.py, '
                  'copulae/mixtures/gmc/*.py'), ('seeded resampling tests', 'copulae/gof/*.py'), ('multivariate samplers', 'copulae/stats/')],
  technique='dataflow (provenance) of the seed argument and typestate of the generators',
  note=ENGINE + 'Decides where the random numbers come from, not their distribution.')

P('P04', 'No ambient side effects',
  'Importing copulae or calling any of its public functions and methods leaves process-wide state alone: warning filters, numpy error and print '
  'settings, pandas options, environment variables, random generator seeds nobody asked to set, other libraries\' attributes, and the '
  'package\'s own module-level tables and class attributes. Objects of the same class therefore never influence each other.',
  ['inputs', 'histories'], 'module loading and every call of every public callable, on normal and exceptional exits',
  'Leaks of process state affect unrelated code later in the process, which no test of the function itself observes.',
  ['copulae/'], [('module-level tables and class attributes', 'copulae/'), ('gof tests', 'copulae/gof/')],
  technique='effect analysis against an ambient-state escape list',
  note=ENGINE + 'Scoped changes (with np.errstate, warnings.catch_warnings) are allowed.')

P('P05', 'Nothing is printed unless asked for',
  'Importing the package or calling any public function or method prints, logs or writes nothing to the standard streams when it has no verbose '
  'argument, or when verbose=0; in particular fit(data, verbose=0) is silent for every copula, method and data type, and the optimiser is not '
  'asked to display progress.',
  ['inputs', 'configuration'], 'every public callable, every documented argument kind and option, with verbose=0 where it exists',
  'Tests do not look at standard output.',
  ['copulae/'], [('verbosity gates', 'copulae/copula/base.py, copulae/copula/estimator/, copulae/mixtures/gmc/estimators/, copulae/gof/')],
  technique='effect analysis (reachability of output statements under verbose=0)',
  note=ENGINE)

P('P06', 'Integer input is not truncated',
  'Passing integer arrays, lists or numbers where real data are expected never rounds an intermediate or final result: no real-valued result is '
  'stored into an array whose element type was inherited from the caller\'s data, neither in the call itself nor in a later update of an object '
  'built from integer data.',
  ['inputs'], 'every public callable with arguments of unknown (possibly integer) element type',
  'Tests pass floats; with integers numpy rounds silently instead of failing.',
  ['copulae/'], [('result buffers and in-place updates', 'copulae/special/, copulae/core/, copulae/marginal/__init__.py, copulae/elliptical/abstract.py')],
  technique='dtype provenance dataflow', note=ENGINE)

P('P10', 'Documented calls never end in an accidental internal error',
  'A call of a public method, property or function with arguments of the documented kinds never ends in an internal error of the library itself: '
  'using an attribute or item of None, reading an attribute or name that does not exist, calling something with a wrong signature or that is not '
  'callable, a missing dictionary key or an index beyond a known length, an operator on operands that do not support it, numpy-style indexing of a '
  'DataFrame. Either it returns, or it raises an error chosen by the library for that situation. No public method is left with such an error as its only outcome.',
  ['inputs', 'configuration', 'histories'], 'every public callable, every documented argument kind and option, on fresh, fitted and re-parameterised objects, in dimensions 2 and 3',
  'Option combinations, argument kinds and object states multiply; tests exercise few of the paths, and Python finds such errors only when a path runs.',
  ['copulae/'], [('all public methods and functions', 'copulae/')],
  technique='whole-program type and typestate inference over an abstract interpretation of all entry points',
  note=ENGINE + 'Reported only where every alternative of a value leads to the error. One known finding: StudentCopula.irho.')

P('P11', 'Results are results, never placeholders',
  'No public method, property or function hands back a placeholder in place of a result: the NotImplemented object or an exception class returned instead '
  'of raised, or None because one branch of a function that otherwise returns a value falls off its end. Something that is not available raises.',
  ['inputs', 'configuration'], 'every return of every function reached from the public interface, for every documented option and argument kind',
  'The forgotten branch is by nature the one no test takes; None and NotImplemented travel on silently (both are accepted by comparisons and containers).',
  ['copulae/'], [('correlation functions', 'copulae/*/'), ('option dispatch', 'copulae/core/, copulae/gof/, copulae/copula/estimator/')],
  technique='return-value dataflow over an abstract interpretation of all entry points',
  note=ENGINE + 'The bounds of MarginalCopula and GaussianMixtureCopula, documented as not meaningful, are exempt.')

P('P07', 'No argument of a call is silently ignored',
  'Every argument a caller passes to a public method, function or parameter setter has an influence on what the call does. In particular fit honours the '
  'caller\'s choices: with method "ml" the optimiser is run from the given x0, scale scales its objective, and every entry of optim_options (method, options, '
  'tol, bounds, constraints) reaches scipy\'s optimiser and replaces the default of that name, whichever solver is chosen; "itau" and "irho" invert the '
  'dependence measure of that name and run no optimiser; ties decides how the data are ranked and to_pobs whether they are; GaussianMixtureCopula.fit honours '
  'max_iter, criteria and eps for the methods they are documented for. (verbose is not covered; IndepCopula and EmpiricalCopula have nothing to fit.)',
  ['inputs', 'configuration'], 'every argument of every public callable, every fit method and every solver with its own defaults',
  'A dropped option still gives a plausible result; a test would have to know the result for every combination of options to notice.',
  ['copulae/'], [('option plumbing of fit', 'copulae/copula/base.py, copulae/copula/estimator/, copulae/elliptical/student.py, copulae/marginal/marginal.py, copulae/mixtures/gmc/'),
                 ('ties', 'copulae/core/misc.py, copulae/gof/')],
  technique='information-flow (taint) analysis from every argument to named sinks',
  note=ENGINE + 'An argument counts as honoured if it reaches a result, a state, a library call or a decision on some path; for fit the sink is named.')

P('P13', 'All copulas share one interface, by position and by keyword',
  'Every public member that a copula class defines and that BaseCopula, AbstractArchimedeanCopula or CopulaCorrProtocol declares is of the declared kind (property, '
  'method, static method) and can be called as declared: the same parameters under the same names, in the same positions, with the same defaults; '
  'anything further is optional. A call with its arguments given by keyword behaves exactly as the same call with its arguments given by position. '
  '(GaussianMixtureCopula.fit has its own methods and lacks to_pobs and scale.)',
  ['inputs', 'configuration'], 'every public member of every copula class, every documented kind of first argument',
  'Each family is tested on its own, with positional arguments; code that is generic over copulas, or that uses keywords, goes through wrappers in another way.',
  ['copulae/'], [('declared interface', 'copulae/copula/base.py, copulae/archimedean/abstract.py'), ('argument decorators', 'copulae/utility/annotations/')],
  technique='interface conformance over the resolved class hierarchy, and comparison of the abstract outcomes of positional and keyword calls',
  note=ENGINE + 'One known finding: the parameter order of MarginalCopula.fit.')

P('P08', 'Columns are matched by label, and labels come back',
  'A copula fitted to a DataFrame (EmpiricalCopula: constructed from one) remembers its column labels. cdf, pdf and log_lik called with another DataFrame take its '
  'columns by those labels, in whatever order they come (a Series with the same labels likewise), never by position; random() returns a DataFrame with exactly those labels in '
  'that order. After another fit the labels are those of the latest data, and after a fit to an unlabelled array no DataFrame comes back. pseudo_obs of a DataFrame keeps its '
  'columns and its index, and corr, pearson_rho, kendall_tau and spearman_rho label both axes of the matrix with the columns.',
  ['inputs', 'histories'], 'every copula, every fit method, every query given a DataFrame or Series, every order of fits',
  'Frames in tests nearly always have their columns in the fitted order, where matching by position gives the same numbers.',
  ['copulae/'], [('alignment and relabelling decorators', 'copulae/utility/annotations/reshape.py'),
                 ('where labels are kept', 'copulae/copula/base.py, copulae/marginal/marginal.py, copulae/mixtures/gmc/gmc.py, copulae/empirical/empirical.py'),
                 ('pseudo_obs', 'copulae/core/misc.py'), ('correlation output', 'copulae/stats/correlation.py')],
  technique='provenance (taint) analysis of column labels over an abstract interpretation of fit-then-query histories',
  note=ENGINE + 'A frame is aligned if it passes through a selection by the kept labels in order; where the code first compares the labels, one aligned path suffices.')

P('P09', 'An update that is rejected changes nothing',
  'When a parameter setter, an item assignment, or a fit is refused - it raises because of what it was given: a wrong number of parameters, a value outside the domain, '
  'a matrix of the wrong shape, an unknown fit method, data of the wrong dimension - the copula, marginal copula, mixture or parameter object is afterwards exactly as '
  'before: parameters, column labels, marginals and fit results. No update is left half done. (For fit this covers refusals before the estimation begins.)',
  ['inputs', 'histories'], 'every parameter setter, __setitem__ and fit of every copula and parameter object, every exceptional exit of each',
  'Tests that expect an error stop at the error; whether the object is still intact shows only in later calls, and only for updates in which an earlier '
  'part was acceptable.',
  ['copulae/'], [('elliptical parameters', 'copulae/elliptical/abstract.py, copulae/elliptical/student.py, copulae/elliptical/gaussian.py'),
                 ('archimedean parameters', 'copulae/archimedean/*.py'),
                 ('mixture parameters', 'copulae/mixtures/gmc/parameter.py, copulae/mixtures/gmc/gmc.py'),
                 ('fit', 'copulae/copula/base.py, copulae/marginal/marginal.py')],
  technique='exceptional-exit (commit-point) analysis over an abstract interpretation of all setters and fits',
  note=ENGINE + 'A matrix the object derives from its own state before re-checking it (near_psd of its own sigma) is trusted to pass the check.')

P('P24', 'One value per observation, one column per dimension',
  'Results have the shape of what was asked: pdf and cdf give one value per row of their argument (a single number for a single observation), log_lik a single number; '
  'random(n) gives n rows and one column per dimension for every n, also n = 1; the generator functions and their companions (psi, ipsi, dipsi, itau, irho, A, ...) and the '
  'special functions keep the shape of their argument; pobs, pseudo_obs, rank_data and to_marginals keep the shape of the data; sigma is dim x dim; the parameters, tau and '
  'rho of elliptical copulas are one per pair of dimensions, those of Archimedean copulas single numbers; corr, pearson_rho, kendall_tau and spearman_rho give one row and '
  'column per column (2 x 2 for two vectors); emp_dist_func gives one value per row.',
  ['inputs', 'configuration'], 'every query, sampler and function, with arguments of symbolic size, in dimensions 2 and 3',
  'numpy broadcasts and squeezes silently; sizes of one, or sizes that happen to agree, are where a shape goes wrong, and tests use a few fixed sizes.',
  ['copulae/'], [('samplers', 'copulae/*/'), ('densities and distribution functions', 'copulae/*/'), ('argument and result decorators', 'copulae/utility/annotations/'),
                 ('correlations, ranks', 'copulae/stats/, copulae/core/')],
  technique='symbolic shape inference over an abstract interpretation of all queries and functions',
  note=ENGINE + 'A dimension is reported only where it provably differs from the promised one for some size; undecided dimensions are not.')

P('P12', 'log=True is the logarithm of log=False, and log_lik sums the log density',
  'Whatever can be asked with log=True (cdf and pdf of every copula, the generator functions psi, ipsi and dipsi, the special functions that take the flag, the stable '
  'density and its parts) then returns the natural logarithm of what it returns with log=False for the same argument and parameters, on every branch the code takes '
  '(dipsi: the logarithm of its absolute value); and log_lik of observations that are taken as they are (to_pobs=False) is the sum over the rows of the logarithm of what pdf '
  'returns for them, or -inf where there is no density.',
  ['inputs', 'configuration'], 'every pair of calls that differ in the flag, every branch, in dimensions 2 and 3, for symbolic arguments and parameters',
  'the two forms are written separately, branch by branch; tests compare a handful of points, mostly with one form only, and rarely at special parameters.',
  ['copulae/'], [('densities and distribution functions', 'copulae/*/'), ('generator functions', 'copulae/archimedean/'), ('log likelihood', 'copulae/copula/base.py'),
                 ('stable density', 'copulae/stats/stable/'), ('special functions', 'copulae/special/')],
  technique='value numbering with algebraic normal forms over an abstract interpretation: both forms of every call are reduced and compared',
  note=ENGINE + 'A pair of branches is reported only where the normal forms differ and are built from the same unknowns; in-place rewriting, quadrature and unknown functions '
  'on one side only leave it undecided (skew_stable.pdf, parts of poly_log).')

P('P14', 'What is outside the documented domain is rejected, what is inside is not',
  'Parameters outside their documented range (Clayton theta below -1, or below 0 in more than two dimensions; Frank theta below 0 in more than two dimensions; Gumbel theta '
  'below 1; correlations beyond 1 in absolute value; degrees of freedom that are not positive; mixture probabilities outside [0, 1] or not adding up to 1; parameters or '
  'matrices of another size), dimensions below 2, data with another number of columns or another rank, observations outside [0, 1] passed as pseudo-observations, '
  'indices outside the correlation matrix or on its diagonal, unknown options (method, criteria, ties, smoothing, use, side, type_, pm, degree, category, margins) and arguments '
  'of the special functions, correlations, stable and t distributions and tests outside their stated domain end in an error on every path, whichever way they are passed (constructor, '
  'setter, item assignment, fit); so do questions that need parameters or a fit where there are none, densities of an empirical copula '
  'whose smoothing has none, and, at the latest when they are used, unknown ties of an empirical copula. Arguments inside the domain, its edges included, and every documented '
  'option are accepted.',
  ['inputs', 'configuration'], 'every documented restriction; numbers known by their interval only, arrays by the intervals some of their elements lie in; dimensions 2 and 3',
  'tests try single values and rarely every way in which a value can be passed, edges, or arrays in which only some elements are wrong.',
  ['copulae/'], [('parameter setters and constructors', 'copulae/*/'), ('argument decorators', 'copulae/utility/annotations/'), ('fit', 'copulae/copula/'),
                 ('options', 'copulae/stats/, copulae/core/, copulae/empirical/, copulae/gof/, copulae/mixtures/')],
  technique='interval-class abstract interpretation of guards: no path of an out-of-domain call may return',
  note=ENGINE + 'Guards that cannot be decided from the intervals leave a call undecided and unreported.')

P('P15', 'Answers follow the current parameters, data and options',
  'After the parameters of a copula are replaced (assignment, item assignment, fit by any method, another smoothing), whatever was asked, drawn, fitted or printed before, every '
  'answer (densities, distribution, samples, tau, rho, lambda, sigma, generators, bounds, params, item access, log-likelihood, summaries) is the one that a copula which only '
  'ever had the new parameters gives: it is computed from the new ones wherever that of the fresh copula is, owes nothing to the replaced ones, and carries no names of an '
  'earlier data set. (A maximum-likelihood or mixture search may start from the present parameters.)',
  ['histories'], 'per class every way of replacing parameters, options or fitted data, then every query, then the same replacement with new values, then every query again; dimensions 2 and 3',
  'tests build a new copula for every expected value; a memo that is not dropped in one of the setters shows only after query, change, query.',
  ['copulae/'], [('parameter setters', 'copulae/archimedean/, copulae/elliptical/, copulae/mixtures/gmc/gmc.py'), ('fit', 'copulae/copula/base.py, copulae/copula/estimator/, copulae/marginal/'),
                 ('smoothing', 'copulae/empirical/empirical.py'), ('labels of samples', 'copulae/utility/annotations/reshape.py')],
  technique='interprocedural provenance analysis of change-query-change-query histories against a fresh object',
  note=ENGINE + 'Provenance says what an answer is computed from, not that it is computed correctly; options given as constants (smoothing) are compared by provenance of the data only.')

P('P20', 'Generators, inverses, derivatives, distributions and measures fit together',
  'The functions of one copula are about the same distribution, wherever its parameter may lie and on every branch of the code: for Clayton, Frank and Gumbel copulas psi(ipsi(u)) = u, '
  'dipsi(u, 1) and dipsi(u, 2) are the first and second derivative of ipsi (for positive parameters), cdf is psi of the sum over the columns of ipsi, and the density of Clayton and '
  '(for positive parameters) Frank copulas is the mixed derivative of the distribution; for those and Gaussian and Student copulas tau is the tau of the family, itau(tau) is the parameter (Clayton, Gumbel, '
  'Gaussian, Student), dtau is the derivative of tau, rho and drho are the rho of the family and its derivative (Frank, Gaussian) and irho(rho) is the parameter (Gaussian); lambda_ is '
  'the lower and upper tail dependence of the family (Clayton, Gumbel, Student); dAdu of the Gumbel copula holds the first and second derivative of A.',
  ['inputs', 'configuration'], 'every branch of each function, for symbolic arguments and parameters, in dimensions 2 and 3',
  'tests check some of the functions at single points and one parameter, and the derivatives, tail dependence and special branches hardly at all.',
  ['copulae/archimedean/', 'copulae/elliptical/'], [('generators and their companions', 'copulae/archimedean/'), ('correlation measures', 'copulae/elliptical/abstract.py'),
                 ('tail dependence', 'copulae/*/: lambda_')],
  technique='value numbering with algebraic normal forms: functions read off the source are composed, differentiated and compared',
  note=ENGINE + 'An expression is reported only if it is built from known functions, its normal form differs from that of every admissible one and their values differ at some point; '
  'a branch counts as right if it is on some range of the parameter, and on every range some branch has to be. Root searches, gumbel_poly and quadrature are unknown functions.')

N = 'none'
P('N01', 'Densities integrate to one', 'The density of every copula integrates to one over the unit cube, and that of its marginals over the line.',
  ['inputs'], 'every copula, every parameter', 'an integral over a continuum.', ['copulae/'], [('densities', 'copulae/*/')],
  na='Integrals over the unit cube are runtime quantities no static argument in reach bounds. Where the density has a closed form, P20 decides instead that it is the mixed derivative of the distribution.')
P('N02', 'Samples follow the copula', 'random(n) draws from the distribution that cdf and pdf describe.', ['inputs', 'histories'], 'every copula, every parameter, every seed',
  'a statement about distributions; tests look at a few moments of one sample.', ['copulae/'], [('samplers', 'copulae/*/')],
  na='The distribution of a pseudo-random output is not a property of paths or values a static analysis can bound; seeds, shapes, ranges and provenance of samples are decided by P03, P24 and P15.')
P('N03', 'fit returns the optimum', 'Maximum likelihood and mixture fits return parameters of the highest likelihood in the permitted region.', ['inputs'], 'all data sets',
  'tests fit a few data sets.', ['copulae/'], [('fit', 'copulae/copula/estimator/, copulae/mixtures/gmc/')],
  na='Depends on convergence of scipy.optimize and of EM on the data at hand, a runtime quantity. What is optimised, returned and reported is decided by P07, P09 and P15.')
P('N04', 'p-values are calibrated', 'Under the hypothesis tested, the p-values of the goodness of fit tests are uniform.', ['inputs'], 'all data sets', 'a statement about distributions.',
  ['copulae/gof/'], [('tests', 'copulae/gof/')],
  na='A statement about the distribution of outputs; no static argument reaches it.')
P('N05', 'Special functions are accurate', 'poly_log, debye, stirling and eulerian numbers, the stable density and their companions are accurate to the stated tolerance.', ['inputs'],
  'all arguments', 'tests compare with tables.', ['copulae/special/', 'copulae/stats/'], [('special functions', 'copulae/special/, copulae/stats/')],
  na='Rounding and truncation errors of series and quadratures over floating point numbers are not bounded by the abstractions used here.')
