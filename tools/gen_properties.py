"""Writes /verif/properties.jsonl (kept as a script so that the prose stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


A = "copulae/archimedean/"
E = "copulae/elliptical/"
G = "copulae/mixtures/gmc/"

prop("P01", "Archimedean and independence CDFs equal the family distribution function",
     "For every Clayton, Frank, Gumbel or independence copula, every admissible parameter and dimension and every point "
     "of the closed unit hypercube, cdf returns the family's textbook distribution function, and its logarithm with log=True. "
     "So it is 0 when a coordinate is 0, equals the remaining coordinate when all others are 1, lies between the Frechet "
     "bounds, never decreases in a coordinate and does not depend on the order of the coordinates.",
     ["inputs", "configurations"],
     "all families x dimensions x admissible theta (including negative theta in 2 dimensions, near-independence and strong "
     "dependence) x points of [0,1]^d including faces, corners and values near 0 and 1",
     "The tests compare each cdf with hard-coded numbers at one theta and a dozen interior points; faces, tiny coordinates, "
     "negative theta and other dimensions are never reached.",
     [A + "abstract.py", A + "clayton.py", A + "frank.py", A + "gumbel.py", "copulae/indep/indep.py"],
     [("cdf = psi(sum ipsi(u))", A + "abstract.py:cdf"), ("family generators", A + "*.py:psi/ipsi"),
      ("product", "copulae/indep/indep.py:cdf")],
     observe=["ClaytonCopula.cdf", "FrankCopula.cdf", "GumbelCopula.cdf", "IndepCopula.cdf"])

prop("P02", "Archimedean and independence densities are the mixed derivative of the CDF",
     "For every Clayton, Frank, Gumbel or independence copula, admissible parameter and dimension and every interior point "
     "of the unit hypercube, pdf returns the mixed partial derivative of the family's distribution function, and log=True returns "
     "its logarithm. The density is non-negative and symmetric in the coordinates. For the three Archimedean families it is NaN (never a "
     "number) for a row that leaves the unit hypercube or contains NaN, without disturbing other rows.",
     ["inputs", "configurations"],
     "all families x dimensions x admissible theta x interior points, plus batches that mix valid rows and rows outside [0,1]^d",
     "The tests pin pdf at one theta per family and a few points; nothing relates pdf to cdf for other parameters, dimensions or rows.",
     [A + "clayton.py", A + "frank.py", A + "gumbel.py", A + "_shared.py", "copulae/indep/indep.py",
      "copulae/special/special_func.py"],
     [("closed-form log density", A + "*.py:pdf"), ("gumbel_poly / gumbel_coef", A + "gumbel.py"),
      ("poly_log for Frank", "copulae/special/special_func.py:poly_log"), ("row validity mask", A + "_shared.py")],
     observe=["*.pdf", "*.log_lik"])

prop("P03", "Archimedean generators, their inverses and derivatives are consistent",
     "For every Archimedean family and admissible parameter, psi and ipsi are mutually inverse and strictly decreasing with "
     "psi(0)=1 and ipsi(1)=0, dipsi is the first or second derivative of ipsi, and each log=True variant is the logarithm of the "
     "magnitude of the plain value; for Gumbel, A is the Pickands dependence function of the copula and dAdu its first two derivatives. "
     "The coefficients and polynomial used in the Gumbel density have one value, whichever computation method is asked for.",
     ["inputs", "configurations"],
     "all families x theta x generator arguments in (0,1] and [0,inf), scalars and arrays; gumbel_coef/gumbel_poly over dimension, "
     "alpha, x and every method",
     "The tests pin ipsi/psi/dipsi at one theta on one array and compare coefficient methods at one (d, alpha).",
     [A + "clayton.py", A + "frank.py", A + "gumbel.py", A + "auxiliary.py"],
     [("generators", A + "*.py:psi/ipsi/dipsi"), ("Pickands function", A + "gumbel.py:A/dAdu"),
      ("polynomial", A + "gumbel.py:gumbel_coef/gumbel_poly"), ("Sibuya sums", A + "auxiliary.py:dsum_sibuya")],
     observe=["psi", "ipsi", "dipsi", "A", "dAdu", "gumbel_coef", "gumbel_poly", "dsum_sibuya"])

prop("P04", "Archimedean dependence measures describe the copula and invert correctly",
     "For every Archimedean family and admissible parameter, tau (and rho where the family provides it) equals the Kendall tau "
     "(Spearman rho) implied by the copula's own distribution function, dtau and drho are their derivatives at the parameter asked for (zero included), and "
     "lambda_ gives the limits of the conditional tail probabilities. itau returns, elementwise and for scalars and arrays alike, the "
     "parameter whose tau is the given one, for every tau the family can attain, including the infinite parameter of perfect dependence.",
     ["inputs", "configurations"],
     "all families x theta over the admissible range (both signs for Frank and bivariate Clayton) and tau over the attainable range, "
     "scalar and array arguments",
     "tau, rho and itau are tested at one or two values; dtau, drho and the Gumbel and Frank tail indices are not tested at all.",
     [A + "clayton.py", A + "frank.py", A + "gumbel.py", "copulae/special/debye.py", "copulae/special/optimize.py"],
     [("closed forms", A + "*.py:tau/rho/dtau/drho/lambda_"), ("itau inversion", A + "*.py:itau"),
      ("Debye functions", A + "frank.py:debye1/debye2")],
     observe=["tau", "rho", "dtau", "drho", "lambda_", "itau"])

prop("P05", "Archimedean and independence samples follow the copula",
     "For every Clayton, Frank, Gumbel or independence copula with an admissible parameter, random(n) returns n rows with one column "
     "per dimension, all inside the unit hypercube, that are distributed as the copula: uniform margins, joint probabilities equal to cdf, "
     "and independent rows. The same seed gives the same sample and different seeds give different samples.",
     ["inputs", "configurations", "histories"],
     "all families x dimensions x theta (weak to strong, negative where allowed) x sample sizes including 1 x seeds",
     "The tests only check the shape of one sample per family; no test looks at the distribution of what is drawn.",
     [A + "clayton.py", A + "frank.py", A + "gumbel.py", "copulae/stats/log.py", "copulae/stats/uniform.py",
      "copulae/stats/stable/stable.py"],
     [("conditional method / frailty mixing", A + "*.py:random"), ("log-series frailty", "copulae/stats/log.py"),
      ("positive stable frailty", "copulae/stats/stable/stable.py:rvs")],
     observe=["random"])

prop("P06", "Elliptical densities and CDFs equal the Gaussian / Student copula functions",
     "For every Gaussian copula with a valid correlation matrix, cdf and pdf equal the Gaussian copula's distribution function and "
     "density; for every Student copula, pdf equals the Student copula's density for its degrees of freedom and correlation matrix. "
     "log=True returns the logarithm, the margins are uniform, permuting coordinates together with the correlation matrix changes nothing, "
     "and the Student density tends to the Gaussian one as the degrees of freedom grow.",
     ["inputs", "configurations"],
     "dimensions x random positive-definite correlation matrices x degrees of freedom x interior points, one row or many",
     "The tests pin pdf and cdf at single correlation matrices and data sets; any other matrix, df or batch size is unexplored.",
     [E + "abstract.py", E + "gaussian.py", E + "student.py", "copulae/stats/_multivariate_t.py", "copulae/core/misc.py"],
     [("quantile transform and joint density", E + "gaussian.py:pdf/cdf, " + E + "student.py:pdf"),
      ("correlation matrix from parameters", "copulae/core/misc.py:create_cov_matrix")],
     observe=["GaussianCopula.cdf/pdf", "StudentCopula.pdf", "log_lik"])

prop("P07", "An elliptical copula always holds a valid correlation matrix",
     "After any sequence of valid parameter assignments and of element, row, column and whole-matrix assignments on a Gaussian or Student copula, "
     "sigma is a symmetric positive semi-definite matrix with unit diagonal whose off-diagonal entries are the parameters, and a rejected "
     "assignment leaves it as it was. When the matrix asked for is already a valid correlation matrix, exactly the addressed entries (and "
     "their mirror images) take the assigned values and no others change, and reading an element or the whole matrix returns what sigma holds.",
     ["histories", "inputs"],
     "operation sequences of params setter, c[i], c[i,j], c[i,:], c[:,j], c[:] get/set with valid and invalid indices and values, "
     "dimensions 2-6, both families",
     "The tests run a few fixed assignments on a 3-dimensional copula; sequences, other dimensions, mirrored indices and assignments "
     "needing a PSD projection are not sampled.",
     [E + "abstract.py", E + "gaussian.py", E + "student.py", "copulae/core/linalg.py", "copulae/core/misc.py"],
     [("__setitem__ / __getitem__", E + "abstract.py"), ("near_psd projection", "copulae/core/linalg.py:near_psd"),
      ("index mapping", E + "abstract.py:_get_rho_index")],
     state=[("_rhos", "strict lower triangle of the correlation matrix", E + "abstract.py"), ("_df", "degrees of freedom", E + "student.py")],
     observe=["sigma", "params", "copula[index]"])

prop("P08", "Elliptical dependence measures follow the closed forms of the family",
     "For every Gaussian or Student copula, tau and rho are 2/pi*asin(r) and 6/pi*asin(r/2) of each correlation r, dtau and drho are their "
     "derivatives (at the copula's own or at given correlations), and itau (and Gaussian irho) invert them over the whole range. lambda_ gives "
     "the family's tail dependence coefficients: symmetric, zero for a Gaussian copula unless the correlation is 1, and "
     "2*t_{v+1}(-sqrt((v+1)(1-r)/(1+r))) for a Student copula.",
     ["inputs", "configurations"],
     "dimensions x correlations in [-1,1] x degrees of freedom x scalar or array arguments",
     "The tests check these at one correlation each, mostly r=0 where many wrong formulas agree; the Student tail index is untested.",
     [E + "abstract.py", E + "gaussian.py", E + "student.py"],
     [("closed forms", E + "abstract.py:tau/rho/dtau/drho/itau"), ("irho", E + "gaussian.py:irho"), ("tail index", E + "*.py:lambda_")],
     observe=["tau", "rho", "dtau", "drho", "itau", "irho", "lambda_"])

prop("P09", "Elliptical samples follow the copula",
     "For every Gaussian or Student copula with a valid correlation matrix, random(n) returns n rows with one column per dimension, inside the "
     "unit hypercube, distributed as the copula: uniform margins, the pairwise dependence its parameters imply, and its joint tail behaviour. "
     "The same seed gives the same sample and different seeds give different samples.",
     ["inputs", "configurations", "histories"],
     "dimensions x correlation matrices x degrees of freedom x sample sizes including 1 x seeds",
     "The tests check the shape of one sample per family and nothing about its distribution.",
     [E + "gaussian.py", E + "student.py", "copulae/stats/_multivariate_t.py"],
     [("draw and probability transform", E + "gaussian.py:random, " + E + "student.py:random"),
      ("chi-square mixing", "copulae/stats/_multivariate_t.py:rvs")],
     observe=["random"])

prop("P10", "Maximum likelihood fitting maximises the likelihood of the data it is given",
     "After a converged maximum likelihood fit, the copula holds the estimate reported by the fit summary, that estimate respects the family's "
     "parameter bounds, the reported log-likelihood is the copula's log-likelihood of the data, and no nearby admissible parameter, and not the "
     "starting point, gives a materially larger one. Small samples of a handful of rows converge too. With to_pobs on, the result depends on the data only through its column-wise ranks; the data "
     "and option objects passed in are left unchanged, and a fixed df stays fixed.",
     ["inputs", "configurations"],
     "families x dimensions x data sets (simulated from the family or not, with and without ties) x starting points x objective scale x optimiser options",
     "The tests fit one data set per family and compare with stored numbers to a few digits.",
     ["copulae/copula/base.py", "copulae/copula/estimator/estimator.py", "copulae/copula/estimator/max_likelihood.py", E + "student.py"],
     [("fit dispatch and validation", "copulae/copula/base.py:fit"), ("starting values and options", "copulae/copula/estimator/estimator.py"),
      ("objective", "copulae/copula/estimator/max_likelihood.py")],
     state=[("_fit_smry", "summary of the last fit", "copulae/copula/base.py")],
     observe=["fit", "params", "log_lik", "summary('fit')"])

prop("P11", "Correlation-inversion fitting inverts the sample rank correlations",
     "After fitting with 'itau' (any family) or 'irho' (Gaussian), the parameters are the family's inverse applied to the sample Kendall tau "
     "(Spearman rho): elementwise per pair for elliptical copulas, then projected to the nearest correlation matrix only if needed, and averaged over "
     "pairs for Archimedean ones; the Student copula keeps its degrees of freedom. The summary reports those parameters, the sample size and the "
     "log-likelihood of the data, and the result is unchanged by strictly increasing transformations of any column.",
     ["inputs", "configurations"],
     "families x dimensions x data sets with and without ties x monotone column transformations x container types",
     "One inversion fit per family is compared with stored numbers.",
     ["copulae/copula/estimator/corr_inversion.py", "copulae/copula/estimator/estimator.py", "copulae/stats/correlation.py"],
     [("inversion estimator", "copulae/copula/estimator/corr_inversion.py")],
     observe=["fit(method='itau'|'irho')", "params", "summary('fit')"])

prop("P12", "Pseudo-observations are ranks over n+1, column by column",
     "For every data matrix or vector and every tie rule, rank_data gives each value its rank among the values of its own column (or row, by axis) under "
     "the named rule and pseudo_obs divides column ranks by the sample size plus one. Results keep the shape, container type, index and column labels of "
     "the input, lie strictly inside (0,1), do not change under strictly increasing transformations and follow any reordering of rows or columns.",
     ["inputs"],
     "matrices and vectors of ints and floats with any tie pattern, all five tie rules, both axes, arrays, lists and DataFrames with arbitrary indexes",
     "The tests check one small array and one DataFrame with the default tie rule.",
     ["copulae/core/misc.py", "copulae/copula/base.py"],
     [("ranking", "copulae/core/misc.py:rank_data"), ("scaling and DataFrame re-wrapping", "copulae/core/misc.py:pseudo_obs")],
     observe=["pseudo_obs", "rank_data", "BaseCopula.pobs"])

prop("P13", "Covariance and triangle tools agree with linear algebra",
     "cov2corr and corr2cov are inverse to each other and give unit-diagonal correlations; is_symmetric and is_psd accept exactly the symmetric and "
     "positive semi-definite matrices (up to their tolerance); near_psd returns valid input unchanged, rejects asymmetric input and otherwise returns a "
     "symmetric positive semi-definite matrix with the same variances ('nearest' gives the closest correlation matrix in the Frobenius norm). tri_indices enumerates exactly the requested triangle and create_cov_matrix "
     "places each parameter symmetrically so that reading the lower triangle back returns the parameters in order.",
     ["inputs"],
     "matrices of dimension 1-8: positive definite, singular, indefinite, asymmetric, scaled; offsets and sides for tri_indices; parameter vectors",
     "Fixed 3x3 examples only.",
     ["copulae/core/linalg.py", "copulae/core/misc.py"],
     [("linear algebra helpers", "copulae/core/linalg.py"), ("triangle indexing", "copulae/core/misc.py")],
     observe=["copulae.core"])

prop("P14", "The empirical copula's CDF is the defined estimator for every smoothing",
     "For every data set, tie rule, offset and evaluation point in the unit hypercube, the empirical copula's cdf equals the defining sum over observations: "
     "the proportion of pseudo-observations below the point (no smoothing), products of Beta(rank, n+1-rank) distribution functions (beta) or of clipped "
     "linear ramps (checkerboard), divided by n plus the offset; log=True gives its logarithm. It is non-decreasing in each coordinate, and changing "
     "smoothing or ties on an existing copula has the same effect as creating it that way.",
     ["inputs", "configurations", "histories"],
     "data matrices with and without ties x tie rules x smoothings x offsets x evaluation points including faces and exact data points",
     "Stored numbers on one data set; ties, offset and boundary points are not covered.",
     ["copulae/empirical/empirical.py", "copulae/empirical/distribution.py", "copulae/empirical/_distribution.pyx"],
     [("C kernels per smoothing", "copulae/empirical/_distribution.pyx"), ("pseudo-observation conversion", "copulae/empirical/empirical.py:cdf")],
     observe=["EmpiricalCopula.cdf", "emp_dist_func"])

prop("P15", "Empirical density, resampling and back-transformation are faithful to the data",
     "The empirical copula's pdf under beta smoothing is the mixed derivative of its cdf (log=True its logarithm) and is refused for other smoothings. "
     "random returns whole rows of the stored data drawn with replacement, each row equally likely and labelled like the data, reproducibly for a seed. to_marginals maps each "
     "value u in [0,1) of a column to that column's order statistic number floor(u*n) (u = 1 to its maximum), keeping shape and labels, so it is non-decreasing and only ever "
     "returns observed values of the same column.",
     ["inputs", "configurations"],
     "data matrices and DataFrames x evaluation points x seeds x uniform samples including values at multiples of 1/n",
     "One stored vector of densities, shape checks for random, one to_marginals example.",
     ["copulae/empirical/empirical.py", "copulae/special/special_func.py"],
     [("beta density sum", "copulae/empirical/empirical.py:pdf"), ("row resampling", "copulae/empirical/empirical.py:random"),
      ("order statistics lookup", "copulae/empirical/empirical.py:to_marginals")],
     observe=["EmpiricalCopula.pdf/random/to_marginals"])

prop("P16", "A marginal copula combines its margins and dependence as Sklar's theorem says",
     "For every inner copula and list of margin specifications, the joint cdf at x is the inner copula's cdf at the margins' probabilities of x, the joint pdf is "
     "the inner density times the product of the marginal densities (a sum of logs with log=True), and samples, mapped through the margins' distribution "
     "functions, are the inner copula's sample for that seed. Each margin belongs to its own column, names and aliases select the same distribution as the "
     "distribution object, and params reports exactly the distributions and parameters in force.",
     ["inputs", "configurations"],
     "inner copulas x margin specifications (names, aliases, objects, partial parameters, single or per column) x points (float or integer) x seeds",
     "The tests only check that calls run on one configuration.",
     ["copulae/marginal/marginal.py", "copulae/marginal/univariate.py"],
     [("probability transform per column", "copulae/marginal/marginal.py:cdf/pdf/random"), ("margin construction", "copulae/marginal/univariate.py")],
     state=[("_marginals", "frozen distributions, one per column", "copulae/marginal/marginal.py")],
     observe=["MarginalCopula.cdf/pdf/random/params"])

prop("P17", "Fitting a marginal copula fits each margin and the dependence separately",
     "Fitting a marginal copula replaces each margin by the maximum likelihood fit of its own distribution type to its own column and fits the inner copula "
     "exactly as fitting that copula alone to the same data with the same options would. Margin types, column order and inner family never change, fitting "
     "leaves the data and the specification objects passed in untouched, and summaries report the fitted values.",
     ["inputs", "configurations", "histories"],
     "inner copulas x margin types x data sets x repeated fits on the same object",
     "One smoke test fits a single configuration.",
     ["copulae/marginal/marginal.py", "copulae/marginal/univariate.py", "copulae/marginal/summary.py"],
     [("margin fits and inner fit", "copulae/marginal/marginal.py:fit")],
     observe=["MarginalCopula.fit", "params", "summary"])

prop("P18", "Gaussian mixture parameters survive every representation",
     "A Gaussian mixture copula parameter turned into its vector or dictionary form and back is the same parameter (weights summing to one, means, "
     "covariances), and every vector of the right length decodes to valid parameters that encode to an equivalent vector. Conversions never change the object "
     "converted, invalid shapes, weights or covariances are rejected, and a copula given parameters in any of the forms reports the same ones.",
     ["inputs", "configurations"],
     "numbers of clusters 1-5 x dimensions 1-5 x weights, means and positive-definite covariances; malformed variants",
     "One 3-component example is converted back and forth.",
     [G + "parameter.py", G + "gmc.py"],
     [("vector packing", G + "parameter.py:to_vector/from_vector"), ("dict packing", G + "parameter.py:from_dict/to_dict"),
      ("setter dispatch", G + "gmc.py:params")],
     observe=["GMCParam", "GaussianMixtureCopula.params"])

prop("P19", "Gaussian mixture marginals, likelihoods, densities and samples agree",
     "For every mixture parameter, the marginal distribution function is the weighted sum of normal distribution functions of that coordinate, the marginal "
     "quantile function inverts it to the documented approximation, and the mixture, marginal and copula log-likelihoods equal their definitions. The copula "
     "object's cdf and pdf equal the weighted component distribution function and density, log=True gives their logarithms, and random draws lie in the unit "
     "hypercube with uniform margins and the mixture's dependence, reproducibly for a seed.",
     ["inputs", "configurations"],
     "clusters x dimensions x parameters x evaluation points x seeds, including single-row inputs and components that receive few draws",
     "The tests compare one parameter set with stored values and only check shapes of random draws.",
     [G + "marginals.py", G + "loglik.py", G + "gmc.py", G + "random.py"],
     [("marginal cdf/ppf", G + "marginals.py"), ("likelihoods", G + "loglik.py"), ("sampling", G + "random.py")],
     observe=["gmm_marginal_cdf", "gmm_marginal_ppf", "gmcm_log_likelihood", "GaussianMixtureCopula.cdf/pdf/random"])

prop("P20", "Gaussian mixture fitting improves on its start and returns valid parameters",
     "Every fitting method returns valid mixture parameters of the requested size, stored in the copula and in the fit summary alike. K-means "
     "reports the share, mean and covariance of a partition of the data, each expectation-maximisation update is the exact posterior-weighted update of "
     "weights, means and covariances, and the EM results (GMCM and Li criteria) and gradient results are never worse in copula likelihood than the starting parameters.",
     ["inputs", "configurations"],
     "clusters x dimensions x data sets x starting parameters x stopping criteria x iteration limits",
     "Each method is run once on one data set and only checked to finish.",
     [G + "gmc.py", G + "estimators/em.py", G + "estimators/kmeans.py", G + "estimators/sgd.py"],
     [("E and M steps", G + "estimators/em.py"), ("k-means start", G + "estimators/kmeans.py"), ("gradient descent", G + "estimators/sgd.py")],
     observe=["GaussianMixtureCopula.fit", "summary('fit')", "e_step", "m_step", "k_means"])

prop("P21", "Correlation matrices equal pairwise Pearson, Kendall or Spearman correlations",
     "For every data set, method and missing-value policy, corr and its named shortcuts return a symmetric matrix with unit diagonal whose entries are the "
     "pairwise correlations computed from exactly the rows that policy keeps (all, complete rows, or rows complete for that pair), tau-b and average ranks for "
     "ties. Labels follow the input, vector pairs give the 2x2 matrix, and unsupported methods, policies or shapes are rejected.",
     ["inputs", "configurations"],
     "matrices, vectors, Series and DataFrames with ties and NaN patterns x methods and aliases x policies",
     "One data set with one NaN per policy is compared with stored numbers.",
     ["copulae/stats/correlation.py"],
     [("row selection", "copulae/stats/correlation.py:_form_xy_vector/_yield_vectors"), ("labels", "copulae/stats/correlation.py:format_output")],
     observe=["corr", "pearson_rho", "kendall_tau", "spearman_rho"])

prop("P22", "The exchangeability test computes its statistic and a valid p-value",
     "For every bivariate data set the exchangeability statistic equals n times the mean squared difference between the empirical copula and its transpose over "
     "the evaluation points (the pseudo-observations, or the m x m grid), so it is zero for exactly exchangeable data and unchanged by swapping the columns or by "
     "increasing transformations. The p-value is (number of simulated statistics at least as large + 0.5)/(N+1); data sampled from an exchangeable model are not "
     "rejected more often than the level allows and strongly asymmetric data are rejected.",
     ["inputs", "configurations"],
     "bivariate data with and without ties x grid sizes x number of replications x tie settings",
     "The statistic and p-value are pinned on two stored data sets.",
     ["copulae/gof/exchangeability.py", "copulae/gof/_exchangeability.pyx"],
     [("statistic and multiplier/bootstrap replications", "copulae/gof/_exchangeability.pyx"), ("p-value", "copulae/gof/exchangeability.py")],
     observe=["exch_test"])

prop("P23", "The radial symmetry test computes its statistic and a valid p-value",
     "For every data set the radial symmetry statistic is the sum of squared differences between the empirical copula and the empirical survival copula at the "
     "pseudo-observations, so it is zero for exactly radially symmetric pseudo-observations and unchanged by reordering rows or columns and by increasing "
     "transformations of the columns. The p-value is (number of replicated statistics at least as large + 0.5)/(N+1), "
     "stays in (0,1), does not reject radially symmetric models more often than the level allows and rejects strongly asymmetric ones.",
     ["inputs", "configurations"],
     "data of 2-4 dimensions with and without ties x replications x tie settings",
     "Two stored data sets only.",
     ["copulae/gof/radial_symmetry.py", "copulae/gof/_radial_symmetry.pyx"],
     [("statistic and replication", "copulae/gof/_radial_symmetry.pyx"), ("p-value", "copulae/gof/radial_symmetry.py")],
     observe=["rad_sym_test"])

prop("P24", "The goodness-of-fit test compares the fitted copula with the empirical copula",
     "gof_copula's statistic is the sum over the pseudo-observations of the squared difference between the empirical copula and the cdf of a copula of the given class "
     "fitted to them, its parameter is that fit, and its p-value is (number of bootstrap statistics at least as large + 0.5)/(reps+1) from refitting samples of the "
     "fitted copula. It never alters the data, honours the separate tie rules for fitting and for the statistic, and does not reject data drawn from the class more "
     "often than the level allows while rejecting data far from it.",
     ["inputs", "configurations"],
     "copula classes x dimensions x data sets with and without ties x tie rules x fit options",
     "One stored statistic for the Gumbel copula.",
     ["copulae/gof/goodness_of_fit/goodness_of_fit.py", "copulae/gof/goodness_of_fit/utils.py"],
     [("parametric bootstrap", "copulae/gof/goodness_of_fit/goodness_of_fit.py")],
     observe=["gof_copula"])

prop("P25", "Debye, Clausen, dilogarithm and polylogarithm match their definitions",
     "debye_1, debye_2, clausen, dilog, dilog_complex and poly_log return the mathematical function of their definition over their whole domain, across every "
     "internal branch, for scalars and arrays of any shape, with and without threading. Clausen is odd and 2*pi-periodic, dilog satisfies its reflection, inversion and "
     "duplication identities, the polylogarithm methods agree and log=True is the logarithm.",
     ["inputs", "configurations"],
     "reals across and on both sides of every branch point, complex numbers inside, on and outside the unit circle, orders s <= 1, array shapes, threaded or not",
     "Stored values at a handful of points, few near branch boundaries.",
     ["copulae/special/_specfunc.pyx", "copulae/special/debye.py", "copulae/special/clausen.py", "copulae/special/dilog.py", "copulae/special/special_func.py"],
     [("series and Chebyshev branches", "copulae/special/_specfunc.pyx"), ("polylog methods", "copulae/special/special_func.py:poly_log")],
     observe=["copulae.special"])

prop("P26", "Combinatorial numbers are exact and satisfy their recurrences",
     "eulerian, stirling_first and stirling_second return the exact signed integers of their definitions, the *_all variants list the whole row, and comb and perm return "
     "the generalised binomial coefficient and falling factorial (their logs with log=True) for scalars and arrays, as does sign_ff the documented sign. Arguments outside "
     "the documented range are rejected, and dimension-wise results do not depend on whether values are asked for one at a time or together.",
     ["inputs"],
     "all 0 <= k <= n up to sizes where doubles or integers still determine the answer, real n for comb/perm, alpha in (0,1]",
     "A handful of stored values with small n.",
     ["copulae/special/special_func.py", "copulae/special/combinatorics.py"],
     [("recurrences", "copulae/special/special_func.py:stirling_*/eulerian"), ("gamma functions", "copulae/special/combinatorics.py")],
     observe=["copulae.special"])

prop("P27", "Log-space, polynomial, trigonometric, root-finding and merging helpers are right",
     "log_sum, log1mexp and log1pexp return the logarithm of the sum or difference they name without overflow or loss across their domain, polyn_eval evaluates the "
     "polynomial with the given ascending coefficients, the *pi functions are the trigonometric functions of multiples of pi or pi/2, and find_root returns a point where the "
     "function changes sign when its bracket (expanded if need be) has one. Merging option dictionaries keeps every key, the later value winning and nested dictionaries merged.",
     ["inputs"],
     "finite log values over the whole exponent range, vectors and matrices, coefficient lists of any length, brackets with and without the root inside, nested dictionaries",
     "A few stored values away from the extremes.",
     ["copulae/special/special_func.py", "copulae/special/trig.py", "copulae/special/optimize.py", "copulae/utility/dict.py"],
     [("helpers", "copulae/special/special_func.py, copulae/special/trig.py, copulae/special/optimize.py, copulae/utility/dict.py")],
     observe=["copulae.special", "copulae.utility.dict"])

prop("P28", "The multivariate t distribution has the right density and samples",
     "For every location, positive-definite scale matrix and degrees of freedom, multivariate_t's pdf and logpdf equal the multivariate Student density, reducing to the "
     "univariate t in one dimension and to the normal for very large degrees of freedom. Samples have the requested size and dimension and follow that distribution "
     "(shifted by, or for the Kshirsagar type built around, the location), reproducibly for a seed; invalid parameters are rejected.",
     ["inputs", "configurations"],
     "dimensions x means x scale matrices x df from below 1 to above the normal cut-over x sizes (scalar and tuple) x types",
     "Stored densities for one setting and shape checks for samples.",
     ["copulae/stats/_multivariate_t.py"],
     [("density", "copulae/stats/_multivariate_t.py:pdf"), ("normal / chi-square mixing", "copulae/stats/_multivariate_t.py:rvs")],
     observe=["multivariate_t.pdf/logpdf/rvs"])

prop("P29", "The skewed stable distribution has the right density and samples",
     "For every stability index, skewness, scale, location and parameterisation, skew_stable's pdf equals the stable density obtained by inverting its characteristic "
     "function (its logarithm with log=True), and satisfies reflection, location and scale relations. Samples follow the distribution with that characteristic function, "
     "have the requested size and are reproducible; the logarithmic-series sampler draws positive integers with the logarithmic distribution.",
     ["inputs", "configurations"],
     "alpha in (0,2], beta in [-1,1], gamma > 0, delta, pm in {0,1,2}, points in the centre and tails, scalars and arrays",
     "Stored densities at a few points; samples only by shape.",
     ["copulae/stats/stable/stable.py", "copulae/stats/stable/pdf.py", "copulae/stats/stable/common.py", "copulae/stats/log.py"],
     [("integral representation", "copulae/stats/stable/pdf.py"), ("parameterisations", "copulae/stats/stable/stable.py"),
      ("log-series sampler", "copulae/stats/log.py")],
     observe=["skew_stable.pdf", "skew_stable.rvs", "random_log_series_ln1p"])

prop("P30", "Results do not depend on how the data are packaged",
     "For every copula, cdf, pdf and log_lik give the same numbers for lists, tuples, C- or Fortran-ordered arrays, integer-typed values and DataFrames, whether rows are "
     "evaluated together or one at a time, positionally or by keyword; a single row gives a float and n rows give n values in order. After fitting on a DataFrame (or naming the fields of the independence copula), columns "
     "are matched by name whatever their order, samples carry those names, and results equal those of a copula fitted on the plain array.",
     ["inputs", "configurations", "histories"],
     "all copula classes x evaluation points x containers x batch splits x column permutations",
     "A few container types are tried on single copulas with fixed data.",
     ["copulae/utility/annotations/reshape.py", "copulae/utility/annotations/validations.py", "copulae/copula/base.py"],
     [("input shaping and column matching", "copulae/utility/annotations/reshape.py"), ("dimension validation", "copulae/utility/annotations/validations.py")],
     state=[("_columns", "column names remembered from a DataFrame fit", "copulae/copula/base.py")],
     observe=["cdf", "pdf", "random", "log_lik"])

prop("P31", "Invalid parameters, dimensions and data are rejected, valid ones accepted",
     "Constructing a copula or assigning a parameter raises when the parameter lies outside the family's admissible set or does not match the dimension, evaluating raises for "
     "points of the wrong dimension, and fitting raises for data of the wrong shape, for too few rows, and for non-uniform data when no conversion is asked for. A rejected "
     "call leaves the copula unchanged, valid values are never rejected, and summaries of an unfitted copula raise the documented error.",
     ["inputs", "configurations"],
     "all copula classes x parameters inside and outside the admissible range x input shapes x unknown option values",
     "A few invalid values per class are tried.",
     ["copulae/copula/base.py", A + "clayton.py", A + "frank.py", A + "gumbel.py", E + "abstract.py", E + "student.py",
      "copulae/utility/annotations/validations.py", "copulae/utility/annotations/summary.py"],
     [("constructor and setter checks", A + "*.py, " + E + "*.py"), ("fit checks", "copulae/copula/base.py:fit"),
      ("shape checks", "copulae/utility/annotations/*.py")],
     observe=["constructors", "params setters", "cdf/pdf/fit/summary"])

prop("P32", "Queries are pure and copulas are independent of each other and of caller data",
     "Evaluating, sampling, summarising or computing dependence measures never changes a copula's parameters, its later answers, or any array, DataFrame or dictionary the "
     "caller passed in. Two copulas never share state: changing one, or an array used to set its parameters, does not affect the other, nor any copula constructed later, and repeating a query after any history "
     "of other queries gives the same answer.",
     ["histories", "inputs"],
     "interleaved sequences of queries and parameter changes over several copulas of all classes, with caller-owned arrays reused between calls",
     "No test repeats or interleaves calls or checks inputs for mutation.",
     [A + "*.py", E + "*.py", "copulae/special/_specfunc.pyx", "copulae/empirical/empirical.py", "copulae/marginal/marginal.py", G + "*.py"],
     [("copies of inputs and parameters", "params setters, special function kernels")],
     state=[("_rhos/_theta/_param", "copula parameters", E + "abstract.py, " + A + "abstract.py, " + G + "gmc.py")],
     observe=["params", "cdf/pdf/tau/rho/psi/ipsi/itau", "copulae.special", "caller arrays"])

prop("P33", "Log-likelihoods and summaries report the copula's actual state",
     "log_lik is the sum of the log densities of the pseudo-observations of the data under the chosen tie rule (of the data themselves with to_pobs off), minus infinity for an "
     "elliptical copula whose parameters are not valid. summary() shows, in text and HTML, the copula's name, dimension and current parameters (for a mixture its weights, means and "
     "covariances; for a marginal copula each margin and the inner copula), for every copula class; summary('fit') shows the method, sample size and log-likelihood of the last fit, "
     "for every fitting method (for Gaussian mixtures: method, sample size, and the log-likelihood of expectation-maximisation fits).",
     ["inputs", "configurations", "histories"],
     "all copula classes x parameters x data x tie rules x fitting methods",
     "log_lik is pinned for single data sets; summaries are only checked to be strings for one or two classes.",
     ["copulae/copula/base.py", "copulae/copula/summary.py", "copulae/copula/estimator/summary.py", E + "abstract.py", "copulae/marginal/summary.py",
      G + "summary.py"],
     [("log_lik", "copulae/copula/base.py:log_lik"), ("summary rendering", "copulae/copula/summary.py, copulae/copula/estimator/summary.py")],
     observe=["log_lik", "summary", "as_html"])

prop("P34", "Different copulas that describe one distribution agree with each other",
     "Copulas of different classes, dimensions or parametrizations that stand for the same distribution give the same distribution function, density, likelihood, dependence "
     "measures and samples in distribution: every family at its independence parameter and the independence copula; a copula with coordinates at 1 and the lower-dimensional copula "
     "of the others; a marginal copula with uniform margins and its inner copula; a Gaussian mixture of one (or of equal) components and the Gaussian copula of its correlation; a "
     "Student copula with unboundedly growing degrees of freedom and the Gaussian one; and the empirical copula of a large sample and the copula it was drawn from.",
     ["inputs", "configurations"],
     "pairs of equivalent copulas over all classes x dimensions x parameters x evaluation points x seeds",
     "No test relates two classes to each other; stored numbers of one class cannot show that two classes disagree.",
     [A + "*.py", E + "*.py", "copulae/indep/indep.py", "copulae/marginal/marginal.py", G + "gmc.py", "copulae/empirical/empirical.py", "copulae/stats/_multivariate_t.py"],
     [("evaluation and sampling of each class", "cdf/pdf/random of every copula class")],
     observe=["cdf", "pdf", "random", "tau", "log_lik", "emp_dist_func", "multivariate_t"])

prop("P35", "Copied, pickled and concurrently queried copulas behave like the original",
     "A deep copy of a copula, or a copula restored from a pickle, answers every query exactly as the original does, before and after a fit, and from then on the two are "
     "independent: changing or fitting one never affects the other, and the same change has the same effect on both. Queries of the same copulas made by several threads at "
     "once give the answers they give one after the other.",
     ["histories", "schedules", "configurations"],
     "all copula classes x states (as built, changed, fitted) x ways of copying x interleavings of queries from 2-5 threads",
     "No test copies, pickles or shares a copula between threads.",
     [A + "*.py", E + "*.py", "copulae/copula/base.py", "copulae/marginal/marginal.py", "copulae/empirical/empirical.py", G + "*.py", "copulae/special/_specfunc.pyx"],
     [("instance state only", "attributes of the copula classes; no module-level working storage")],
     observe=["copy.deepcopy", "pickle", "cdf/pdf/random/summary/tau/params"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
