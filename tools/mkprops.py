"""Source of /verif/properties.jsonl (kept as Python so that the statements are easy to edit)."""
import json, pathlib
E="cvx/covariance/ewma.py"; C="cvx/covariance/combination.py"; R="cvx/covariance/regularization.py"
U="experiments/utils/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    assert id not in [x["id"] for x in P]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(("name","meaning","where"),s)) for s in state],
      mechanism=[dict(zip(("name","where"),m)) for m in mech],observe_at=observe,hook_needed=None)))

p("C01","Volatility and moving mean are normalised exponentially weighted averages",
 "For every returns frame, half-life and minimum number of periods, the volatility reported for an asset at a time is the square root of the weighted average of that asset's squared returns up to and including that time, with weights that halve every half-life and sum to one; rows before the minimum number of periods are absent and every later row is present with the frame's own labels. The moving mean used for centering is the same average of the returns themselves, and the centered returns are exactly the returns minus it (or the untouched returns and a zero mean when centering is off).",
 ["inputs","histories"],"all return histories of any length, all half-lives (also fractional), all warm-ups, any number of assets and any labels",
 "tests/test_ewma.py checks one 3x2 frame at half-life 1 for center() and never calls volatility() with a non-default warm-up.",
 [E],[("recursive normalised update of the running average",E+":_general"),("square root of the averaged squares",E+":volatility"),("subtraction of the running mean",E+":center")],
 ["return value of volatility()","return values of center()"],[("running average","current weighted average and number of observations",E)])

p("C02","Winsorisation caps each update and each adjusted return, and nothing else",
 "With a clip level c, once the warm-up is over an observation larger in size than c times the asset's current volatility estimate (if that is positive) moves the estimate exactly as an observation of c times that estimate would, and the volatility-adjusted returns that enter the correlation estimate are limited to [-c, c]; smaller observations, observations inside the warm-up and runs without a clip level are unaffected. An asset that has returned a nonzero value therefore never has zero volatility. Clipping a frame limits every entry to the band, keeps entries inside it, and drops exactly the rows in which every entry is missing.",
 ["inputs","histories"],"all histories with outliers at any position relative to the warm-up, all clip levels including one below and one above every observation",
 "The tests clip at 4.2 on one price file where few observations are ever clipped and compare only final weights to 1e-3.",
 [E],[("np.clip around the current estimate, gated by the observation count",E+":_general"),("clip of adjusted returns",E+":clip"),("squared clip level for variances",E+":volatility")],
 ["volatility()","clip()","volatility and covariance of iterated_ewma()"],[("running variance","current variance estimate",E)])

p("C03","Iterated EWMA covariance = volatility x correlation of adjusted returns",
 "At every emitted time the predicted covariance has the squared current volatilities on its diagonal, and its correlations are those of the exponentially weighted average (correlation half-life) of outer products of the volatility-adjusted returns seen so far. It is symmetric, positive semidefinite, has correlations in [-1, 1] and carries the asset labels in the order of the returns frame, and the volatility reported next to it is the square root of its diagonal.",
 ["inputs","histories"],"all return histories, pairs of half-lives, warm-ups, clip levels and centering modes",
 "One NaN-free path is compared with a stored CSV at a single date; the two half-lives, warm-ups and clipping interact on every history.",
 [E],[("volatility scaling, outer-product EWMA, rescaling to correlation",E+":iterated_ewma"),("outer product update",E+":_ewma_cov")],
 ["covariance and volatility of iterated_ewma() results"],[("correlation accumulator","weighted average of outer products of adjusted returns",E)])

p("C04","Iterated EWMA mean is the two-stage moving mean, or zero",
 "With mean estimation on, the mean emitted at a time equals the moving mean of the returns plus volatility times the moving mean of the volatility-adjusted centered returns, each with its own half-life (by default those of volatility and covariance), and the same centered series feed the volatility and correlation estimates. With mean estimation off every emitted mean is zero and no return is shifted.",
 ["inputs","histories","configurations"],"all histories and all combinations of the four half-lives with mean estimation on or off",
 "mean=True is exercised once, through combination weights to 1e-3; separate mean half-lives are never used.",
 [E],[("first and second centering, scale_mean",E+":iterated_ewma")],["mean, covariance and volatility of iterated_ewma() results"],[("two moving means","mean of returns, mean of adjusted returns",E)])

p("C05","Predictions start exactly after both warm-ups and then at every time, once",
 "The iterated predictor emits one result for every time from the first one at which both the volatility warm-up and, counted from there, the correlation warm-up are complete, and none earlier. Results come in the order of the returns index, once per time, labelled with that index; rows on which no asset has a usable volatility-adjusted return (nothing but zero or missing returns so far) do not count towards the correlation warm-up and emit nothing.",
 ["histories","configurations"],"all lengths of history, all pairs of warm-ups (0, 1, larger than the history), any positions of leading empty rows, with and without centering",
 "No test asserts which times are emitted; all use the default warm-up of 20 on one file.",
 [E],[("min_periods gate",E+":_general"),("row dropping",E+":clip")],["times of iterated_ewma() results"],[("row counters","rows seen by the volatility and by the correlation estimator",E)])

p("C06","Missing returns count as zero by default and never spread to other assets",
 "By default a missing return is treated exactly as a return of zero, at any position. An asset that has only had zero or missing returns so far has missing covariance with every asset (itself included) while all other assets' entries are those obtained without it; and when zero-filling is switched off a missing return makes only that asset's own volatility and covariances missing from then on.",
 ["inputs","histories"],"all placements of missing and zero returns: leading, isolated, trailing, whole rows, whole assets, several assets at once, filling on or off",
 "One fixed random 10% mask at one date is compared to a CSV; leading gaps, dead assets and nan_to_num=False are never tested.",
 [E],[("fillna(0) on entry",E+":iterated_ewma"),("zero diagonal mapped to missing",E+":iterated_ewma.scale_cov"),("fillna(0) of adjusted returns",E+":iterated_ewma")],
 ["iterated_ewma() results"],[("per-asset observation status","never seen / zero so far / missing / live",E)])

p("C07","No look-ahead: outputs up to t never depend on returns after t",
 "Changing, adding or removing returns (or expert predictions) after time t leaves every output stamped t or earlier unchanged: volatilities, moving means, iterated EWMA results, and combined predictions with a fixed window. In particular a run on a shorter history yields exactly the corresponding part of a run on the longer one.",
 ["histories","inputs"],"all pairs of histories with a common prefix, any cut point, any continuation (also missing or extreme values), every entry point",
 "Tests look at a single history at a time; non-interference is a property of pairs of runs.",
 [E,C],[("one-pass recursion",E+":_general"),("shift of factors by one step",C+":_CovarianceCombination"),("trailing window",C+":_CovarianceCombination.solve")],
 ["iterated_ewma()","volatility()","center()","from_ewmas().solve(window)","from_sigmas().solve(window)"])

p("C08","Weights at t maximise the likelihood over exactly the last window predictions",
 "At each result time the weights maximise, over all convex weights, the sum over the last `window` available times s up to and including t of the Gaussian log-likelihood of the return at s under the blend of the experts' previous predictions (those stamped at the time before s), the blend being taken on the Cholesky factors of the precision matrices and the correspondingly transformed means. No older or newer prediction or return enters, a window that is omitted or longer than the data means all of it, and a missing return counts as zero.",
 ["inputs","histories","configurations"],"all expert sets, means, windows from 1 to beyond the available data, all result times",
 "Stored weights at one date (3 experts, window 10 or all) are compared to 1e-3; other windows, means and dates are not checked, and optimality is not tested at all.",
 [C],[("factors shifted by one",C+":_CovarianceCombination.__init__"),("window sums of B'B and stacked diagonals",C+":_CovarianceCombination.solve"),("concave programme",C+":_CombinationProblem")],
 ["weights of solve() results"],[("window","the last window pairs (previous prediction, realised return)",C)])

p("C09","Weights are convex and keyed by expert; no solution means no result",
 "Every combined result has one weight per expert, keyed by the expert, non-negative and summing to one up to solver accuracy. A step for which the solver does not return a solution (error, infeasible, iteration or time limit reached) yields a placeholder None and never a result made of unfinished numbers.",
 ["inputs","configurations","fault_sequences"],"all expert sets and windows, all solver options and outcomes",
 "No test makes the solver fail or restricts it, and none checks the constraint set.",
 [C],[("simplex constraints",C+":_CombinationProblem"),("solver error handling",C+":_CovarianceCombination.solve")],["weights of solve() results","None results"],[("solver status","outcome of the last solve",C)])

p("C10","Blended prediction is the weight-average of precision Cholesky factors",
 "The covariance in a result stamped t is the inverse of L L^T, where L is the average, under the reported weights, of the lower Cholesky factors of the inverses of the experts' predictions stamped t; the mean solves L^T m = average of the experts' L_k^T mean_k (zero when no means are given). It uses the experts' latest predictions rather than the lagged ones used for choosing weights, is symmetric positive definite, and is labelled with the assets of the returns frame.",
 ["inputs","histories"],"all expert predictions with and without means, all weights that occur, any number of assets",
 "One stored covariance at one date is compared at 1% relative tolerance; means are never compared.",
 [C],[("unshifted factors at t",C+":_CovarianceCombination._solve"),("Cholesky of the precision",C+":_cholesky_precision")],["covariance and mean of solve() results"])

p("C11","Asking for certain times gives exactly the full run restricted to those times",
 "solve() without times yields one result for every time at which a full window of lagged predictions exists, in time order. solve() with a consecutive run of available times yields exactly those of the full run's results that are stamped with requested times, with the same weights and predictions, whatever the window and wherever the run starts.",
 ["inputs","histories","configurations"],"all start positions (also before a full window exists) and lengths of the requested run, all windows, any iterable of times",
 "One test asks for ten times near the end of a long history with window 10.",
 [C],[("times slicing",C+":_CovarianceCombination.solve")],["times and contents of solve(times=...) results"])

p("C12","A solver failure at one time leaves every other time untouched",
 "If the solver fails at some of the times, iteration continues: the stream has None at exactly the failing times, and at every other time the same result, in the same position, as in a run without failures.",
 ["fault_sequences","histories"],"all subsets of failing steps, including the first, the last, consecutive ones and all",
 "Failures are never injected; the existing tests merely tolerate None.",
 [C],[("exception handling around each step",C+":_CovarianceCombination.solve")],["sequence of solve() results under injected solver faults"],[("problem object","one problem reused by all steps",C)])

p("C13","Result streams are independent and inputs are never modified",
 "Results of an iteration do not depend on how it is interleaved with other iterations of the same combinator, on iterations started, abandoned or repeated before, or on how far they got. Neither building a combinator nor iterating any predictor modifies the caller's returns, predictions, means or requested times, and results already handed out never change.",
 ["schedules","histories"],"all interleavings of several solve() iterations with different windows and times, abandonment at any point, repetition",
 "Tests run one iteration at a time to exhaustion.",
 [C,E,R],[("per-call problem and parameters",C+":_CovarianceCombination.solve")],["interleaved solve() iterators","input frames after use"],[("open iterators","position of each open iterator",C)])

p("C14","from_ewmas is from_sigmas applied to the iterated EWMA predictions",
 "Building a combinator from half-life pairs is equivalent to feeding the predictions of one iterated EWMA per pair (same warm-ups, clip level and mean option; first number the volatility half-life, second the covariance half-life) to the general combinator with their means; experts are named by their pair in the given order. The combinator reports the number of experts, the asset labels, and the expert predictions, means and returns it works on; a missing return counts as zero for the combination as it does for the experts.",
 ["inputs","configurations"],"all lists of pairs, warm-ups, clip levels, mean options, missing returns",
 "Only default warm-ups are used, all settings are shared, and no test relates the two constructors.",
 [C],[("dictionary of iterated EWMAs",C+":from_ewmas")],["from_ewmas()","from_sigmas()","K, assets, sigmas, means, returns"])

p("C15","Renaming or reordering experts permutes weights; relabelling assets is neutral",
 "Presenting the experts in another order or under other names yields the same predictions with the weights following their expert. Reordering the assets reorders volatilities, means and iterated EWMA covariances accordingly, and renaming assets or timestamps (keeping time order) changes only labels.",
 ["inputs"],"all permutations and relabellings (strings, integers, dates, time zones) of experts, assets and times",
 "Tests use a single column order, string labels and one date index.",
 [C,E,R],[("label-preserving construction",C)],["iterated_ewma()","solve()","regularisation outputs"])

p("C16","Predictions scale with the units of the returns",
 "Multiplying all returns (and supplied expert means) by c > 0 and supplied expert covariances by c^2 multiplies volatilities and means by c and covariances by c^2 and leaves combination weights unchanged; multiplying a single asset's returns by c rescales only that asset's volatility, mean, and covariance row and column of the iterated EWMA.",
 ["inputs"],"all scale factors in a wide range, every entry point",
 "Only one unit (daily returns) is tested.",
 [C,E,R],[("homogeneous formulas",E)],["iterated_ewma()","from_ewmas().solve()","from_sigmas().solve()","regularize_covariance()"])

p("C17","Experts that agree are reproduced, also when they cannot be told apart",
 "If all experts predict the same covariance and mean at time t the combined prediction at t is that prediction, whatever the weights; a single expert gets weight one and is returned unchanged. This holds also when experts have been identical throughout the window, or when there are more experts than observations in the window, so that the best weights are not unique.",
 ["inputs","histories"],"all expert sets with agreement at t, over the window or everywhere; more experts than window data",
 "No test has agreeing, duplicate or single experts.",
 [C],[("factorisation of the window matrix",C+":_CovarianceCombination.solve")],["solve() results"])

p("C18","Inconsistent expert input is rejected before any prediction is produced",
 "If an expert's covariance and mean predictions do not cover the same times, if the experts do not cover the same times, or if the requested times are not a consecutive run of available times, an error is raised and no result is produced.",
 ["inputs"],"all ways of dropping, adding or renaming times in one expert's covariances or means, and all requested time lists with gaps, repetitions, reversals or unknown times",
 "No test supplies inconsistent input.",
 [C],[("key comparison",C+":_CovarianceCombination.__init__"),("consecutiveness assertion",C+":_CovarianceCombination.solve")],["exceptions of from_sigmas() and solve()"])

p("C19","Factor regularisation keeps variances and the leading correlation structure",
 "For each covariance in the input and every rank r from 1 to n, the regularised covariance has the same diagonal, and its off-diagonal correlations are those of the sum of the r leading eigen-components of the correlation matrix; it is symmetric positive semidefinite, r = n returns the input, and the diagonal remainder is non-negative. Results come lazily, one per input time in input order, labelled like the input.",
 ["inputs"],"all covariance matrices with positive variances, including singular and badly scaled ones, all ranks, all orders of times",
 "The only test of this form prints the result and asserts nothing.",
 [R],[("leading eigenpairs plus diagonal",R+":_regularize_correlation"),("scaling to and from correlations",R+":regularize_covariance")],["regularize_covariance()"])

p("C20","Low-rank output format describes the same regularised covariance, always finite",
 "In low-rank format each result consists of an n x r loading matrix F and a vector d, labelled by asset, with F F^T + diag(d) equal to the regularised covariance of the full format and d non-negative up to rounding. All entries are finite also when the input covariance has rank below r.",
 ["inputs"],"all positive semidefinite inputs with positive variances, all ranks including ranks above that of the input",
 "The format is only used as an EM starting point for one random 10x10 full-rank matrix.",
 [R],[("square roots of eigenvalues",R+":regularize_covariance")],["regularize_covariance(low_rank_format=True)"])

p("C21","EM refinement follows the EM update and never lowers the likelihood",
 "For each time, in input order, the refined low-rank plus diagonal model is the result of five expectation-maximisation updates started from the given model of the same time for the given covariance: non-negative diagonal, the given number of factors, and the input's asset labels. Its Gaussian log-likelihood for that covariance is never below that of the starting model.",
 ["inputs"],"all covariances and all starting models with positive diagonal, any number of factors and times",
 "One 10x10 case at rank 2 with a single time is compared to literals.",
 [R],[("E and M step",R+":_e_step, _m_step"),("five iterations",R+":_em_low_rank_approximation")],["em_regularize_covariance()"])

p("C22","Backtests trade on a prediction only against the following return",
 "In every backtest a prediction (covariance or mean) stamped t is applied to the return of the next time in the backtest period, the last time of the period being dropped, for every predictor and any start and end date inside the predictions; the default period is the one that all the given predictions cover. Holdings are therefore unaffected by the return they earn or by later ones.",
 ["inputs","histories"],"all return histories, start and end dates, sets of predictors, portfolio types",
 "The experiments package has no tests.",
 [U+"portfolio_backtests.py"],[("shift by one inside the period",U+"portfolio_backtests.py:_get_causal")],["traders returned by backtest()"])

p("C23","Portfolio returns, growth, drawdown and metrics add up",
 "The portfolio return at each time is holdings times asset returns (plus cash times the risk-free rate for portfolios that trade cash); growth is the running product of one plus these returns; the reported mean, risk, Sharpe ratio and maximum drawdown are the annualised mean and standard deviation, their ratio, and the largest fall from an earlier value of the growth path. Reports can be asked for repeatedly and in any order with the same answer.",
 ["inputs","histories"],"all return and weight histories, with and without cash, risk-free rates, repeated and interleaved reports",
 "The experiments package has no tests.",
 [U+"trading_model.py"],[("accounting",U+"trading_model.py:Trader.get_total_returns, get_portfolio_growth, compute_max_drawdown, get_metrics")],["rets, Vs, get_metrics()"],[("trader","weights, returns, growth path",U+"trading_model.py")])

p("C24","Cash dilution hits the requested volatility, whatever was asked before",
 "After dilution with cash to a target volatility (returns in plain units) the predicted annual volatility of every period's holdings equals the target, the risky holdings are a multiple of the undiluted ones, and weights including cash sum to one; volatility-controlled portfolios satisfy the same. The result depends only on the current portfolio and the latest target, not on targets or portfolios requested earlier.",
 ["histories","inputs"],"all sequences of backtests, dilutions and reports with changing targets and portfolio types",
 "The experiments package has no tests.",
 [U+"trading_model.py"],[("dilute_with_cash and the diluted flag",U+"trading_model.py:Trader")],["ws_diluted, rets, get_metrics(diluted_with_cash=True)"],[("diluted","whether and to which target the holdings were diluted",U+"trading_model.py")])

p("C25","Optimised portfolios respect their constraints and are optimal, each on its own",
 "In every period equal-weight holdings are 1/n; minimum-risk holdings sum to one, respect the given exposure and position limits and no feasible portfolio has lower predicted risk; robust minimum risk the same for its own objective with that period's volatilities; risk-parity holdings are positive, sum to one and contribute equally to predicted risk; maximum-diversification and maximum-Sharpe holdings are long-only, sum to one and no such portfolio within the limits has a higher ratio; mean-variance holdings (with cash) stay within the risk target and no feasible ones have a higher (uncertainty-adjusted) expected return. A backtest is not affected by backtests run before it, by this or any other trader, and does not modify the caller's constraints.",
 ["inputs","histories"],"all covariance sequences, limits, and sequences of backtests including infeasible ones",
 "The experiments package has no tests.",
 [U+"trading_model.py"],[("problem construction and per-period solve",U+"trading_model.py:Trader.backtest")],["ws after backtest()"],[("constraint list","constraints carried by a backtest",U+"trading_model.py")])

p("C26","Log-likelihood scores are Gaussian and pair prediction t with return t+1",
 "All log-likelihood functions (vectorised, sequential, regularised, low-rank) give the multivariate Gaussian log-density, agree with one another on the same data, and treat scaling as a change of units. Those taking dated predictions score the prediction stamped t with the return of the next time and omit the last time; with a rank they score the regularised covariance.",
 ["inputs","histories"],"all returns, covariances, means, scales, ranks",
 "The experiments package has no tests.",
 [U+"experiment_utils.py"],[("density formulas",U+"experiment_utils.py:log_likelihood and variants")],["return values"])

p("C27","Rolling-window covariance averages exactly the last `memory` outer products",
 "At each time the rolling-window estimate is the average of the outer products of the last `memory` returns up to and including that time (all of them while fewer are available), for every time from the minimum number of periods on.",
 ["histories","inputs"],"all histories, memories from 1 to beyond the history, minimum periods",
 "The experiments package has no tests.",
 [U+"experiment_utils.py"],[("incremental add/drop update",U+"experiment_utils.py:rolling_window")],["rolling_window()"],[("window sum","sum of the outer products in the window",U+"experiment_utils.py")])

p("C28","Covariance smoothing and realised covariances follow the EWMA law",
 "Smoothing a dated series of covariance matrices gives at every time but the first the normalised exponentially weighted average of the matrices so far (weights halve every half-life), keeping order and labels; with a clip level, once a warm-up is over every entry is first limited to that many times the size of its average so far (unless that is zero), whatever its sign. Realised covariances and volatilities of a day use exactly that day's intraday returns, and realised EWMA is the smoothing of the realised covariances with the same options.",
 ["histories","inputs"],"all series lengths, half-lives, numbers of intraday returns per day",
 "The experiments package has no tests.",
 [U+"iterated_ewma_vec.py",U+"experiment_utils.py"],[("next-average formula",U+"iterated_ewma_vec.py:get_next_ewma, ewma"),("per-day grouping",U+"experiment_utils.py:_realized_covariance")],["ewma(), realized_ewma(), realized_volas()"])

p("C29","Vectorised and streaming iterated EWMA agree",
 "On complete data the vectorised implementation in the experiments returns the same covariances (and means) at the same times as the streaming library predictor for the same half-lives, warm-ups (at least one, with centering at least two), clip level and mean option, also when there are too few observations for a single prediction; with a rank it returns the factor-regularised version of them.",
 ["inputs","configurations"],"all histories without missing values, half-life pairs, warm-ups, clip levels, mean options, ranks",
 "Neither implementation is compared with the other by any test.",
 [U+"iterated_ewma_vec.py",E],[("vectorised recursion",U+"iterated_ewma_vec.py:iterated_ewma")],["iterated_ewma() of both modules"])

p("C30","Return combination is causal ridge regression; predictors lag their data",
 "The combination weights for time t are the solution of the exponentially weighted ridge regression of the returns on the predictions over exactly the `memory` times before t, with the scale known before t; the combined prediction is the weighted sum of that time's predictions. Lagged and EWMA predictors at t use only returns before t.",
 ["histories","inputs"],"all return and prediction histories, memories, regularisation strengths, lags and half-lives",
 "The experiments package has no tests.",
 [U+"return_combination.py"],[("window slicing before t",U+"return_combination.py:ReturnCombinator.fit"),("shifted predictors",U+"return_combination.py:ewma_predictors, daily_predictors")],["ReturnCombinator.fit(), ewma_predictors(), daily_predictors(), feature_engineer()"])

p("C31","Low-rank iterated EWMA keeps volatilities exact and is exact at low rank",
 "At every emitted time the low-rank iterated EWMA has F F^T + diag(d) with exactly the squared volatilities of the full predictor on the diagonal and non-negative d, at the same times and with the same mean. While the number of observations entering the correlation estimate does not exceed the rank it equals the full iterated EWMA covariance; each later update keeps the leading components (of the matrix scaled to unit diagonal) of the previous factors plus the new adjusted return, with the weights of the exponentially weighted average, and moves the rest of each variance into d.",
 ["histories","inputs"],"all histories without missing or zero adjusted returns, ranks below the number of assets, half-lives, warm-ups, mean options",
 "The experiments package has no tests.",
 [U+"low_rank_ewma.py"],[("low-rank update",U+"low_rank_ewma.py:_low_rank_sum")],["low_rank_iterated_ewma()"],[("F, d","current factor model",U+"low_rank_ewma.py")])

p("C32","Factor model and precision form are inverse; fitting steps descend",
 "Converting a factor model (F, d) with positive d to its precision form and back returns a model with the same covariance, the precision form is the inverse of that covariance, and the reported objective is the negative Gaussian log-likelihood (minus log-determinant of the precision plus its trace product with the target). An iteration of the convex-concave procedure never increases the objective: it minimises the objective with its concave part replaced by the tangent at the current state (the gradient variant goes down it) and keeps the precision positive definite.",
 ["inputs"],"all factor models with positive diagonal, any number of assets and factors, all positive definite targets",
 "The experiments package has no tests.",
 [U+"ccp_regularize.py"],[("constructor, objective, build",U+"ccp_regularize.py:_State, _State2")],["_State and _State2 ek, Gk, objective(), build()"])

p("C33","Error, turnover, yearly and distribution summaries use exactly the right data",
 "The squared error of a prediction stamped t is the squared Frobenius distance to the outer product of the next time's return (missing at the last time), one value per prediction in order. Turnover is the average over consecutive rows of the traded amount relative to the old holdings, in percent per year of 252 days. The yearly Sharpe ratio is the annualised mean over deviation of the returns of that calendar year only, for years with more than 100 returns, years in between being missing, and the trend drawn is the least-squares line through the ratios. The empirical distribution pairs the sorted data with k/n.",
 ["inputs","histories"],"all weight histories, dated return histories with any number of observations per year, samples with ties, prediction orders",
 "The experiments package has no tests.",
 [U+"experiment_utils.py"],[("shifted returns",U+"experiment_utils.py:MSE"),("consecutive differences",U+"experiment_utils.py:turnover"),("grouping by year",U+"experiment_utils.py:yearly_SR")],["MSE(), turnover(), yearly_SR(), ecdf()"])

p("C34","Stored covariance rows and diagonal loading are reproduced exactly",
 "A stored row holding the upper triangle of a covariance matrix, row by row, becomes the symmetric matrix with exactly these entries, for each row of a table in order; diagonal loading by lambda multiplies each variance by one plus lambda and changes no covariance, time, order or label.",
 ["inputs"],"all numbers of assets and rows, all loadings",
 "The experiments package has no tests; a transposed or mis-ordered triangle still gives a symmetric matrix.",
 [U+"experiment_utils.py"],[("triangle masks",U+"experiment_utils.py:from_row_to_covariance"),("diagonal",U+"experiment_utils.py:add_to_diagonal")],["from_row_to_covariance(), from_row_matrix_to_covariance(), add_to_diagonal()"])

p("C35","Factor models are causal, refitted on time, and cover each time once",
 "The factor model construction gives exactly one model for every time from number `memory` on, in order. Exposures are refitted every `update_frequency` times on exactly the `memory` returns before the first time they serve; the factor covariance is the combination (window 10) of the iterated EWMAs of the factor returns under these exposures, with the first expert's variances raised by 5%, and the diagonal is the moving average of the squared unexplained returns up to that time. The full covariance is exposure' x factor covariance x exposure plus the diagonal, and the likelihood scores it on the next return.",
 ["histories","configurations"],"all return histories, numbers of factors, half-life pairs, memories and update frequencies",
 "The experiments package has no tests; block boundaries depend on the length of the history.",
 [U+"factor_model.py"],[("block boundaries",U+"factor_model.py:construct_cmiewma_factor_model"),("experts and combination",U+"factor_model.py:construct_factor_covariance")],
 ["construct_cmiewma_factor_model(), from_factor_to_full_covariance(), factor_log_likelihood()"],[("exposures","current factor exposures",U+"factor_model.py")])

p("C36","Return uncertainties are causal; result tables show each predictor's figures",
 "The uncertainty of an expected return at t is the given number (two by default) of bias-corrected exponentially weighted standard deviations (half-life 125) of that asset's returns before t, and zero while fewer than two of them are known. A result table has one line per predictor, in order, with the predictor's own name, mean return, risk, Sharpe ratio and drawdown to the printed precision, the prescient one last (or left out on request), diluted to the target volatility when one is given.",
 ["inputs","histories"],"all return histories (also with missing returns), any order of predictors in the table, with and without target volatility",
 "The experiments package has no tests.",
 [U+"trading_model.py",U+"portfolio_backtests.py"],[("shifted deviation",U+"trading_model.py:construct_rho"),("loop over predictors",U+"portfolio_backtests.py:create_table")],["construct_rho(), create_table()"])

p("C37","No experiment tool looks ahead, from returns to results",
 "What an experiment tool puts out for time t - rolling, realized, vectorised, low-rank, regularised, EM-fitted, smoothed or combined covariances, EWMA and lagged predictors, engineered features, combined return forecasts and their weights, uncertainties, factor models, likelihoods, portfolio weights - is unaffected by returns after the ones it is entitled to: up to t for covariances, factor models and portfolio weights, before t for return predictors, combined returns and uncertainties, and up to t + 1 for scores and earned portfolio returns. Changing or cutting off later returns changes neither its presence, nor its labels, nor its values.",
 ["inputs","histories"],"all pairs of return histories that agree up to a time and differ or end after it; every tool, index kind and set of options",
 "Look-ahead leaks show as better results, not as failures: no test compares two histories.",
 [U+"experiment_utils.py",U+"iterated_ewma_vec.py",U+"low_rank_ewma.py",U+"return_combination.py",U+"factor_model.py",U+"portfolio_backtests.py",U+"trading_model.py","cvx/covariance/regularization.py"],[("shift of predictors",U+"return_combination.py:daily_predictors"),("shift of returns",U+"portfolio_backtests.py:_get_causal"),("refit dates",U+"factor_model.py:construct_cmiewma_factor_model")],["every function of experiments/utils that turns histories into predictions or results"])
p("C38","Experiment tools leave their inputs alone and do not depend on earlier calls",
 "Running an experiment tool never changes the returns, covariances, means, predictors, factor models or limits it is given, and what it puts out is the same whether it runs first, again, after other tools on the same inputs, or interleaved with them; results handed out earlier never change.",
 ["inputs","schedules","histories"],"all orders and interleavings of repeated and different uses of the same inputs, all input tables and options",
 "Tests call one function once on fresh data.",
 [U+"experiment_utils.py",U+"iterated_ewma_vec.py",U+"return_combination.py",U+"factor_model.py",U+"portfolio_backtests.py",U+"trading_model.py",U+"ccp_regularize.py"],[("copies of inputs",U+"trading_model.py:Trader"),("generators over shared inputs","cvx/covariance/regularization.py")],["every function of experiments/utils that takes tables (add_to_diagonal, which updates the dictionary it returns, excepted)"])

pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
