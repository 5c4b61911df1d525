From 38413f2dc204b31c723e20d1613b5e6d3009b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 01/37] fix: solve(times=...) lost results when fewer than
 window-1 earlier times exist

zero_index - window + 1 was used as a slice start although it can be
negative, in which case it counts from the end of the index.
---
 cvx/covariance/combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 783aed6..23329c4 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -234,7 +234,7 @@ class _CovarianceCombination:
             "times must be consecutive"
 
             # add window - 1 previous time steps to times
-            times = list(all_available_times[zero_index - window + 1 : zero_index]) + times
+            times = list(all_available_times[max(zero_index - window + 1, 0) : zero_index]) + times
 
         Bs = {time: np.column_stack(Lts_at_r.loc[time]) for time in times}
         prod_Bs = pd.Series({time: B.T @ B for time, B in Bs.items()})
-- 
2.43.0


From 411a23b7de61fa8d66c7a2fbf748459979355e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 02/37] fix: do not build a result from the unfinished numbers
 of an unsolved problem

A solver stopping at a limit (user_limit) or reporting infeasibility does not
raise; its iterate was returned as weights. Treat it like a SolverError.
---
 cvx/covariance/combination.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 23329c4..c5bbed4 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -271,6 +271,10 @@ class _CovarianceCombination:
         """
         problem.solve(**kwargs)
 
+        # e.g. an iteration or time limit ends the solve with unfinished numbers
+        if problem.status not in (cvx.OPTIMAL, cvx.OPTIMAL_INACCURATE):
+            raise cvx.SolverError(f"Solver status {problem.status}")
+
         weights = problem.weights
 
         # Get non-shifted L
-- 
2.43.0


From 7f10f5da5db1d2db5f36ef9574473408dc3804b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 03/37] fix: combine experts that are identical or outnumber
 the observations

The window's Gram matrix is then singular and has no Cholesky factor; the
problem itself is well defined.
---
 cvx/covariance/combination.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index c5bbed4..572c5fc 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -65,6 +65,18 @@ def _nu(Ls, means):
     return {time: L.T @ means[time] for time, L in Ls.items()}
 
 
+def _psd_factor(matrix):
+    """
+    Computes a factor F with F @ F.T = matrix; falls back on the eigendecomposition
+    if matrix is singular, e.g., if experts are identical
+    """
+    try:
+        return np.linalg.cholesky(matrix)
+    except np.linalg.LinAlgError:
+        lamda, Q = np.linalg.eigh(matrix)
+        return Q * np.sqrt(np.maximum(lamda, 0))
+
+
 # Declaring namedtuple()
 Result = namedtuple("Result", ["time", "mean", "covariance", "weights"])
 
@@ -241,7 +253,7 @@ class _CovarianceCombination:
         # times = prod_Bs.index
         P = {times[i]: sum(prod_Bs.loc[times[i - window + 1] : times[i]]) for i in range(window - 1, len(times))}
 
-        P_chol = {time: np.linalg.cholesky(matrix) for time, matrix in P.items()}
+        P_chol = {time: _psd_factor(matrix) for time, matrix in P.items()}
 
         # Compute A matrix
         Ls_diag = pd.DataFrame({k: _diag_part(L) for k, L in self.__Ls_shifted.items()})
-- 
2.43.0


From 6f690c5a8299960a693650de5f6d8fc30d483732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 04/37] fix: no NaN loadings for rank deficient covariances in
 low rank format

Zero eigenvalues come out of eigh as tiny negative numbers.
---
 cvx/covariance/regularization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/regularization.py b/cvx/covariance/regularization.py
index f2749de..5639fde 100644
--- a/cvx/covariance/regularization.py
+++ b/cvx/covariance/regularization.py
@@ -63,7 +63,7 @@ def regularize_covariance(sigmas, r, low_rank_format=False):
             cov = vola.reshape(-1, 1) * R.Approximation * vola.reshape(1, -1)
             yield time, pd.DataFrame(cov, index=sigma.columns, columns=sigma.columns)
         else:
-            F = vola.reshape(-1, 1) * R.Loading * np.sqrt(R.Lambda)
+            F = vola.reshape(-1, 1) * R.Loading * np.sqrt(np.maximum(R.Lambda, 0))
             d = np.diag(vola.reshape(-1, 1) * R.D * vola.reshape(1, -1))
             yield (
                 time,
-- 
2.43.0


From 95b84bcb40eb0f2a4f60721c322332048060f94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 05/37] fix: clipping pinned the volatility of a late listed
 asset at zero forever

While the estimate is zero (only zero or missing returns so far) every
observation was clipped to zero.
---
 cvx/covariance/ewma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cvx/covariance/ewma.py b/cvx/covariance/ewma.py
index a61a7c9..786f76b 100644
--- a/cvx/covariance/ewma.py
+++ b/cvx/covariance/ewma.py
@@ -256,9 +256,9 @@ def _general(
 
         # update the moving average
         if clip_at and n >= min_periods + 1:
-            _ewma = _ewma + (1 - beta) * (np.clip(next_val, -clip_at * _ewma, clip_at * _ewma) - _ewma) / (
-                1 - np.power(beta, n + 1)
-            )
+            # there is nothing to clip against while the estimate is zero (asset not traded yet)
+            bound = np.where(_ewma == 0, np.inf, clip_at * _ewma)
+            _ewma = _ewma + (1 - beta) * (np.clip(next_val, -bound, bound) - _ewma) / (1 - np.power(beta, n + 1))
         else:
             _ewma = _ewma + (1 - beta) * (next_val - _ewma) / (1 - np.power(beta, n + 1))
 
-- 
2.43.0


From ec610081bac089adb3ab40af260eb6a4f7396ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 06/37] fix: log_likelihood_sequential returned None

---
 experiments/utils/experiment_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 30c0af7..d2ddad8 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -243,6 +243,8 @@ def log_likelihood_sequential(returns, Sigmas, means=None, scale=1):
             - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
         )
 
+    return ll
+
 
 def rolling_window(returns, memory, min_periods=20):
     min_periods = max(min_periods, 1)
-- 
2.43.0


From 5b56bd7498221ad46cf997cde97b80676eb1cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 07/37] fix: rolling_window weights were off by one

Sigmas[t] averages min(t + 1, memory) outer products and is updated from the
average of min(t, memory) of them; the first return was counted twice and never
left the window.
---
 experiments/utils/experiment_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index d2ddad8..a9bd954 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -258,8 +258,8 @@ def rolling_window(returns, memory, min_periods=20):
     Sigmas[0] = np.outer(returns[0], returns[0])
 
     for t in range(1, returns.shape[0]):
-        alpha_old = 1 / min(t + 1, memory)
-        alpha_new = 1 / min(t + 2, memory)
+        alpha_old = 1 / min(t, memory)
+        alpha_new = 1 / min(t + 1, memory)
 
         if t >= memory:
             Sigmas[t] = alpha_new / alpha_old * Sigmas[t - 1] + alpha_new * (
-- 
2.43.0


From 354ac8de0b6cd34793df20f3024d4cf9a5dbee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 08/37] fix: vectorised iterated_ewma called the dictionary
 version of ewma

ewma was turned into a generator over dictionaries of matrices; every call of
iterated_ewma failed. Give it back an EWMA over arrays.
---
 experiments/utils/iterated_ewma_vec.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/experiments/utils/iterated_ewma_vec.py b/experiments/utils/iterated_ewma_vec.py
index 95f9da3..3f06095 100644
--- a/experiments/utils/iterated_ewma_vec.py
+++ b/experiments/utils/iterated_ewma_vec.py
@@ -99,6 +99,19 @@ def ewma(y, halflife, clip_at=None, min_periods=None):
         # EWMAs.append(EWMA_t)
 
 
+def _ewma_array(y, halflife, clip_at=None, min_periods=None):
+    """
+    EWMA of an array y along its first axis; see get_next_ewma for the parameters
+    """
+    beta = np.exp(-np.log(2) / halflife)
+    EWMAs = np.zeros_like(y)
+    EWMAs[0] = y[0]
+    for t in range(1, y.shape[0]):
+        EWMAs[t] = get_next_ewma(EWMAs[t - 1], y[t], t + 1, beta, clip_at, min_periods)
+
+    return EWMAs
+
+
 def _get_realized_covs(returns):
     """
     param returns: numpy array where rows are vector of asset returns for t=0,1,...
@@ -218,7 +231,7 @@ def iterated_ewma(
     if mean:  # Need to remove one entry for each estimate
         min_periods_vola = max(min_periods_vola, 2)
         min_periods_cov = max(min_periods_cov, 2)
-        returns_mean = ewma(returns.values, halflife=vola_halflife)
+        returns_mean = _ewma_array(returns.values, halflife=vola_halflife)
     else:
         returns_mean = np.zeros_like(returns)
 
@@ -229,7 +242,7 @@ def iterated_ewma(
         clip_at_var = None
     realized_vars = _get_realized_vars(returns.values - returns_mean)
     D = np.sqrt(
-        ewma(
+        _ewma_array(
             realized_vars,
             halflife=vola_halflife,
             clip_at=clip_at_var,
@@ -257,13 +270,13 @@ def iterated_ewma(
 
     ### Correlation estimation
     if mean:
-        returns_adj_mean = ewma(returns_adj, halflife=cov_halflife)
+        returns_adj_mean = _ewma_array(returns_adj, halflife=cov_halflife)
     else:
         returns_adj_mean = np.zeros_like(returns_adj)
     realized_covs = _get_realized_covs(returns_adj - returns_adj_mean)
 
     # Create correlation matrix
-    R_tilde = ewma(realized_covs, halflife=cov_halflife)
+    R_tilde = _ewma_array(realized_covs, halflife=cov_halflife)
 
     # Apply min_periods_cov
     R_tilde = R_tilde[min_periods_cov - 1 :]
-- 
2.43.0


From f3e7938a7389108532b258bdd1a6afb6c4df8b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 09/37] fix: cash dilution was never recomputed for a new
 target or a new backtest

The first dilution of a trader was kept for every later target volatility and
portfolio; the notebooks reset trader.diluted by hand.
---
 experiments/utils/trading_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 9267bbf..a379229 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -209,7 +209,7 @@ class Trader:
         """
         Dilutes the portfolio with cash to achieve a desired volatility.
         """
-        if self.diluted:
+        if self.portfolio_type == "vol_cont":
             print("Already trades cash...")
             return None
         ws_new = []
@@ -261,6 +261,7 @@ class Trader:
             if None, then uncertainty is set to zero. Causal estimates
         """
         self.portfolio_type = portfolio_type
+        self.diluted = False
         self.adjust_factor = adjust_factor
         self.additonal_cons = additonal_cons
         self.C_speedup = C_speedup
@@ -575,6 +576,10 @@ class Trader:
         """
         Computes total daily returns of the portfolio from the weights and indivudal asset returns.
         """
+        if diluted_with_cash and not (self.diluted and sigma_des is None):
+            assert sigma_des is not None
+            self.dilute_with_cash(sigma_des)
+
         rets = []
         for t in range(self.T):
             w_t = self.ws[t]
@@ -586,9 +591,6 @@ class Trader:
                 or diluted_with_cash
             ):
                 if diluted_with_cash:
-                    if not self.diluted == True:
-                        assert sigma_des is not None
-                        self.dilute_with_cash(sigma_des)
                     w_t = self.ws_diluted[t]
                 if rf is None:
                     r_t = np.vstack([r_t, 0])  # Add cash return (last)
-- 
2.43.0


From 410d193d85734f7565b95fbf025912ff743ca6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 10/37] fix: robust minimum risk used the first period's
 volatilities throughout

A misplaced bracket kept the sigma parameter from reaching solve_min_risk.
---
 experiments/utils/trading_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index a379229..50804c3 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -365,7 +365,9 @@ class Trader:
                     all_prob,
                     all_w,
                     all_L_inv_param,
-                    [*self.L_inv_hats.values(), all_sigma_hat_param, all_sigma_hats],
+                    [*self.L_inv_hats.values()],
+                    all_sigma_hat_param,
+                    all_sigma_hats,
                 ),
             )
             pool.close()
-- 
2.43.0


From 25004ed0176087ad8236eaee7429e03410707222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 11/37] fix: constraints of earlier backtests leaked into later
 ones

cons is a mutable default (or the caller's list) that backtest appended to.
---
 experiments/utils/trading_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 50804c3..8af77c1 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -260,6 +260,7 @@ class Trader:
         param rhos: pandas DataFrame of uncertainty in expected returns
             if None, then uncertainty is set to zero. Causal estimates
         """
+        cons = list(cons)  # constraints are added below
         self.portfolio_type = portfolio_type
         self.diluted = False
         self.adjust_factor = adjust_factor
-- 
2.43.0


From ced786a5adc8fb7303118a831230b9e3d476cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 12/37] fix: max_sharpe backtest read an attribute that does
 not exist

Lt_inv_hats were the transposed inverse factors; L_inv_hats holds them
untransposed.
---
 experiments/utils/trading_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 8af77c1..df05067 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -193,7 +193,7 @@ class Trader:
         param r_hat: return
 
         """
-        L_inv_param.value = L_inv.T
+        L_inv_param.value = L_inv
         r_hat_param.value = r_hat
         prob.solve(solver="ECOS")
 
@@ -545,7 +545,7 @@ class Trader:
             prob = cp.Problem(cp.Minimize(obj), cons)
 
             # Solve problem once to speed up later solves
-            L_inv_param.value = [*self.Lt_inv_hats.values()][0].T
+            L_inv_param.value = [*self.L_inv_hats.values()][0]
             r_hat_param.value = np.ones((self.n, 1))
             prob.solve(solver="ECOS")
 
@@ -564,7 +564,7 @@ class Trader:
                     all_z,
                     all_L_inv_param,
                     all_r_hat_param,
-                    [*self.Lt_inv_hats.values()],
+                    [*self.L_inv_hats.values()],
                     all_r_hats,
                 ),
             )
-- 
2.43.0


From 054b6163126276e3e420d5a5c6c8321004785edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 13/37] fix: ReturnCombinator scales took the half-life as a
 center of mass

---
 experiments/utils/return_combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/return_combination.py b/experiments/utils/return_combination.py
index 96cf3b3..f8a63a4 100644
--- a/experiments/utils/return_combination.py
+++ b/experiments/utils/return_combination.py
@@ -170,7 +170,7 @@ class ReturnCombinator:
         ]
 
         variances = [
-            squared_prediction.ewm(halflife).mean().shift(1)
+            squared_prediction.ewm(halflife=halflife).mean().shift(1)
             for squared_prediction in squared_returns_predictions
         ]
 
-- 
2.43.0


From c016e428766f33aa76cb402f75ed84d8d190a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 14/37] fix: log-likelihoods failed for integer asset labels

isna()[0] looks up the label 0, not the first asset.
---
 experiments/utils/experiment_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index a9bd954..6308a6b 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -120,7 +120,7 @@ def log_likelihood_low_rank(returns, Sigmas, means=None):
         # TODO: forming the covariance matrix is bad...
         cov = low_rank.F @ (low_rank.F).T + np.diag(low_rank.d)
 
-        if not returns.loc[time].isna()[0]:
+        if not returns.loc[time].isna().iloc[0]:
             if means is not None:
                 m = means.loc[time].values.reshape(-1, 1)
             ll.append(
@@ -153,7 +153,7 @@ def log_likelihood_regularized(returns, Sigmas, means=None, r=None):
 
     if r is not None:
         for time, cov in regularize_covariance(Sigmas, r=r):
-            if not returns.loc[time].isna()[0]:
+            if not returns.loc[time].isna().iloc[0]:
                 if means is not None:
                     m = means.loc[time].values.reshape(-1, 1)
                 ll.append(
@@ -164,7 +164,7 @@ def log_likelihood_regularized(returns, Sigmas, means=None, r=None):
                 times.append(time)
     else:
         for time, cov in Sigmas.items():
-            if not returns.loc[time].isna()[0]:
+            if not returns.loc[time].isna().iloc[0]:
                 if means is not None:
                     m = means.loc[time].values.reshape(-1, 1)
                 ll.append(
-- 
2.43.0


From e898dfe6a42fdd4d5b3b65a13f13ed9aeee1e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 15/37] fix: diluted reports of a portfolio that trades cash
 used another portfolio

ws_diluted of an earlier backtest, or none at all, was reported although the
portfolio needs no dilution.
---
 experiments/utils/trading_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index df05067..93fc809 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -209,8 +209,9 @@ class Trader:
         """
         Dilutes the portfolio with cash to achieve a desired volatility.
         """
-        if self.portfolio_type == "vol_cont":
+        if self.portfolio_type in ("vol_cont", "mean_variance"):
             print("Already trades cash...")
+            self.ws_diluted = self.ws
             return None
         ws_new = []
         for i, t in enumerate(self.returns.index):
-- 
2.43.0


From cea475c554626c1bd717e24918cb4289375bbe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 16/37] fix: minimum risk and risk parity backtests failed with
 the Clarabel solver

A problem solved once holds Clarabel's solution object, which cannot be sent to
the worker processes. Leave the first solve to the workers.
---
 experiments/utils/trading_model.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 93fc809..4de6b90 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -345,12 +345,6 @@ class Trader:
                     self.sigma_hats.values[t].reshape(-1, 1) for t in range(self.T)
                 ]
 
-                # Solve problem with random inputs once to speed up later solves
-                L_inv_param.value = [*self.L_inv_hats.values()][0]
-                if portfolio_type == "robust_min_risk":
-                    sigma_hat_param.value = all_sigma_hats[0]
-                prob.solve()
-
             # solve the problem for each date
             all_w = [w for _ in range(self.T)]
             all_L_inv_param = [L_inv_param for _ in range(self.T)]
@@ -512,11 +506,6 @@ class Trader:
             risk = cp.norm2(cp.sum(cp.multiply(L_inv_param, w.T), axis=1))
             prob = cp.Problem(cp.Minimize(1 / 2 * risk - cp.log(cp.geo_mean(w))))
 
-            # Solve once for speedup later
-            # Solve problem with random inputs once to speed up later solves
-            L_inv_param.value = [*self.L_inv_hats.values()][0]
-            prob.solve()
-
             all_w = [w for _ in range(self.T)]
             all_L_inv_param = [L_inv_param for _ in range(self.T)]
             all_prob = [prob for _ in range(self.T)]
-- 
2.43.0


From 393a674323eb615539040a024b550d09e2ca01da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 17/37] fix: vol_cont backtest failed on the shape of the
 solver's weights

They come as a T x n x 1 array, which does not broadcast with T x 1 cash weights.
---
 experiments/utils/trading_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 4de6b90..75aaf5f 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -158,7 +158,7 @@ class Trader:
 
         sigma_r = obj
         w_cash = (1 - sigma_des / sigma_r).reshape(-1, 1)
-        ws = (1 - w_cash) * ws
+        ws = (1 - w_cash) * ws.reshape(len(ws), -1)
 
         return np.hstack([ws, w_cash])
 
-- 
2.43.0


From 7791ad3f54743e1c9e9d3359dd742230b9af7562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 18/37] fix: combination failed for period indices

---
 cvx/covariance/combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 572c5fc..62f2e11 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -259,7 +259,7 @@ class _CovarianceCombination:
         Ls_diag = pd.DataFrame({k: _diag_part(L) for k, L in self.__Ls_shifted.items()})
 
         A = {
-            times[i]: _A(Ls_diag.truncate(before=times[i - window + 1], after=times[i]), self.K)
+            times[i]: _A(Ls_diag.loc[times[i - window + 1] : times[i]], self.K)
             for i in range(window - 1, len(times))
         }
 
-- 
2.43.0


From 820871d411613afdb78717e87ef62ca98baa9958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 19/37] fix: predictors raised on histories shorter than the
 warm-up

---
 cvx/covariance/ewma.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cvx/covariance/ewma.py b/cvx/covariance/ewma.py
index 786f76b..2a9a170 100644
--- a/cvx/covariance/ewma.py
+++ b/cvx/covariance/ewma.py
@@ -9,8 +9,9 @@ from pandas._typing import TimedeltaConvertibleTypes
 IEWMA = namedtuple("IEWMA", ["time", "mean", "covariance", "volatility"])
 
 
-def _generator2frame(generator):
-    return pd.DataFrame(dict(generator)).transpose()
+def _generator2frame(generator, columns):
+    # the columns are needed as long as the generator is still warming up
+    return pd.DataFrame(dict(generator), index=columns).transpose()
 
 
 def _variance(returns, halflife, min_periods=0, clip_at=None):
@@ -44,7 +45,8 @@ def volatility(returns, halflife, min_periods=0, clip_at=None):
     else:
         clip_at_var = None
 
-    return np.sqrt(_generator2frame(_variance(returns, halflife, min_periods=min_periods, clip_at=clip_at_var)))
+    variance = _variance(returns, halflife, min_periods=min_periods, clip_at=clip_at_var)
+    return np.sqrt(_generator2frame(variance, columns=returns.columns))
 
 
 def center(returns, halflife, min_periods=0, mean_adj=False):
@@ -65,7 +67,8 @@ def center(returns, halflife, min_periods=0, mean_adj=False):
                 data=returns,
                 halflife=halflife,
                 min_periods=min_periods,
-            )
+            ),
+            columns=returns.columns,
         )
         return (returns - mean).dropna(how="all", axis=0), mean
     else:
@@ -244,6 +247,9 @@ def _general(
 
     beta = 1 - alpha
 
+    if len(y) == 0:
+        return
+
     # first row, important to initialize the _ewma variable
     _ewma = fct(y[0])
     yield f(k=0)
-- 
2.43.0


From 725515622053a84b34dc6e3d48529e54632c9ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 20/37] fix: solve raised when there are fewer than two
 predictions

---
 cvx/covariance/combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 62f2e11..11fca30 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -225,7 +225,7 @@ class _CovarianceCombination:
         """
         # If window is None, use all available data; cap window at length of data
         window = window or len(self.__Ls_shifted)
-        window = min(window, len(self.__Ls_shifted))
+        window = max(min(window, len(self.__Ls_shifted)), 1)
 
         # Compute P matrix and its Cholesky factor
         Lts_at_r = pd.DataFrame(
-- 
2.43.0


From 16ac5cf6529daa7fc1463bb598dde0f1ce9df61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 21/37] fix: reports of the diluted vol_cont portfolio without
 a target used an earlier portfolio

backtest() marks a vol_cont portfolio as diluted but left ws_diluted as it was,
so get_total_returns(diluted_with_cash=True) read the holdings of an earlier
dilution, or failed when there was none.
---
 experiments/utils/trading_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 75aaf5f..57d165b 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -564,6 +564,8 @@ class Trader:
             ws = np.array(ws)
 
         self.ws = ws.reshape(self.T, -1)
+        if self.diluted:  # already trades cash
+            self.ws_diluted = self.ws
 
     def get_total_returns(self, diluted_with_cash=False, sigma_des=None, rf=None):
         """
-- 
2.43.0


From 535c179bc01a539ba33d625acb5d60ebb914ed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 22/37] fix: risk of excess return reports ignored the adjust
 factor

The mean in the same report, and the risk without excess=True, are divided by it.
---
 experiments/utils/trading_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 57d165b..3d96b4f 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -641,7 +641,7 @@ class Trader:
             assert rf is not None
             excess_returns = self.rets / self.adjust_factor - rf
             mean_return = np.mean(excess_returns) * 252
-            stdev = np.std(self.rets) * np.sqrt(252)
+            stdev = np.std(self.rets / self.adjust_factor) * np.sqrt(252)
             # mean_return = (np.mean(self.rets/self.adjust_factor) - np.mean(rf))* 252
             # stdev = np.std(self.rets / self.adjust_factor-rf) * np.sqrt(252)
         else:
-- 
2.43.0


From dcc15a0cfe468b083ed3df0ac711c1852f0e665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 23/37] fix: Trader could not be constructed with rhos

The constructor compared an attribute that only backtest() sets.
---
 experiments/utils/trading_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 3d96b4f..1ee398e 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -55,8 +55,8 @@ class Trader:
             assert list(self.returns.columns) == list(self.r_hats.columns)
 
         if rhos is not None:
-            assert list(self.returns.index) == list(self.rhos.index)
-            assert list(self.returns.columns) == list(self.rhos.columns)
+            assert list(self.returns.index) == list(rhos.index)
+            assert list(self.returns.columns) == list(rhos.columns)
 
         # Generate dataframe of standard deviations
         sigma_hats = np.array(sigma_hats)
-- 
2.43.0


From f53dd73feec139835c188283b8ca374cd629cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 24/37] fix: realised covariance and volatility of a day with a
 single return

---
 experiments/utils/experiment_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 6308a6b..0527567 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -10,7 +10,7 @@ from experiments.utils.iterated_ewma_vec import ewma
 
 def _realized_covariance(returns):
     for time in returns.index.unique():
-        returns_temp = returns.loc[time]
+        returns_temp = returns.loc[[time]]
         T_temp = len(returns_temp)
 
         yield time, returns_temp.cov(ddof=0) * T_temp
@@ -29,7 +29,7 @@ def realized_ewma(returns, halflife, clip_at=None, min_periods=None):
 
 def realized_volas(returns):
     for time in returns.index.unique():
-        yield time, np.sqrt((returns.loc[time] ** 2).sum(axis=0))
+        yield time, np.sqrt((returns.loc[[time]] ** 2).sum(axis=0))
 
 
 def MSE(returns, covariances):
-- 
2.43.0


From 9e030b346e751a5490cc09f91fb38e48e8c609dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 25/37] fix: log-likelihood of many assets (determinant under-
 or overflows)

---
 experiments/utils/experiment_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 0527567..a38c9e7 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -89,10 +89,10 @@ def turnover(weights):
 def _single_log_likelihood(r, Sigma, m):
     n = len(r)
     Sigma_inv = np.linalg.inv(Sigma)
-    det = np.linalg.det(Sigma)
+    logdet = np.linalg.slogdet(Sigma)[1]
     return (
         -n / 2 * np.log(2 * np.pi)
-        - 1 / 2 * np.log(det)
+        - 1 / 2 * logdet
         - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
     )
 
@@ -198,12 +198,12 @@ def log_likelihood(returns, Sigmas, means=None, scale=1):
     means = means * scale
     Sigmas = Sigmas * scale**2
 
-    dets = np.linalg.det(Sigmas).reshape(len(Sigmas), 1, 1)
+    logdets = np.linalg.slogdet(Sigmas)[1].reshape(len(Sigmas), 1, 1)
     Sigma_invs = np.linalg.inv(Sigmas)
 
     return (
         -n / 2 * np.log(2 * np.pi)
-        - 1 / 2 * np.log(dets)
+        - 1 / 2 * logdets
         - 1
         / 2
         * np.transpose(returns - means, axes=(0, 2, 1))
@@ -234,12 +234,12 @@ def log_likelihood_sequential(returns, Sigmas, means=None, scale=1):
         r = returns[t].reshape(n, 1)
         m = means[t].reshape(n, 1)
         Sigma = Sigmas[t]
-        det = np.linalg.det(Sigma)
+        logdet = np.linalg.slogdet(Sigma)[1]
         Sigma_inv = np.linalg.inv(Sigma)
 
         ll[t] = (
             -n / 2 * np.log(2 * np.pi)
-            - 1 / 2 * np.log(det)
+            - 1 / 2 * logdet
             - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
         )
 
-- 
2.43.0


From a0f1cd527294eeb5aea289c0478e4caf21648a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 26/37] fix: vectorised and low-rank iterated EWMA on histories
 shorter than the warm-up

---
 experiments/utils/iterated_ewma_vec.py | 4 ++++
 experiments/utils/low_rank_ewma.py     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/experiments/utils/iterated_ewma_vec.py b/experiments/utils/iterated_ewma_vec.py
index 3f06095..1bd6299 100644
--- a/experiments/utils/iterated_ewma_vec.py
+++ b/experiments/utils/iterated_ewma_vec.py
@@ -235,6 +235,10 @@ def iterated_ewma(
     else:
         returns_mean = np.zeros_like(returns)
 
+    # Not enough observations for a single prediction
+    if len(returns) < min_periods_vola + min_periods_cov - 1:
+        return IEWMA(mean={}, covariance={}) if mean else {}
+
     ### Volatility estimation
     if clip_at:
         clip_at_var = clip_at**2
diff --git a/experiments/utils/low_rank_ewma.py b/experiments/utils/low_rank_ewma.py
index 83e694c..414e62f 100644
--- a/experiments/utils/low_rank_ewma.py
+++ b/experiments/utils/low_rank_ewma.py
@@ -206,6 +206,10 @@ def _general_low_rank(
     """
     n = y.shape[1]
 
+    # no observations, no estimates
+    if len(y) == 0:
+        return
+
     def f(k):
         if k < min_periods - 1:
             return times[k], LowRankCovariance(
-- 
2.43.0


From 7b431fd7455aeb672ff0319753c9d657407cc096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 27/37] fix: return combination when the returns have more
 dates than the predictors

---
 experiments/utils/return_combination.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/return_combination.py b/experiments/utils/return_combination.py
index f8a63a4..a41eec5 100644
--- a/experiments/utils/return_combination.py
+++ b/experiments/utils/return_combination.py
@@ -208,7 +208,8 @@ class ReturnCombinator:
             t_start = times[max(0, t - memory)]
             t_end = times[t - 1]
 
-            returns_temp = returns.loc[t_start:t_end]
+            # returns at the times of the predictors
+            returns_temp = returns.loc[times[max(0, t - memory) : t]]
 
             t_next = times[t]
             for i, asset in enumerate(returns.columns):
-- 
2.43.0


From fa3de98540dcddbdf193ee4eb4b8e4c788a790bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:34 +0000
Subject: [PATCH 28/37] fix: the PRESCIENT row of the result table was labelled
 with the last predictor's name

---
 experiments/utils/portfolio_backtests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/portfolio_backtests.py b/experiments/utils/portfolio_backtests.py
index bea7078..7254f2e 100644
--- a/experiments/utils/portfolio_backtests.py
+++ b/experiments/utils/portfolio_backtests.py
@@ -45,7 +45,8 @@ def _create_table_helper(metrics, prescient=True):
             )
     print("   \\hline")
     if prescient:
-        metric = metrics["PRESCIENT"]
+        name = "PRESCIENT"
+        metric = metrics[name]
         print(
             "   {} & {:.1f}\\% & {:.1f}\\% & {:.1f} & {:.0f}\\% \\\\".format(
                 name,
-- 
2.43.0


From ece9a8c0cbf757e9c5818c65de2bab27590cff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 29/37] fix: trend of the yearly Sharpe ratios was shifted by a
 year, and missing when a year is left out

---
 experiments/utils/experiment_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index a38c9e7..dc050a5 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -57,8 +57,9 @@ def yearly_SR(trader, plot=True, regression_line=True):
     SRs = means / stds
 
     if plot:
-        # Fit regression line to SRs
-        coefficients = np.polyfit(SRs.index.year + 1, SRs.values, 1)
+        # Fit regression line to SRs of the years that are kept
+        SRs_kept = SRs.dropna()
+        coefficients = np.polyfit(SRs_kept.index.year, SRs_kept.values, 1)
         sr_pred = np.polyval(coefficients, SRs.index.year)
 
         plt.plot(SRs, marker="o")
-- 
2.43.0


From f88658ccf857a72b1ee427c3feafeebbf6d0aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 30/37] fix: iterated EWMA estimated correlations in label
 order when the index is not sorted

---
 cvx/covariance/ewma.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cvx/covariance/ewma.py b/cvx/covariance/ewma.py
index 2a9a170..21db77d 100644
--- a/cvx/covariance/ewma.py
+++ b/cvx/covariance/ewma.py
@@ -70,7 +70,8 @@ def center(returns, halflife, min_periods=0, mean_adj=False):
             ),
             columns=returns.columns,
         )
-        return (returns - mean).dropna(how="all", axis=0), mean
+        # same rows in the same order, also if the index is not sorted
+        return (returns - mean.reindex(returns.index)).dropna(how="all", axis=0), mean
     else:
         return returns, 0.0 * returns
 
@@ -163,7 +164,7 @@ def iterated_ewma(
     # make sure adj is NaN where vola is zero or returns are
     # NaN. This handles NaNs (which in some sense is the same as a constant
     # return series, i.e., vola = 0)
-    adj = clip((returns / vola), clip_at=clip_at)  # if vola is zero, adj is NaN
+    adj = clip((returns / vola.reindex(returns.index)), clip_at=clip_at)  # if vola is zero, adj is NaN
     adj = adj.fillna(0.0)
 
     # center the adj returns again
-- 
2.43.0


From 8fee685af9b33818e132c8523383cb57d8ffa429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 31/37] fix: low-rank iterated EWMA on an index that is not
 sorted

---
 experiments/utils/low_rank_ewma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/low_rank_ewma.py b/experiments/utils/low_rank_ewma.py
index 414e62f..9182c18 100644
--- a/experiments/utils/low_rank_ewma.py
+++ b/experiments/utils/low_rank_ewma.py
@@ -72,7 +72,7 @@ def low_rank_iterated_ewma(
     )
 
     # adj the returns
-    adj = clip((returns / vola), clip_at=clip_at)
+    adj = clip((returns / vola.reindex(returns.index)), clip_at=clip_at)
 
     # center the adj returns again? Yes, I think so
     # TODO: Check if this is correct half life
-- 
2.43.0


From 7ff4bf8525811365e045dc710058bea9711467c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:44 +0000
Subject: [PATCH 32/37] fix: backtests without dates trade the period all
 predictors cover, not that of the last one in the list

---
 experiments/utils/portfolio_backtests.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/portfolio_backtests.py b/experiments/utils/portfolio_backtests.py
index 7254f2e..e892d11 100644
--- a/experiments/utils/portfolio_backtests.py
+++ b/experiments/utils/portfolio_backtests.py
@@ -115,8 +115,17 @@ class PortfolioBacktest(ABC):
         self.cov_predictors = cov_predictors
         self.mean_predictors = mean_predictors
         self.names = names
-        self.start_date = start_date or list(cov_predictor.keys())[0]
-        self.end_date = end_date or list(cov_predictor.keys())[-1]
+
+        # the period that all predictors cover, unless dates are given
+        position = returns.index.get_loc
+        self.start_date = start_date or max(
+            (list(cov_predictor.keys())[0] for cov_predictor in cov_predictors),
+            key=position,
+        )
+        self.end_date = end_date or min(
+            (list(cov_predictor.keys())[-1] for cov_predictor in cov_predictors),
+            key=position,
+        )
 
     @abstractmethod
     def backtest(self):
-- 
2.43.0


From 803c945ba5906b5539e1f20c0f55c1213816ae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:07 +0000
Subject: [PATCH 33/37] fix: a backtest that starts or ends at the date 0
 trades the dates it was given

---
 experiments/utils/portfolio_backtests.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/experiments/utils/portfolio_backtests.py b/experiments/utils/portfolio_backtests.py
index e892d11..73f2f4e 100644
--- a/experiments/utils/portfolio_backtests.py
+++ b/experiments/utils/portfolio_backtests.py
@@ -118,14 +118,18 @@ class PortfolioBacktest(ABC):
 
         # the period that all predictors cover, unless dates are given
         position = returns.index.get_loc
-        self.start_date = start_date or max(
-            (list(cov_predictor.keys())[0] for cov_predictor in cov_predictors),
-            key=position,
-        )
-        self.end_date = end_date or min(
-            (list(cov_predictor.keys())[-1] for cov_predictor in cov_predictors),
-            key=position,
-        )
+        self.start_date = start_date
+        if start_date is None:
+            self.start_date = max(
+                (list(cov_predictor.keys())[0] for cov_predictor in cov_predictors),
+                key=position,
+            )
+        self.end_date = end_date
+        if end_date is None:
+            self.end_date = min(
+                (list(cov_predictor.keys())[-1] for cov_predictor in cov_predictors),
+                key=position,
+            )
 
     @abstractmethod
     def backtest(self):
-- 
2.43.0


From 3ea814859ef4655d6be3f206e7e5f44c41089eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:26 +0000
Subject: [PATCH 34/37] fix: the earlier return combination raised when the
 returns have more dates than the predictors

---
 experiments/utils/return_combination.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/experiments/utils/return_combination.py b/experiments/utils/return_combination.py
index a41eec5..7dc7980 100644
--- a/experiments/utils/return_combination.py
+++ b/experiments/utils/return_combination.py
@@ -281,11 +281,10 @@ class ReturnCombinatorOld:
         all_weights = np.nan * returns_predictions.iloc[self.memory :].copy()
 
         for t in trange(self.memory, len(times)):
-            t_start = times[t - self.memory]
-            t_end = times[t - 1]
-            self.returns_param.value = returns.loc[t_start:t_end].values
+            window = times[t - self.memory : t]
+            self.returns_param.value = returns.loc[window].values
             self.returns_predictions_param.value = returns_predictions.loc[
-                t_start:t_end
+                window
             ].values
             self.problem.solve(ignore_dpp=True)
 
-- 
2.43.0


From 6c116effc86e73c4f9e3094d2e1d54fd01b82089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:28 +0000
Subject: [PATCH 35/37] fix: smoothing covariances with clipping blew up
 negative covariances and pinned zeros

The bounds were +-clip_at times the running average: with a negative average
they are the wrong way round and every observation became clip_at times the
average; with a zero average every later observation was clipped to zero.
---
 experiments/utils/iterated_ewma_vec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/iterated_ewma_vec.py b/experiments/utils/iterated_ewma_vec.py
index 1bd6299..cea9273 100644
--- a/experiments/utils/iterated_ewma_vec.py
+++ b/experiments/utils/iterated_ewma_vec.py
@@ -28,9 +28,9 @@ def get_next_ewma(EWMA, y_last, t, beta, clip_at=None, min_periods=None):
     if clip_at:
         assert min_periods, "min_periods must be specified if clip_at is specified"
         if t >= min_periods + 2:
-            return old_weight * EWMA + new_weight * np.clip(
-                y_last, -clip_at * EWMA, clip_at * EWMA
-            )
+            # covariances can be negative, and there is nothing to clip against while the estimate is zero
+            bound = np.where(EWMA == 0, np.inf, clip_at * np.abs(EWMA))
+            return old_weight * EWMA + new_weight * np.clip(y_last, -bound, bound)
 
     return old_weight * EWMA + new_weight * y_last
 
-- 
2.43.0


From 705761539199e127bb1c7dca558d86ced6deaf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:38 +0000
Subject: [PATCH 36/37] fix: the gradient variant of the convex-concave
 procedure diverged

With the full step hardcoded an iteration of _State2 could raise the objective
or leave the positive definite matrices (LinAlgError or nan in build).
---
 experiments/utils/ccp_regularize.py | 33 ++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/ccp_regularize.py b/experiments/utils/ccp_regularize.py
index 65658fd..8a02a8b 100644
--- a/experiments/utils/ccp_regularize.py
+++ b/experiments/utils/ccp_regularize.py
@@ -158,6 +158,23 @@ def _grad_e(e, G, common_factor):
     return -(e_inv.flatten() + np.diag(common_factor @ (G.T * e_inv.T)))
 
 
+def _majorant(e, G, Sigma_at_Gk, Sigma):
+    """
+    The objective with its concave part replaced by the tangent at Gk, up to a
+    constant; infinite where E-GG^T is not positive definite
+    """
+    try:
+        L = np.linalg.cholesky(np.block([[np.diag(e), G], [G.T, np.eye(G.shape[1])]]))
+    except np.linalg.LinAlgError:
+        return np.inf
+
+    return (
+        -2 * np.sum(np.log(np.diag(L)))
+        + e @ np.diag(Sigma)
+        - 2 * np.sum(Sigma_at_Gk * G)
+    )
+
+
 def _solve_proximal_gradient(e_init, G_init, Gk, Sigma, maxiters=100):
     ej = e_init.copy()
     Gj = G_init.copy()
@@ -168,9 +185,19 @@ def _solve_proximal_gradient(e_init, G_init, Gk, Sigma, maxiters=100):
         G_grad = _grad_G(common_factor)
         e_grad = _grad_e(ej, Gj, common_factor)
 
-        # TODO: hardcoded
+        # halve the step until it leads downhill; a full one may even leave the
+        # positive definite matrices
         alpha = 1
-        ej = (ej - (e_grad + np.diag(Sigma))) * alpha
-        Gj = (Gj - (G_grad - 2 * Sigma_at_Gk)) * alpha
+        value = _majorant(ej, Gj, Sigma_at_Gk, Sigma)
+        while alpha > 1e-12:
+            e_new = ej - alpha * (e_grad + np.diag(Sigma))
+            G_new = Gj - alpha * (G_grad - 2 * Sigma_at_Gk)
+            if _majorant(e_new, G_new, Sigma_at_Gk, Sigma) <= value:
+                break
+            alpha = alpha / 2
+        else:
+            return ej, Gj
+
+        ej, Gj = e_new, G_new
 
     return ej, Gj
-- 
2.43.0


From bc402e12eeaf74c7bce71392a63c52e592f88263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:31 +0000
Subject: [PATCH 37/37] fix: combination of experts with a missing return
 raised; it counts as zero, as in the predictions

---
 cvx/covariance/combination.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 11fca30..12ef1ec 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -227,9 +227,10 @@ class _CovarianceCombination:
         window = window or len(self.__Ls_shifted)
         window = max(min(window, len(self.__Ls_shifted)), 1)
 
-        # Compute P matrix and its Cholesky factor
+        # Compute P matrix and its Cholesky factor; a missing return counts as zero
+        returns = self.returns.fillna(0.0)
         Lts_at_r = pd.DataFrame(
-            {key: _B_t_col(Ls, self.__nus_shifted[key], self.returns) for key, Ls in self.__Ls_shifted.items()}
+            {key: _B_t_col(Ls, self.__nus_shifted[key], returns) for key, Ls in self.__Ls_shifted.items()}
         )
 
         # time steps to solve the problem at
-- 
2.43.0

