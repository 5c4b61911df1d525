------------------------------- MODULE Scores -------------------------------
(***************************************************************************)
(* Scores and simple estimators of experiments/utils: Gaussian             *)
(* log-densities of the next return under the latest prediction, rolling   *)
(* windows, realised covariances of a day, smoothed covariances.           *)
(***************************************************************************)
EXTENDS Ewma

Ln2Pi == "1.837877066409345483560659472811235279722794947275566825634"

(* log-density of r under N(m, S), by the Cholesky factor of S *)
LogPdf(S, r, m) ==
  LET n == Len(r)
      L == Chol(S)
      u == SolveLower(L, VSub(r, m))
  IN NNeg(NAdd(NAdd(NMul(NDiv(n, 2), Ln2Pi), NSum(Vec(n, LAMBDA i : NLn(L[i][i])))), NDiv(NDot(u, u), 2)))

(* size of the terms of a log-density, for tolerances *)
LogPdfSize(S, r, m) ==
  LET n == Len(r)
      L == Chol(S)
      u == SolveLower(L, VSub(r, m))
  IN NAdd(NAdd(n, NSum(Vec(n, LAMBDA i : NAbs(NLn(L[i][i]))))), NDot(u, u))

----------------------------------------------------------------------------
(* rolling window: the last `memory` rows *)
Push(win, row, memory) == IF Len(win) < memory THEN Append(win, row) ELSE Append(SubSeq(win, 2, Len(win)), row)
Second(win) == LET n == Len(win[1]) IN Mat(n, n, LAMBDA i, j : NSum(Vec(Len(win), LAMBDA k : NMul(win[k][i], win[k][j]))))
RollVal(win) == MScale(NDiv(1, Len(win)), Second(win))

(* realised covariance of the returns of a day: sum of outer products of the deviations from the day's mean *)
DayMean(day) == Vec(Len(day[1]), LAMBDA i : NDiv(NSum(Vec(Len(day), LAMBDA k : NOf(day[k][i]))), Len(day)))
Realized(day) == LET m == DayMean(day) IN Second([k \in 1..Len(day) |-> VSub(day[k], m)])
RealizedVola(day) == LET S == Second(day) IN Vec(Len(day[1]), LAMBDA i : NSqrt(S[i][i]))

Flat(A) == [k \in 1..(Rows(A) * Cols(A)) |-> A[((k - 1) \div Cols(A)) + 1][((k - 1) % Cols(A)) + 1]]
Unflat(v, n) == Mat(n, n, LAMBDA i, j : v[(i - 1) * n + j])

(* mean squared distance of a prediction to the next outer product *)
SqErr(S, r) == NSum(Vec(Rows(S), LAMBDA i : NSum(Vec(Rows(S), LAMBDA j : NSq(NSub(S[i][j], NMul(r[i], r[j])))))))
=============================================================================
