------------------------------- MODULE Factor -------------------------------
(***************************************************************************)
(* The causal factor model of experiments/utils/factor_model.py.           *)
(*                                                                         *)
(* Every `freq` rows from row `memory` + 1 on (rows count from 1) the      *)
(* exposures are refitted on the `memory` rows before it; they serve for   *)
(* the rows up to the next refit.  Each of these rows gets one model: the  *)
(* factor covariance combined from iterated EWMAs of the factors (computed *)
(* from the first row on with the current exposures), and the average of   *)
(* the squared unexplained returns.                                        *)
(***************************************************************************)
EXTENDS Iewma

C == INSTANCE Combine

Look == 10                                           \* window of the combination
(* blocks as the code makes them: first and last row served, rows fitted on, rows of expert predictions *)
NBlocks(T, memory, freq) == IF T <= memory THEN 0 ELSE ((T - memory - 1) \div freq) + 1
Block(T, memory, freq, b) ==
  LET t == memory + (b - 1) * freq + 1
      e == t + freq - 1
  IN [first |-> t, last |-> IF e < T THEN e ELSE T, fit |-> <<t - memory, t - 1>>, from |-> t - Look]

(* factors and unexplained returns of a row under exposures E (k x n) *)
FactorsOf(E, r)  == MatVec(E, r)
Unexplained(E, r) == LET f == FactorsOf(E, r) IN Vec(Len(r), LAMBDA i : NSub(r[i], NSum(Vec(Len(f), LAMBDA q : NMul(E[q][i], f[q])))))
(* covariance of the returns of a model *)
FullCov(E, G, d) ==
  LET H == MatMul(G, E)                              \* k x n
      X == Transp(E)
      R == MatMul(X, H)
  IN Mat(Len(d), Len(d), LAMBDA i, j : IF i = j THEN NAdd(R[i][i], d[i]) ELSE R[i][j])

(* the machine over rows within a block: experts, diagonal, combination *)
ExpertPars(k, pr) == [n |-> k, hv |-> pr[1], hc |-> pr[2], hm1 |-> pr[1], hm2 |-> pr[2], mpv |-> k, mpc |-> 2 * k, clip |-> "", mean |-> FALSE, nan0 |-> TRUE]
FInit(pairs, k, n) == [es |-> [q \in 1..Len(pairs) |-> ISeed(ExpertPars(k, pairs[q]))], dg |-> EwInit(n), cs |-> C!CSeed]
Loaded(S) == Mat(Rows(S), Rows(S), LAMBDA i, j : IF i = j THEN NMul("1.05", S[i][i]) ELSE NOf(S[i][j]))
(* on: the row is one from which expert predictions are used *)
FStep(s, E, pairs, r, on, W) ==
  LET k == Len(E)
      f == FactorsOf(E, r)
      x == TLCEval([q \in 1..Len(pairs) |-> IStep(ExpertPars(k, pairs[q]), s.es[q], f)])
      S == TLCEval([q \in 1..Len(pairs) |-> IF q = 1 THEN Loaded(x[q].out.cov) ELSE x[q].out.cov])
      u == Unexplained(E, r)
  IN [es |-> TLCEval([q \in 1..Len(pairs) |-> x[q].st]),
      dg |-> EwStep(s.dg, NHalf(21), Vec(Len(u), LAMBDA i : NSq(u[i]))),
      cs |-> IF on THEN C!CStep(s.cs, W, S, [q \in 1..Len(pairs) |-> ZeroVec(k)], f) ELSE s.cs]
=============================================================================
