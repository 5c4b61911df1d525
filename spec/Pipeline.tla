------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The experiment tools as pipelines of stages over a history of returns.  *)
(*                                                                         *)
(* A stream is a function from times 1..T to values; None marks a time     *)
(* without a result.  Values are free terms: the sequence of everything a  *)
(* result was computed from, so two results are equal exactly when all     *)
(* they depend on is equal.  Horizon(tool, t) is the last return a result  *)
(* stamped t may depend on; Known(tool, t) the last return that must have  *)
(* arrived for it to be there at all.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

None == <<>>

Stages == {"estimate", "each", "window", "refit", "before", "fit", "score", "hold"}

Chains ==
  [ rolling        |-> <<"estimate">>,                     \* covariances of the last returns
    realized       |-> <<"estimate">>,                     \* intraday returns to daily (co)variances
    vec            |-> <<"estimate">>,                     \* vectorised iterated EWMA
    low            |-> <<"estimate">>,                     \* low-rank iterated EWMA
    regularize     |-> <<"estimate", "each">>,
    em             |-> <<"estimate", "each">>,
    ccp            |-> <<"estimate", "each">>,
    rows           |-> <<"estimate", "each">>,             \* covariances as rows
    smooth         |-> <<"estimate", "estimate">>,         \* EWMA of covariances
    comb           |-> <<"estimate", "window">>,           \* covariance combination
    split          |-> <<"each">>,                         \* engineered features of predictors
    ll             |-> <<"estimate", "each", "score">>,    \* likelihoods of the returns after the prediction
    daily          |-> <<"before">>,                       \* lagged and EWMA predictors of the next return
    rho            |-> <<"before">>,                       \* uncertainty radius of the mean
    retcomb        |-> <<"before", "fit">>,                \* return combination
    lasso          |-> <<"before", "fit">>,
    factor         |-> <<"refit", "window">>,              \* factor model, refitted now and then
    factor_score   |-> <<"refit", "window", "score">>,
    backtest       |-> <<"estimate", "hold">>,             \* weights held from t to t + 1
    backtest_score |-> <<"estimate", "hold", "score">> ]   \* what they earned
Tools == DOMAIN Chains

(* what each stage makes of stream s and of the returns x at time t *)
Between(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, b)
At(s, t) == IF t \in DOMAIN s THEN s[t] ELSE None

Stage(st, s, x, t, memory) ==
  CASE st = "estimate" -> <<"e", Between(s, 1, t)>>
    [] st = "each"     -> IF At(s, t) = None THEN None ELSE <<"f", s[t]>>
    [] st = "window"   -> IF t < memory \/ At(s, t) = None THEN None ELSE <<"w", Between(s, t - memory + 1, t)>>
    [] st = "refit"    -> <<"r", Between(s, 1, (t \div memory) * memory), s[t]>>
    [] st = "before"   -> IF t = 1 THEN None ELSE <<"b", Between(s, 1, t - 1)>>
    [] st = "fit"      -> IF At(s, t) = None THEN None ELSE <<"c", s[t], Between(s, 1, t - 1), Between(x, 1, t - 1)>>
    [] st = "score"    -> IF t = Len(x) \/ At(s, t) = None THEN None ELSE <<"s", s[t], x[t + 1]>>
    [] st = "hold"     -> IF t = Len(x) \/ At(s, t) = None THEN None ELSE <<"h", s[t]>>

RECURSIVE Through(_, _, _, _, _)
Through(chain, k, s, x, memory) ==
  IF k > Len(chain) THEN s
  ELSE Through(chain, k + 1, [t \in 1..Len(x) |-> Stage(chain[k], s, x, t, memory)], x, memory)

Output(tool, x, memory) == Through(Chains[tool], 1, [t \in 1..Len(x) |-> <<"x", x[t]>>], x, memory)

(* how far a stage sees when its stream sees up to h at time t *)
Sees(st, h, t) ==
  CASE st \in {"estimate", "window", "refit", "each", "hold"} -> h
    [] st = "before" -> h - 1
    [] st = "fit"    -> IF h > t - 1 THEN h ELSE t - 1
    [] st = "score"  -> IF h > t + 1 THEN h ELSE t + 1
Needs(st, h, t) == IF st = "hold" THEN t + 1 ELSE Sees(st, h, t)

RECURSIVE Fold(_, _, _, _, _)
Fold(f(_, _, _), chain, k, h, t) == IF k > Len(chain) THEN h ELSE Fold(f, chain, k + 1, f(chain[k], h, t), t)

Horizon(tool, t) == Fold(Sees, Chains[tool], 1, t, t)
Max(a, b) == IF a > b THEN a ELSE b
(* a result can only be missing or there for a reason that is known by then *)
Known(tool, t) == Max(Max(Fold(Needs, Chains[tool], 1, t, t), Horizon(tool, t)), t)
=============================================================================
