------------------------------- MODULE Iewma --------------------------------
(***************************************************************************)
(* The iterated EWMA predictor of cvx/covariance/ewma.py, one step per     *)
(* row of the returns frame.  A step consumes a row and either emits a     *)
(* prediction for that row or nothing.                                     *)
(*                                                                         *)
(* Parameters p: n, hv, hc (volatility / correlation half-life), hm1, hm2  *)
(* (mean half-lives), mpv, mpc (warm-ups), clip ("" = none), mean, nan0.   *)
(***************************************************************************)
EXTENDS Ewma

CONSTANT Params          \* the parameter records to consider
VARIABLES p,             \* parameters of this run
          st,            \* accumulators
          out            \* what the last step emitted

ISeed(q) == [mu1 |-> EwInit(q.n), vol |-> EwInit(q.n), mu2 |-> EwInit(q.n), cov |-> EwInit(q.n * q.n), rows |-> 0]

NoOut == [volOn |-> FALSE, on |-> FALSE]

Zeroed(r) == Vec(Len(r), LAMBDA i : IF NIsNaN(r[i]) THEN NOf(0) ELSE NOf(r[i]))
NaNs(n)   == Vec(n, LAMBDA i : NOf("nan"))

(* volatility-scaled correlation matrix; missing where the diagonal is zero *)
ScaleCov(n, vola, c) ==
  LET d == Vec(n, LAMBDA i : NSqrt(c[(i-1)*n + i]))
      ok == TLCEval([i \in 1..n |-> ~NEq(d[i], 0)])
  IN Mat(n, n, LAMBDA i, j :
       IF ok[i] /\ ok[j]
       THEN NMul(NMul(vola[i], vola[j]), NDiv(c[(i-1)*n + j], NMul(d[i], d[j])))
       ELSE NOf("nan"))

(* one row: [st, out] *)
IStep(q, s, row) ==
  LET n  == q.n
      r  == IF q.nan0 THEN Zeroed(row) ELSE Vec(n, LAMBDA i : NOf(row[i]))
      \* first centering
      mu1 == IF q.mean THEN EwStep(s.mu1, NHalf(q.hm1), r) ELSE s.mu1
      m1  == IF q.mean THEN EwVal(mu1) ELSE ZeroVec(n)
      c   == IF q.mean THEN VSub(r, m1) ELSE r
      drop == q.mean /\ AllNaN(c)
      \* volatility
      y   == Vec(n, LAMBDA i : NSq(c[i]))
      vol == IF q.clip = "" THEN EwStep(s.vol, NHalf(q.hv), y)
             ELSE EwStepClip(s.vol, NHalf(q.hv), y, NSq(q.clip), q.mpv)
      volOn == Reported(vol, q.mpv)
      vola == Vec(n, LAMBDA i : NSqrt(EwVal(vol)[i]))
      \* volatility-adjusted returns
      a0  == Vec(n, LAMBDA i : NDiv(c[i], vola[i]))
      a1  == IF q.clip = "" THEN a0
             ELSE Vec(n, LAMBDA i : NClamp(a0[i], NNeg(q.clip), q.clip))
      usable == volOn /\ ~AllNaN(a1)
      a2  == Zeroed(a1)
      \* second centering
      mu2 == IF q.mean THEN EwStep(s.mu2, NHalf(q.hm2), a2) ELSE s.mu2
      m2  == IF q.mean THEN EwVal(mu2) ELSE ZeroVec(n)
      a3  == IF q.mean THEN VSub(a2, m2) ELSE a2
      cov == EwStep(s.cov, NHalf(q.hc), TLCEval([k \in 1..(n*n) |-> NMul(a3[((k-1) \div n) + 1], a3[((k-1) % n) + 1])]))
      on  == Reported(cov, q.mpc)
  IN IF drop
     THEN [st |-> [s EXCEPT !.mu1 = mu1, !.rows = @ + 1], out |-> NoOut]
     ELSE IF ~usable
     THEN [st |-> [s EXCEPT !.mu1 = mu1, !.vol = vol, !.rows = @ + 1],
           out |-> IF volOn THEN [volOn |-> TRUE, vola |-> vola, on |-> FALSE] ELSE NoOut]
     ELSE [st |-> [mu1 |-> mu1, vol |-> vol, mu2 |-> mu2, cov |-> cov, rows |-> s.rows + 1],
           out |-> IF ~on THEN [volOn |-> TRUE, vola |-> vola, adj |-> a3, on |-> FALSE]
                   ELSE [volOn |-> TRUE, on |-> TRUE, vola |-> vola, adj |-> a3,
                         cov  |-> ScaleCov(n, vola, EwVal(cov)),
                         mean |-> IF q.mean THEN Vec(n, LAMBDA i : NAdd(m1[i], NMul(vola[i], m2[i]))) ELSE ZeroVec(n)]]

IInit == p \in Params /\ st = ISeed(p) /\ out = NoOut

Observe(row) == LET x == IStep(p, st, row) IN st' = x.st /\ out' = x.out /\ p' = p
=============================================================================
