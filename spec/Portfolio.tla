----------------------------- MODULE Portfolio ------------------------------
(***************************************************************************)
(* What makes holdings w of one period right for the predictions of that   *)
(* period.  Nothing is optimised here: optimality is decided by a bound on *)
(* every competitor, evaluated with multipliers offered as a witness (any  *)
(* multipliers give a valid bound; good ones give a tight one).            *)
(***************************************************************************)
EXTENDS Linalg

Risk(S, w)  == NSqrt(Quad(w, S))
L1(w)       == NSum(Vec(Len(w), LAMBDA i : NAbs(w[i])))
AbsDot(b, w) == NSum(Vec(Len(w), LAMBDA i : NMul(b[i], NAbs(w[i]))))
Box == 10                    \* competitors hold at most this much of an asset when there is no limit

(* limits: record [lo, hi, s]: bounds per asset and on the sum of |w|; "" = none *)
Lo(lim) == IF lim.lo = "" THEN NNeg(NOf(Box)) ELSE NOf(lim.lo)
Hi(lim) == IF lim.hi = "" THEN NOf(Box) ELSE NOf(lim.hi)

Within(w, lim, tol) ==
  /\ \A i \in 1..Len(w) : /\ lim.lo # "" => NGe(w[i], NSub(lim.lo, tol))
                          /\ lim.hi # "" => NLe(w[i], NAdd(lim.hi, tol))
  /\ lim.s # "" => NLe(L1(w), NAdd(lim.s, NMul(tol, Len(w))))

(* smallest value of a x + b |x| for x in [lo, hi], b >= 0 *)
MinSeg(a, b, lo, hi) ==
  LET f(x) == NAdd(NMul(a, x), NMul(b, NAbs(x)))
      m == NMin(f(lo), f(hi))
  IN IF NLe(lo, 0) /\ NLe(0, hi) THEN NMin(m, 0) ELSE m

(* no v within the limits (with sum(v) = 1 when full) has g.v + b.|v| below this *)
Lower(g, b, lim, full, wit) ==
  LET nu == IF full THEN NOf(wit.nu) ELSE NOf(0)
      la == IF lim.s = "" THEN NOf(0) ELSE NMax(0, wit.la)
  IN NSum(<<nu, NNeg(IF lim.s = "" THEN NOf(0) ELSE NMul(la, lim.s))>> \o
          [i \in 1..Len(g) |-> MinSeg(NSub(g[i], nu), NAdd(b[i], la), Lo(lim), Hi(lim))])

(* gradient of the risk *)
Slope(S, w) == LET h == Risk(S, w) IN VScale(NDiv(1, h), MatVec(S, w))

(***************************************************************************)
(* Bounds on how much better a competitor can be, relative to the size of  *)
(* the objective.  The risk of every v is at least Slope(S, z).v, whatever *)
(* z; the bound is tight when z is the best portfolio, so z is part of the *)
(* witness too.                                                            *)
(***************************************************************************)
(* risk + kappa (sigma.|w|)^2, both parts bounded below by their tangents at z *)
MinRiskGap(S, w, z, kappa, sigma, lim, wit) ==
  LET t == AbsDot(sigma, z)
      b == VScale(NMul(2, NMul(kappa, t)), sigma)
      f == NAdd(Risk(S, w), NMul(kappa, NSq(AbsDot(sigma, w))))
      low == NSub(Lower(Slope(S, z), b, lim, TRUE, wit), NMul(kappa, NSq(t)))
  IN NDiv(NSub(f, low), f)

(* expected return r.w - rho.|w|, risk at most R: cash is free *)
MeanVarGap(S, r, rho, R, w, z, lim, wit) ==
  LET g == IF NGt(Risk(S, z), NMul("1E-9", R)) THEN Slope(S, z) ELSE ZeroVec(Len(w))
      mu == NMax(0, wit.mu)
      up == NSub(NMul(mu, R), Lower(VSub(VScale(mu, g), r), rho, lim, FALSE, wit))
  IN NDiv(NSub(up, NSub(NDot(r, w), AbsDot(rho, w))), NAdd(NMul(MaxAbsV(r), NAdd(L1(w), "0.01")), NMul(mu, R)))

(* ratio a.w / risk, long only, sum one: no v has a.v / risk(v) above that of w *)
RatioGap(S, a, w, z, lim, wit) ==
  LET D == NDiv(NDot(a, w), Risk(S, w))
  IN NDiv(NNeg(Lower(VSub(VScale(D, Slope(S, z)), a), ZeroVec(Len(w)), lim, TRUE, wit)), NAbs(NDot(a, w)))

(* risk parity: contributions w_i (S w)_i are equal *)
Parity(S, w, tol) ==
  LET x == MatVec(S, w)
      c == NDiv(NDot(w, x), Len(w))
  IN \A i \in 1..Len(w) : NClose(NMul(w[i], x[i]), c, NMul(tol, c))
=============================================================================
