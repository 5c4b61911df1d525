----------------------------- MODULE ReturnComb -----------------------------
(***************************************************************************)
(* Combination of return predictors (experiments/utils/                    *)
(* return_combination.py) for one asset.  Time runs as                     *)
(*    the predictions x for the coming return are made; if `memory`        *)
(*    pairs are known, weights are chosen from them and the combined       *)
(*    prediction is given; then the return r arrives and the pair joins    *)
(*    the memory.                                                          *)
(***************************************************************************)
EXTENDS Ewma

Decay == NHalf(500)
\* weights of the pairs (oldest first), summing to their number
Ages(m) == LET raw == TLCEval([k \in 1..m |-> NExp(NMul(m - k, NLn(Decay)))])
           IN VScale(NDiv(m, NSum(raw)), raw)

\* memory state: the last pairs, and the average of the squared predictions so far
RCInit(K) == [win |-> <<>>, sq |-> EwInit(K)]
RCPush(s, x, r, memory) ==
  [win |-> LET w == Append(s.win, [x |-> x, r |-> r]) IN IF Len(w) > memory THEN Tail(w) ELSE w,
   sq  |-> EwStep(s.sq, NHalf(250), Vec(Len(x), LAMBDA k : NSq(x[k])))]

\* normal equations of  sum_k b_k (r_k - x_k w)^2 + alpha sum_j scale_j w_j^2
RidgeA(win, b, pen) == LET K == Len(win[1].x) IN
  Mat(K, K, LAMBDA i, j : NAdd(NSum([k \in 1..Len(win) |-> NMul(b[k], NMul(win[k].x[i], win[k].x[j]))]), IF i = j THEN pen[i] ELSE 0))
RidgeB(win, b) == LET K == Len(win[1].x) IN Vec(K, LAMBDA i : NSum([k \in 1..Len(win) |-> NMul(b[k], NMul(win[k].x[i], win[k].r))]))
RidgeObj(win, b, pen, w) ==
  NAdd(NSum([k \in 1..Len(win) |-> NMul(b[k], NSq(NSub(win[k].r, NDot(win[k].x, w))))]), NSum([j \in 1..Len(w) |-> NMul(pen[j], NSq(w[j]))]))
Pen(s, alpha) == VScale(alpha, EwVal(s.sq))

\* sum of squares plus alpha times the sum of absolute weights, and a lower bound of its minimum from the residual of w
LassoObj(win, alpha, w) ==
  NAdd(NSum([k \in 1..Len(win) |-> NSq(NSub(win[k].r, NDot(win[k].x, w)))]), NMul(alpha, NSum([j \in 1..Len(w) |-> NAbs(w[j])])))
LassoBound(win, alpha, w) ==
  LET m == Len(win)
      res == Vec(m, LAMBDA k : NSub(win[k].r, NDot(win[k].x, w)))
      g == Vec(Len(w), LAMBDA j : NMul(2, NAbs(NSum([k \in 1..m |-> NMul(res[k], win[k].x[j])]))))
      big == FoldLeft(LAMBDA a, x : NMax(a, x), NOf(0), g)
      s == IF NLe(big, alpha) THEN NOf(1) ELSE NDiv(alpha, big)
  IN NSub(NMul(NMul(2, s), NSum([k \in 1..m |-> NMul(res[k], win[k].r)])), NMul(NSq(s), NDot(res, res)))
Energy(win) == NSum([k \in 1..Len(win) |-> NSq(win[k].r)])
=============================================================================
