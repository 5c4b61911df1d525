------------------------------ MODULE Combine -------------------------------
(***************************************************************************)
(* The covariance combination of cvx/covariance/combination.py as an       *)
(* online machine.  Time runs over the experts' grid 1..M.  At every grid  *)
(* time the experts' predictions and the return become known.  Memory: the *)
(* factors of the previous predictions, and the last W window entries.     *)
(***************************************************************************)
EXTENDS Linalg

(* what is known of expert predictions S[k], mu[k] stamped t *)
Factors(S, mu) ==
  LET K == Len(S) IN
  TLCEval([k \in 1..K |->
     LET L == CholPrec(S[k]) IN [L |-> L, nu |-> MatVec(Transp(L), mu[k])]])

(* window entry at time t: the PREVIOUS predictions scored on today's return:
   diag[k] = diagonal of L_k(t-1), G = Gram matrix of the residuals
   b_k = L_k(t-1)' r - nu_k(t-1); a missing return counts as zero           *)
Entry(prev, r) ==
  LET K == Len(prev)
      x == Vec(Len(r), LAMBDA i : IF NIsNaN(r[i]) THEN NOf(0) ELSE NOf(r[i]))
      b == TLCEval([k \in 1..K |-> VSub(MatVec(Transp(prev[k].L), x), prev[k].nu)])
  IN [d |-> TLCEval([k \in 1..K |-> Diag(prev[k].L)]),
      G |-> Mat(K, K, LAMBDA i, j : NDot(b[i], b[j]))]

CSeed == [prev |-> <<>>, buf |-> <<>>, t |-> 0]

(* one grid time; W is the effective window *)
CStep(s, W, S, mu, r) ==
  LET cur == Factors(S, mu)
      buf == IF s.prev = <<>> THEN s.buf
             ELSE LET b == Append(s.buf, Entry(s.prev, r))
                  IN IF Len(b) > W THEN Tail(b) ELSE b
  IN [prev |-> cur, buf |-> buf, t |-> s.t + 1]

Full(s, W) == Len(s.buf) = W

(***************************************************************************)
(* The window log-likelihood of a blend w (up to a constant) is            *)
(*   f(w) = sum_{s, i} log (d_{s,i} . w) - 1/2 sum_s w' G_s w,             *)
(* a concave function.  With g the gradient of f at w, every other convex  *)
(* w' has f(w') - f(w) <= g.(w' - w) <= max_k g_k - g.w: the Gap bounds    *)
(* how far w is from optimal, without an optimiser.                        *)
(***************************************************************************)
(* the two parts of the gradient *)
LogPart(buf, w) ==
  LET K == Len(w)
      n == Len(buf[1].d[1])
      Part(e) ==
        LET inv == TLCEval([i \in 1..n |-> NDiv(1, NSum([k \in 1..K |-> NMul(e.d[k][i], w[k])]))])
        IN [k \in 1..K |-> NDot(e.d[k], inv)]
  IN TLCEval(FoldLeft(LAMBDA a, e : VAdd(a, Part(e)), ZeroVec(K), buf))
GramSum(buf, K) ==
  TLCEval(FoldLeft(LAMBDA a, e : Mat(K, K, LAMBDA i, j : NAdd(a[i][j], e.G[i][j])), Mat(K, K, LAMBDA i, j : NOf(0)), buf))

VMax(v) == FoldLeft(LAMBDA a, x : NMax(a, x), v[1], v)

(* suboptimality bound of w and the natural size of the terms it is made of *)
Gap(buf, w) ==
  LET K == Len(w)
      lp == LogPart(buf, w)
      G == GramSum(buf, K)
      g == TLCEval(VSub(lp, MatVec(G, w)))
  IN [gap |-> NSub(VMax(g), NDot(g, w)),
      scale |-> NAdd(1, NAdd(VMax(lp), VMax(Diag(G))))]

(* predictions stamped t under weights w *)
Blend(cur, w) ==
  LET K == Len(w)
      n == Len(cur[1].nu)
      L == Mat(n, n, LAMBDA i, j : IF j > i THEN NOf(0) ELSE NSum([k \in 1..K |-> NMul(w[k], cur[k].L[i][j])]))
      nu == Vec(n, LAMBDA i : NSum([k \in 1..K |-> NMul(w[k], cur[k].nu[i])]))
      Li == InvLower(L)
  IN [cov |-> MatMul(Transp(Li), Li),                \* (L L')^-1
      mean |-> MatVec(Transp(Li), nu)]               \* L' mean = nu
=============================================================================
