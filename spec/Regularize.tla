----------------------------- MODULE Regularize -----------------------------
(***************************************************************************)
(* Low rank plus diagonal models of a covariance                           *)
(* (cvx/covariance/regularization.py).                                     *)
(*                                                                         *)
(* An eigen-decomposition is never computed here: it is offered as a       *)
(* witness (Q, lam), which EigenOK accepts or refuses.                     *)
(***************************************************************************)
EXTENDS Linalg

SdOf(S)  == Vec(Rows(S), LAMBDA i : NSqrt(S[i][i]))
CorrOf(S) == LET v == SdOf(S) IN Mat(Rows(S), Rows(S), LAMBDA i, j : NDiv(S[i][j], NMul(v[i], v[j])))

(* columns of Q orthonormal, R Q = Q diag(lam), lam descending *)
EigenOK(R, Q, lam, tol) ==
  LET n == Rows(R)
      T == Transp(Q)
      RQ == MatMul(R, Q)
  IN /\ Len(lam) = n
     /\ \A i, j \in 1..n : NClose(NDot(T[i], T[j]), IF i = j THEN 1 ELSE 0, tol)
     /\ \A i, j \in 1..n : NClose(RQ[i][j], NMul(Q[i][j], lam[j]), NMul(tol, n))
     /\ \A k \in 1..(n-1) : NGe(NAdd(lam[k], tol), lam[k+1])

(* sum of the r leading components *)
Lead(Q, lam, r) == Mat(Rows(Q), Rows(Q), LAMBDA i, j : NSum([k \in 1..r |-> NMul(lam[k], NMul(Q[i][k], Q[j][k]))]))

(* the leading components are determined: the next eigenvalue is smaller *)
Separated(lam, r, gap) == r = Len(lam) \/ NGt(NSub(lam[r], lam[r+1]), gap)

(* the regularised covariance: variances kept, off-diagonal correlations of the leading components *)
RegCov(S, Q, lam, r) ==
  LET v == SdOf(S)
      P == Lead(Q, lam, r)
  IN Mat(Rows(S), Rows(S), LAMBDA i, j : IF i = j THEN NOf(S[i][i]) ELSE NMul(NMul(v[i], v[j]), P[i][j]))

(* P is the sum of the r leading components of R, without a witness for the vectors: *)
(* R P = P P says that P acts like R on its range, and no other choice of r          *)
(* components has as large a trace                                                    *)
IsLead(R, P, lam, r, tol) ==
  LET n == Rows(R)
      A == MatMul(R, P)
      B == MatMul(P, P)
  IN /\ \A i, j \in 1..n : NClose(A[i][j], B[i][j], NMul(tol, n * n))
     /\ NClose(Tr(P), NSum([k \in 1..r |-> lam[k]]), NMul(tol, n))

ModelCov(F, d) == LET n == Len(d) IN Mat(n, n, LAMBDA i, j : NAdd(NDot(F[i], F[j]), IF i = j THEN d[i] ELSE 0))

(***************************************************************************)
(* One expectation-maximisation update of the factor model x = F s + e,    *)
(* e ~ N(0, diag d), for data with second moment S: posterior mean map     *)
(* B = F' M^-1 of the factors (M the model covariance), then regression of *)
(* x on the factors.                                                       *)
(***************************************************************************)
EMStep(S, F, d) ==
  LET n == Len(d)
      k == Len(F[1])
      M == ModelCov(F, d)
      B == MatMul(Transp(F), InvSPD(M))                        \* k x n
      G == MSub(Eye(k), MatMul(B, F))                          \* posterior covariance of the factors
      Cxs == MatMulT(S, B)                                     \* n x k
      Css == MAdd(MatMul(B, Cxs), G)
      sym == Mat(k, k, LAMBDA i, j : NDiv(NAdd(Css[i][j], Css[j][i]), 2))
      F2 == MatMul(Cxs, InvSPD(sym))
  IN [F |-> F2, d |-> Vec(n, LAMBDA i : NSub(S[i][i], NDot(F2[i], Cxs[i])))]

RECURSIVE EMSteps(_, _, _, _)
EMSteps(S, F, d, k) == IF k = 0 THEN [F |-> F, d |-> d]
                       ELSE LET m == EMStep(S, F, d) IN EMSteps(S, m.F, m.d, k - 1)

(* Gaussian log-likelihood of the model for second moment S, without constants *)
ModelLL(S, F, d) ==
  LET M == ModelCov(F, d)
      P == InvSPD(M)
  IN NNeg(NAdd(LogDet(M), NSum(Vec(Len(d), LAMBDA i : NDot(P[i], Col(S, i))))))
=============================================================================
