------------------------------ MODULE Precision -----------------------------
(***************************************************************************)
(* Factor models in precision form (experiments/utils/ccp_regularize.py):  *)
(* the inverse of F F' + diag d is written diag e - G G'.  For a target S  *)
(* the negative log-likelihood is  -ln det P + tr(S P); one step of the    *)
(* convex-concave procedure minimises it with its concave part             *)
(* - tr(S G G') replaced by the tangent at the current G.                  *)
(***************************************************************************)
EXTENDS Regularize

PrecOf(e, G) == LET n == Len(e) IN Mat(n, n, LAMBDA i, j : NSub(IF i = j THEN e[i] ELSE 0, NDot(G[i], G[j])))
TraceProd(A, B) == NSum(Vec(Rows(A), LAMBDA i : NDot(A[i], Col(B, i))))
Objective(S, e, G) == LET P == PrecOf(e, G) IN NSub(TraceProd(S, P), LogDet(P))

(* one way to pass between the forms (any other differs by a rotation of the factors) *)
ToPrec(F, d) ==
  LET n == Len(d)  k == Len(F[1])
      A == Mat(k, k, LAMBDA i, j : NAdd(IF i = j THEN 1 ELSE 0, NSum(Vec(n, LAMBDA q : NDiv(NMul(F[q][i], F[q][j]), d[q])))))
      L == Chol(InvSPD(A))
  IN [e |-> Vec(n, LAMBDA i : NDiv(1, d[i])), G |-> Mat(n, k, LAMBDA i, j : NDiv(NDot(F[i], Col(L, j)), d[i]))]
ToModel(e, G) ==
  LET n == Len(e)  k == Len(G[1])
      A == Mat(k, k, LAMBDA i, j : NSub(IF i = j THEN 1 ELSE 0, NSum(Vec(n, LAMBDA q : NDiv(NMul(G[q][i], G[q][j]), e[q])))))
      L == Chol(InvSPD(A))
  IN [d |-> Vec(n, LAMBDA i : NDiv(1, e[i])), F |-> Mat(n, k, LAMBDA i, j : NDiv(NDot(G[i], Col(L, j)), e[i]))]

(* the tangent majorant at Gk; equal to the objective at G = Gk, nowhere below it *)
Majorant(S, e, G, Gk) ==
  LET n == Len(e)
      SG == MatMul(S, Gk)
      lin == NSum(Vec(n, LAMBDA i : NDot(SG[i], G[i])))
      at == NSum(Vec(n, LAMBDA i : NDot(SG[i], Gk[i])))
  IN NAdd(NSub(NSum(Vec(n, LAMBDA i : NMul(S[i][i], e[i]))), LogDet(PrecOf(e, G))), NSub(at, NMul(2, lin)))

(* gradient of  -ln det (diag e - G G') *)
GradE(e, G) == LET C == InvSPD(PrecOf(e, G)) IN Vec(Len(e), LAMBDA i : NNeg(C[i][i]))
GradG(e, G) == LET C == InvSPD(PrecOf(e, G)) IN MScale(2, MatMul(C, G))
=============================================================================
