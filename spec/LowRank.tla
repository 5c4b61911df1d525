------------------------------- MODULE LowRank ------------------------------
(***************************************************************************)
(* The low-rank iterated EWMA (experiments/utils/low_rank_ewma.py): the    *)
(* correlation accumulator of Iewma is replaced by a model F F' + diag d.  *)
(* An update with weights a (old) and b (new) of an adjusted return r      *)
(* forms the matrix a F F' + b r r', scales it to unit diagonal, keeps its *)
(* leading components, and puts what is lost of each variance into d.      *)
(***************************************************************************)
EXTENDS Ewma, Regularize

\* variance of each asset under a F F' + b r r'
LRVar(a, F, b, r) == Vec(Len(r), LAMBDA i : NAdd(NMul(a, NDot(F[i], F[i])), NMul(b, NSq(r[i]))))
\* that matrix scaled to unit diagonal
LRTarget(a, F, b, r) ==
  LET c == LRVar(a, F, b, r)
  IN Mat(Len(r), Len(r), LAMBDA i, j : NDiv(NAdd(NMul(a, NDot(F[i], F[j])), NMul(b, NMul(r[i], r[j]))), NSqrt(NMul(c[i], c[j]))))
\* remainder when P is kept of the scaled matrix
LRRest(a, F, d, b, r, P) ==
  LET c == LRVar(a, F, b, r)
  IN Vec(Len(r), LAMBDA i : NAdd(NMul(a, d[i]), NMul(c[i], NSub(1, P[i][i]))))

\* weights of the update that makes the accumulator e one observation longer
LRNew(e, beta) == NDiv(1, NAdd(NMul(beta, e.w), 1))
LROld(e, beta) == NSub(1, LRNew(e, beta))

\* the model scaled to given volatilities
LRScale(F, d, vola) ==
  LET v == Vec(Len(d), LAMBDA i : NSqrt(NAdd(NDot(F[i], F[i]), d[i])))
  IN [F |-> Mat(Len(d), Len(F[1]), LAMBDA i, k : NMul(NDiv(vola[i], v[i]), F[i][k])),
      d |-> Vec(Len(d), LAMBDA i : NMul(NSq(NDiv(vola[i], v[i])), d[i]))]
=============================================================================
