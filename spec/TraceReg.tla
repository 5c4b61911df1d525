------------------------------ MODULE TraceReg ------------------------------
(***************************************************************************)
(* Recorded results of regularize_covariance (both formats) and            *)
(* em_regularize_covariance checked against Regularize.  One event per     *)
(* time of the input, in input order; the k-th result must belong to the   *)
(* k-th time.                                                              *)
(***************************************************************************)
EXTENDS TraceBase, Regularize

VARIABLES tid, l
vars == <<tid, l>>
Run == Runs[tid]

Init == /\ tid \in 1..NRuns /\ l = 1
        /\ PrintAll(Runs[tid].id, 0, Need(Runs[tid].errFull = "", "full_raised") \union Need(Runs[tid].errLow = "", "low_raised")
                              \union Need(Runs[tid].errEM = "", "em_raised")
                              \union Need(Runs[tid].nFull \in {-1, Len(Runs[tid].ev)}, "full_count")
                              \union Need(Runs[tid].nLow \in {-1, Len(Runs[tid].ev)}, "low_count")
                              \union Need(Runs[tid].nEM \in {-1, Len(Runs[tid].ev)}, "em_count"))

Shape(A, n, m) == Len(A) = n /\ \A i \in 1..n : Len(A[i]) = m

JudgeFull(ev) ==
  LET n == Len(ev.S)
      o == ev.full
      v == SdOf(ev.S)
      r == Run.r
  IN Need(o.t = l, "full_stamp") \union
     (IF o.t # l THEN {} ELSE
      Need(IsId(o.rl, n) /\ IsId(o.cl, n), "full_labels") \union
      (IF ~Shape(o.cov, n, n) THEN {"full_shape"} ELSE
       IF MHasNaN(o.cov) THEN {"full_finite"} ELSE
       Need(\A i \in 1..n : NClose(o.cov[i][i], ev.S[i][i], NMul("1E-9", ev.S[i][i])), "full_diagonal") \union
       Need(\A i, j \in 1..n : NClose(o.cov[i][j], o.cov[j][i], NMul("1E-9", NMul(v[i], v[j]))), "full_symmetric") \union
       Need(IsPSD(CorrOf(o.cov), "1E-8"), "full_psd") \union
       (IF Separated(ev.lam, r, "1E-6") THEN Need(MClose(o.cov, RegCov(ev.S, ev.Q, ev.lam, r), v, "1E-7"), "full_components") ELSE {}) \union
       (IF r = n THEN Need(MClose(o.cov, ev.S, v, "1E-8"), "full_identity") ELSE {}) \union
       (IF ev.low.t = l /\ Shape(ev.low.F, n, r) /\ ~MHasNaN(ev.low.F) /\ Len(ev.low.d) = n
        THEN Need(MClose(o.cov, ModelCov(ev.low.F, ev.low.d), v, "1E-8"), "formats_differ") ELSE {})))

JudgeLow(ev) ==
  LET n == Len(ev.S)
      o == ev.low
      v == SdOf(ev.S)
      r == Run.r
  IN Need(o.t = l, "low_stamp") \union
     (IF o.t # l THEN {} ELSE
      Need(IsId(o.rl, n) /\ IsId(o.dl, n), "low_labels") \union
      (IF ~Shape(o.F, n, r) \/ Len(o.d) # n THEN {"low_shape"} ELSE
       IF MHasNaN(o.F) \/ HasNaN(o.d) THEN {"low_finite"} ELSE
       LET P == Mat(n, n, LAMBDA i, j : NDiv(NDot(o.F[i], o.F[j]), NMul(v[i], v[j])))
       IN Need(\A i \in 1..n : NGe(o.d[i], NNeg(NMul("1E-9", ev.S[i][i]))), "low_negative") \union
          Need(\A i \in 1..n : NClose(NAdd(NDot(o.F[i], o.F[i]), o.d[i]), ev.S[i][i], NMul("1E-8", ev.S[i][i])), "low_diagonal") \union
          Need(IsLead(CorrOf(ev.S), P, ev.lam, r, "1E-8"), "low_components")))

JudgeEM(ev) ==
  LET n == Len(ev.S)
      o == ev.em
      v == SdOf(ev.S)
      k == Len(ev.F0[1])
  IN Need(o.t = l, "em_stamp") \union
     (IF o.t # l THEN {} ELSE
      Need(IsId(o.rl, n) /\ IsId(o.dl, n), "em_labels") \union
      (IF ~Shape(o.F, n, k) \/ Len(o.d) # n THEN {"em_shape"} ELSE
       IF MHasNaN(o.F) \/ HasNaN(o.d) THEN {"em_finite"} ELSE
       LET m == EMSteps(ev.S, ev.F0, ev.d0, 5)
           a == ModelLL(ev.S, ev.F0, ev.d0)
           b == ModelLL(ev.S, o.F, o.d)
       IN Need(\A i \in 1..n : NGe(o.d[i], NNeg(NMul("1E-9", ev.S[i][i]))), "em_negative") \union
          Need(VClose(o.d, m.d, Vec(n, LAMBDA i : NOf(ev.S[i][i])), "1E-6"), "em_diagonal") \union
          Need(\A i \in 1..n : \A j \in 1..k : NClose(o.F[i][j], m.F[i][j], NMul("1E-6", v[i])), "em_loadings") \union
          Need(NIsNaN(b) \/ NGe(b, NSub(a, NMul("1E-8", NAdd(n, NAbs(a))))), "em_likelihood")))

Judge(ev) ==
  (IF Run.what = "em" THEN (IF l <= Run.nEM THEN JudgeEM(ev) ELSE {})
   ELSE Need(EigenOK(CorrOf(ev.S), ev.Q, ev.lam, "1E-9"), "WITNESS") \union
        (IF l <= Run.nFull THEN JudgeFull(ev) ELSE {}) \union
        (IF l <= Run.nLow THEN JudgeLow(ev) ELSE {}))

Next ==
  /\ l <= Len(Run.ev)
  /\ PrintAll(Run.id, l, Judge(Run.ev[l]))
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ (l = Len(Run.ev) => PrintT(<<"DONE", Run.id>>))
=============================================================================
