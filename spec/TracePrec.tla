----------------------------- MODULE TracePrec ------------------------------
(***************************************************************************)
(* Recorded precision-form states checked against Precision.  A run is a   *)
(* target S, a factor model and the sequence of states reported: event 1   *)
(* the conversion, each later event one iteration.                         *)
(***************************************************************************)
EXTENDS TraceBase, Precision

VARIABLES tid, l, prev
vars == <<tid, l, prev>>
VW == <<tid, l>>
Run == Runs[tid]

Init == /\ tid \in 1..NRuns /\ l = 1 /\ prev = <<>>
        /\ PrintAll(Runs[tid].id, 0, Need(Runs[tid].err = "", "raised"))

n == Len(Run.d)
Sd(S) == Vec(Rows(S), LAMBDA i : NSqrt(S[i][i]))
\* A B = I for B = F F' + diag(d), entries scaled by the standard deviations of B;
\* in the form E - G G' what a nearly explained asset (d small against its variance) leaves is a small difference of large numbers
IsInverse(A, F, d) ==
  LET B == ModelCov(F, d)
      s == Sd(B)
      kappa == MaxAbsV(Vec(Rows(A), LAMBDA i : NDiv(B[i][i], d[i])))
      M == MatMul(A, B)
      w == Vec(Rows(A), LAMBDA i : NDot(Vec(Rows(A), LAMBDA j : NAbs(NMul(s[i], A[i][j]))), s))
  IN \A i, j \in 1..Rows(A) : NClose(NMul(NDiv(s[i], s[j]), M[i][j]), IF i = j THEN 1 ELSE 0,
        NAdd(NMul("1E-9", NAdd(1, w[i])), NMul("1E-15", NMul(kappa, kappa))))
Shape(ev) == Len(ev.e) = n /\ Len(ev.G) = n /\ \A i \in 1..n : Len(ev.G[i]) = Run.rank
Finite(ev) == \A i \in 1..n : NIsFin(ev.e[i]) /\ \A k \in 1..Run.rank : NIsFin(ev.G[i][k])
Proper(ev) == \A i \in 1..n : NIsFin(Chol(PrecOf(ev.e, ev.G))[i][i])

\* where the gradient variant may rest: no direction leads noticeably downhill
Still(s) ==
  LET C == InvSPD(PrecOf(s.e, s.G))
      CG == MatMul(C, s.G)
      SG == MatMul(Run.S, s.G)
      t == NMul("1E-3", NAdd(MaxAbs(Run.S), NAdd(MaxAbs(SG), NAdd(MaxAbs(C), MaxAbs(CG)))))
  IN (\A i \in 1..n : NClose(C[i][i], Run.S[i][i], t)) /\ (\A i \in 1..n : \A k \in 1..Run.rank : NClose(CG[i][k], SG[i][k], t))
Moved(ev) == (\E i \in 1..n : ~NEq(ev.e[i], prev.e[i])) \/ (\E i \in 1..n : \E k \in 1..Run.rank : ~NEq(ev.G[i][k], prev.G[i][k]))

JudgeState(ev) ==
  IF ~Shape(ev) \/ ~Finite(ev) THEN {"state"}
  ELSE IF ~Proper(ev) THEN {"definite"}
  ELSE LET P == PrecOf(ev.e, ev.G)
           o == Objective(Run.S, ev.e, ev.G)
           size == NAdd(NAdd(n, NAbs(o)), NAdd(NAbs(LogDet(P)), NSum(Vec(n, LAMBDA i : NMul(Run.S[i][i], ev.e[i])))))
       IN Need(NClose(ev.obj, o, NMul("1E-8", size)), "objective") \union
          Need(Len(ev.bd) = n /\ Len(ev.bF) = n /\ \A i \in 1..n : Len(ev.bF[i]) = Run.rank, "shape") \union
          Need(\A i \in 1..n : NGt(ev.bd[i], 0), "positive") \union
          Need(IsInverse(P, ev.bF, ev.bd), "build") \union
          (IF l = 1 THEN Need(IsInverse(P, Run.F, Run.d), "convert")
           ELSE Need(NLe(o, NAdd(Objective(Run.S, prev.e, prev.G), NMul("1E-5", size))), "descent") \union
                \* a minimiser of the majorant: its model has the variances of S, and G is mapped like the previous one
                (IF ~Run.exact THEN Need(Moved(ev) \/ Still(prev), "stuck") ELSE
                 LET C == InvSPD(P)
                     s == Sd(Run.S)
                     CG == MatMul(C, ev.G)
                     SG == MatMul(Run.S, prev.G)
                 IN Need(\A i \in 1..n : NClose(C[i][i], Run.S[i][i], NMul("5E-3", Run.S[i][i])), "stationary_e") \union
                    Need(\A i \in 1..n : \A k \in 1..Run.rank : NClose(CG[i][k], SG[i][k], NMul("5E-3", NAdd(s[i], MaxAbs(SG)))), "stationary_G")))

\* one gradient step: downhill on the majorant along its negative gradient, however far, staying positive definite
JudgeGrad(ev) ==
  LET ge == GradE(ev.e, ev.G)
      gg == GradG(ev.e, ev.G)
      SG == MatMul(Run.S, ev.Gk)
      de == Vec(n, LAMBDA i : NAdd(ge[i], Run.S[i][i]))
      dG == Mat(n, Run.rank, LAMBDA i, k : NSub(gg[i][k], NMul(2, SG[i][k])))
      tol == NMul("1E-9", NAdd(1, NAdd(MaxAbsV(ge), MaxAbs(gg))))
      C == InvSPD(PrecOf(ev.e, ev.G))
      cond == NMul("1E-9", NMul(MaxAbs(C), NAdd(1, MaxAbsV(ev.e))))
      t == NMul(NAdd(1, cond), NAdd(tol, NMul("1E-9", NAdd(MaxAbs(Run.S), NAdd(MaxAbsV(ev.e), MaxAbs(SG))))))
      g2 == NAdd(NDot(de, de), NSum(Vec(n, LAMBDA i : NDot(dG[i], dG[i]))))
      go == NAdd(NDot(de, VSub(ev.e, ev.se)), NSum(Vec(n, LAMBDA i : NDot(dG[i], VSub(ev.G[i], ev.sG[i])))))
      a == IF NEq(g2, 0) THEN NOf(0) ELSE NDiv(go, g2)                    \* the step's length
      m0 == Majorant(Run.S, ev.e, ev.G, ev.Gk)
      m1 == Majorant(Run.S, ev.se, ev.sG, ev.Gk)
      size == NAdd(NAdd(n, NAbs(m0)), NAdd(NAbs(LogDet(PrecOf(ev.e, ev.G))), NSum(Vec(n, LAMBDA i : NMul(Run.S[i][i], NAbs(ev.e[i]))))))
  IN Need(NGt(a, 0) \/ NLe(NMul(g2, g2), NMul(t, t)), "stuck") \union
     Need(\A i \in 1..n : NClose(ev.se[i], NSub(ev.e[i], NMul(a, de[i])), t), "step_e") \union
     Need(\A i \in 1..n : \A k \in 1..Run.rank : NClose(ev.sG[i][k], NSub(ev.G[i][k], NMul(a, dG[i][k])), t), "step_G") \union
     (IF ~Proper([e |-> ev.se, G |-> ev.sG]) THEN {"step_definite"}
      ELSE Need(NLe(m1, NAdd(m0, NMul("1E-9", size))), "step_descent"))

Next ==
  /\ l <= Len(Run.ev)
  /\ LET ev == Run.ev[l] IN
     IF Run.err # "" THEN prev' = prev
     ELSE IF Run.kind = "grad" THEN prev' = prev /\ PrintAll(Run.id, l, JudgeGrad(ev))
     ELSE PrintAll(Run.id, l, JudgeState(ev)) /\ prev' = ev
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ (l = Len(Run.ev) => PrintT(<<"DONE", Run.id>>))
Spec == Init /\ [][Next]_vars
=============================================================================
