---------------------------- MODULE MCPrecision -----------------------------
(***************************************************************************)
(* Two assets, one factor: conversion of small factor models to precision  *)
(* form, steps to any candidate that is no worse for the majorant, and     *)
(* conversion back.                                                        *)
(***************************************************************************)
EXTENDS Precision, FiniteSets

CONSTANTS Loads, Rests, Steps
VARIABLES F, d, S, e, G, k, old
vars == <<F, d, S, e, G, k, old>>
Targets == {<<<<2, 1>>, <<1, 3>>>>, <<<<1, "-0.3">>, <<"-0.3", "0.5">>>>}
Mv(M) == Mat(2, 2, LAMBDA i, j : NOf(M[i][j]))

Init == /\ F \in {<<<<NOf(a)>>, <<NOf(b)>>>> : a, b \in Loads}
        /\ d \in {<<NOf(a), NOf(b)>> : a, b \in Rests}
        /\ S \in {Mv(T) : T \in Targets}
        /\ LET p == ToPrec(F, d) IN e = p.e /\ G = p.G
        /\ k = 0 /\ old = <<>>
Feasible(ee, GG) == \A i \in 1..2 : NIsFin(Chol(PrecOf(ee, GG))[i][i])
Step == /\ k < Steps
        /\ \E a, b \in {"0.8", "1", "1.3"}, u, v \in {"-0.2", "0", "0.1"} :
             LET ee == <<NMul(a, e[1]), NMul(b, e[2])>>
                 GG == <<<<NAdd(G[1][1], u)>>, <<NAdd(G[2][1], v)>>>>
             IN /\ Feasible(ee, GG)
                /\ NLt(Majorant(S, ee, GG, G), Majorant(S, e, G, G))
                /\ e' = ee /\ G' = GG
        /\ old' = <<Objective(S, e, G)>>
        /\ k' = k + 1 /\ UNCHANGED <<F, d, S>>
Next == Step
Spec == Init /\ [][Next]_vars

T == "1E-11"
IsEye(A) == \A i, j \in 1..2 : NClose(A[i][j], IF i = j THEN 1 ELSE 0, T)
C32_Inverse == k = 0 => IsEye(MatMul(PrecOf(e, G), ModelCov(F, d)))
C32_RoundTrip == LET m == ToModel(e, G) IN IsEye(MatMul(PrecOf(e, G), ModelCov(m.F, m.d))) /\ \A i \in 1..2 : NGt(m.d[i], 0)
C32_Tangent == NClose(Majorant(S, e, G, G), Objective(S, e, G), T)
C32_Descent == old # <<>> => NLe(Objective(S, e, G), NAdd(old[1], T))
C32_Likelihood == k = 0 => NClose(Objective(S, e, G), NNeg(ModelLL(S, F, d)), T)
\* from everywhere some step along the negative gradient of the majorant leads down and stays positive definite
C32_Downhill ==
  LET ge == GradE(e, G)
      gg == GradG(e, G)
      SG == MatMul(S, G)
      de == Vec(2, LAMBDA i : NAdd(ge[i], S[i][i]))
      dG == Mat(2, 1, LAMBDA i, j : NSub(gg[i][j], NMul(2, SG[i][j])))
      g2 == NAdd(NDot(de, de), NAdd(NSq(dG[1][1]), NSq(dG[2][1])))
  IN NLe(g2, "1E-18") \/ \E a \in {"1", "0.1", "1E-2", "1E-3", "1E-5"} :
       LET ee == VSub(e, VScale(a, de))
           GG == MSub(G, MScale(a, dG))
       IN Feasible(ee, GG) /\ NLt(Majorant(S, ee, GG, G), Majorant(S, e, G, G))
\* finite differences
C32_Gradient ==
  LET h == NOf("1E-6")
      f(ee, GG) == NNeg(LogDet(PrecOf(ee, GG)))
      de == NDiv(NSub(f(<<NAdd(e[1], h), e[2]>>, G), f(<<NSub(e[1], h), e[2]>>, G)), NMul(2, h))
      dg == NDiv(NSub(f(e, <<<<NAdd(G[1][1], h)>>, G[2]>>), f(e, <<<<NSub(G[1][1], h)>>, G[2]>>)), NMul(2, h))
  IN NClose(de, GradE(e, G)[1], NMul("1E-6", NAdd(1, NAbs(de)))) /\ NClose(dg, GradG(e, G)[1][1], NMul("1E-6", NAdd(1, NAbs(dg))))
=============================================================================
