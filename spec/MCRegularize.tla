---------------------------- MODULE MCRegularize ----------------------------
(***************************************************************************)
(* Exhaustive exploration on small integer models: every rank of every     *)
(* equicorrelated matrix of three assets (eigenvectors in closed form)     *)
(* under every scaling, and EM updates from every small factor model for   *)
(* every second moment.                                                    *)
(***************************************************************************)
EXTENDS Regularize

CONSTANTS Steps, FV, DV, SV    \* number of EM updates; values of loadings, of diagonals, of roots of second moments
VARIABLES kind, S, r, F, d, k, prev
vars == <<kind, S, r, F, d, k, prev>>

Rhos == {"-0.5", "-0.4", "0", "0.3", "0.9", "1"}
Scales == {<<1, 1, 1>>, <<1, 100, 3>>, <<10000, 1, 7>>}
Equi(rho, sc) == Mat(3, 3, LAMBDA i, j : NMul(NMul(sc[i], sc[j]), IF i = j THEN NOf(1) ELSE NOf(rho)))
Root(x) == NSqrt(x)
Basis == <<<<NDiv(1, Root(3)), NDiv(1, Root(2)), NDiv(1, Root(6))>>,
           <<NDiv(1, Root(3)), NNeg(NDiv(1, Root(2))), NDiv(1, Root(6))>>,
           <<NDiv(1, Root(3)), NOf(0), NNeg(NDiv(2, Root(6)))>>>>
RhoOf(M) == NDiv(M[1][2], NSqrt(NMul(M[1][1], M[2][2])))
\* eigenpairs of the correlation matrix in descending order
Lam(M) == LET a == NAdd(1, NMul(2, RhoOf(M))) b == NSub(1, RhoOf(M)) IN IF NGe(a, b) THEN <<a, b, b>> ELSE <<b, b, a>>
Vecs(M) == LET a == NAdd(1, NMul(2, RhoOf(M))) b == NSub(1, RhoOf(M))
           IN IF NGe(a, b) THEN Basis ELSE Mat(3, 3, LAMBDA i, j : Basis[i][(j % 3) + 1])

InitReg == \E rho \in Rhos, sc \in Scales, rr \in 1..3 :
  /\ kind = "reg" /\ S = Equi(rho, sc) /\ r = rr /\ F = <<>> /\ d = <<>> /\ k = 0 /\ prev = <<>>

InitEM == \E a, b, c \in SV, f1, f2 \in FV, d1, d2 \in DV, two \in BOOLEAN :
  /\ kind = "em" /\ r = 0 /\ k = 0
  /\ LET A == <<<<a, b>>, <<0, c>>>> IN S = Mat(2, 2, LAMBDA i, j : NAdd(NDot(A[i], A[j]), NOf(IF i = j THEN 1 ELSE 0)))
  /\ F = (IF two THEN <<<<f1, 0>>, <<f2, 1>>>> ELSE <<<<f1>>, <<f2>>>>)
  /\ d = <<d1, d2>> /\ prev = <<>>

Init == InitReg \/ InitEM
Next == /\ kind = "em" /\ k < Steps
        /\ LET m == EMStep(S, F, d) IN F' = m.F /\ d' = m.d
        /\ prev' = <<F, d>> /\ k' = k + 1
        /\ UNCHANGED <<kind, S, r>>
Spec == Init /\ [][Next]_vars

T == "1E-15"
Reg == RegCov(S, Vecs(S), Lam(S), r)
C19_Witness == kind = "reg" => EigenOK(CorrOf(S), Vecs(S), Lam(S), T)
\* and no other witness is accepted: not another order, not other lengths, not other vectors, not other values
C19_Refused == kind = "reg" =>
  LET Q == Vecs(S)
      lam == Lam(S)
      Swap(i) == IF i = 1 THEN 3 ELSE IF i = 3 THEN 1 ELSE 2
      Bad(P, l) == ~EigenOK(CorrOf(S), P, l, "1E-9")
  IN /\ (NGt(lam[1], NAdd(lam[3], "1E-6")) => Bad(Mat(3, 3, LAMBDA i, j : Q[i][Swap(j)]), <<lam[3], lam[2], lam[1]>>) /\ Bad(Q, <<lam[2], lam[2], lam[2]>>))
     /\ Bad(Mat(3, 3, LAMBDA i, j : NMul(2, Q[i][j])), lam)
     /\ Bad(Mat(3, 3, LAMBDA i, j : Q[i][1]), <<lam[1], lam[1], lam[1]>>)
     /\ (NGt(NAbs(NSub(lam[1], lam[3])), "1E-6") => Bad(Mat(3, 3, LAMBDA i, j : IF i = j THEN NOf(1) ELSE NOf(0)), lam))
     /\ Bad(Q, <<lam[1], lam[2]>>)
C19_Diag == kind = "reg" => \A i \in 1..3 : NEq(Reg[i][i], S[i][i])
C19_PSD == kind = "reg" => IsPSD(CorrOf(Reg), T)
C19_Full == kind = "reg" /\ r = 3 => MClose(Reg, S, SdOf(S), T)
C19_Remainder == kind = "reg" => \A i \in 1..3 : NGe(NSub(1, Lead(Vecs(S), Lam(S), r)[i][i]), NNeg(NOf(T)))
C20_Lead == kind = "reg" => IsLead(CorrOf(S), Lead(Vecs(S), Lam(S), r), Lam(S), r, T)
\* with any other choice of components IsLead does not hold
C20_OnlyLead == kind = "reg" /\ r = 1 /\ Separated(Lam(S), 1, "1E-6")
                  => ~IsLead(CorrOf(S), Mat(3, 3, LAMBDA i, j : NMul(Lam(S)[3], NMul(Vecs(S)[i][3], Vecs(S)[j][3]))), Lam(S), 1, T)
\* nor with a matrix that has the right trace and meets the equation in some entries only
C20_OnlyProjector == kind = "reg" =>
  LET tr == NSum([i \in 1..r |-> Lam(S)[i]])
      D == Mat(3, 3, LAMBDA i, j : IF i = 1 /\ j = 1 THEN tr ELSE NOf(0))
      E == Mat(3, 3, LAMBDA i, j : IF i = j THEN NDiv(tr, 3) ELSE NOf(0))
  IN \A M \in {D, E} : ~MClose(M, Lead(Vecs(S), Lam(S), r), <<1, 1, 1>>, "1E-6") /\ Separated(Lam(S), r, "1E-6") => ~IsLead(CorrOf(S), M, Lam(S), r, T)
C21_Positive == kind = "em" => \A i \in 1..2 : NGt(d[i], 0)
C21_Up == kind = "em" /\ k > 0 => NGe(ModelLL(S, F, d), NSub(ModelLL(S, prev[1], prev[2]), T))
\* a model that is exact stays
C21_Fixed == kind = "em" /\ k > 0 /\ MClose(ModelCov(prev[1], prev[2]), S, SdOf(S), T) =>
               MClose(ModelCov(F, d), S, SdOf(S), "1E-12")
\* after an update the model has the data's variances
C21_Variances == kind = "em" /\ k > 0 => \A i \in 1..2 : NGe(S[i][i], d[i])
=============================================================================
