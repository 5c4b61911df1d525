----------------------------- MODULE MCLowRank ------------------------------
(***************************************************************************)
(* Two assets and one factor, every history of small adjusted returns.     *)
(* The leading component of [[1, c], [c, 1]] is known: (1, sign c)/sqrt 2, *)
(* with eigenvalue 1 + |c|; for c = 0 either sign may be taken.            *)
(***************************************************************************)
EXTENDS LowRank

CONSTANTS Depth, Vals, Halves
VARIABLES h, F, d, full, hist
vars == <<h, F, d, full, hist>>
Beta == NHalf(h)

Init == h \in Halves /\ F = <<>> /\ d = <<>> /\ full = EwInit(4) /\ hist = <<>>

Sign(x) == IF NGt(x, "1E-25") THEN {1} ELSE IF NLt(x, "-1E-25") THEN {-1} ELSE {1, -1}
Sq(r) == [k \in 1..4 |-> NMul(r[((k - 1) \div 2) + 1], r[((k - 1) % 2) + 1])]

Observe(r) ==
  /\ hist' = Append(hist, r)
  /\ full' = EwStep(full, Beta, Sq(r))
  /\ UNCHANGED h
  /\ IF hist = <<>> THEN F' = <<<<r[1]>>, <<r[2]>>>> /\ d' = ZeroVec(2)
     ELSE LET a == LROld(full, Beta)
              b == LRNew(full, Beta)
              c == LRVar(a, F, b, r)
              M == LRTarget(a, F, b, r)
          IN \E s \in Sign(M[1][2]) :
               LET lam == NAdd(1, NAbs(M[1][2]))
                   u == NSqrt(NDiv(lam, 2))
                   P == <<<<NDiv(lam, 2), NMul(s, NDiv(lam, 2))>>, <<NMul(s, NDiv(lam, 2)), NDiv(lam, 2)>>>>
               IN /\ F' = <<<<NMul(NSqrt(c[1]), u)>>, <<NMul(NMul(s, NSqrt(c[2])), u)>>>>
                  /\ d' = LRRest(a, F, d, b, r, P)

Next == Len(hist) < Depth /\ \E x, y \in Vals : Observe(<<NOf(x), NOf(y)>>)
Spec == Init /\ [][Next]_vars

T == "1E-25"
Full == LET v == EwVal(full) IN <<<<v[1], v[2]>>, <<v[3], v[4]>>>>
On == hist # <<>>
\* no variance is lost, whatever is dropped
C31_Diagonal == On => \A i \in 1..2 : NClose(NAdd(NDot(F[i], F[i]), d[i]), Full[i][i], T)
C31_NonNegative == On => \A i \in 1..2 : NGe(d[i], NNeg(T))
C31_PSD == On => IsPSD(ModelCov(F, d), T)
\* as many observations as factors: exact
C31_Exact == Len(hist) = 1 => \A i, j \in 1..2 : NClose(ModelCov(F, d)[i][j], Full[i][j], T)
\* an observation proportional to the factors is kept exactly
Collinear == \A k \in 1..Len(hist) : NEq(NMul(hist[k][1], hist[1][2]), NMul(hist[k][2], hist[1][1]))
C31_Span == (On /\ Collinear) => \A i, j \in 1..2 : NClose(ModelCov(F, d)[i][j], Full[i][j], T)
C31_Scaled == On => LET m == LRScale(F, d, <<NOf(3), NOf(5)>>) IN
                    NClose(ModelCov(m.F, m.d)[1][1], 9, T) /\ NClose(ModelCov(m.F, m.d)[2][2], 25, T)
=============================================================================
