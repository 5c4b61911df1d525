-------------------------------- MODULE Ewma --------------------------------
(***************************************************************************)
(* Exponentially weighted moving averages as a state machine with the two  *)
(* accumulators of the closed form                                         *)
(*     s_n = sum_{i<=n} beta^(n-i) y_i,    w_n = sum_{i<=n} beta^(n-i),    *)
(* estimate s_n / w_n.  (The code keeps the estimate itself and a          *)
(* convex-combination update; agreement of the two is what is checked.)    *)
(***************************************************************************)
EXTENDS Linalg

EwInit(m) == [s |-> ZeroVec(m), w |-> NOf(0), k |-> 0]

EwStep(e, beta, y) ==
  [s |-> Vec(Len(y), LAMBDA i : NAdd(NMul(beta, e.s[i]), y[i])),
   w |-> NAdd(NMul(beta, e.w), 1),
   k |-> e.k + 1]

EwVal(e) == Vec(Len(e.s), LAMBDA i : NDiv(e.s[i], e.w))

(* Winsorised observation: once `k >= mp + 1` observations have been seen,  *)
(* limit y to +-c times the size of the estimate, unless that is zero.      *)
Winsor(e, y, c, mp) ==
  IF e.k < mp + 1 THEN y
  ELSE LET cur == EwVal(e) IN
       Vec(Len(y), LAMBDA i :
         IF NEq(cur[i], 0) \/ NIsNaN(cur[i]) THEN NOf(y[i])
         ELSE NClamp(y[i], NNeg(NMul(c, NAbs(cur[i]))), NMul(c, NAbs(cur[i]))))

EwStepClip(e, beta, y, c, mp) == EwStep(e, beta, Winsor(e, y, c, mp))

(* an estimate is reported from the mp-th observation on, unless all missing *)
AllNaN(v)       == \A i \in 1..Len(v) : NIsNaN(v[i])
Reported(e, mp) == e.k >= mp /\ e.k >= 1 /\ ~AllNaN(EwVal(e))
=============================================================================
