---------------------------- MODULE TraceRelate -----------------------------
(***************************************************************************)
(* Two recorded runs A and B of the same function on related inputs:       *)
(*   B's asset i is A's asset pa[i], in units c[i] times A's;              *)
(*   B's expert k is A's expert ex[k];                                     *)
(*   the inputs agree up to time `cut` (0 = everywhere).                   *)
(* Both machines step together; at every time up to the cut their outputs  *)
(* must be related in the same way.                                        *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES tid, l
vars == <<tid, l>>
Run == Runs[tid]

Init == /\ tid \in 1..NRuns /\ l = 1
        /\ PrintAll(Runs[tid].id, 0, Need(Runs[tid].errA = Runs[tid].errB, "raised_differently") \union Need(Runs[tid].errA = "", "raised"))

(* sequences compared with their own natural unit u *)
Rel(x, y, f, u) == NClose(NMul(f, x), y, NMul(Run.tol, NMul(f, NAdd(u, NAbs(x)))))

JudgeOut(a, b) ==
  LET n == Len(Run.pa)
      pa == Run.pa
      c == Run.c
      K == Len(Run.ex)
      unit(i) == IF a.u # <<>> /\ ~NIsNaN(a.u[i]) THEN NOf(a.u[i]) ELSE NOf(0)     \* size of the asset's data so far
      sd(i) == IF a.cov # <<>> THEN (LET s == NSqrt(a.cov[i][i]) IN IF NIsNaN(s) THEN unit(i) ELSE s) ELSE unit(i)
      s == TLCEval([i \in 1..n |-> sd(i)])
  IN Need(a.lab /\ b.lab, "labels") \union
     Need(\A f \in {"v", "m", "x"} : /\ Len(a[f]) = Len(b[f])
             /\ (a[f] # <<>> => \A i \in 1..n : Rel(a[f][pa[i]], b[f][i], c[i], s[pa[i]])), "vector") \union
     Need(/\ (a.cov = <<>>) = (b.cov = <<>>)
          /\ (a.cov # <<>> => \A i, j \in 1..n : Rel(a.cov[pa[i]][pa[j]], b.cov[i][j], NMul(c[i], c[j]), NMul(s[pa[i]], s[pa[j]]))), "covariance") \union
     Need(/\ Len(a.w) = Len(b.w)
          /\ (a.w # <<>> /\ Run.weights => \A k \in 1..K : NClose(a.w[Run.ex[k]], b.w[k], Run.wtol)), "weights")

Pick(seq, k) == IF k <= Len(seq) THEN seq[k] ELSE [has |-> FALSE]

Judge(a, b) ==
  Need(a.has = b.has, "presence") \union
  (IF a.has /\ b.has THEN Need(a.none = b.none, "placeholder") \union (IF a.none \/ b.none THEN {} ELSE JudgeOut(a, b)) ELSE {})

LastT == IF Run.cut = 0 THEN (IF Len(Run.A) > Len(Run.B) THEN Len(Run.A) ELSE Len(Run.B)) ELSE Run.cut

Next ==
  /\ l <= LastT
  /\ PrintAll(Run.id, l, Judge(Pick(Run.A, l), Pick(Run.B, l)))
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ (l = LastT => PrintT(<<"DONE", Run.id>>))
=============================================================================
