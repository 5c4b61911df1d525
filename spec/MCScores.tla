------------------------------ MODULE MCScores ------------------------------
(***************************************************************************)
(* Every history of small rows against: a rolling window kept as a window  *)
(* and as the code's add/drop update, predictions scored when the next     *)
(* return arrives, and smoothing.                                          *)
(***************************************************************************)
EXTENDS Scores

CONSTANTS Depth, Vals, Memories
VARIABLES hist, memory, win, inc, sm, cl, cn, scored, pending       \* cl: smoothing with clipping, cn: of the negated matrices
vars == <<hist, memory, win, inc, sm, cl, cn, scored, pending>>

n == 2
PredOf(k) == Mat(n, n, LAMBDA i, j : IF i = j THEN NOf(k + 1 + i) ELSE NOf(1))     \* the prediction stamped k
Init == /\ hist = <<>> /\ memory \in Memories /\ win = <<>> /\ inc = <<>>
        /\ sm = EwInit(n * n) /\ cl = EwInit(n * n) /\ cn = EwInit(n * n) /\ scored = <<>> /\ pending = 0

Signed(row) == LET v == <<row[1], NNeg(row[2])>> IN Flat(Outer(v, v))

(* a return arrives: it is scored under the pending prediction, then a new prediction is made *)
Arrive(row) ==
  LET k == Len(hist)
      ao == NDiv(1, IF k < memory THEN k ELSE memory)
      an == NDiv(1, IF k + 1 < memory THEN k + 1 ELSE memory)
      new == Outer(row, row)
  IN /\ hist' = Append(hist, row)
     /\ win' = Push(win, row, memory)
     /\ inc' = IF k = 0 THEN new
               ELSE MAdd(MScale(NDiv(an, ao), inc),
                         MScale(an, IF k >= memory THEN MSub(new, Outer(hist[k + 1 - memory], hist[k + 1 - memory])) ELSE new))
     /\ sm' = EwStep(sm, NHalf(2), Flat(new))
     /\ cl' = EwStepClip(cl, NHalf(2), Signed(row), 2, 1)
     /\ cn' = EwStepClip(cn, NHalf(2), VScale(-1, Signed(row)), 2, 1)
     /\ scored' = IF pending > 0 THEN Append(scored, <<pending, k + 1, LogPdf(PredOf(pending), row, ZeroVec(n))>>) ELSE scored
     /\ pending' = k + 1
     /\ UNCHANGED memory

Next == Len(hist) < Depth /\ \E a, b \in Vals : Arrive(<<NOf(a), NOf(b)>>)
Spec == Init /\ [][Next]_vars

T == "1E-20"
TL == "1E-12"                 \* logarithms and exponentials are double precision
One == Vec(n, LAMBDA i : NOf(1))
C27_Window == hist # <<>> => /\ Len(win) = IF Len(hist) < memory THEN Len(hist) ELSE memory
                             /\ win = SubSeq(hist, Len(hist) - Len(win) + 1, Len(hist))
C27_Incremental == hist # <<>> => MClose(inc, RollVal(win), One, T)
C27_PSD == hist # <<>> => IsPSD(RollVal(win), T)
C26_Pairs == /\ Len(scored) = (IF Len(hist) = 0 THEN 0 ELSE Len(hist) - 1)
             /\ \A k \in 1..Len(scored) : scored[k][1] = k /\ scored[k][2] = k + 1
(* a change of units by c shifts the score by -n ln c; a diagonal covariance means independent assets *)
C26_Units == hist # <<>> =>
  LET r == hist[Len(hist)]
      S == PredOf(Len(hist))
      m == <<NOf(1), NOf(-1)>>
      c == NOf(3)
  IN NClose(LogPdf(MScale(NSq(c), S), VScale(c, r), VScale(c, m)), NSub(LogPdf(S, r, m), NMul(n, NLn(c))), TL)
C26_Independent == hist # <<>> =>
  LET r == hist[Len(hist)]
      d == <<NOf(2), NOf(5)>>
  IN NClose(LogPdf(DiagMat(d), r, ZeroVec(n)),
            NAdd(LogPdf(<<<<d[1]>>>>, <<r[1]>>, <<NOf(0)>>), LogPdf(<<<<d[2]>>>>, <<r[2]>>, <<NOf(0)>>)), TL)
C28_Explicit == hist # <<>> =>
  LET k == Len(hist)
      b == NHalf(2)
      w == [i \in 1..k |-> NExp(NMul(k - i, NLn(b)))]
  IN \A q \in 1..(n * n) :
       NClose(EwVal(sm)[q], NDiv(NSum([i \in 1..k |-> NMul(w[i], Flat(Outer(hist[i], hist[i]))[q])]), NSum(w)), TL)
(* clipping knows no sign, never leaves the range of what was seen, and lets an entry that is always the same pass *)
C28_Clipped == hist # <<>> =>
  \A q \in 1..(n * n) :
    LET S == {Signed(hist[k])[q] : k \in 1..Len(hist)} IN
    /\ NEq(EwVal(cn)[q], NNeg(EwVal(cl)[q]))
    /\ \E x \in S : NLe(NAbs(EwVal(cl)[q]), NAdd(NAbs(x), T))
    /\ (\A x \in S : NEq(x, Signed(hist[1])[q])) => NClose(EwVal(cl)[q], Signed(hist[1])[q], TL)
C28_PSD == hist # <<>> => IsPSD(Unflat(EwVal(sm), n), T)
(* realised covariance of the history taken as one day: not changed by a shift of all returns, at most the raw second moment *)
C28_Realized == hist # <<>> =>
  LET day == hist
      moved == [k \in 1..Len(day) |-> VAdd(day[k], <<NOf(7), NOf(-2)>>)]
  IN /\ MClose(Realized(day), Realized(moved), One, T)
     /\ \A i \in 1..n : NLe(Realized(day)[i][i], NAdd(NSq(RealizedVola(day)[i]), T))
     /\ IsPSD(Realized(day), T)
=============================================================================
