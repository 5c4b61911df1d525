---------------------------- MODULE TraceReturn -----------------------------
(***************************************************************************)
(* Recorded return combinations, predictors, feature splits and tunings    *)
(* checked against ReturnComb, one event per time.                         *)
(***************************************************************************)
EXTENDS TraceBase, ReturnComb

VARIABLES tid, l, st
vars == <<tid, l, st>>
VW == <<tid, l>>
Run == Runs[tid]

Init == /\ tid \in 1..NRuns /\ l = 1
        /\ st = CASE Runs[tid].kind \in {"comb", "lasso"} -> RCInit(Runs[tid].K)
                  [] Runs[tid].kind = "ewmapred" -> [k \in 1..Len(Runs[tid].pars) |-> EwInit(1)]
                  [] OTHER -> <<>>
        /\ PrintAll(Runs[tid].id, 0,
             Need(Runs[tid].err = "", "raised") \union
             (IF Runs[tid].err # "" THEN {} ELSE Need(Runs[tid].stamps = [k \in 1..Len(Runs[tid].stamps) |-> Runs[tid].first + k - 1]
                                                      /\ Runs[tid].first + Len(Runs[tid].stamps) - 1 = Len(Runs[tid].ev), "times")))

Finite(v) == \A i \in 1..Len(v) : NIsFin(v[i])
JudgeComb(ev) ==
  LET on == Len(st.win) = Run.memory
      K == Run.K
  IN Need(ev.has = on, "weights_when") \union
     (IF ~(on /\ ev.has) THEN {}
      ELSE Need(IsId(ev.lab, K), "labels") \union
           (IF Len(ev.w) # K \/ ~Finite(ev.w) THEN {"weights"}
            ELSE Need(NClose(ev.hat, NDot(ev.x, ev.w), NMul("1E-10", NSum(Vec(K, LAMBDA k : NAbs(NMul(ev.x[k], ev.w[k])))))), "prediction") \union
                 (IF Run.kind = "lasso"
                  THEN Need(NLe(NSub(LassoObj(st.win, Run.alpha, ev.w), LassoBound(st.win, Run.alpha, ev.w)), NMul("3E-4", Energy(st.win))), "optimal")
                  ELSE LET b == Ages(Run.memory)
                           A == RidgeA(st.win, b, Pen(st, Run.alpha))
                           y == RidgeB(st.win, b)
                           s == Vec(K, LAMBDA i : NSqrt(A[i][i]))
                           size == Vec(K, LAMBDA i : NDiv(NAdd(NAbs(y[i]), NSum(Vec(K, LAMBDA j : NAbs(NMul(A[i][j], ev.w[j]))))), s[i]))
                           tol == NMul("1E-8", MaxAbsV(size))
                       IN Need(\A i \in 1..K : NClose(NDiv(NDot(A[i], ev.w), s[i]), NDiv(y[i], s[i]), tol), "ridge"))))

\* lagged and EWMA predictors: pars are the lags (integers) or half-lives
JudgeLag(ev) == Need(\A k \in 1..Len(Run.pars) :
                       IF l > Run.pars[k] THEN NEq(ev.o[k], Run.ev[l - Run.pars[k]].r) ELSE NIsNaN(ev.o[k]), "lagged")
JudgeEwma(ev) == IF l = 1 THEN {}
                 ELSE Need(\A k \in 1..Len(Run.pars) : NClose(ev.o[k], EwVal(st[k])[1], NMul("1E-9", Run.size)), "ewma")

JudgeSplit(ev) ==
  LET K == Len(ev.x)
  IN Need(Len(ev.o) = 2 * K /\ \A k \in 1..K : NEq(ev.o[k], NMax(ev.x[k], 0)) /\ NEq(ev.o[K + k], NMin(ev.x[k], 0)), "split") \union
     Need(ev.lab = [k \in 1..(2 * K) |-> ((k - 1) % K) + 1], "labels")

\* one event per alpha: combined predictions h, returns r at those times, reported correlation and error
Mean(v) == NDiv(NSum(v), Len(v))
JudgeTune(ev) ==
  LET m == Len(ev.h)
      dh == Vec(m, LAMBDA k : NSub(ev.h[k], Mean(ev.h)))
      dr == Vec(m, LAMBDA k : NSub(ev.r[k], Mean(ev.r)))
      e == Vec(m, LAMBDA k : NSub(ev.h[k], ev.r[k]))
  IN Need(NClose(NSq(ev.rmse), NDiv(NDot(e, e), m), NMul("1E-9", NDiv(NDot(e, e), m))), "error") \union
     Need(NClose(ev.corr, NDiv(NDot(dh, dr), NSqrt(NMul(NDot(dh, dh), NDot(dr, dr)))), "1E-8"), "correlation") \union
     Need(NEq(ev.alpha, ev.asked), "alpha") \union Need(ev.same, "weights_of_this_alpha")

Next ==
  /\ l <= Len(Run.ev)
  /\ LET ev == Run.ev[l] IN
     CASE Run.err # "" -> st' = st
       [] Run.kind \in {"comb", "lasso"} -> st' = RCPush(st, ev.x, ev.r, Run.memory) /\ PrintAll(Run.id, l, JudgeComb(ev))
       [] Run.kind = "lagpred" -> st' = st /\ PrintAll(Run.id, l, JudgeLag(ev))
       [] Run.kind = "ewmapred" -> st' = [k \in 1..Len(st) |-> EwStep(st[k], NHalf(Run.pars[k]), <<NOf(ev.r)>>)] /\ PrintAll(Run.id, l, JudgeEwma(ev))
       [] Run.kind = "split" -> st' = st /\ PrintAll(Run.id, l, JudgeSplit(ev))
       [] Run.kind = "tune" -> st' = st /\ PrintAll(Run.id, l, JudgeTune(ev))
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ (l = Len(Run.ev) => PrintT(<<"DONE", Run.id>>))
Spec == Init /\ [][Next]_vars
=============================================================================
