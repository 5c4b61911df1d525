----------------------------- MODULE TraceTrader ----------------------------
(***************************************************************************)
(* Recorded histories of traders (made directly, or by the backtest        *)
(* classes over a period of the data) checked against Trader.              *)
(* Run.D[who]: the data of trader `who`; Run.ev: the operations.           *)
(***************************************************************************)
EXTENDS TraceBase, Trader

VARIABLES tid, l, st
vars == <<tid, l, st>>
VW == <<tid, l>>
Run == Runs[tid]

(***************************************************************************)
(* Which prediction meets which return.  direct: the caller already paired *)
(* them.  Otherwise the period start..end of the history is traded: at     *)
(* every time of it but the last the prediction of that time, against the  *)
(* return of the next time (times whose next return is missing are left    *)
(* out).                                                                   *)
(***************************************************************************)
Complete(row) == \A i \in 1..Len(row) : ~NIsNaN(row[i])
Times(D) == IF D.direct THEN [k \in 1..Len(D.R) |-> k]
            ELSE SelectSeq([k \in 1..(D.end - D.start) |-> D.start + k - 1], LAMBDA p : Complete(D.R[p + 1]))
SAt(D) == LET T == Times(D) IN TLCEval([k \in 1..Len(T) |-> D.S[T[k]]])
RAt(D) == LET T == Times(D) IN TLCEval([k \in 1..Len(T) |-> D.R[IF D.direct THEN T[k] ELSE T[k] + 1]])
MuAt(D) == IF D.mu = <<>> THEN <<>> ELSE LET T == Times(D) IN TLCEval([k \in 1..Len(T) |-> D.mu[T[k]]])
RhoAt(D) == IF D.rho = <<>> THEN <<>> ELSE LET T == Times(D) IN TLCEval([k \in 1..Len(T) |-> D.rho[T[k]]])
Prepare(D) == [rho |-> RhoAt(D), S |-> SAt(D), r |-> RAt(D), mu |-> MuAt(D), T |-> Len(Times(D)), n |-> Len(D.R[1])]

Init == /\ tid \in 1..NRuns /\ l = 1
        /\ st = [who \in 1..Len(Runs[tid].D) |-> [d |-> Prepare(Runs[tid].D[who]), tr |-> NoTrader]]

MEq(A, B) == /\ Len(A) = Len(B)
             /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : NClose(A[i][j], B[i][j], 0)

(* what the backtest class handed to the trader *)
JudgePaired(D, d, ev) ==
  Need(ev.err = "", "raised") \union
  (IF ev.err # "" THEN {} ELSE
   Need(ev.idx = Times(D), "period") \union
   Need(ev.sidx = Times(D), "period_predictions") \union
   Need(MEq(ev.r, d.r), "paired_return") \union
   Need(Len(ev.S) = d.T /\ \A t \in 1..d.T : MEq(ev.S[t], d.S[t]), "paired_covariance") \union
   Need(IF ev.mu = <<>> THEN TRUE ELSE MEq(ev.mu, d.mu), "paired_mean"))

WTol == "2E-5"
GTol == Run.gtol
ZeroV(n) == ZeroVec(n)

(* one period's holdings *)
JudgeRow(ev, S, mu, rho, w, wit) ==
  LET n == Rows(S)
      ty == ev.type
      v == SubSeq(w, 1, n)
      sd == Vec(n, LAMBDA i : NSqrt(S[i][i]))
      lim == ev.lim
      Z(x) == IF Len(wit.z) = n THEN wit.z ELSE x
  IN CASE ty = "eq_weighted" -> Need(\A i \in 1..n : NClose(w[i], NDiv(1, n), "1E-12"), "equal")
       [] ty \in {"min_risk", "robust_min_risk"} ->
            Need(NClose(NSum(w), 1, WTol), "sum") \union Need(Within(w, lim, WTol), "limits") \union
            Need(NLe(MinRiskGap(S, w, Z(w), IF ty = "min_risk" THEN NOf(0) ELSE NOf(ev.kappa), sd, lim, wit), GTol), "optimal")
       [] ty = "vol_cont" ->
            LET h == Risk(S, v)
                th == NSum(v)                         \* part in risky assets
                u == VScale(NDiv(1, th), v)
            IN Need(NClose(NSum(w), 1, WTol), "cash_sum") \union
               Need(NClose(NMul(NSqrt(Days), h), ev.sdes, NMul("1E-4", ev.sdes)), "volatility") \union
               Need(Within(u, lim, WTol), "limits") \union
               Need(NLe(MinRiskGap(S, u, Z(u), NOf(0), sd, lim, wit), GTol), "optimal")
       [] ty = "mean_variance" ->
            LET R == NMul(ev.adj, NDiv(ev.sdes, NSqrt(Days)))
            IN Need(NClose(NSum(w), 1, WTol), "cash_sum") \union
               Need(Within(v, lim, WTol), "limits") \union
               Need(NLe(Risk(S, v), NMul(R, "1.0001")), "volatility") \union
               Need(NLe(MeanVarGap(S, mu, rho, R, v, Z(v), lim, wit), GTol), "optimal")
       [] ty = "risk_parity" ->
            Need(NClose(NSum(w), 1, WTol), "sum") \union
            Need(\A i \in 1..n : NGt(w[i], 0), "positive") \union Need(Parity(S, w, "5E-3"), "parity")
       [] ty = "max_diverse" ->
            LET b == [lo |-> "0", hi |-> lim.hi, s |-> ""] IN
            Need(NClose(NSum(w), 1, WTol), "sum") \union Need(Within(w, b, WTol), "limits") \union
            Need(NLe(RatioGap(S, sd, w, Z(w), b, wit), GTol), "optimal")
       [] ty = "max_sharpe" ->
            LET b == [lo |-> "0", hi |-> "1", s |-> ""] IN
            Need(NClose(NSum(w), 1, WTol), "sum") \union Need(Within(w, b, WTol), "limits") \union
            Need(NLe(RatioGap(S, mu, w, Z(w), b, wit), GTol), "optimal")

JudgeBacktest(d, ev) ==
  Need(ev.kept, "inputs_modified") \union
  (IF ~ev.feasible THEN {}
   ELSE IF ev.err # "" THEN {"backtest_raised"}
   ELSE LET m == IF Cash(ev.type) THEN d.n + 1 ELSE d.n IN
        IF ~(Len(ev.ws) = d.T /\ \A t \in 1..Len(ev.ws) : Len(ev.ws[t]) = m) THEN {"shape"}
        ELSE IF MHasNaN(ev.ws) THEN {"finite"}
        ELSE UNION {JudgeRow(ev, d.S[t], IF d.mu = <<>> THEN <<>> ELSE d.mu[t], IF ev.userho THEN d.rho[t] ELSE ZeroV(d.n),
                             ev.ws[t], IF t <= Len(ev.wit) THEN ev.wit[t] ELSE [nu |-> "0", la |-> "0", mu |-> "0", z |-> <<>>]) : t \in 1..d.T})

VNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NClose(a[i], b[i], NMul(tol, NAdd(1, NAbs(b[i]))))
RNear(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VNear(a[i], b[i], "1E-8")

(* figures scale with the returns *)
JudgeFigures(ev, rets, adj) ==
  LET f == Figures(rets, adj, ev.rf, ev.excess)
      sc == NMul(Days, NDiv(MaxAbsV(rets), adj))
  IN Need(NClose(ev.fig.mean, f.mean, NMul("1E-9", NAdd(sc, NAbs(f.mean)))), "mean") \union
     Need(NClose(ev.fig.risk, f.risk, NMul("1E-8", NAdd(sc, f.risk))), "risk") \union
     \* the ratio of the two figures reported
     Need(NLe(f.risk, NMul("1E-6", sc)) \/ NClose(ev.fig.sharpe, NDiv(ev.fig.mean, ev.fig.risk), NMul("1E-8", NAdd(1, NAbs(f.sharpe)))), "sharpe") \union
     \* a fall of more than everything has no fraction
     Need((\E i \in 1..Len(ev.V) : NLe(ev.V[i], 0)) \/ NClose(ev.fig.dd, f.dd, "1E-9"), "drawdown") \union
     Need(VNear(ev.V, Growth(rets, adj), "1E-9"), "growth")

HasPortfolio(s) == s.tr.ws # <<>>

Judge(D, s, ev) ==
  CASE ev.op = "paired" -> JudgePaired(D, s.d, ev)
    [] ev.op = "backtest" -> JudgeBacktest(s.d, ev)
    [] ~HasPortfolio(s) -> {}
    [] ev.op = "dilute" ->
         IF ev.err # "" THEN {"dilute_raised"}
         ELSE LET e == AfterDilute(s.tr, s.d.S, ev.x) IN Need(RNear(ev.ws, e.dil), "diluted")
    [] ev.op \in {"returns", "metrics"} ->
         IF ev.err # ""
         THEN Need(NeedsTarget(s.tr, ev.diluted, ev.x) \/ (ev.diluted /\ ev.x = "" /\ Cash(s.tr.type)), "report_raised")
         ELSE IF NeedsTarget(s.tr, ev.diluted, ev.x) /\ ~Cash(s.tr.type) THEN {"report_without_target"}
         ELSE LET t0 == IF NeedsTarget(s.tr, ev.diluted, ev.x) THEN [s.tr EXCEPT !.dil = s.tr.ws] ELSE s.tr
                  e == AfterReport(t0, s.d.S, s.d.r, ev.diluted, ev.x, ev.rf)
              IN IF ~VNear(ev.rets, e.rets, "1E-8") THEN {IF ev.diluted THEN "diluted_returns" ELSE "returns"}
                 ELSE IF ev.op = "returns" THEN Need(ev.V = <<>> \/ VNear(ev.V, Growth(e.rets, e.adj), "1E-8"), "growth")
                 ELSE JudgeFigures(ev, ev.rets, e.adj)
    [] ev.op = "riskadj" ->
         IF s.tr.rets = <<>> THEN {}
         ELSE Need(ev.err = "", "report_raised") \union
              (IF ev.err # "" THEN {} ELSE LET a == RiskAdjusted(s.tr.rets, ev.x) IN
                Need(NLe(Std(s.tr.rets), NMul("1E-9", MaxAbsV(s.tr.rets))) \/
                     (VNear(ev.rets, a, "1E-8") /\ VNear(ev.V, Growth(a, s.tr.adj), "1E-8")), "risk_adjusted"))

After(s, ev) ==
  IF ev.op = "paired" THEN s.tr
  ELSE IF ev.op = "backtest"
  THEN (IF ev.err = "" /\ ev.feasible /\ Len(ev.ws) = s.d.T /\ (\A t \in 1..Len(ev.ws) : Len(ev.ws[t]) = IF Cash(ev.type) THEN s.d.n + 1 ELSE s.d.n)
           /\ ~MHasNaN(ev.ws)
        THEN AfterBacktest(ev.type, ev.adj, ev.ws) ELSE NoTrader)
  ELSE IF ev.err # "" \/ ~HasPortfolio(s) THEN s.tr
  ELSE IF ev.op = "dilute" THEN AfterDilute(s.tr, s.d.S, ev.x)
  ELSE IF ev.op = "riskadj" THEN s.tr
  ELSE AfterReport(IF NeedsTarget(s.tr, ev.diluted, ev.x) THEN [s.tr EXCEPT !.dil = s.tr.ws] ELSE s.tr,
                   s.d.S, s.d.r, ev.diluted, ev.x, ev.rf)

Next ==
  /\ l <= Len(Run.ev)
  /\ LET ev == Run.ev[l]
         s == st[ev.who]
     IN /\ PrintAll(Run.id, l, Judge(Run.D[ev.who], s, ev))
        /\ st' = [st EXCEPT ![ev.who].tr = After(s, ev)]
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ (l = Len(Run.ev) => PrintT(<<"DONE", Run.id>>))
=============================================================================
