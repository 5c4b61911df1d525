------------------------------- MODULE Trader -------------------------------
(***************************************************************************)
(* A trader's history: backtests choose holdings, dilutions and reports    *)
(* are asked in any order.  The state is the current portfolio, the latest *)
(* dilution of it and the latest reported returns.                         *)
(***************************************************************************)
EXTENDS Portfolio

Days == 252
NoTrader == [type |-> "", adj |-> NOf(1), ws |-> <<>>, dil |-> <<>>, tgt |-> "", rets |-> <<>>]
Cash(type) == type \in {"vol_cont", "mean_variance"}         \* portfolios that trade cash themselves

(* holdings w of n assets mixed with cash so that the predicted annual volatility is x *)
DiluteRow(S, w, x) ==
  LET th == NDiv(x, NMul(NSqrt(Days), Risk(S, w))) IN
  TLCEval(Append(VScale(th, w), NSub(1, th)))
Dilution(tr, S, x) == IF Cash(tr.type) THEN tr.ws
                      ELSE TLCEval([t \in 1..Len(tr.ws) |-> DiluteRow(S[t], tr.ws[t], x)])

AfterBacktest(type, adj, ws) ==
  [NoTrader EXCEPT !.type = type, !.adj = NOf(adj), !.ws = ws, !.dil = IF type = "vol_cont" THEN ws ELSE <<>>]
AfterDilute(tr, S, x) == [tr EXCEPT !.dil = Dilution(tr, S, x), !.tgt = x]

(* holdings a report is about; x = "" : the latest dilution *)
NeedsTarget(tr, diluted, x) == diluted /\ x = "" /\ tr.dil = <<>>
Held(tr, diluted) == IF diluted THEN tr.dil ELSE tr.ws
\* cash: last holding earns the risk-free rate
Earned(w, r, rf, cash) == NDot(w, IF cash THEN Append(r, rf) ELSE r)
RetsOf(tr, diluted, r, rf) ==
  LET ws == Held(tr, diluted) IN
  TLCEval([t \in 1..Len(ws) |-> Earned(ws[t], r[t], IF rf = <<>> THEN NOf(0) ELSE rf[t], diluted \/ Cash(tr.type))])
AfterReport(tr, S, r, diluted, x, rf) ==
  LET u == IF diluted /\ x # "" THEN AfterDilute(tr, S, x) ELSE tr
  IN [u EXCEPT !.rets = RetsOf(u, diluted, r, rf)]

(* figures *)
Growth(rets, adj) == TLCEval(FoldLeft(LAMBDA V, x : Append(V, NMul(IF V = <<>> THEN NOf(1) ELSE V[Len(V)], NAdd(1, NDiv(x, adj)))), <<>>, rets))
Avg(v)  == NDiv(NSum(v), Len(v))
Std(v)  == LET m == TLCEval(Avg(v)) IN NSqrt(Avg(Vec(Len(v), LAMBDA i : NSq(NSub(v[i], m)))))
\* largest fall from an earlier value
Drawdown(V) ==
  FoldLeft(LAMBDA a, t : NMax(a, FoldLeft(LAMBDA b, s : NMax(b, NDiv(NSub(V[s], V[t]), V[s])), NOf(0), [s \in 1..t |-> s])),
           NOf(0), [t \in 1..Len(V) |-> t])
Figures(rets, adj, rf, excess) ==
  LET y == TLCEval(VScale(NDiv(1, adj), rets))
      e == IF excess THEN VSub(y, rf) ELSE y
      mean == NMul(Avg(e), Days)
      risk == NMul(Std(y), NSqrt(Days))
  IN [mean |-> mean, risk |-> risk, sharpe |-> NDiv(mean, risk), dd |-> Drawdown(Growth(rets, adj))]
(* returns scaled to a realised volatility *)
RiskAdjusted(rets, x) == VScale(NDiv(x, NMul(NSqrt(Days), Std(rets))), rets)
=============================================================================
