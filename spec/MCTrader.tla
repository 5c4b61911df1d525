------------------------------ MODULE MCTrader ------------------------------
(***************************************************************************)
(* Every history of backtests (two kinds of portfolios without cash, one   *)
(* with), dilutions and reports up to a depth, on small numbers.  A report *)
(* must always equal that of a trader that did nothing but run the latest  *)
(* backtest and answer this one question; the histories are printed and    *)
(* replayed into the code.                                                 *)
(***************************************************************************)
EXTENDS Trader, Json

CONSTANTS Depth, Emit
VARIABLES tr, hist, ask
vars == <<tr, hist, ask>>

S == <<<<<<4, 1>>, <<1, 9>>>>, <<<<1, "-0.5">>, <<"-0.5", 2>>>>, <<<<2, 0>>, <<0, 3>>>>>>
r == <<<<"0.1", "-0.2">>, <<"-0.3", "0.05">>, <<"0.02", "0.4">>>>
rf == <<"0.01", "0.02", "0.03">>
W(type) == CASE type = "eq" -> <<<<"0.5", "0.5">>, <<"0.5", "0.5">>, <<"0.5", "0.5">>>>
             [] type = "other" -> <<<<"0.8", "0.2">>, <<"1.5", "-0.5">>, <<"0.3", "0.7">>>>
             [] OTHER -> <<<<"0.1", "0.2", "0.7">>, <<"0.3", "0.3", "0.4">>, <<"-0.2", "0.5", "0.7">>>>
Types == {"eq", "other", "vol_cont"}
Targets == {"1", "2"}
Num3 == 3

Init == tr = NoTrader /\ hist = <<>> /\ ask = <<>>

Do(op, t2, q) == tr' = t2 /\ hist' = Append(hist, op) /\ ask' = q

BacktestOp == \E ty \in Types : Do([op |-> "backtest", type |-> ty], AfterBacktest(ty, 1, W(ty)), <<>>)
DiluteOp == \E x \in Targets : tr.ws # <<>> /\ Do([op |-> "dilute", x |-> x], AfterDilute(tr, S, x), <<>>)
PlainOp == tr.ws # <<>> /\ Do([op |-> "report", dil |-> FALSE, x |-> "0"], AfterReport(tr, S, r, FALSE, "", rf), <<"plain">>)
AskOp == \E x \in Targets : tr.ws # <<>> /\ Do([op |-> "report", dil |-> TRUE, x |-> x], AfterReport(tr, S, r, TRUE, x, rf), <<"to", x>>)
AgainOp == tr.dil # <<>> /\ Do([op |-> "report", dil |-> TRUE, x |-> "0"], AfterReport(tr, S, r, TRUE, "", rf), <<"again", IF tr.tgt = "" THEN "1" ELSE tr.tgt>>)

Next == /\ Len(hist) < Depth
        /\ BacktestOp \/ DiluteOp \/ PlainOp \/ AskOp \/ AgainOp
        /\ (Emit /\ Len(hist') = Depth => PrintT(<<"BEH", ToJson(hist')>>))
Spec == Init /\ [][Next]_vars

Fresh == AfterBacktest(tr.type, 1, W(tr.type))
\* the answer is that of a fresh trader asked the same question
C23_Repeatable == ask # <<>> =>
  tr.rets = (IF ask[1] = "plain" THEN AfterReport(Fresh, S, r, FALSE, "", rf) ELSE AfterReport(Fresh, S, r, TRUE, ask[2], rf)).rets
C23_Figures == tr.rets # <<>> =>
  LET V == Growth(tr.rets, 1)
      f == Figures(tr.rets, NOf(1), rf, FALSE)
      \* running peak
      run == FoldLeft(LAMBDA a, t : LET p == NMax(a[1], V[t]) IN <<p, NMax(a[2], NDiv(NSub(p, V[t]), p))>>, <<V[1], NOf(0)>>, [t \in 1..Num3 |-> t])
  IN /\ NClose(f.dd, run[2], "1E-25")
     /\ NClose(V[Num3], NMul(NAdd(1, tr.rets[1]), NMul(NAdd(1, tr.rets[2]), NAdd(1, tr.rets[3]))), "1E-25")
     /\ NClose(NMul(f.sharpe, f.risk), f.mean, "1E-20")
C24_Latest == tr.dil # <<>> =>
  /\ \A t \in 1..Num3 : Len(tr.dil[t]) = 3 /\ NClose(NSum(tr.dil[t]), 1, "1E-25")
  /\ Cash(tr.type) => tr.dil = W(tr.type)
  /\ ~Cash(tr.type) => \A t \in 1..Num3 :
        /\ NClose(NMul(NSqrt(Days), Risk(S[t], SubSeq(tr.dil[t], 1, 2))), tr.tgt, "1E-25")
        /\ NClose(NMul(tr.dil[t][1], tr.ws[t][2]), NMul(tr.dil[t][2], tr.ws[t][1]), "1E-25")
C24_Adjusted == tr.rets # <<>> => NClose(NMul(Std(RiskAdjusted(tr.rets, 2)), NSqrt(Days)), 2, "1E-20")
=============================================================================
