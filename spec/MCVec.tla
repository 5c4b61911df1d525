------------------------------- MODULE MCVec --------------------------------
(***************************************************************************)
(* The vectorised predictor works on whole arrays, stage by stage, with    *)
(* closed-form or convex-combination averages; the streaming one row by    *)
(* row.  On complete data both give the same prediction after every row.   *)
(***************************************************************************)
EXTENDS Iewma

CONSTANTS Depth, Classes, Which
VARIABLE hist
vars == <<p, st, out, hist>>
N == 2
ParamSeq == <<
  [n |-> N, hv |-> "1", hc |-> "2", hm1 |-> "1", hm2 |-> "2", mpv |-> 1, mpc |-> 1, clip |-> "", mean |-> FALSE, nan0 |-> TRUE],
  [n |-> N, hv |-> "3", hc |-> "1", hm1 |-> "3", hm2 |-> "1", mpv |-> 2, mpc |-> 2, clip |-> "", mean |-> TRUE, nan0 |-> TRUE],
  [n |-> N, hv |-> "1", hc |-> "2", hm1 |-> "1", hm2 |-> "2", mpv |-> 1, mpc |-> 2, clip |-> "1.5", mean |-> FALSE, nan0 |-> TRUE],
  [n |-> N, hv |-> "2", hc |-> "1", hm1 |-> "2", hm2 |-> "1", mpv |-> 2, mpc |-> 2, clip |-> "1.2", mean |-> TRUE, nan0 |-> TRUE] >>
VParams == {ParamSeq[i] : i \in Which}
S == <<<<"1.1", "-0.7">>, <<"-0.9", "1.3">>, <<"0.3", "0.8">>, <<"1.9", "-0.2">>, <<"-0.35", "0.95">>, <<"2.3", "-1.05">>>>
RowOf(cs, t) == Vec(N, LAMBDA i : IF cs[i] = "B" THEN NMul(29, S[t][i]) ELSE NOf(S[t][i]))

MCInit == IInit /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E cs \in [1..N -> Classes] :
               LET row == RowOf(cs, Len(hist) + 1)
               IN hist' = Append(hist, row) /\ Observe(row)
MCSpec == MCInit /\ [][MCNext]_vars

----------------------------------------------------------------------------
(* arrays of numbers by time; averages over time *)
Pow(b, k) == FoldLeft(LAMBDA a, x : NMul(a, b), NOf(1), [x \in 1..k |-> x])
Avg(b, y) == NDiv(NSum([t \in 1..Len(y) |-> NMul(Pow(b, Len(y) - t), y[t])]), NSum([t \in 1..Len(y) |-> Pow(b, Len(y) - t)]))
AvgArr(b, y) == TLCEval([t \in 1..Len(y) |-> Avg(b, SubSeq(y, 1, t))])
(* the same with each observation limited to c times the average before it, from observation mp + 2 on *)
ClipArr(b, y, c, mp) ==
  FoldLeft(LAMBDA acc, t :
             LET ow == NDiv(NSub(b, Pow(b, t)), NSub(1, Pow(b, t)))
                 nw == NDiv(NSub(1, b), NSub(1, Pow(b, t)))
                 x  == IF t >= mp + 2 THEN NClamp(y[t], NNeg(NMul(c, acc[t-1])), NMul(c, acc[t-1])) ELSE y[t]
             IN TLCEval(Append(acc, IF t = 1 THEN NOf(y[1]) ELSE NAdd(NMul(ow, acc[t-1]), NMul(nw, x)))),
           <<>>, [t \in 1..Len(y) |-> t])
Column(rows, i) == [t \in 1..Len(rows) |-> rows[t][i]]
From(y, k) == SubSeq(y, k, Len(y))
Lim(x) == IF p.clip = "" THEN NOf(x) ELSE NClamp(x, NNeg(p.clip), p.clip)

Batch(rows) ==
  LET T == Len(rows)
      mean == [i \in 1..N |-> IF p.mean THEN AvgArr(NHalf(p.hv), Column(rows, i)) ELSE [t \in 1..T |-> NOf(0)]]
      sq == [i \in 1..N |-> [t \in 1..T |-> NSq(NSub(rows[t][i], mean[i][t]))]]
      vr == [i \in 1..N |-> IF p.clip = "" THEN AvgArr(NHalf(p.hv), sq[i]) ELSE ClipArr(NHalf(p.hv), sq[i], NSq(p.clip), p.mpv)]
      vo == TLCEval([i \in 1..N |-> From([t \in 1..T |-> NSqrt(vr[i][t])], p.mpv)])
      U == T - p.mpv + 1
      adj == TLCEval([i \in 1..N |-> [t \in 1..U |-> Lim(NDiv(NSub(rows[t + p.mpv - 1][i], mean[i][t + p.mpv - 1]), vo[i][t]))]])
      am == TLCEval([i \in 1..N |-> IF p.mean THEN AvgArr(NHalf(p.hc), adj[i]) ELSE [t \in 1..U |-> NOf(0)]])
      R == Mat(N, N, LAMBDA i, j : Avg(NHalf(p.hc), [t \in 1..U |-> NMul(NSub(adj[i][t], am[i][t]), NSub(adj[j][t], am[j][t]))]))
  IN [cov |-> Mat(N, N, LAMBDA i, j : NMul(NMul(vo[i][U], vo[j][U]), NDiv(R[i][j], NSqrt(NMul(R[i][i], R[j][j]))))),
      mean |-> Vec(N, LAMBDA i : NAdd(mean[i][T], NMul(vo[i][U], am[i][U])))]

Due == Len(hist) >= p.mpv + p.mpc - 1
C29_Times == out.on <=> Due
C29_Same == Due => LET b == Batch(hist) IN
              /\ \A i, j \in 1..N : NClose(b.cov[i][j], out.cov[i][j], NMul("1E-15", NMul(out.vola[i], out.vola[j])))
              /\ \A i \in 1..N : NClose(IF p.mean THEN b.mean[i] ELSE 0, out.mean[i], NMul("1E-15", 50))
=============================================================================
