------------------------------ MODULE Metrics -------------------------------
(***************************************************************************)
(* Summary statistics of the experiments (experiments/utils): turnover,    *)
(* Sharpe ratio per calendar year, empirical distribution, conversions of  *)
(* stored covariance rows, diagonal loading, uncertainty of expected       *)
(* returns, result tables.                                                 *)
(***************************************************************************)
EXTENDS Ewma, FiniteSets

(* Turnover, one step per row of weights: percent per year of trading relative to the old holdings *)
ToInit == [old |-> <<>>, sum |-> NOf(0), k |-> 0]
L1(v) == NSum(Vec(Len(v), LAMBDA i : NAbs(v[i])))
ToStep(s, w) ==
  IF s.old = <<>> THEN [s EXCEPT !.old = w]
  ELSE [old |-> w, sum |-> NAdd(s.sum, NDiv(L1(VSub(w, s.old)), L1(s.old))), k |-> s.k + 1]
ToVal(s) == NMul(25200, NDiv(s.sum, s.k))

(* Sharpe ratio per year, one step per (year, return): years of more than `days` returns *)
YrInit == [cur |-> 0, k |-> 0, s |-> NOf(0), q |-> NOf(0), done |-> <<>>]
Sharpe(k, s, q) ==
  LET m == NDiv(s, k)
      var == NDiv(NSub(q, NMul(s, m)), k - 1)
  IN NDiv(NMul(m, 252), NSqrt(NMul(var, 252)))
YrClose(y, days) == IF y.k > days THEN Append(y.done, [year |-> y.cur, sr |-> Sharpe(y.k, y.s, y.q)]) ELSE y.done
YrStep(y, year, r, days) ==
  IF year = y.cur THEN [y EXCEPT !.k = @ + 1, !.s = NAdd(@, r), !.q = NAdd(@, NSq(r))]
  ELSE [cur |-> year, k |-> 1, s |-> NOf(r), q |-> NSq(r), done |-> YrClose(y, days)]
(* every year from the first to the last that counts; those between that do not count are missing *)
YrVal(y, days) ==
  LET d == YrClose(y, days) IN
  IF d = <<>> THEN <<>>
  ELSE [i \in 1..(d[Len(d)].year - d[1].year + 1) |->
          LET yr == d[1].year + i - 1
              at == {k \in 1..Len(d) : d[k].year = yr}
          IN [year |-> yr, sr |-> IF at = {} THEN NOf("nan") ELSE d[CHOOSE k \in at : TRUE].sr]]
(* least-squares line through the points (year, sr), at year x *)
Trend(pts, x) ==
  LET k == Len(pts)
      mx == NDiv(NSum([i \in 1..k |-> NOf(pts[i].year)]), k)
      my == NDiv(NSum([i \in 1..k |-> pts[i].sr]), k)
      b == NDiv(NSum([i \in 1..k |-> NMul(NSub(pts[i].year, mx), NSub(pts[i].sr, my))]),
                NSum([i \in 1..k |-> NSq(NSub(pts[i].year, mx))]))
  IN NAdd(my, NMul(b, NSub(x, mx)))

(* position in a stored row (upper triangle, row by row) of the pair i <= j of n assets *)
PosOf(n, i, j) == (i - 1) * n - ((i - 1) * (i - 2)) \div 2 + (j - i + 1)
FromRow(row, n) == Mat(n, n, LAMBDA i, j : NOf(IF i <= j THEN row[PosOf(n, i, j)] ELSE row[PosOf(n, j, i)]))
Load(S, la) == Mat(Rows(S), Rows(S), LAMBDA i, j : IF i = j THEN NMul(S[i][i], NAdd(1, la)) ELSE NOf(S[i][j]))

(* insertion into a sorted sequence: the data of an empirical distribution *)
Insert(s, x) ==
  LET k == Cardinality({i \in 1..Len(s) : NLe(s[i], x)})
  IN SubSeq(s, 1, k) \o <<NOf(x)>> \o SubSeq(s, k + 1, Len(s))

(***************************************************************************)
(* Uncertainty of an expected return: devs times the bias-corrected        *)
(* weighted standard deviation of the returns BEFORE the row, zero while   *)
(* fewer than two are known.  State per asset: sums of weights, of their   *)
(* squares, of weighted returns and squares; missing rows only age.        *)
(***************************************************************************)
RhoInit == [w |-> NOf(0), w2 |-> NOf(0), s |-> NOf(0), q |-> NOf(0), k |-> 0]
RhoVal(a, devs) ==
  IF a.k < 2 THEN NOf(0)
  ELSE LET var == NSub(NDiv(a.q, a.w), NSq(NDiv(a.s, a.w)))
           bias == NDiv(NSq(a.w), NSub(NSq(a.w), a.w2))
       IN NMul(devs, NSqrt(NMax(0, NMul(var, bias))))
RhoStep(a, beta, r) ==
  LET o == [w |-> NMul(beta, a.w), w2 |-> NMul(NSq(beta), a.w2), s |-> NMul(beta, a.s), q |-> NMul(beta, a.q), k |-> a.k]
  IN IF NIsNaN(r) THEN o
     ELSE [w |-> NAdd(o.w, 1), w2 |-> NAdd(o.w2, 1), s |-> NAdd(o.s, r), q |-> NAdd(o.q, NSq(r)), k |-> a.k + 1]

(* a number printed with d digits after the point *)
Printed(txt, x, half) == NClose(txt, x, NMul(half, "1.000001"))
=============================================================================
