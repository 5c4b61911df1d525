----------------------------- MODULE MCMetrics ------------------------------
(* Every short history of weights and returns over small values, with years passing at any point. *)
EXTENDS Metrics

CONSTANTS Depth, Vals, Days
VARIABLES hist, to, yr, rho, srt, year, last
vars == <<hist, to, yr, rho, srt, year, last>>
B == NHalf(2)

Init == hist = <<>> /\ to = ToInit /\ yr = YrInit /\ rho = RhoInit /\ srt = <<>> /\ year = 1 /\ last = NOf(0)
\* skip: how many years pass before this row; a: return and holding of the first asset, miss: the return is missing for rho
Row(skip, a, miss) ==
  /\ year' = year + skip
  /\ hist' = Append(hist, [y |-> year + skip, a |-> a, miss |-> miss])
  /\ to' = ToStep(to, <<NOf(a), NSub(3, a)>>)
  /\ yr' = YrStep(yr, year + skip, NOf(a), Days)
  /\ last' = RhoVal(rho, 2)                                \* what is given for this row
  /\ rho' = RhoStep(rho, B, IF miss THEN NOf("nan") ELSE NOf(a))
  /\ srt' = Insert(srt, NOf(a))
Next == Len(hist) < Depth /\ \E skip \in 0..2, a \in Vals, m \in BOOLEAN : Row(skip, NOf(a), m)
Spec == Init /\ [][Next]_vars

T == "1E-12"
k == Len(hist)
W(i) == <<NOf(hist[i].a), NSub(3, hist[i].a)>>
C33_Turnover == k > 1 =>
  /\ NClose(ToVal(to), NMul(25200, NDiv(NSum([i \in 1..(k-1) |-> NDiv(L1(VSub(W(i+1), W(i))), L1(W(i)))]), k - 1)), T)
  /\ NGe(ToVal(to), 0)
  /\ (NEq(ToVal(to), 0) <=> \A i \in 1..k : NEq(hist[i].a, hist[1].a))
\* a year's ratio depends on the rows of that year only, and every year with enough rows is there, once and in order
InYear(y) == SelectSeq(hist, LAMBDA h : h.y = y)
C33_Years == k > 0 =>
  LET v == YrVal(yr, Days)
      full == {y \in 1..year : Len(InYear(y)) > Days}
  IN /\ {v[i].year : i \in 1..Len(v)} = IF full = {} THEN {} ELSE {y \in 1..year : (\E a \in full : a <= y) /\ (\E b \in full : b >= y)}
     /\ \A i \in 1..Len(v) : v[i].year = v[1].year + i - 1
     /\ \A i \in 1..Len(v) :
          LET h == InYear(v[i].year)
              m == NDiv(NSum([j \in 1..Len(h) |-> NOf(h[j].a)]), Len(h))
              var == NDiv(NSum([j \in 1..Len(h) |-> NSq(NSub(h[j].a, m))]), Len(h) - 1)
          IN IF v[i].year \notin full THEN NIsNaN(v[i].sr)
             ELSE NLe(var, T) \/ NClose(NMul(v[i].sr, NSqrt(var)), NMul(m, NSqrt(252)), "1E-9")
C33_Trend == LET v == SelectSeq(YrVal(yr, Days), LAMBDA x : NIsFin(x.sr)) IN Len(v) > 1 =>
  \* residuals orthogonal to constants and years
  /\ NClose(NSum([i \in 1..Len(v) |-> NSub(v[i].sr, Trend(v, v[i].year))]), 0, "1E-9")
  /\ NClose(NSum([i \in 1..Len(v) |-> NMul(v[i].year, NSub(v[i].sr, Trend(v, v[i].year)))]), 0, "1E-9")
C33_Sorted == /\ Len(srt) = k
              /\ \A i \in 1..(k-1) : NLe(srt[i], srt[i+1])
              /\ \A i \in 1..k : Cardinality({j \in 1..k : NEq(srt[j], hist[i].a)}) = Cardinality({j \in 1..k : NEq(hist[j].a, hist[i].a)})
C34_Rows == \A n \in 1..6 :
  /\ {PosOf(n, i, j) : <<i, j>> \in {x \in (1..n) \X (1..n) : x[1] <= x[2]}} = 1..((n * (n + 1)) \div 2)
  /\ \A i, j \in 1..n : i <= j => \A i2, j2 \in 1..n : i2 <= j2 /\ (i < i2 \/ (i = i2 /\ j < j2)) => PosOf(n, i, j) < PosOf(n, i2, j2)
\* what is given for a row is twice the weighted deviation of the rows before it, not changed by a shift of the returns
Known == SelectSeq([i \in 1..(k-1) |-> [a |-> hist[i].a, w |-> NExp(NMul(k - i, NLn(B))), miss |-> hist[i].miss]], LAMBDA h : ~h.miss)
C36_Rho == k > 0 =>
  LET h == Known
      c == Len(h)
      w == [i \in 1..c |-> h[i].w]
      m == NDiv(NDot(w, [i \in 1..c |-> NOf(h[i].a)]), NSum(w))
      var == NDiv(NSum([i \in 1..c |-> NMul(w[i], NSq(NSub(h[i].a, m)))]), NSub(NSum(w), NDiv(NDot(w, w), NSum(w))))
  IN IF c < 2 THEN NEq(last, 0) ELSE NClose(NSq(last), NMul(4, var), "1E-9")
=============================================================================
