---------------------------- MODULE MCReturnComb ----------------------------
(* Every history of small predictions (two predictors) and returns. *)
EXTENDS ReturnComb

CONSTANTS Depth, Vals, Memories
VARIABLES memory, s, hist, last
vars == <<memory, s, hist, last>>
Alpha == NOf("0.25")

Init == memory \in Memories /\ s = RCInit(2) /\ hist = <<>> /\ last = <<>>
Choose(st) == SolveGen(RidgeA(st.win, Ages(memory), Pen(st, Alpha)), RidgeB(st.win, Ages(memory)))
Tick(x, r) ==
  /\ last' = IF Len(s.win) = memory THEN <<[w |-> Choose(s), x |-> x]>> ELSE <<>>
  /\ hist' = Append(hist, [x |-> x, r |-> r])
  /\ s' = RCPush(s, x, r, memory)
  /\ UNCHANGED memory
\* predictions are never zero, so the penalty is positive
Next == Len(hist) < Depth /\ \E a, b \in Vals, r \in Vals : Tick(<<NOf(a), NOf(b)>>, NOf(r))
Spec == Init /\ [][Next]_vars

T == Len(hist)
C30_Window == s.win = SubSeq(hist, (IF T > memory THEN T - memory ELSE 0) + 1, T)
C30_Starts == (last # <<>>) <=> T > memory
\* the weights used at the last time are those of the `memory` pairs before it, whatever its own prediction and return
C30_Causal ==
  last # <<>> => LET before == SubSeq(hist, T - memory, T - 1)
                     sq == [j \in 1..2 |-> LET b == NHalf(250) w == [k \in 1..(T-1) |-> NExp(NMul(T - 1 - k, NLn(b)))]
                                           IN NDiv(NSum([k \in 1..(T-1) |-> NMul(w[k], NSq(hist[k].x[j]))]), NSum(w))]
                     A == RidgeA(before, Ages(memory), VScale(Alpha, sq))
                     b == RidgeB(before, Ages(memory))
                 IN \A i \in 1..2 : NClose(NDot(A[i], last[1].w), b[i], "1E-12")
C30_Optimal ==
  last # <<>> => LET before == SubSeq(hist, T - memory, T - 1)
                     pen == VScale(Alpha, [j \in 1..2 |-> LET b == NHalf(250) w == [k \in 1..(T-1) |-> NExp(NMul(T - 1 - k, NLn(b)))]
                                           IN NDiv(NSum([k \in 1..(T-1) |-> NMul(w[k], NSq(hist[k].x[j]))]), NSum(w))])
                     o == RidgeObj(before, Ages(memory), pen, last[1].w)
                 IN \A da, db \in {"-0.5", "0", "0.01", "0.5"} :
                      NLe(o, NAdd("1E-12", RidgeObj(before, Ages(memory), pen, <<NAdd(last[1].w[1], da), NAdd(last[1].w[2], db)>>)))
C30_Sum == NClose(NSum(Ages(memory)), memory, "1E-12")
\* the bound used for the absolute-value penalty never exceeds the value of any competitor
C30_Bound ==
  Len(s.win) > 0 => \A a, b, c, d \in {"-1", "0", "0.5"} :
     NLe(LassoBound(s.win, Alpha, <<NOf(a), NOf(b)>>), NAdd("1E-12", LassoObj(s.win, Alpha, <<NOf(c), NOf(d)>>)))
=============================================================================
