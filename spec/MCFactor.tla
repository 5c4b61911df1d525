------------------------------ MODULE MCFactor ------------------------------
(***************************************************************************)
(* Schedule of the factor model, for every length, memory and frequency:   *)
(* an online machine that sees the rows one by one (refits when due, then  *)
(* serves the row) against the blocks of the code.                         *)
(***************************************************************************)
EXTENDS Factor

CONSTANTS MaxT, Memories, Freqs
VARIABLES T, memory, freq, t, served, fits
mvars == <<T, memory, freq, t, served, fits, p, st, out>>

Init == /\ memory \in Memories /\ freq \in Freqs /\ T \in 1..MaxT
        /\ t = 0 /\ served = <<>> /\ fits = <<>> /\ p = 0 /\ st = 0 /\ out = 0
\* row t + 1 arrives
Tick == /\ t < T
        /\ t' = t + 1
        /\ LET due == t >= memory /\ (t - memory) % freq = 0
               f == IF due THEN Append(fits, <<t + 1 - memory, t>>) ELSE fits
           IN /\ fits' = f
              /\ served' = IF t >= memory THEN Append(served, [row |-> t + 1, fit |-> f[Len(f)]]) ELSE served
        /\ UNCHANGED <<T, memory, freq, p, st, out>>
Next == Tick
Spec == Init /\ [][Next]_mvars

N == NBlocks(T, memory, freq)
Bk(b) == Block(T, memory, freq, b)
\* the blocks cover the rows from memory + 1 on once each and in order, as the online machine does
C35_Schedule == t = T =>
  /\ Len(fits) = N
  /\ \A b \in 1..N : fits[b] = Bk(b).fit
  /\ [i \in 1..Len(served) |-> served[i].row] = [i \in 1..(IF T > memory THEN T - memory ELSE 0) |-> memory + i]
  /\ \A i \in 1..Len(served) : \E b \in 1..N : Bk(b).first <= served[i].row /\ served[i].row <= Bk(b).last /\ served[i].fit = Bk(b).fit
  /\ N > 0 => Bk(1).first = memory + 1 /\ Bk(N).last = T
  /\ \A b \in 1..N : \A c \in 1..N : b < c => Bk(b).last < Bk(c).first
C35_Causal == \A i \in 1..Len(served) : served[i].fit[2] < served[i].row /\ served[i].fit[2] - served[i].fit[1] + 1 = memory
\* the expert predictions from row first - 10 on give a full window of lagged predictions exactly from the block's first row on
C35_Window == t = T => \A b \in 1..N : LET B == Bk(b) IN B.first - B.from = Look /\ B.last - B.from + 1 - Look = B.last - B.first + 1
=============================================================================
