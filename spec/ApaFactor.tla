----------------------------- MODULE ApaFactor ------------------------------
(***************************************************************************)
(* The schedule of the factor model (Factor, MCFactor) for every history,  *)
(* memory and update frequency (integers without bound; Apalache,          *)
(* inductive invariant).  One step is one block of the code's loop; q is   *)
(* any one row, and how often it is served is counted.                     *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  T,
  \* @type: Int;
  memory,
  \* @type: Int;
  freq,
  \* @type: Int;
  t,
  \* @type: Int;
  q,
  \* @type: Int;
  times,
  \* @type: Int;
  fitfirst,
  \* @type: Int;
  fitlast

Parameters == T >= 1 /\ memory >= 10 /\ freq >= 1 /\ q >= 1 /\ q <= T
Init == /\ T \in Int /\ memory \in Int /\ freq \in Int /\ q \in Int
        /\ Parameters
        /\ t = memory + 1 /\ times = 0 /\ fitfirst = 0 /\ fitlast = 0
Upto == IF t + freq - 1 < T THEN t + freq - 1 ELSE T
Next == /\ t <= T
        /\ LET in == t <= q /\ q <= Upto
           IN /\ times' = IF in THEN times + 1 ELSE times
              /\ fitfirst' = IF in THEN t - memory ELSE fitfirst
              /\ fitlast' = IF in THEN t - 1 ELSE fitlast
        /\ t' = t + freq
        /\ UNCHANGED <<T, memory, freq, q>>

Ind == /\ Parameters
       /\ t >= memory + 1
       /\ (times = 0 \/ times = 1)
       /\ (times = 1) = (memory < q /\ q < t)
       /\ times = 1 => /\ fitlast < q /\ q - fitlast <= freq            \* causal, and refitted at least every freq rows
                       /\ fitlast - fitfirst + 1 = memory /\ fitfirst >= 1
IndInit == /\ T \in Int /\ memory \in Int /\ freq \in Int /\ q \in Int /\ t \in Int /\ times \in Int /\ fitfirst \in Int /\ fitlast \in Int
           /\ Ind
\* after the last block every row after the memory has been served once, and no other
Done == t > T => (times = 1) = (q > memory)
=============================================================================
