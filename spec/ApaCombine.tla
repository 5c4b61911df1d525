---------------------------- MODULE ApaCombine ------------------------------
(***************************************************************************)
(* The windows of the combination, for every number of times, window and   *)
(* requested run (integers without bound; Apalache, inductive invariant).  *)
(*                                                                         *)
(* The online machine of Combine: at grid time t the entry of t (previous  *)
(* predictions scored on the return of t, so from time 2 on) enters a      *)
(* buffer that holds the last W; a requested time is solved when the       *)
(* buffer is full.  The code: positions W - 1, W, ... of the available     *)
(* times from max(first request - W + 1, first available) to the last one  *)
(* requested, each with the slice of W entries that ends there.            *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  M,
  \* @type: Int;
  W,
  \* @type: Int;
  lo,
  \* @type: Int;
  hi,
  \* @type: Int;
  t,
  \* @type: Int;
  first,
  \* @type: Int;
  len,
  \* @type: Int;
  q,
  \* @type: Bool;
  solved,
  \* @type: Int;
  from,
  \* @type: Int;
  size

Parameters == M >= 2 /\ W >= 1 /\ W <= M - 1 /\ lo >= 2 /\ lo <= hi /\ hi <= M /\ q >= 1 /\ q <= M
Init == /\ M \in Int /\ W \in Int /\ lo \in Int /\ hi \in Int /\ q \in Int
        /\ Parameters
        /\ t = 1 /\ first = 2 /\ len = 0 /\ solved = FALSE /\ from = 0 /\ size = 0
\* grid time t + 1; q is any one time, and what happened at it is remembered
Next == /\ t < M
        /\ t' = t + 1
        /\ len' = IF len = W THEN W ELSE len + 1
        /\ first' = IF len = W THEN first + 1 ELSE first
        /\ LET now == t' = q /\ len' = W /\ lo <= t' /\ t' <= hi
           IN /\ solved' = (solved \/ now)
              /\ from' = IF now THEN first' ELSE from
              /\ size' = IF now THEN len' ELSE size
        /\ UNCHANGED <<M, W, lo, hi, q>>

Max(a, b) == IF a > b THEN a ELSE b
\* the code's slices
Start == Max(lo - W + 1, 2)
Count == hi - Start + 1
Position(i) == Start + i                    \* i-th of the selected times, from 0
CodeSolves(x) == LET i == x - Start IN i >= W - 1 /\ i < Count
CodeFrom(x) == LET i == x - Start IN Position(i - W + 1)

Ind == /\ Parameters
       /\ t >= 1 /\ t <= M
       /\ len = (IF t - 1 < W THEN t - 1 ELSE W)
       /\ first = t - len + 1
       /\ solved = (q <= t /\ CodeSolves(q))
       /\ (solved => from = q - W + 1 /\ size = W)
IndInit == /\ M \in Int /\ W \in Int /\ lo \in Int /\ hi \in Int /\ q \in Int /\ t \in Int /\ first \in Int /\ len \in Int
           /\ solved \in BOOLEAN /\ from \in Int /\ size \in Int
           /\ Ind
\* once the grid is through: solved exactly where the code solves, that is at the requested times with a full window, with the same entries
Done == t = M => /\ solved = CodeSolves(q)
                 /\ solved = (lo <= q /\ q <= hi /\ q >= W + 1)
                 /\ solved => from = CodeFrom(q) /\ from + size - 1 = q /\ from >= 2
=============================================================================
