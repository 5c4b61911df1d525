------------------------------ MODULE ApaIewma ------------------------------
(***************************************************************************)
(* When the iterated EWMA predictor (Iewma, MCIewma) speaks, for every     *)
(* length of history and both warm-ups (integers without bound; Apalache,  *)
(* inductive invariant).  A row either moves (some asset has a return that *)
(* is neither missing nor zero) or does not; q is any one row, and how     *)
(* often a result is stamped with it is counted.                           *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  mpv,
  \* @type: Int;
  mpc,
  \* @type: Int;
  rows,
  \* @type: Int;
  first,
  \* @type: Int;
  adjusted,
  \* @type: Int;
  q,
  \* @type: Int;
  times,
  \* @type: Int;
  latest

Max(a, b) == IF a >= b THEN a ELSE b
Parameters == mpv >= 0 /\ mpc >= 0 /\ q >= 1
Init == /\ mpv \in Int /\ mpc \in Int /\ q \in Int
        /\ Parameters
        /\ rows = 0 /\ first = 0 /\ adjusted = 0 /\ times = 0 /\ latest = 0

\* one row: a volatility exists from the mpv-th row on, an adjusted return only once something has moved
Row(moves) ==
  LET k == rows + 1
      f == IF first = 0 /\ moves THEN k ELSE first
      usable == k >= mpv /\ f > 0
      u == IF usable THEN adjusted + 1 ELSE adjusted
      on == usable /\ u >= mpc /\ u >= 1
  IN /\ rows' = k /\ first' = f /\ adjusted' = u
     /\ times' = IF on /\ k = q THEN times + 1 ELSE times
     /\ latest' = IF on THEN k ELSE latest
     /\ UNCHANGED <<mpv, mpc, q>>
Next == \E moves \in BOOLEAN : Row(moves)

\* the first row with an adjusted return, and the first with a result
From == Max(first, mpv)
Start == From + Max(mpc, 1) - 1
Ind == /\ Parameters
       /\ rows >= 0 /\ first >= 0 /\ first <= rows
       /\ adjusted = (IF first = 0 THEN 0 ELSE Max(0, rows - From + 1))
       /\ (times = 0 \/ times = 1)
       /\ (times = 1) = (first > 0 /\ Start <= q /\ q <= rows)      \* exactly once each, none earlier, no hole
       /\ latest = (IF first > 0 /\ Start <= rows THEN rows ELSE 0)
IndInit == /\ mpv \in Int /\ mpc \in Int /\ rows \in Int /\ first \in Int /\ adjusted \in Int /\ q \in Int /\ times \in Int /\ latest \in Int
           /\ Ind
\* results never need more rows than both warm-ups after the first move, nor fewer than the warm-ups
Done == /\ (first = 1 /\ mpv >= 1 /\ mpc >= 1 /\ rows >= mpv + mpc - 1) => latest = rows
        /\ latest > 0 => latest >= Max(mpv, 1) + Max(mpc, 1) - 1
=============================================================================
