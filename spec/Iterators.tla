----------------------------- MODULE Iterators ------------------------------
(***************************************************************************)
(* Several result streams of one object (a combinator, or one set of       *)
(* inputs of a generator predictor) that are created, pulled, disturbed by *)
(* solver failures and dropped in any order.                               *)
(*                                                                         *)
(* A stream is characterised by its length n.  The abstract state of      *)
(* a stream is only how far it got.  The k-th pull of a stream delivers    *)
(* item k of the stream run alone (or a placeholder when its solve fails), *)
(* then the end: whatever the other streams did.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Streams             \* number of streams

VARIABLES pos                \* stream -> -1 (not created), items delivered, or "dropped" as -2

IterInit == pos = [i \in 1..Streams |-> -1]

Create(i)  == pos[i] = -1 /\ pos' = [pos EXCEPT ![i] = 0]
Pull(i, n) == pos[i] \in 0..n /\ pos' = [pos EXCEPT ![i] = IF @ < n THEN @ + 1 ELSE @]
Drop(i)    == pos[i] >= 0 /\ pos' = [pos EXCEPT ![i] = -2]
Restart(i) == pos[i] # -1 /\ pos' = [pos EXCEPT ![i] = 0]     \* the same request made again

(* what the pull at this point delivers: an item number, or 0 at the end *)
Delivers(i, n) == IF pos[i] < n THEN pos[i] + 1 ELSE 0
=============================================================================
