---------------------------- MODULE MCIterators -----------------------------
(***************************************************************************)
(* All schedules of up to Ops operations on the streams, run against a     *)
(* model of the implementation: every stream has its own problem object    *)
(* (parameter cell and weight cell); a pull writes the parameter, solves   *)
(* (which may fail and leave the weights of an earlier solve behind) and   *)
(* reads the weights.  Shared = TRUE gives all streams one problem object  *)
(* and SplitPull = TRUE separates writing the parameter from solving: the  *)
(* design is safe with either of them alone, not with both.                *)
(***************************************************************************)
EXTENDS Iterators, TLC, Json

CONSTANTS Ops, L1, L2, L3, Shared, SplitPull, Emit

VARIABLES param,   \* problem cell -> what it is set up for
          wght,    \* problem cell -> what its weights were computed for
          armed,   \* stream -> set up but not solved yet
          got,     \* stream -> what it delivered
          sched
vars == <<pos, param, wght, armed, got, sched>>

Length(i) == <<L1, L2, L3>>[i]
Cell(i) == IF Shared THEN 1 ELSE i
None == <<0, 0>>

Init == /\ IterInit /\ param = [c \in 1..Streams |-> None] /\ wght = [c \in 1..Streams |-> None]
        /\ armed = [i \in 1..Streams |-> FALSE] /\ got = [i \in 1..Streams |-> <<>>] /\ sched = <<>>

Log(op, i) == sched' = Append(sched, <<op, i>>)

DoCreate(i) == Create(i) /\ Log("create", i) /\ got' = [got EXCEPT ![i] = <<>>] /\ UNCHANGED <<param, wght, armed>>
DoDrop(i)   == Drop(i) /\ ~armed[i] /\ Log("drop", i) /\ UNCHANGED <<param, wght, armed, got>>
DoRestart(i) == /\ Restart(i) /\ ~armed[i] /\ pos[i] # 0 /\ Log("create", i)
                /\ got' = [got EXCEPT ![i] = <<>>] /\ UNCHANGED <<param, wght, armed>>

DoArm(i) == /\ SplitPull /\ ~armed[i] /\ pos[i] \in 0..(Length(i) - 1)
            /\ param' = [param EXCEPT ![Cell(i)] = <<i, Delivers(i, Length(i))>>]
            /\ armed' = [armed EXCEPT ![i] = TRUE]
            /\ UNCHANGED <<pos, wght, got, sched>>

DoPull(i) ==
  /\ Pull(i, Length(i))
  /\ (SplitPull => armed[i] \/ Delivers(i, Length(i)) = 0)
  /\ armed' = [armed EXCEPT ![i] = FALSE]
  /\ IF Delivers(i, Length(i)) = 0 THEN Log("pull", i) /\ UNCHANGED <<param, wght, got>>
     ELSE LET pr == IF SplitPull THEN param ELSE [param EXCEPT ![Cell(i)] = <<i, Delivers(i, Length(i))>>]
          IN /\ param' = pr
             /\ \/ /\ wght' = [wght EXCEPT ![Cell(i)] = pr[Cell(i)]]            \* solved
                   /\ got' = [got EXCEPT ![i] = Append(@, wght'[Cell(i)])]
                   /\ Log("pull", i)
                \/ /\ UNCHANGED wght                                           \* solver failed
                   /\ got' = [got EXCEPT ![i] = Append(@, None)]
                   /\ Log("fail", i)

Step == \E i \in 1..Streams : DoCreate(i) \/ DoDrop(i) \/ DoRestart(i) \/ DoArm(i) \/ DoPull(i)
Next == /\ Len(sched) < Ops
        /\ Step
        /\ (Emit /\ Len(sched') = Ops /\ Len(sched) < Ops) => PrintT(<<"BEH", ToJson(sched')>>)
Spec == Init /\ [][Next]_vars

(* every stream delivered its own items in order, blanks where its solves failed *)
C13_Own == \A i \in 1..Streams : \A k \in DOMAIN got[i] : got[i][k] \in {None, <<i, k>>}
=============================================================================
