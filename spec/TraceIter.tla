----------------------------- MODULE TraceIter ------------------------------
(***************************************************************************)
(* Recorded operations on several streams of one object against Iterators. *)
(* refs[i] is stream i run alone on a fresh object.  Every event carries   *)
(* what the operation delivered, a digest of the caller's inputs and of    *)
(* everything handed out before.                                           *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES tid, l, pos
vars == <<tid, l, pos>>
VW == <<tid, l>>
Run == Runs[tid]
Len_(i) == Len(Run.refs[i])

It == INSTANCE Iterators WITH Streams <- 3

Init == /\ tid \in 1..NRuns /\ l = 1 /\ pos = [i \in 1..3 |-> -1]
        /\ PrintAll(Runs[tid].id, 0, Need(Runs[tid].err = "", "raised"))

Same(a, b) == /\ a.t = b.t /\ a.lab = b.lab /\ Len(a.x) = Len(b.x)
              /\ \A k \in DOMAIN a.x : NClose(a.x[k], b.x[k], NMul(Run.tol, NAdd(NMax(Run.unit, 0), NAbs(b.x[k]))))

JudgePull(e) ==
  LET i == e.i
      d == It!Delivers(i, Len_(i))
  IN IF e.k = "error" THEN {"raised"}
     ELSE IF d = 0 THEN Need(e.k = "end", "surplus")
     ELSE IF e.k = "end" THEN {"lost"}
     ELSE IF e.op = "fail" THEN Need(e.k = "none", "result_of_failed_solve")
     ELSE LET ref == Run.refs[i][d]
          IN IF e.k = "none" THEN Need(ref.k = "none", "lost")
             ELSE IF ref.k = "none" THEN {"surplus"} ELSE Need(Same(e.o, ref.o), "item")

Judge(e) ==
  (IF e.op \in {"pull", "fail"} THEN JudgePull(e) ELSE {}) \union
  Need(e.inputs = Run.inputs, "input_modified") \union
  Need(e.handed, "result_changed")

Next ==
  /\ l <= Len(Run.ev)
  /\ LET e == Run.ev[l]
     IN /\ PrintAll(Run.id, l, Judge(e))
        /\ CASE e.op = "create" -> IF pos[e.i] = -1 THEN It!Create(e.i) ELSE It!Restart(e.i)
             [] e.op \in {"pull", "fail"} -> It!Pull(e.i, Len_(e.i))
             [] e.op = "drop" -> It!Drop(e.i)
             [] OTHER -> UNCHANGED pos
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ (l = Len(Run.ev) => PrintT(<<"DONE", Run.id>>))
=============================================================================
