--------------------------- MODULE TracePipeline ----------------------------
(***************************************************************************)
(* Recorded runs of an experiment tool on two histories that agree up to   *)
(* `cut` against Pipeline.  Event l carries what the tool put out for time *)
(* l in both runs.                                                         *)
(***************************************************************************)
EXTENDS TraceBase

P == INSTANCE Pipeline

VARIABLES tid, l
vars == <<tid, l>>
Run == Runs[tid]

Init == /\ tid \in 1..NRuns /\ l = 1
        /\ PrintAll(Runs[tid].id, 0, Need(Runs[tid].errA = "", "raised") \union
                                     Need(Runs[tid].errA = "" => Runs[tid].errB = "", "raised_differently") \union
                                     Need(~Runs[tid].unknown, "unknown_time") \union
                                     Need(Runs[tid].tool \in P!Tools, "tool"))

Close(e) == /\ Len(e.a) = Len(e.b)
            /\ \A k \in DOMAIN e.a : \/ e.a[k] = e.b[k]
                                     \/ NClose(e.a[k], e.b[k], NMul(Run.tol, NAdd(e.u, NAbs(e.a[k]))))

Judge(e) ==
  Need(P!Known(Run.tool, l) <= Run.cut => e.ha = e.hb, "presence") \union
  (IF ~(e.ha /\ e.hb /\ P!Horizon(Run.tool, l) <= Run.cut) THEN {}
   ELSE Need(e.la = e.lb, "labels") \union Need(Close(e), "peek"))

Next ==
  /\ l <= Len(Run.ev)
  /\ PrintAll(Run.id, l, IF Run.errA = "" /\ Run.errB = "" THEN Judge(Run.ev[l]) ELSE {})
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ (l = Len(Run.ev) => PrintT(<<"DONE", Run.id>>))
=============================================================================
