----------------------------- MODULE TraceScores -----------------------------
(***************************************************************************)
(* Recorded calls of the scoring and simple estimation functions checked   *)
(* against Scores, one event per row, prediction or day.                   *)
(***************************************************************************)
EXTENDS TraceBase, Scores, Regularize

VARIABLES tid, l, st
vars == <<tid, l, st>>
VW == <<tid, l>>
Run == Runs[tid]

TL == "1E-8"
Zero(x) == IF Len(x) = 0 THEN <<>> ELSE ZeroVec(Len(x))

(* which predictions are scored: those whose next return exists; ev.at is the stamp (position in the returns) *)
Scored(run) == SelectSeq([k \in 1..Len(run.ev) |-> run.ev[k].at], LAMBDA p : p < Len(run.R))

Init == /\ tid \in 1..NRuns /\ l = 1
        /\ st = CASE Runs[tid].kind = "roll" -> <<>>
                  [] Runs[tid].kind = "smooth" -> EwInit(Runs[tid].n * Runs[tid].n)
                  [] OTHER -> <<>>
        /\ PrintAll(Runs[tid].id, 0,
             Need(Runs[tid].err = "", "raised") \union
             (IF Runs[tid].err # "" THEN {} ELSE
              CASE Runs[tid].kind \in {"dated", "mse"} -> Need(Runs[tid].stamps = (IF Runs[tid].kind = "mse" THEN [k \in 1..Len(Runs[tid].ev) |-> Runs[tid].ev[k].at] ELSE Scored(Runs[tid])), "scored_times")
                [] Runs[tid].kind \in {"roll", "smooth"} -> Need(\A i \in 1..(Len(Runs[tid].stamps) - 1) : Runs[tid].stamps[i] < Runs[tid].stamps[i + 1], "order")
                [] Runs[tid].kind = "day" -> Need(Runs[tid].stamps = [k \in 1..Len(Runs[tid].ev) |-> k], "days")
                [] OTHER -> {}))

--------------------------------------------------------------------------
(* log_likelihood and log_likelihood_sequential on arrays *)
JudgeLL(ev) ==
  LET n == Len(ev.r)
      want == NSub(LogPdf(ev.S, ev.r, ev.m), NMul(n, NLn(Run.scale)))
      tol == NMul(TL, NAdd(LogPdfSize(ev.S, ev.r, ev.m), NMul(n, NAbs(NLn(Run.scale)))))
  IN Need(NClose(ev.v, want, tol), "vectorised") \union
     Need(NClose(ev.q, want, tol), "sequential") \union
     Need(NClose(ev.v, ev.q, tol), "disagree")

(* dated predictions: covariance, factor model, or covariance to be regularised to rank r *)
EffS(ev) ==
  CASE Run.form = "cov" -> ev.S
    [] Run.form = "rank" -> RegCov(ev.S, ev.Q, ev.lam, Run.r)
    [] Run.form = "low" -> ModelCov(ev.F, ev.d)
    [] Run.form = "em" ->
         LET v == SdOf(ev.S)
             F0 == Mat(Rows(ev.S), Run.r, LAMBDA i, k : NMul(v[i], NMul(NSqrt(NMax(0, ev.lam[k])), ev.Q[i][k])))
             d0 == Vec(Rows(ev.S), LAMBDA i : NSub(ev.S[i][i], NDot(F0[i], F0[i])))
             e == EMSteps(ev.S, F0, d0, 5)
         IN ModelCov(e.F, e.d)
JudgeDated(ev) ==
  IF ev.at >= Len(Run.R) \/ ~ev.has THEN {}
  ELSE Need(Run.form \notin {"rank", "em"} \/ EigenOK(CorrOf(ev.S), ev.Q, ev.lam, "1E-9"), "WITNESS") \union
       (IF Run.form \in {"rank", "em"} /\ ~Separated(ev.lam, Run.r, "1E-5") THEN {}
        ELSE LET r == [i \in 1..Len(Run.R[1]) |-> NOf(Run.R[ev.at + 1][i])]
                 m == IF ev.m = <<>> THEN Zero(r) ELSE ev.m
                 S == TLCEval(EffS(ev))
             IN Need(NClose(ev.v, LogPdf(S, r, m), NMul(IF Run.form = "em" THEN "1E-5" ELSE "1E-7", LogPdfSize(S, r, m))), "density"))

JudgeMSE(ev) ==
  IF ev.at >= Len(Run.R) THEN Need(NIsNaN(ev.v), "mse_last")
  ELSE LET e == SqErr(ev.S, Run.R[ev.at + 1]) IN Need(NClose(ev.v, e, NMul(TL, NAdd(e, NSq(MaxAbs(ev.S))))), "mse")

--------------------------------------------------------------------------
RollStep(ev) == st' = Push(st, [i \in 1..Len(ev.r) |-> NOf(ev.r[i])], Run.memory)
JudgeRoll(ev) ==
  LET on == l >= Run.mp
      n == Len(ev.r)
      C == RollVal(st')
      \* what was added and dropped again leaves rounding errors of its size
      sc == Run.sizes
  IN Need(on => ev.has, "missing") \union Need(ev.has => on, "extra") \union
     (IF ~(on /\ ev.has) THEN {}
      ELSE Need(IsId(ev.rl, n) /\ IsId(ev.cl, n), "labels") \union
           Need(MClose(ev.cov, C, sc, "1E-9"), "average"))

(* a step of the smoothing, with clipping if the run asks for it *)
Smooth(s, y) == IF Run.clip = "" THEN EwStep(s, NHalf(Run.h), y) ELSE EwStepClip(s, NHalf(Run.h), y, Run.clip, Run.mp)
SmoothStep(ev) == st' = Smooth(st, Flat(ev.M))
JudgeSmooth(ev) ==
  LET n == Run.n
      V == Unflat(EwVal(st'), n)
      sc == Run.sizes
  IN Need(l > 1 => ev.has, "missing") \union Need(ev.has => l > 1, "extra") \union
     (IF ~ev.has THEN {}
      ELSE Need(IsId(ev.rl, n) /\ IsId(ev.cl, n), "labels") \union Need(MClose(ev.cov, V, sc, "1E-9"), "smoothed"))

(* a day: its intraday rows; realised covariance, volatility, and (from the second day on) their smoothed value *)
DayStep(ev) == st' = IF Run.h = "" THEN st
                     ELSE Smooth(IF st = <<>> THEN EwInit(Run.n * Run.n) ELSE st, Flat(Realized(ev.rows)))
JudgeDay(ev) ==
  LET n == Run.n
      sc == Run.sizes
  IN Need(IsId(ev.vl, n), "vola_labels") \union
     Need(\A i \in 1..n : NClose(ev.vola[i], RealizedVola(ev.rows)[i], NMul("1E-9", sc[i])), "realised_vola") \union
     (IF Run.h = ""
      THEN Need(IsId(ev.rl, n) /\ IsId(ev.cl, n), "labels") \union Need(MClose(ev.cov, Realized(ev.rows), sc, "1E-9"), "realised")
      ELSE IF l = 1 THEN {} ELSE Need(MClose(ev.cov, Unflat(EwVal(st'), n), sc, "1E-9"), "realised_smoothed"))

--------------------------------------------------------------------------
Next ==
  /\ l <= Len(Run.ev)
  /\ LET ev == Run.ev[l] IN
     CASE Run.err # "" -> st' = st
       [] Run.kind = "ll" -> st' = st /\ PrintAll(Run.id, l, JudgeLL(ev))
       [] Run.kind = "dated" -> st' = st /\ PrintAll(Run.id, l, JudgeDated(ev))
       [] Run.kind = "mse" -> st' = st /\ PrintAll(Run.id, l, JudgeMSE(ev))
       [] Run.kind = "roll" -> RollStep(ev) /\ PrintAll(Run.id, l, JudgeRoll(ev))
       [] Run.kind = "smooth" -> SmoothStep(ev) /\ PrintAll(Run.id, l, JudgeSmooth(ev))
       [] Run.kind = "day" -> DayStep(ev) /\ PrintAll(Run.id, l, JudgeDay(ev))
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ (l = Len(Run.ev) => PrintT(<<"DONE", Run.id>>))
=============================================================================
