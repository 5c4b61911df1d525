---------------------------- MODULE TraceCombine ----------------------------
(***************************************************************************)
(* Recorded solve() streams checked against Combine.  A run has one event  *)
(* per grid time (inputs) and the stream of what the iterator yielded; `c` *)
(* is the position in that stream.                                         *)
(***************************************************************************)
EXTENDS TraceBase, Combine

VARIABLES tid, l, st, c
vars == <<tid, l, st, c>>
VW == <<tid, l>>
Run == Runs[tid]

N(r) == Len(r.ev) - 1                              \* times with a lagged prediction
W(r) == LET w == IF r.window = 0 THEN N(r) ELSE IF r.window < N(r) THEN r.window ELSE N(r)
        IN IF w < 1 THEN 1 ELSE w

Init == /\ tid \in 1..NRuns /\ l = 1 /\ st = CSeed /\ c = 1
        /\ PrintAll(Runs[tid].id, 0,
             IF Runs[tid].reject
             THEN Need(Len(Runs[tid].stream) = 0, "result_from_rejected") \union Need(Runs[tid].err # "", "accepted")
             ELSE Need(Runs[tid].err = "", "raised"))

(* the same result as in the run without failures (up to what the solver leaves open) *)
SameResult(o, x) ==
  LET n == Len(o.mean)
      sc == Vec(n, LAMBDA i : NSqrt(x.cov[i][i])) IN
  /\ o.wl = x.wl /\ o.rl = x.rl /\ o.cl = x.cl /\ o.ml = x.ml
  /\ Len(o.w) = Len(x.w) /\ Len(x.mean) = n
  /\ \A k \in 1..Len(o.w) : NClose(o.w[k], x.w[k], "1E-3")
  /\ MClose(o.cov, x.cov, sc, "1E-3")
  /\ VClose(o.mean, x.mean, Vec(n, LAMBDA i : NAdd(sc[i], NAbs(x.mean[i]))), "1E-3")

(* all experts predict the same for the next time *)
AgreeNow(ev) == \A k \in 1..Len(ev.S) : ev.S[k] = ev.S[1] /\ ev.mu[k] = ev.mu[1]

(* one yielded result at its time *)
JudgeResult(s, o, ev) ==
  LET K == Len(ev.S)
      n == Len(ev.r)
      ok == Len(o.w) = K /\ ~HasNaN(o.w) /\ Len(o.cov) = n /\ Len(o.mean) = n
  IN Need(Len(o.w) = K, "weight_count") \union
     Need(~HasNaN(o.w) /\ ~MHasNaN(o.cov) /\ ~HasNaN(o.mean), "finite") \union
     (IF ~ok THEN {} ELSE
      LET b == Blend(s.prev, o.w)
          sc == Vec(n, LAMBDA i : NSqrt(b.cov[i][i]))
      IN Need(IsId(o.wl, K), "weight_keys") \union
         Need(IsId(o.rl, n) /\ IsId(o.cl, n) /\ IsId(o.ml, n), "labels") \union
         Need(\A k \in 1..K : NGe(o.w[k], NNeg(Run.wtol)), "negative") \union
         Need(NClose(NSum(o.w), 1, Run.wtol), "sum") \union
         (LET q == Gap(s.buf, o.w) IN Need(NLe(q.gap, NMul(Run.gtol, q.scale)), "gap")) \union
         Need(MClose(o.cov, b.cov, sc, Run.btol), "blend_cov") \union
         Need(\A i, j \in 1..n : NClose(o.cov[i][j], o.cov[j][i], NMul(NMul("1E-2", Run.btol), NMul(sc[i], sc[j]))), "symmetric") \union
         Need(IF Run.zeromean THEN \A i \in 1..n : NClose(o.mean[i], 0, 0)
              ELSE VClose(o.mean, b.mean, Vec(n, LAMBDA i : NAdd(sc[i], NAbs(b.mean[i]))), Run.btol), "blend_mean") \union
         \* experts that all say the same are reproduced whatever the weights
         (IF AgreeNow(ev)
          THEN LET tol == NMax(NMul(10, Run.btol), IF NLe(Run.wtol, "1E-6") THEN "1E-6" ELSE NMul(4, Run.wtol)) IN
               Need(MClose(o.cov, ev.S[1], sc, tol) /\
                    VClose(o.mean, ev.mu[1], Vec(n, LAMBDA i : NAdd(sc[i], NAbs(b.mean[i]))), tol), "agreement")
          ELSE {}) \union
         (IF ev.ref.k = "none" THEN {} ELSE Need(SameResult(o, ev.ref), "differs")) \union
         (IF K = 1 THEN Need(NClose(o.w[1], 1, Run.wtol), "single_weight") ELSE {}))

Expected(s, ev) == Full(s, W(Run)) /\ ev.req

Judge(s, ev) ==
  IF ~Expected(s, ev) THEN {}
  ELSE IF c > Len(Run.stream) THEN {"missing"}
  ELSE LET x == Run.stream[c] IN
       IF x.k = "none"
       THEN Need(ev.fail # "no", "lost")                     \* a placeholder without a failure
       ELSE Need(x.t = l, "stamp") \union
            Need(ev.fail # "yes", "result_of_failed_solve") \union
            (IF x.t = l /\ ev.fail # "yes" THEN JudgeResult(s, x, ev) ELSE {})

Next ==
  /\ l <= Len(Run.ev)
  /\ IF Run.reject THEN UNCHANGED <<st, c>>
     ELSE LET ev == Run.ev[l]
              s == CStep(st, W(Run), ev.S, ev.mu, ev.r)
          IN /\ st' = s
             /\ c' = IF Expected(s, ev) /\ c <= Len(Run.stream) THEN c + 1 ELSE c
             /\ PrintAll(Run.id, l, Judge(s, ev))
             /\ (l = Len(Run.ev) => PrintAll(Run.id, l, Need(c' = Len(Run.stream) + 1, "surplus")))
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ (l = Len(Run.ev) => PrintT(<<"DONE", Run.id>>))

Spec == Init /\ [][Next]_vars
=============================================================================
