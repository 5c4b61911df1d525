---------------------------- MODULE TraceSystem -----------------------------
(***************************************************************************)
(* The whole chain from returns to combined predictions: K iterated EWMA   *)
(* machines (Iewma) run over the returns, their predictions drive the      *)
(* combination machine (Combine).  Judges the combinator that from_ewmas   *)
(* builds: the expert predictions it holds and the stream it solves.       *)
(***************************************************************************)
EXTENDS TraceBase, Iewma

C == INSTANCE Combine

VARIABLES tid, l, es, cs, c
svars == <<tid, l, es, cs, c>>
VW == <<tid, l>>
Run == Runs[tid]
K == Len(Run.experts)

Init == /\ tid \in 1..NRuns /\ l = 1 /\ c = 1 /\ cs = C!CSeed
        /\ es = [k \in 1..Len(Runs[tid].experts) |-> ISeed(Runs[tid].experts[k])]
        /\ p = 0 /\ st = 0 /\ out = 0
        /\ PrintAll(Runs[tid].id, 0,
             LET r == Runs[tid] IN
             Need(r.err = "", "raised") \union
             (IF r.err # "" THEN {} ELSE
              Need(r.K = Len(r.experts), "K") \union Need(r.names = r.wantnames, "names") \union
              Need(IsId(r.assets, r.n), "assets") \union Need(r.returns, "returns")))

Scale(S) == Vec(Len(S), LAMBDA i : NSqrt(S[i][i]))

(* expert k's prediction stored under time l *)
JudgeExpert(o, e, k) ==
  LET h == e.sig[k]
  IN IF o.on # h.has THEN {IF o.on THEN "expert_missing" ELSE "expert_extra"}
     ELSE IF ~o.on THEN {}
     ELSE Need(MClose(h.cov, o.cov, Scale(o.cov), "1E-8"), "expert_cov") \union
          Need(VClose(h.mean, o.mean, Vec(Len(h.mean), LAMBDA i : NAdd(Scale(o.cov)[i], NAbs(o.mean[i]))), "1E-8"), "expert_mean") \union
          Need(h.lab, "expert_labels")

JudgeResult(s, x) ==
  LET n == Run.n
      b == C!Blend(s.prev, x.w)
      sc == Scale(b.cov)
      q == C!Gap(s.buf, x.w)
  IN IF Len(x.w) # K \/ HasNaN(x.w) THEN {"weights"} ELSE
     Need(x.lab, "labels") \union
     Need(\A k \in 1..K : NGe(x.w[k], "-1E-5"), "negative") \union
     Need(NClose(NSum(x.w), 1, "1E-5"), "sum") \union
     Need(NLe(q.gap, NMul(Run.gtol, q.scale)), "gap") \union
     Need(MClose(x.cov, b.cov, sc, "1E-6"), "blend_cov") \union
     Need(VClose(x.mean, b.mean, Vec(n, LAMBDA i : NAdd(sc[i], NAbs(b.mean[i]))), "1E-6"), "blend_mean")

\* with one prediction only there is nothing to score it on, and no window to fill
W == LET w == IF Run.window = 0 THEN Run.N ELSE IF Run.window < Run.N THEN Run.window ELSE Run.N
     IN IF w < 1 THEN 1 ELSE w

Next ==
  /\ l <= Len(Run.ev)
  /\ LET e == Run.ev[l]
         xs == TLCEval([k \in 1..K |-> IStep(Run.experts[k], es[k], e.r)])
         outs == TLCEval([k \in 1..K |-> xs[k].out])
         ready == \A k \in 1..K : outs[k].on
         s == C!CStep(cs, W, [k \in 1..K |-> outs[k].cov], [k \in 1..K |-> outs[k].mean], e.r)
         due == ready /\ C!Full(s, W)
         x == Run.stream[c]
     IN /\ es' = [k \in 1..K |-> xs[k].st]
        /\ cs' = IF ready THEN s ELSE cs
        /\ c' = IF due /\ c <= Len(Run.stream) THEN c + 1 ELSE c
        /\ IF Run.err # "" THEN TRUE ELSE
           PrintAll(Run.id, l,
             UNION {JudgeExpert(outs[k], e, k) : k \in 1..K} \union
             (IF ~due THEN {} ELSE IF c > Len(Run.stream) THEN {"missing"}
              ELSE IF x.k = "none" THEN {"lost"} ELSE IF x.t # l THEN {"stamp"} ELSE JudgeResult(s, x)))
  /\ (l = Len(Run.ev) /\ Run.err = "") => PrintAll(Run.id, l, Need(c' = Len(Run.stream) + 1, "surplus"))
  /\ l' = l + 1
  /\ UNCHANGED <<tid, p, st, out>>
  /\ (l = Len(Run.ev) => PrintT(<<"DONE", Run.id>>))
=============================================================================
