---------------------------- MODULE TraceFactor -----------------------------
(* Recorded factor models checked against Factor, one event per model given out. *)
EXTENDS TraceBase, Factor

Sc == INSTANCE Scores
VARIABLES tid, l, s
fvars == <<tid, l, s>>
VW == <<tid, l>>
Run == Runs[tid]
T == Len(Run.R)
n == Len(Run.R[1])
k == Run.k

Due(r) == IF Len(r.R) > r.memory THEN Len(r.R) - r.memory ELSE 0
Init == /\ tid \in 1..NRuns /\ l = 1 /\ s = 0 /\ p = 0 /\ st = 0 /\ out = 0
        /\ PrintAll(Runs[tid].id, 0,
             LET r == Runs[tid] IN
             Need(r.err = "", "raised") \union
             (IF r.err # "" THEN {} ELSE
              Need(Len(r.ev) = Due(r), "count") \union
              Need(Len(r.fits) = NBlocks(Len(r.R), r.memory, r.freq), "refits") \union
              UNION {LET B == Block(Len(r.R), r.memory, r.freq, b) IN
                       Need(r.fits[b].rows = [i \in 1..r.memory |-> B.fit[1] + i - 1], "fitted_rows") \union
                       Need(r.fits[b].same, "fitted_values") \union Need(r.fits[b].k = r.k, "components")
                     : b \in 1..Len(r.fits)} \union
              Need(r.fullstamps = [i \in 1..Len(r.ev) |-> r.ev[i].t], "full_stamps") \union
              Need(r.llstamps = [i \in 1..Len(r.ev) |-> r.ev[i].t], "ll_stamps")))

B == Block(T, Run.memory, Run.freq, ((l - 1) \div Run.freq) + 1)
E == Run.fits[((l - 1) \div Run.freq) + 1].E
Row(q) == [i \in 1..n |-> NOf(Run.R[q][i])]
Step(x, q) == FStep(x, E, Run.pairs, Row(q), q >= B.from, Look)
Row0(q) == q + Run.memory
(* the state after row memory + l: carried on within a block, from the first row on when the exposures are new *)
After == IF (l - 1) % Run.freq # 0 THEN Step(s, Row0(l))
         ELSE FoldLeft(LAMBDA x, q : TLCEval(Step(x, q)), FInit(Run.pairs, k, n), [q \in 1..Row0(l) |-> q])

Judge(x, ev) ==
  LET K == Len(Run.pairs)
      okw == Len(ev.w) = K /\ ~HasNaN(ev.w)
      d == EwVal(x.dg)
      sd == Vec(n, LAMBDA i : NAdd(NSqrt(d[i]), Run.sizes[i]))
  IN Need(ev.t = Row0(l), "stamp") \union
     Need(\A i \in 1..k, j \in 1..n : NEq(ev.E[i][j], E[i][j]), "exposure") \union
     Need(IsId(ev.dl, n) /\ IsId(ev.el, n) /\ IsId(ev.fl, n), "labels") \union
     Need(\A i \in 1..n : NClose(ev.d[i], d[i], NMul("1E-9", NSq(Run.sizes[i]))), "diagonal") \union
     (IF ~okw THEN {"weights"} ELSE
      LET b == C!Blend(x.cs.prev, ev.w)
          g == C!Gap(x.cs.buf, ev.w)
          sc == Vec(k, LAMBDA i : NSqrt(b.cov[i][i]))
      IN Need(\A q \in 1..K : NGe(ev.w[q], "-1E-4"), "negative") \union Need(NClose(NSum(ev.w), 1, "1E-4"), "sum") \union
         Need(Len(x.cs.buf) = Look /\ NLe(g.gap, NMul(Run.gtol, g.scale)), "gap") \union
         Need(MClose(ev.G, b.cov, sc, "1E-5"), "factor_cov")) \union
     (LET F == FullCov(ev.E, ev.G, ev.d) IN
      Need(MClose(ev.full, F, Vec(n, LAMBDA i : NSqrt(F[i][i])), "1E-9"), "full") \union
      (IF l = T - Run.memory THEN Need(NIsNaN(ev.ll), "ll_last")
       ELSE LET r == Row(Row0(l) + 1) IN
            Need(NClose(ev.ll, Sc!LogPdf(F, r, ZeroVec(n)), NMul("1E-7", Sc!LogPdfSize(F, r, ZeroVec(n)))), "likelihood")))

Next ==
  /\ l <= Len(Run.ev)
  /\ IF Run.err # "" \/ Len(Run.ev) # Due(Run) \/ Len(Run.fits) # NBlocks(T, Run.memory, Run.freq) THEN s' = s
     ELSE LET x == TLCEval(After) IN s' = x /\ PrintAll(Run.id, l, Judge(x, Run.ev[l]))
  /\ l' = l + 1
  /\ UNCHANGED <<tid, p, st, out>>
  /\ (l = Len(Run.ev) => PrintT(<<"DONE", Run.id>>))
=============================================================================
