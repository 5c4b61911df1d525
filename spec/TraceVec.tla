------------------------------ MODULE TraceVec -------------------------------
(***************************************************************************)
(* Runs of the vectorised and of the low-rank iterated EWMA, row by row    *)
(* next to the streaming machine Iewma.                                    *)
(***************************************************************************)
EXTENDS TraceBase, LowRank

VARIABLES tid, l, p, st, out, mx, pv
I == INSTANCE Iewma WITH Params <- {}
vars == <<tid, l, p, st, out, mx, pv>>
VW == <<tid, l>>
Run == Runs[tid]
TOL == "1E-8"
TW == "1E-6"

Init == /\ tid \in 1..NRuns /\ l = 1
        /\ p = Runs[tid].p
        /\ st = I!ISeed(Runs[tid].p)
        /\ out = [on |-> FALSE, volOn |-> FALSE]
        /\ mx = ZeroVec(Runs[tid].p.n)
        /\ pv = <<>>
        /\ PrintAll(Runs[tid].id, 0,
             Need(Runs[tid].err = "", "raised") \union
             Need(\A i \in 1..(Len(Runs[tid].emits) - 1) : Runs[tid].emits[i] < Runs[tid].emits[i+1], "order")
             \union Need(\A i \in 1..Len(Runs[tid].emits) : Runs[tid].emits[i] > 0, "stamp"))

Grow(m, row) == Vec(Len(m), LAMBDA i : NMax(m[i], NAbs(row[i])))
\* centred adjusted returns that cancel exactly: the correlation is 0/0
Void == p.mean /\ \E i \in 1..p.n : NLt(EwVal(st'.cov)[(i-1) * p.n + i], "1E-18")
Presence(ev) == IF out'.on THEN Need(ev.has, "missing") ELSE Need(~ev.has, "extra")
SameMean(o) == IF p.mean THEN VClose(o.m, out'.mean, VAdd(out'.vola, mx'), TOL) ELSE \A i \in 1..p.n : NEq(o.m[i], 0)

JudgeVec(ev) ==
  IF ~(out'.on /\ ev.has) THEN {}
  ELSE LET n == p.n o == ev.o sv == out'.vola IN
    Need(IsId(o.rl, n) /\ IsId(o.cl, n), "labels") \union
    Need(~p.mean \/ IsId(o.ml, n), "mean_labels") \union
    Need(SameMean(o), "mean") \union
    (IF Void THEN {}
     ELSE IF Run.rank = 0
     THEN Need(MClose(o.cov, out'.cov, sv, TOL), "cov") \union
          Need(ev.shas /\ MClose(o.cov, ev.scov, sv, TOL) /\ (p.mean => VClose(o.m, ev.sm, VAdd(sv, mx'), TOL)), "agree")
     ELSE Need(EigenOK(CorrOf(out'.cov), ev.Q, ev.lam, "1E-9"), "WITNESS") \union
          (IF Separated(ev.lam, Run.rank, "1E-4")
           THEN Need(MClose(o.cov, RegCov(out'.cov, ev.Q, ev.lam, Run.rank), sv, TW), "regularised") ELSE {}))

\* factors and remainder in the units of the accumulator
Un(o) == LET v == EwVal(st'.cov)
             f == Vec(p.n, LAMBDA i : NDiv(NSqrt(v[(i-1) * p.n + i]), out'.vola[i]))
         IN [F |-> Mat(p.n, Len(o.F[1]), LAMBDA i, k : NMul(f[i], o.F[i][k])), d |-> Vec(p.n, LAMBDA i : NMul(NSq(f[i]), o.d[i]))]
Wide(o) == Len(o.F) = p.n /\ Len(o.d) = p.n /\ \A i \in 1..p.n : Len(o.F[i]) = Run.rank

JudgeLow(ev) ==
  IF ~(out'.on /\ ev.has) \/ Void THEN {}
  ELSE LET n == p.n o == ev.o sv == out'.vola IN
    Need(IsId(o.rl, n) /\ IsId(o.dl, n) /\ IsId(o.vl, n) /\ IsId(o.ml, n), "labels") \union
    Need(VClose(o.v, out'.vola, sv, TOL), "vola") \union
    Need(SameMean(o), "mean") \union
    (IF ~Wide(o) THEN {"factors"}
     ELSE Need(\A i \in 1..n : NGe(o.d[i], 0), "negative") \union
          Need(\A i \in 1..n : NClose(NAdd(NDot(o.F[i], o.F[i]), o.d[i]), NSq(sv[i]), NMul(TOL, NSq(sv[i]))), "diagonal") \union
          Need(st'.cov.k > Run.rank \/ MClose(ModelCov(o.F, o.d), out'.cov, sv, TOL), "exact") \union
          \* the update since the last emitted model
          (IF pv = <<>> THEN {}
           ELSE LET b == LRNew(st.cov, NHalf(p.hc))
                    a == NSub(1, b)
                    c == LRVar(a, pv.F, b, out'.adj)
                    M == LRTarget(a, pv.F, b, out'.adj)
                    u == Un(o)
                IN IF \E i \in 1..n : NLt(c[i], NMul("1E-9", NAdd(c[i], NMul(a, pv.d[i])))) THEN {}
                   ELSE Need(EigenOK(M, ev.Q, ev.lam, "1E-7"), "WITNESS") \union
                        (IF ~Separated(ev.lam, Run.rank, "1E-3") THEN {}
                         ELSE LET P == Lead(ev.Q, ev.lam, Run.rank)
                              IN Need(\A i, j \in 1..n : NClose(NDiv(NDot(u.F[i], u.F[j]), NSqrt(NMul(c[i], c[j]))), P[i][j], "1E-5"), "leading"))))

Next ==
  /\ l <= Len(Run.ev)
  /\ LET ev == Run.ev[l]
         x == I!IStep(p, st, ev.r)
     IN /\ mx' = Grow(mx, ev.r)
        /\ st' = x.st /\ out' = x.out
        /\ IF Run.err # "" THEN pv' = pv
           ELSE IF Run.kind = "vec" THEN pv' = pv /\ PrintAll(Run.id, l, Presence(ev) \union JudgeVec(ev))
           ELSE /\ PrintAll(Run.id, l, (IF p.mean /\ out'.on /\ Void THEN {} ELSE Presence(ev)) \union JudgeLow(ev))
                /\ pv' = IF out'.on /\ ev.has /\ ~Void /\ Wide(ev.o) THEN Un(ev.o) ELSE <<>>
  /\ l' = l + 1
  /\ UNCHANGED <<tid, p>>
  /\ (l = Len(Run.ev) => PrintT(<<"DONE", Run.id>>))
Spec == Init /\ [][Next]_vars
=============================================================================
