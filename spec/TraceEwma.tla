------------------------------ MODULE TraceEwma ------------------------------
(***************************************************************************)
(* Runs of volatility(), center(), clip() and iterated_ewma() checked      *)
(* against Ewma / Iewma, row by row.                                       *)
(***************************************************************************)
EXTENDS TraceBase, Ewma

VARIABLES tid, l, p, st, out, mx
I == INSTANCE Iewma WITH Params <- {}

vars == <<tid, l, p, st, out, mx>>
Run == Runs[tid]
VW == <<tid, l>>

TOL == "1E-8"

Seed(r) == CASE r.kind = "iewma" -> I!ISeed(r.p)
             [] OTHER -> EwInit(r.p.n)

Init == /\ tid \in 1..NRuns
        /\ l = 1
        /\ p = Runs[tid].p
        /\ st = Seed(Runs[tid])
        /\ out = [on |-> FALSE]
        /\ mx = ZeroVec(Runs[tid].p.n)
        /\ PrintAll(Runs[tid].id, 0,
             Need(\A i \in 1..(Len(Runs[tid].emits) - 1) : Runs[tid].emits[i] < Runs[tid].emits[i+1], "order")
             \union Need(\A i \in 1..Len(Runs[tid].emits) : Runs[tid].emits[i] > 0, "stamp")
             \union Need(Runs[tid].err = "", "raised"))

(* running scale of the data of each asset, for absolute tolerances *)
Grow(m, row) == Vec(Len(m), LAMBDA i : IF NIsNaN(row[i]) THEN m[i] ELSE NMax(m[i], NAbs(row[i])))

Presence(on, ev) == Need(on => ev.has, "missing") \union Need(ev.has => on, "extra")

--------------------------------------------------------------------------
(* volatility(returns, h, mp, clip) *)
VolStep(row) ==
  LET y == Vec(p.n, LAMBDA i : NSq(row[i]))
      e == IF p.clip = "" THEN EwStep(st, NHalf(p.h), y) ELSE EwStepClip(st, NHalf(p.h), y, NSq(p.clip), p.mp)
      v == Vec(p.n, LAMBDA i : NSqrt(EwVal(e)[i]))
  IN /\ st' = e
     /\ out' = [on |-> Reported(e, p.mp), v |-> v]
VolJudge(ev) ==
  Presence(out'.on, ev) \union
  (IF ~(out'.on /\ ev.has) THEN {}
   ELSE Need(IsId(ev.o.lab, p.n), "labels") \union Need(VClose(ev.o.v, out'.v, out'.v, TOL), "volatility"))

(* center(returns, h, mp, mean_adj) *)
CenStep(row) ==
  LET e == EwStep(st, NHalf(p.h), Vec(p.n, LAMBDA i : NOf(row[i])))
      m == IF p.mean THEN EwVal(e) ELSE Vec(p.n, LAMBDA i : NMul(0, row[i]))
      c == IF p.mean THEN VSub(row, m) ELSE Vec(p.n, LAMBDA i : NOf(row[i]))
      on == IF p.mean THEN Reported(e, p.mp) ELSE TRUE
  IN /\ st' = e
     /\ out' = [on |-> on, m |-> m, con |-> on /\ (p.mean => ~AllNaN(c)), c |-> c]
CenJudge(ev) ==
  Need(out'.on = ev.o.mhas, "mean_rows") \union
  Need(out'.con = ev.o.chas, "centered_rows") \union
  (IF out'.on /\ ev.o.mhas
   THEN Need(IsId(ev.o.mlab, p.n), "labels") \union Need(VClose(ev.o.m, out'.m, mx', TOL), "mean") ELSE {}) \union
  (IF out'.con /\ ev.o.chas
   THEN Need(IsId(ev.o.clab, p.n), "labels") \union Need(VClose(ev.o.c, out'.c, mx', TOL), "centered") ELSE {})

(* clip(data, c) *)
ClipStep(row) ==
  LET c == IF p.clip = "" THEN Vec(p.n, LAMBDA i : NOf(row[i]))
           ELSE Vec(p.n, LAMBDA i : NClamp(row[i], NNeg(p.clip), p.clip))
  IN st' = st /\ out' = [on |-> ~AllNaN(c), v |-> c]
ClipJudge(ev) ==
  Presence(out'.on, ev) \union
  (IF ~(out'.on /\ ev.has) THEN {}
   ELSE Need(IsId(ev.o.lab, p.n), "labels") \union
        Need(\A i \in 1..p.n : NClose(ev.o.v[i], out'.v[i], 0), "clipped"))

(* iterated_ewma(...) *)
IewJudge(ev) ==
  Presence(out'.on, ev) \union
  (IF ~(out'.on /\ ev.has) THEN {}
   ELSE LET o == ev.o
            n == p.n
            sv == Vec(n, LAMBDA i : IF NIsFin(out'.vola[i]) THEN out'.vola[i] ELSE NOf(1))
            \* centred adjusted returns that cancel exactly (several rows clipped to the same bound): the
            \* correlation is 0/0 and whether floating point sees the zero is not determined
            cii == EwVal(st'.cov)
            sh == [i \in 1..n |-> p.mean /\ NGt(mx'[i], 0) /\ NLt(cii[(i-1)*n + i], "1E-18")]
            at == {i \in 1..n : ~sh[i]}
            sm == Vec(n, LAMBDA i : IF NIsFin(out'.vola[i]) THEN NAdd(out'.vola[i], mx'[i]) ELSE NOf(1))
        IN Need(IsId(o.rlab, n) /\ IsId(o.clab, n), "cov_labels") \union
           Need(IsId(o.vlab, n), "vola_labels") \union
           Need(IsId(o.mlab, n), "mean_labels") \union
           Need(VClose(o.v, out'.vola, sv, TOL), "vola") \union
           Need(\A i \in at : NIsNaN(out'.cov[i][i]) = NIsNaN(o.cov[i][i]), "missing_pattern") \union
           Need(\A i \in 1..n : NIsNaN(o.cov[i][i]) \/ NClose(NSqrt(o.cov[i][i]), o.v[i], NMul(TOL, sv[i])), "cov_diag") \union
           Need(\A i, j \in 1..n : NClose(o.cov[i][j], o.cov[j][i], NMul("1E-12", NMul(sv[i], sv[j]))), "symmetric") \union
           Need(\A i, j \in at : NClose(o.cov[i][j], out'.cov[i][j], NMul(TOL, NMul(sv[i], sv[j]))), "cov") \union
           Need(IF p.mean THEN VClose(o.m, out'.mean, sm, TOL) ELSE \A i \in 1..n : NEq(o.m[i], 0), "mean"))

--------------------------------------------------------------------------
Next ==
  /\ l <= Len(Run.ev)
  /\ LET ev == Run.ev[l] IN
     /\ mx' = Grow(mx, ev.r)
     /\ CASE Run.kind = "vol"    -> VolStep(ev.r) /\ PrintAll(Run.id, l, VolJudge(ev))
          [] Run.kind = "center" -> CenStep(ev.r) /\ PrintAll(Run.id, l, CenJudge(ev))
          [] Run.kind = "clip"   -> ClipStep(ev.r) /\ PrintAll(Run.id, l, ClipJudge(ev))
          [] Run.kind = "iewma"  -> LET x == I!IStep(p, st, ev.r) IN
                                    st' = x.st /\ out' = x.out /\ PrintAll(Run.id, l, IewJudge(ev))
  /\ l' = l + 1
  /\ UNCHANGED <<tid, p>>
  /\ (l = Len(Run.ev) => PrintT(<<"DONE", Run.id>>))

Spec == Init /\ [][Next]_vars
=============================================================================
