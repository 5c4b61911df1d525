------------------------------ MODULE MCIewma -------------------------------
(***************************************************************************)
(* Exhaustive exploration of the iterated EWMA machine over all sequences  *)
(* of row classes up to Depth, and the properties C01-C06 (and the design  *)
(* part of C07, C15, C16) as invariants.  Also the generator of the class  *)
(* sequences that the harness replays into the real code.                  *)
(***************************************************************************)
EXTENDS Iewma, Json, FiniteSets

CONSTANTS Depth, N, Classes, PrintFor   \* PrintFor: index of the parameter record whose behaviours are printed
VARIABLE hist                 \* the rows so far, as classes

ParamSeq == <<
  [n |-> N, hv |-> "1", hc |-> "1", hm1 |-> "1", hm2 |-> "1", mpv |-> 1, mpc |-> 1, clip |-> "",  mean |-> FALSE, nan0 |-> TRUE],
  [n |-> N, hv |-> "2", hc |-> "1", hm1 |-> "1", hm2 |-> "1", mpv |-> 2, mpc |-> 2, clip |-> "",  mean |-> FALSE, nan0 |-> TRUE],
  [n |-> N, hv |-> "1", hc |-> "3", hm1 |-> "1", hm2 |-> "1", mpv |-> 0, mpc |-> 2, clip |-> "1.5", mean |-> FALSE, nan0 |-> TRUE],
  [n |-> N, hv |-> "1", hc |-> "2", hm1 |-> "1", hm2 |-> "2", mpv |-> 2, mpc |-> 1, clip |-> "",  mean |-> TRUE, nan0 |-> TRUE],
  [n |-> N, hv |-> "1", hc |-> "1", hm1 |-> "1", hm2 |-> "1", mpv |-> 1, mpc |-> 1, clip |-> "",  mean |-> FALSE, nan0 |-> FALSE],
  [n |-> N, hv |-> "2", hc |-> "1", hm1 |-> "3", hm2 |-> "1", mpv |-> 2, mpc |-> 1, clip |-> "2", mean |-> TRUE, nan0 |-> FALSE]
>>
CONSTANT Which               \* indices of ParamSeq to explore
MCParams == {ParamSeq[i] : i \in Which}

\* concrete return of class c for asset i in row t; no two values are equal or opposite
S == <<<<"1.1", "-0.7", "0.4">>, <<"-0.9", "1.3", "0.6">>, <<"0.3", "0.8", "-1.7">>, <<"1.9", "-0.2", "-0.5">>, <<"-0.35", "0.95", "1.45">>, <<"2.3", "-1.05", "0.15">>>>
Val(c, i, t) == CASE c = "Z" -> NOf(0) [] c = "N" -> NOf("nan") [] c = "S" -> NOf(S[t][i]) [] c = "B" -> NMul(29, S[t][i])
RowOf(cs, t) == Vec(Len(cs), LAMBDA i : Val(cs[i], i, t))

Fold(q, rows) == FoldLeft(LAMBDA a, r : IStep(q, a.st, r), [st |-> ISeed(q), out |-> NoOut], rows)

HRows(h) == TLCEval([t \in 1..Len(h) |-> RowOf(h[t], t)])

MCInit == IInit /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E cs \in [1..N -> Classes] :
               /\ hist' = Append(hist, cs)
               /\ Observe(RowOf(cs, Len(hist) + 1))
          /\ (Len(hist') = Depth /\ p = ParamSeq[PrintFor]) => PrintT(<<"BEH", ToJson(hist')>>)
MCSpec == MCInit /\ [][MCNext]_<<p, st, out, hist>>

-----------------------------------------------------------------------------
T == Len(hist)
V(i, t) == LET x == Val(hist[t][i], i, t) IN IF p.nan0 /\ NIsNaN(x) THEN NOf(0) ELSE x
Eps == "1E-12"

\* C01: explicit weighted average of squares
C01_Explicit ==
  (out.volOn /\ ~p.mean /\ p.clip = "") =>
    \A i \in 1..N :
      LET b == NHalf(p.hv)
          w == [k \in 0..T-1 |-> FoldLeft(LAMBDA a, x : NMul(a, b), NOf(1), [x \in 1..k |-> x])]
          num == NSum([t \in 1..T |-> NMul(w[T-t], NSq(V(i, t)))])
          den == NSum([t \in 1..T |-> w[T-t]])
      IN NClose(NSq(out.vola[i]), NDiv(num, den), Eps)

\* C01: without centering and clipping a constant weighting sums to one: the variance lies between min and max
C01_Between ==
  (out.volOn /\ ~p.mean /\ p.clip = "") =>
    \A i \in 1..N : NIsNaN(out.vola[i]) \/
      /\ \E t \in 1..T : NLe(NSq(out.vola[i]), NAdd(NSq(V(i, t)), Eps))
      /\ \E t \in 1..T : NLe(NSq(V(i, t)), NAdd(NSq(out.vola[i]), Eps))

\* C02: an asset that returned something nonzero never has zero volatility (past the first centering)
Alive(i) == \E t \in 1..T : V(i, t) # NOf(0) /\ ~NIsNaN(V(i, t))
C02_NeverStuck == (out.volOn /\ ~p.mean) => \A i \in 1..N : Alive(i) => ~NEq(out.vola[i], 0)

\* C02: with clip c the variance never grows by more than the capped observation allows
C03_Shape ==
  out.on => LET v == out.vola C == out.cov IN
    /\ \A i, j \in 1..N : NIsNaN(C[i][j]) = NIsNaN(C[j][i])
    /\ \A i, j \in 1..N : NIsNaN(C[i][j]) = (NIsNaN(C[i][i]) \/ NIsNaN(C[j][j]))
    /\ \A i \in 1..N : NIsNaN(C[i][i]) \/ NClose(C[i][i], NSq(v[i]), NMul(Eps, NSq(v[i])))
    /\ \A i, j \in 1..N : NIsNaN(C[i][j]) \/ NLe(NAbs(C[i][j]), NMul(NMul(v[i], v[j]), NAdd(1, Eps)))
    /\ LET live == SelectSeq([i \in 1..N |-> i], LAMBDA i : ~NIsNaN(C[i][i]))
       IN live # <<>> => IsPSD([a \in 1..Len(live) |-> [b \in 1..Len(live) |-> C[live[a]][live[b]]]], Eps)

\* C05: a covariance never comes without volatilities, which come without it while it warms up
C05_Shown == (out.on \/ "vola" \in DOMAIN out) => out.volOn

C04_ZeroMean == (out.on /\ ~p.mean) => \A i \in 1..N : NEq(out.mean[i], 0)

\* C05: a prediction at every time once both warm-ups are complete, none before
Usable(t) == t >= 1 /\ t >= p.mpv /\ \E i \in 1..N : \E s \in 1..t : ~NIsNaN(V(i, s)) /\ ~NEq(V(i, s), 0)
C05_Schedule ==
  (p.nan0 /\ ~p.mean /\ T > 0) =>
    (out.on <=> /\ Usable(T)
                /\ Cardinality({t \in 1..T : Usable(t)}) >= p.mpc)

\* C06: missing counts as zero
C06_NaNIsZero ==
  p.nan0 => LET z == [t \in 1..T |-> [i \in 1..N |-> IF hist[t][i] = "N" THEN "Z" ELSE hist[t][i]]]
            IN Fold(p, HRows(z)).out = out

\* C06: an asset without any nonzero return so far is missing, and the rest is as if it were absent
Live == SelectSeq([i \in 1..N |-> i], Alive)
C06_DeadAsset ==
  (p.nan0 /\ out.on) =>
    /\ \A i \in 1..N : ~Alive(i) => \A j \in 1..N : NIsNaN(out.cov[i][j]) /\ NIsNaN(out.cov[j][i])
    /\ LET k == Len(Live)
           sub == Fold([p EXCEPT !.n = k], [t \in 1..T |-> [a \in 1..k |-> Val(hist[t][Live[a]], Live[a], t)]]).out
       IN k > 0 => sub.on /\ \A a, b \in 1..k :
            NClose(sub.cov[a][b], out.cov[Live[a]][Live[b]], Eps)

\* C06: zero-filling off: a missing return makes exactly that asset missing from then on
Holed(i) == \E t \in 1..T : hist[t][i] = "N"
C06_HoleIsOwn ==
  (~p.nan0 /\ ~p.mean /\ p.clip = "" /\ out.on) =>
    \A i \in 1..N : /\ (Holed(i) => NIsNaN(out.vola[i]))
                    /\ (~Holed(i) => ~NIsNaN(out.vola[i]))
                    /\ (~Holed(i) /\ Alive(i)) => ~NIsNaN(out.cov[i][i])

\* C16: units (base 2 keeps the decimals exact)
C16_Units ==
  LET o2 == Fold(p, [t \in 1..T |-> VScale(2, HRows(hist)[t])]).out
  IN T > 0 => /\ o2.on = out.on
              /\ out.on => \A i, j \in 1..N :
                     /\ NClose(o2.cov[i][j], NMul(4, out.cov[i][j]), Eps)
                     /\ NClose(o2.mean[i], NMul(2, out.mean[i]), Eps)

\* C15: assets in reverse order
C15_Order ==
  LET rv == Fold(p, [t \in 1..T |-> Reverse(HRows(hist)[t])]).out
  IN T > 0 => /\ rv.on = out.on
              /\ out.on => \A i, j \in 1..N : NClose(rv.cov[i][j], out.cov[N+1-i][N+1-j], Eps)
=============================================================================
