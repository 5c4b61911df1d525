---------------------------- MODULE MCPortfolio -----------------------------
(***************************************************************************)
(* The bounds of Portfolio.tla as a game on two assets: one side offers    *)
(* holdings, limits and any multipliers, the other any competitor within   *)
(* the limits.  No competitor may ever be better than the bound allows     *)
(* (otherwise the checks would accept holdings that are not optimal), and  *)
(* for known solutions good multipliers bring the bound down to zero       *)
(* (otherwise they would reject optimal ones).                             *)
(***************************************************************************)
EXTENDS Portfolio

CONSTANT Fine
VARIABLES S, lim, w, z, wit, v
vars == <<S, lim, w, z, wit, v>>

None == [lo |-> "", hi |-> "", s |-> ""]
Mats == {<<<<"1", "0">>, <<"0", "1">>>>, <<<<"1", "1.3">>, <<"1.3", "2">>>>, <<<<"4", "-0.8">>, <<"-0.8", "1">>>>}
Lims == {None, [lo |-> "-0.5", hi |-> "0.9", s |-> ""], [lo |-> "-2", hi |-> "", s |-> "1.6"], [lo |-> "0", hi |-> "0.8", s |-> "1"]}
A == IF Fine THEN {"-1", "-0.4", "-0.3", "0", "0.1", "0.25", "0.5", "0.6", "0.8", "1", "1.3", "1.7"} ELSE {"-0.3", "0.25", "0.8"}
Full == {<<NOf(a), NSub(1, a)>> : a \in A}                  \* holdings that sum to one
Free == {<<NOf(a), NOf(b)>> : a \in IF Fine THEN {"-0.5", "0", "0.4", "1"} ELSE {"-0.5", "0.4"}, b \in IF Fine THEN {"-0.3", "0.2", "0.8"} ELSE {"-0.3", "0.8"}}
Wits == IF Fine THEN {[nu |-> a, la |-> b, mu |-> c] : a \in {"-0.5", "0.4", "1"}, b \in {"-1", "0", "0.4"}, c \in {"-1", "0.3"}}
        ELSE {[nu |-> "0.4", la |-> "0.4", mu |-> "0.3"], [nu |-> "-0.5", la |-> "0", mu |-> "0.3"], [nu |-> "1", la |-> "-1", mu |-> "-1"]}
Returns == <<"0.3", "-0.1">>
Rho == <<"0.05", "0.1">>
Sd == <<NSqrt(S[1][1]), NSqrt(S[2][2])>>

Init == /\ S \in Mats /\ lim \in Lims /\ w \in (Full \union Free) /\ z \in {<<"0.5", "0.5">>, <<"1.3", "-0.3">>} /\ wit \in Wits
        /\ Within(w, lim, 0)
        /\ v = <<>>
\* the competitor
Next == v = <<>> /\ v' \in {x \in Full \union Free : Within(x, lim, 0)} /\ UNCHANGED <<S, lim, w, z, wit>>
Spec == Init /\ [][Next]_vars

One(x) == NClose(NSum(x), 1, "1E-25")
Obj(x, kappa) == NAdd(Risk(S, x), NMul(kappa, NSq(AbsDot(Sd, x))))
Ret(x) == NSub(NDot(Returns, x), AbsDot(Rho, x))
Eps == "1E-25"

\* relative improvements of the competitor are within the bounds
C25_MinRisk == (v # <<>> /\ One(v) /\ One(w)) =>
  \A kappa \in {"0", "0.7"} : NGe(MinRiskGap(S, w, z, kappa, Sd, lim, wit), NSub(NDiv(NSub(Obj(w, kappa), Obj(v, kappa)), Obj(w, kappa)), Eps))
RiskCap == "0.9"
C25_MeanVar == (v # <<>> /\ NLe(Risk(S, v), RiskCap)) =>
  LET scale == NAdd(NMul(MaxAbsV(Returns), NAdd(L1(w), "0.01")), NMul(NMax(0, wit.mu), RiskCap))
  IN NGe(MeanVarGap(S, Returns, Rho, RiskCap, w, z, lim, wit), NSub(NDiv(NSub(Ret(v), Ret(w)), scale), Eps))
\* long only; the better ratio shows in the bound
Long == [lo |-> "0", hi |-> lim.hi, s |-> ""]
C25_Ratio == (v # <<>> /\ One(v) /\ One(w) /\ Within(v, Long, 0)) =>
  \A a \in {<<"0.3", "0.2">>, <<"1", "2">>} :
    NGt(NDot(a, w), 0) =>
    LET D == NDiv(NDot(a, w), Risk(S, w))
    IN NGe(RatioGap(S, a, w, z, Long, wit), NSub(NDiv(NSub(NDot(a, v), NMul(D, Risk(S, v))), NAbs(NDot(a, w))), Eps))

(* known solutions *)
I2 == <<<<1, 0>>, <<0, 1>>>>
Sh == <<<<1, "1.3">>, <<"1.3", 2>>>>
Half == <<"0.5", "0.5">>
Wit(nu, la, mu) == [nu |-> nu, la |-> la, mu |-> mu]
Zero(x) == NClose(x, 0, "1E-25")
Lev == [lo |-> "", hi |-> "", s |-> "1.6"]
SlSh == Slope(Sh, <<"1.3", "-0.3">>)
Capped == [lo |-> "-0.1", hi |-> "0.7", s |-> ""]
Dg == <<<<1, 0>>, <<0, 9>>>>              \* without limits (0.9, 0.1)
SlDg == Slope(Dg, <<"0.7", "0.3">>)
C25_Tight ==
  /\ Zero(MinRiskGap(I2, Half, Half, 0, <<1, 1>>, None, Wit(NSqrt("0.5"), 0, 0)))
  /\ Zero(MinRiskGap(I2, Half, Half, "0.3", <<1, 1>>, None, Wit(NAdd(NSqrt("0.5"), "0.6"), 0, 0)))
  \* leverage binds
  /\ Zero(MinRiskGap(Sh, <<"1.3", "-0.3">>, <<"1.3", "-0.3">>, 0, <<1, 1>>, Lev, Wit(NDiv(NAdd(SlSh[1], SlSh[2]), 2), NDiv(NSub(SlSh[2], SlSh[1]), 2), 0)))
  \* a position limit binds
  /\ Zero(MinRiskGap(Dg, <<"0.7", "0.3">>, <<"0.7", "0.3">>, 0, <<1, 3>>, Capped, Wit(SlDg[2], 0, 0)))
  /\ Zero(MeanVarGap(I2, <<"0.3", "0">>, <<"0", "0">>, 2, <<2, 0>>, <<2, 0>>, None, Wit(0, 0, "0.3")))
  /\ Zero(MeanVarGap(I2, <<"0.3", "0.1">>, <<"0.05", "0.2">>, 2, <<2, 0>>, <<2, 0>>, None, Wit(0, 0, "0.25")))
  \* nothing is worth holding
  /\ Zero(MeanVarGap(I2, <<"0.03", "-0.1">>, <<"0.05", "0.2">>, 2, <<0, 0>>, <<0, 0>>, None, Wit(0, 0, 0)))
  /\ Zero(RatioGap(I2, <<1, 1>>, Half, Half, Long, Wit(0, 0, 0)))
  /\ Zero(RatioGap(Dg, <<1, 3>>, <<"0.75", "0.25">>, <<"0.75", "0.25">>, [lo |-> "0", hi |-> "0.8", s |-> ""], Wit(0, 0, 0)))
  \* equal contributions: holdings inverse to the volatilities
  /\ Parity(Dg, <<"0.75", "0.25">>, "1E-20") /\ ~Parity(Dg, Half, "0.1")
  /\ Parity(<<<<1, "1.5">>, <<"1.5", 9>>>>, <<"0.75", "0.25">>, "1E-20")
  /\ Within(<<"0.7", "0.3">>, Capped, 0) /\ ~Within(<<"0.71", "0.29">>, Capped, "0.001") /\ ~Within(<<"-0.2", "0.7">>, Capped, "0.001")
  /\ Within(<<"0.2", "-0.1">>, Capped, 0) /\ Within(<<"0.2", "-0.1005">>, Capped, "0.001")
  /\ Within(<<"1.3", "-0.3">>, Lev, 0) /\ ~Within(<<"1.4", "-0.4">>, Lev, "0.01") /\ Within(<<3, "-0.3">>, None, 0)
=============================================================================
