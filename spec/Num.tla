-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real numbers for the specifications of cov_pred_finance.                *)
(*                                                                         *)
(* TLC has no reals.  A number is an opaque value produced by NOf from a   *)
(* decimal string ("-1.25E-3", "nan", "inf", "-inf") or an integer; every  *)
(* operator below also accepts those directly.  The arithmetic is decimal  *)
(* with 34 digits and IEEE rules for nan and the infinities; comparisons   *)
(* with nan are FALSE.  TLC evaluates the operators with the Java class    *)
(* Num (spec/java); NumTest.tla checks that class against facts of integer *)
(* and rational arithmetic.  The bodies here only fix the arities.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

NOf(a)     == a                     \* the number denoted by a
NAdd(a, b) == a + b
NSub(a, b) == a - b
NMul(a, b) == a * b
NDiv(a, b) == a \div b
NSqrt(a)   == CHOOSE x \in Nat : x * x = a
NLn(a)     == a                     \* natural logarithm
NExp(a)    == a
NHalf(h)   == h                     \* 2^(-1/h): the decay of an EWMA with half-life h
NLt(a, b)  == a < b
NLe(a, b)  == a <= b
NEq(a, b)  == a = b
NIsNaN(a)  == FALSE
NIsFin(a)  == TRUE
NSum(s)    == s[1]                  \* sum of a sequence (0 for <<>>)
NDot(s, t) == s[1] * t[1]           \* inner product of two sequences
NToStr(a)  == a                     \* canonical decimal string

----------------------------------------------------------------------------
NGt(a, b)  == NLt(b, a)
NGe(a, b)  == NLe(b, a)
NNeg(a)    == NSub(0, a)
NAbs(a)    == IF NLt(a, 0) THEN NSub(0, a) ELSE NOf(a)
NMin(a, b) == IF NLt(b, a) THEN NOf(b) ELSE NOf(a)
NMax(a, b) == IF NLt(a, b) THEN NOf(b) ELSE NOf(a)
NSq(a)     == NMul(a, a)
\* both missing, or equal up to tol
NClose(a, b, tol) == \/ NIsNaN(a) /\ NIsNaN(b)
                     \/ NLe(NAbs(NSub(a, b)), tol)
NClamp(x, lo, hi) == IF NIsNaN(x) THEN NOf(x) ELSE NMax(lo, NMin(x, hi))
=============================================================================
