------------------------------ MODULE NumTest ------------------------------
(* Facts about the Java evaluation of Num, checked when TLC starts.        *)
EXTENDS Num, TLC
R == -6..6
ASSUME \A a, b \in R : NEq(NAdd(a, b), a + b) /\ NEq(NSub(a, b), a - b) /\ NEq(NMul(a, b), a * b)
ASSUME \A a, b \in R : (NLt(a, b) <=> a < b) /\ (NLe(a, b) <=> a <= b) /\ (NEq(a, b) <=> a = b)
ASSUME \A a, b, c \in R : b # 0 /\ c # 0 =>
         NEq(NMul(NDiv(a, b), NMul(b, c)), a * c) \/ NClose(NMul(NDiv(a, b), NMul(b, c)), a * c, "1E-30")
ASSUME \A a \in 0..12 : NEq(NSqrt(a * a), a)
ASSUME \A a \in 1..30 : NClose(NSq(NSqrt(a)), a, "1E-30")
ASSUME \A a \in 1..30 : NClose(NExp(NLn(a)), a, "1E-12")
ASSUME \A a, b \in 1..12 : NClose(NLn(a * b), NAdd(NLn(a), NLn(b)), "1E-13")
ASSUME NEq(NHalf(1), "0.5") /\ NClose(NSq(NHalf(2)), "0.5", "1E-15")
ASSUME NClose(NMul(NMul(NHalf(3), NHalf(3)), NHalf(3)), "0.5", "1E-15")
ASSUME NIsNaN("nan") /\ NIsNaN(NDiv(0, 0)) /\ NIsNaN(NMul("inf", 0)) /\ NIsNaN(NAdd("nan", 1)) /\ NIsNaN(NSqrt(-1))
ASSUME ~NLt("nan", 1) /\ ~NLt(1, "nan") /\ ~NLe("nan", "nan") /\ ~NEq("nan", "nan")
ASSUME NLt(5, "inf") /\ NLt("-inf", 5) /\ ~NIsFin("inf") /\ NIsFin("1.5E-300") /\ NIsNaN(NSub("inf", "inf"))
ASSUME NEq(NDiv(1, 0), "inf") /\ NEq(NDiv(-1, 0), "-inf")
ASSUME \A a, b, c \in -2..2 : NEq(NSum(<<a, b, c>>), a + b + c) /\ NEq(NDot(<<a, b>>, <<c, a>>), a * c + b * a)
ASSUME NEq(NSum(<<>>), 0)
ASSUME \A a \in R : NEq(NAbs(a), IF a < 0 THEN -a ELSE a) /\ NEq(NNeg(a), -a)
ASSUME \A a, b \in R : NEq(NMin(a, b), IF a < b THEN a ELSE b) /\ NEq(NMax(a, b), IF a < b THEN b ELSE a)
ASSUME NToStr(NMul("1.50", "2.0")) = "3" /\ NToStr(NDiv(1, 8)) = "0.125"
ASSUME NEq(NAdd("1E-20", 1), "1.00000000000000000001")
VARIABLE x
Init == x = NOf(0)
Next == NLt(x, 3) /\ x' = NAdd(x, "0.5")
Inv == NLe(x, 3)
=============================================================================
