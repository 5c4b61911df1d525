----------------------------- MODULE LinalgTest -----------------------------
(* Facts about Linalg, checked when TLC starts. *)
EXTENDS Linalg
A2 == <<<<4, 2>>, <<2, 5>>>>
A3 == <<<<4, 2, 1>>, <<2, 5, -1>>, <<1, -1, 3>>>>
G3 == <<<<0, 2, 1>>, <<2, 1, -1>>, <<1, -1, 3>>>>
Ones(n) == [i \in 1..n |-> 1]
ASSUME MClose(Chol(A2), <<<<2, 0>>, <<1, 2>>>>, Ones(2), "1E-30")
ASSUME \A A \in {A2, A3} : LET n == Len(A) IN
         /\ MClose(MatMulT(Chol(A), Chol(A)), A, Ones(n), "1E-30")
         /\ MClose(MatMul(InvSPD(A), A), Eye(n), Ones(n), "1E-30")
         /\ MClose(MatMulT(CholPrec(A), CholPrec(A)), InvSPD(A), Ones(n), "1E-30")
         /\ \A i, j \in 1..n : j > i => NEq(CholPrec(A)[i][j], 0)
         /\ IsPSD(A, "1E-20")
ASSUME NClose(LogDet(A2), NLn(16), "1E-13")
ASSUME NClose(LogDet(A3), NLn(35), "1E-13")
ASSUME ~IsPSD(<<<<1, 2>>, <<2, 1>>>>, "1E-9")
ASSUME IsPSD(<<<<1, 1>>, <<1, 1>>>>, "1E-12") /\ IsPSD(<<<<0, 0>>, <<0, 0>>>>, "1E-12")
ASSUME ~IsPSD(<<<<0, 1>>, <<1, 0>>>>, "1E-12")
ASSUME \A A \in {A3, G3} : \A b \in {<<1, 2, 3>>, <<0, -1, 5>>} :
         VClose(MatVec(A, SolveGen(A, b)), b, Ones(3), "1E-30")
ASSUME Transp(Transp(G3)) = G3 /\ NEq(Tr(A3), 12) /\ NEq(Quad(<<1, 1, 0>>, A3), 13)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
