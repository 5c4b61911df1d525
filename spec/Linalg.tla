------------------------------- MODULE Linalg -------------------------------
(***************************************************************************)
(* Vectors are sequences of numbers, matrices sequences of rows.           *)
(***************************************************************************)
EXTENDS Num, TLC, SequencesExt

Vec(n, F(_))     == TLCEval([i \in 1..n |-> F(i)])
Mat(n, m, F(_,_)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> F(i, j)])])
ZeroVec(n)       == Vec(n, LAMBDA i : NOf(0))
ZeroMat(n, m)    == Mat(n, m, LAMBDA i, j : NOf(0))
Eye(n)           == Mat(n, n, LAMBDA i, j : NOf(IF i = j THEN 1 ELSE 0))
Rows(A)          == Len(A)
Cols(A)          == Len(A[1])
Transp(A)        == Mat(Cols(A), Rows(A), LAMBDA i, j : A[j][i])
Col(A, j)        == Vec(Rows(A), LAMBDA i : A[i][j])
Diag(A)          == Vec(Rows(A), LAMBDA i : A[i][i])
DiagMat(d)       == Mat(Len(d), Len(d), LAMBDA i, j : IF i = j THEN NOf(d[i]) ELSE NOf(0))
VAdd(a, b)       == Vec(Len(a), LAMBDA i : NAdd(a[i], b[i]))
VSub(a, b)       == Vec(Len(a), LAMBDA i : NSub(a[i], b[i]))
VScale(c, a)     == Vec(Len(a), LAMBDA i : NMul(c, a[i]))
MAdd(A, B)       == Mat(Rows(A), Cols(A), LAMBDA i, j : NAdd(A[i][j], B[i][j]))
MSub(A, B)       == Mat(Rows(A), Cols(A), LAMBDA i, j : NSub(A[i][j], B[i][j]))
MScale(c, A)     == Mat(Rows(A), Cols(A), LAMBDA i, j : NMul(c, A[i][j]))
Outer(a, b)      == Mat(Len(a), Len(b), LAMBDA i, j : NMul(a[i], b[j]))
MatVec(A, x)     == Vec(Rows(A), LAMBDA i : NDot(A[i], x))
MatMul(A, B)     == LET T == Transp(B) IN Mat(Rows(A), Cols(B), LAMBDA i, j : NDot(A[i], T[j]))
\* A B' without forming the transpose
MatMulT(A, B)    == Mat(Rows(A), Rows(B), LAMBDA i, j : NDot(A[i], B[j]))
Tr(A)            == NSum(Diag(A))
Quad(x, A)       == NDot(x, MatVec(A, x))

MaxAbsV(a) == FoldLeft(LAMBDA acc, x : NMax(acc, NAbs(x)), NOf(0), a)
MaxAbs(A)  == FoldLeft(LAMBDA acc, row : NMax(acc, MaxAbsV(row)), NOf(0), A)
HasNaN(a)  == \E i \in 1..Len(a) : ~NIsFin(a[i])
MHasNaN(A) == \E i \in 1..Len(A) : HasNaN(A[i])

(* Lower Cholesky factor; entries are nan when A is not positive definite *)
Chol(A) ==
  LET n == Rows(A)
      Entry(done, row, i, j) ==
        LET s == NSub(A[i][j], NDot(SubSeq(IF i = j THEN row ELSE done[j], 1, j - 1), SubSeq(row, 1, j - 1)))
        IN  IF i = j THEN NSqrt(s) ELSE NDiv(s, done[j][j])
      CRow(done, i) ==
        FoldLeft(LAMBDA row, j : TLCEval(Append(row, Entry(done, row, i, j))), <<>>, [k \in 1..i |-> k])
      Pad(row) == [j \in 1..n |-> IF j <= Len(row) THEN row[j] ELSE NOf(0)]
      L == FoldLeft(LAMBDA done, i : TLCEval(Append(done, CRow(done, i))), <<>>, [k \in 1..n |-> k])
  IN TLCEval([i \in 1..n |-> TLCEval(Pad(L[i]))])

(* x with L x = b, L lower triangular *)
SolveLower(L, b) ==
  FoldLeft(LAMBDA x, i : TLCEval(Append(x, NDiv(NSub(b[i], NDot(SubSeq(L[i], 1, i - 1), x)), L[i][i]))),
           <<>>, [k \in 1..Len(b) |-> k])

(* inverse of a lower triangular matrix, columns solved one by one *)
InvLower(L) ==
  LET n == Rows(L)
      C == TLCEval([j \in 1..n |-> SolveLower(L, [i \in 1..n |-> NOf(IF i = j THEN 1 ELSE 0)])])
  IN Transp(C)

(* reverse the order of rows and columns *)
Flip(A) == Mat(Rows(A), Cols(A), LAMBDA i, j : A[Rows(A) + 1 - i][Cols(A) + 1 - j])

(***************************************************************************)
(* Lower Cholesky factor L of inverse(S): L L' = S^-1.  Computed without   *)
(* inverting S: S = U U' with U upper triangular (Cholesky of the flipped  *)
(* matrix), and L = inverse(U)'.                                           *)
(***************************************************************************)
CholPrec(S) == LET U == Flip(Chol(Flip(S)))           \* upper triangular
               IN InvLower(Transp(U))

(* inverse and log-determinant of a symmetric positive definite matrix *)
InvSPD(A)   == LET Li == InvLower(Chol(A)) IN MatMul(Transp(Li), Li)
LogDet(A)   == LET L == Chol(A) IN NMul(2, NSum(Vec(Rows(A), LAMBDA i : NLn(L[i][i]))))

(* Gaussian elimination with partial pivoting: x with A x = b *)
SolveGen(A, b) ==
  LET n == Rows(A)
      M0 == TLCEval([i \in 1..n |-> TLCEval(Append(A[i], b[i]))])
      Piv(M, c) == CHOOSE p \in c..n : \A q \in c..n : NLe(NAbs(M[q][c]), NAbs(M[p][c]))
      Elim(M, c) ==
        LET p == Piv(M, c)
            S == TLCEval([M EXCEPT ![c] = M[p], ![p] = M[c]])
        IN TLCEval([i \in 1..n |-> IF i <= c THEN S[i]
             ELSE LET f == NDiv(S[i][c], S[c][c]) IN TLCEval([j \in 1..(n+1) |-> IF j < c THEN NOf(0) ELSE NSub(S[i][j], NMul(f, S[c][j]))])])
      U == FoldLeft(Elim, M0, [k \in 1..n |-> k])
      Back(x, i) == TLCEval([x EXCEPT ![i] = NDiv(NSub(U[i][n+1], NSum(TLCEval([j \in 1..(n-i) |-> NMul(U[i][i+j], x[i+j])]))), U[i][i])])
  IN FoldLeft(Back, ZeroVec(n), [k \in 1..n |-> n + 1 - k])

(* positive semidefinite up to eps times the largest diagonal entry *)
IsPSD(A, eps) ==
  LET n == Rows(A)
      m == FoldLeft(LAMBDA acc, i : NMax(acc, NAbs(A[i][i])), NOf(0), [k \in 1..n |-> k])
      B == Mat(n, n, LAMBDA i, j : IF i = j THEN NAdd(A[i][i], NMul(eps, m)) ELSE NOf(A[i][j]))
  IN IF NEq(m, 0) THEN \A i, j \in 1..n : NEq(A[i][j], 0)
     ELSE \A i \in 1..n : NIsFin(Chol(B)[i][i])

(* entrywise closeness, tolerance tol times the scale sc[i] sc[j] *)
MClose(A, B, sc, tol) ==
  \A i \in 1..Rows(A) : \A j \in 1..Cols(A) : NClose(A[i][j], B[i][j], NMul(tol, NMul(sc[i], sc[j])))
VClose(a, b, sc, tol) == \A i \in 1..Len(a) : NClose(a[i], b[i], NMul(tol, sc[i]))
=============================================================================
