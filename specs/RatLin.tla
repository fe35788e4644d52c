------------------------------- MODULE RatLin -------------------------------
(* Small exact linear algebra over the rationals *)
EXTENDS Rat, FiniteSets, TLC

\* solve M z = r by Gauss-Jordan elimination; M is a sequence of rows; result [ok, z]
RECURSIVE GJ(_, _, _)
GJ(M, n, c) ==   \* M: n rows of length n + 1, columns 1 .. c - 1 are done
  IF c > n THEN [ok |-> TRUE, z |-> [i \in 1..n |-> M[i][n + 1]]]
  ELSE IF \A i \in c..n : M[i][c] = RZ THEN [ok |-> FALSE, z |-> <<>>]
  ELSE LET p == CHOOSE i \in c..n : M[i][c] # RZ
           Sw == TLCEval([M EXCEPT ![c] = M[p], ![p] = M[c]])
           piv == RInv(Sw[c][c])
           row == TLCEval([j \in 1..(n + 1) |-> RMul(Sw[c][j], piv)])
           El == TLCEval([i \in 1..n |-> IF i = c THEN row
                    ELSE IF Sw[i][c] = RZ THEN Sw[i]
                    ELSE [j \in 1..(n + 1) |-> RSub(Sw[i][j], RMul(Sw[i][c], row[j]))]])
       IN GJ(El, n, c + 1)
RSolve(M, r) == GJ(TLCEval([i \in 1..Len(M) |-> Append(M[i], r[i])]), Len(M), 1)

RMatVec(M, v) == [i \in 1..Len(M) |-> RDot(M[i], v)]
RMat(M) == [i \in 1..Len(M) |-> RVec(M[i])]
\* M^T N for integer matrices given by rows
IGram(M, N) == [i \in 1..Len(M[1]) |-> [j \in 1..Len(N[1]) |-> ISum([k \in 1..Len(M) |-> M[k][i] * N[k][j]])]]
ITMatVec(M, v) == [i \in 1..Len(M[1]) |-> ISum([k \in 1..Len(M) |-> M[k][i] * v[k]])]
RVAdd(a, b) == [i \in 1..Len(a) |-> RAdd(a[i], b[i])]
RVSub(a, b) == [i \in 1..Len(a) |-> RSub(a[i], b[i])]
RVScale(c, a) == [i \in 1..Len(a) |-> RMul(c, a[i])]
RNorm2(a) == RDot(a, a)
=============================================================================
