------------------------------ MODULE BasMod ------------------------------
(* Every element of every basis of bounded total degree, with its gradient and Hessian, at rational points; polynomials in
   these bases and their roots. *)
EXTENDS Bas, TLC, Json

CONSTANT Full
VARIABLES q, ans
vars == <<q, ans>>
Nil == <<>>

IM(M) == [i \in 1..Len(M) |-> RVec(M[i])]
\* data that fixes the scaling; every column has a rational standard deviation times sqrt(2)
Data == << <<>>,
   IM(<<<<-1, 0, 5>>, <<1, 3, 5>>, <<1, 6, 3>>, <<3, 3, 7>>>>),
   IM(<<<<4, -2, 1>>, <<0, 0, 1>>, <<2, 0, 0>>, <<2, 2, 2>>>>),
   IM(<<<<-3, 10, 0>>, <<-3, 12, 4>>, <<-2, 8, 2>>, <<-4, 10, 2>>>>),
   IM(<<<<3, 0, -2>>, <<3, 4, -2>>, <<3, 2, -2>>>>) >>
Cols(X, m) == [i \in 1..Len(X) |-> SubSeq(X[i], 1, m)]
Pts(m) == [i \in 1..5 |-> [k \in 1..m |-> R(((3 * i + 5 * k + i * k) % 9) - 4, IF k = 2 THEN 3 ELSE 2)]]
MaxDeg(m) == CASE m = 1 -> 5 [] m = 2 -> IF Full THEN 4 ELSE 3 [] OTHER -> IF Full THEN 3 ELSE 2
Queries == {g \in [b : Bases, m : 1..3, p : 0..5, x : 1..5] : g.p <= MaxDeg(g.m) /\ (g.x = 1 \/ \A k \in 1..g.m : ScaleOk(g.b, Data[g.x], k))}
Alpha(b, m, x) == [k \in 1..m |-> IF x = 1 THEN ROne ELSE Al(b, Data[x], k)]
Beta(b, m, x) == [k \in 1..m |-> IF x = 1 THEN RZ ELSE Be(b, Data[x], k)]
\* coefficients of a polynomial and of a second one
C1(j) == RI(((7 * j + 3) % 11) - 5)
C2(j) == IF j % 3 = 0 THEN RZ ELSE RI(2 - (j % 5))
\* a lattice on which the polynomials of every degree considered are determined
Lattice(m) == CASE m = 1 -> [i \in 1..8 |-> <<R(3 * i - 11, 4)>>]
                [] m = 2 -> LET S == SeqProd(<<-2, -1, 0, 1, 3>>, 2) IN [i \in 1..Len(S) |-> RVec(S[i])]
                [] OTHER -> LET S == SeqProd(<<-1, 0, 1, 2>>, 3) IN [i \in 1..Len(S) |-> RVec(S[i])]
\* root sets in the scaled coordinate, p of them
Roots(p) == [i \in 1..p |-> R(((5 * i) % 7) - 3, 2)]

Answer == LET m == q.m idx == MI(m, q.p) al == TLCEval(Alpha(q.b, m, q.x)) be == TLCEval(Beta(q.b, m, q.x))
              P == Pts(m)
              N == Len(idx)
              one(i) == LET T == Tab(q.b, q.p, Sc(al, be, P[i]))
                            v == TLCEval([j \in 1..N |-> Elem(T, al, idx[j], O0(m))])
                            dv == TLCEval([j \in 1..N |-> [k \in 1..m |-> Elem(T, al, idx[j], O1(m, k))]])
                            ddv == TLCEval([j \in 1..N |-> [k \in 1..m |-> [l \in 1..m |-> Elem(T, al, idx[j], O2(m, k, l))]]])
                        IN [v |-> v, dv |-> dv, ddv |-> ddv,
                            f |-> RSumSeq([j \in 1..N |-> RMul(C1(j), v[j])]),
                            h |-> RSumSeq([j \in 1..N |-> RMul(C2(j), v[j])]),
                            g |-> [k \in 1..m |-> RSumSeq([j \in 1..N |-> RMul(C1(j), dv[j][k])])],
                            hess |-> [k \in 1..m |-> [l \in 1..m |-> RSumSeq([j \in 1..N |-> RMul(C1(j), ddv[j][k][l])])]]]
          IN [idx |-> idx, at |-> [i \in 1..Len(P) |-> one(i)],
              c1 |-> [j \in 1..N |-> C1(j)], c2 |-> [j \in 1..N |-> C2(j)],
              lat |-> IF q.b = "monomial" /\ q.x = 1
                      THEN [i \in 1..Len(Lattice(m)) |-> LET T == Tab(q.b, q.p, Lattice(m)[i]) IN RSumSeq([j \in 1..N |-> RMul(C1(j), Elem(T, al, idx[j], O0(m)))])]
                      ELSE Nil,
              rcoef |-> IF m = 1 /\ q.p > 0 THEN ToBasis(q.b, PFromRoots(Roots(q.p))) ELSE Nil,
              roots |-> IF m = 1 /\ q.p > 0 THEN [i \in 1..q.p |-> RDiv(RSub(Roots(q.p)[i], be[1]), al[1])] ELSE Nil]
Init == q \in Queries /\ ans = Nil
Ask == ans = Nil /\ ans' = Answer /\ UNCHANGED q
Next == Ask
Spec == Init /\ [][Next]_vars

\* the families solve their differential equations, the indices are all there are, Hessians are symmetric, and the expansion of
\* the polynomial with given roots vanishes there
Sane == ans # Nil =>
  /\ \A n \in 0..q.p : OdeHolds(q.b, n)
  /\ Len(ans.idx) = Binom(q.m + q.p, q.m)
  /\ \A i \in 1..5, j \in 1..Len(ans.idx), k, l \in 1..q.m : ans.at[i].ddv[j][k][l] = ans.at[i].ddv[j][l][k]
  /\ q.m = 1 /\ q.p > 0 => \A r \in 1..q.p : RSumSeq([n \in 1..(q.p + 1) |-> RMul(ans.rcoef[n], PEval(Phi(q.b, n - 1), Roots(q.p)[r]))]) = RZ
SaneData == \A x \in 2..4, k \in 1..3, b \in Bases : ScaleOk(b, Data[x], k)
Emit == ans # Nil => PrintT("@@" \o ToJson([q |-> q, X |-> Cols(Data[q.x], q.m), P |-> Pts(q.m), lattice |-> Lattice(q.m), a |-> ans]))
=============================================================================
