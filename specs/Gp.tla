---------------------------------- MODULE Gp ----------------------------------
(* Gaussian processes with trends.  The kernel is exp(-|L (x - y)|^2 / 2); scalings L are chosen such that |L d|^2 = 2 ln(2) E(d) with E a
   quadratic form that is a whole number between the points of a lattice.  Then the kernel is 2^-E, and the weights a of the kernels and the
   trend q, which solve
        (K + tau) a + q = y,    sum_i a_i p(x_i) = 0 for polynomials p up to the degree of the trend,
   are rational, as are the predictions, their variance, the likelihood and its gradient up to logarithms. *)
EXTENDS RatLin, FiniteSetsExt, Json

CONSTANTS Dims, Vals, Share
VARIABLES c, ans
vars == <<c, ans>>
Nil == <<>>

Sets(m) == CASE m = 1 -> {<<<<0>>, <<1>>>>, <<<<0>>, <<1>>, <<2>>>>, <<<<3>>, <<1>>, <<2>>>>, <<<<-1>>>>, <<<<0>>, <<1>>, <<2>>, <<3>>>>}
             [] OTHER -> {<<<<0, 0>>, <<1, 0>>, <<0, 1>>>>, <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>>>, <<<<1, 1>>, <<2, 2>>, <<3, 1>>>>, <<<<0, 1>>, <<1, 1>>>>}
\* the structure, and the matrix S with E(d) = c |S d|^2
Structures(m) == {[st |-> "const", c |-> k, S |-> [i \in 1..m |-> [j \in 1..m |-> IF i = j THEN 1 ELSE 0]], d |-> Nil] : k \in {1, 2}}
   \cup {[st |-> "diag", c |-> 1, S |-> Nil, d |-> d] : d \in [1..m -> {1, 2}]}
   \cup {[st |-> "scalar_mult", c |-> k, S |-> [i \in 1..m |-> [j \in 1..m |-> IF i = j THEN 1 ELSE IF i < j THEN b ELSE 0]], d |-> Nil] : k \in {1, 2}, b \in IF m = 1 THEN {0} ELSE {1, -1}}
   \cup {[st |-> "tril", c |-> 1, S |-> [i \in 1..m |-> [j \in 1..m |-> IF i = j THEN 1 ELSE IF i > j THEN b ELSE 0]], d |-> Nil] : b \in IF m = 1 THEN {0} ELSE {0, 1, -1}}
Hash(g, X, y) == (7 * g.c + 13 * Len(X) + ISum([i \in 1..Len(X) |-> (2 * i + 3) * (y[i] + 2)]) + 31 * Len(g.S) + 5 * ISum([i \in 1..Len(g.d) |-> i * g.d[i]])
                  + IF g.st = "tril" THEN 17 ELSE IF g.st = "diag" THEN 3 ELSE 0)
Init == ans = Nil /\ \E m \in Dims : \E X \in Sets(m) : \E g \in Structures(m) : \E deg \in {-1, 0, 1}, tau \in {<<0, 1>>, <<1, 2>>} : \E y \in [1..Len(X) -> Vals] :
           /\ (Hash(g, X, y) + 11 * deg + 19 * tau[1]) % Share = 0
           /\ c = [m |-> m, X |-> X, g |-> g, deg |-> deg, tau |-> tau, y |-> y]
N == Len(c.X)
D(i, j) == [k \in 1..c.m |-> c.X[i][k] - c.X[j][k]]
SD(S, d) == [i \in 1..c.m |-> IDot(S[i], d)]
E(d) == IF c.g.st = "diag" THEN ISum([k \in 1..c.m |-> c.g.d[k] * d[k] * d[k]]) ELSE c.g.c * IDot(SD(c.g.S, d), SD(c.g.S, d))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Ker(d) == <<1, Pow2(E(d))>>
\* small enough for machine arithmetic
Small == \A i, j \in 1..N : E(D(i, j)) <= IF N <= 3 THEN 6 ELSE 4
\* how E changes with the parameters: L is exp(ell), exp(ell) L0, diag(exp(ell)) or the matrix exponential of the lower triangle ell
Params == CASE c.g.st = "diag" -> c.m [] c.g.st = "tril" -> (c.m * (c.m + 1)) \div 2 [] OTHER -> 1
DE(d, k) == CASE c.g.st = "diag" -> RI(2 * c.g.d[k] * d[k] * d[k])
              [] c.g.st = "tril" /\ c.m = 2 ->   \* ell = [u, 0; b, v]: the derivatives at u = v are (1, b/2 in the corner), the corner, and (b/2 in the corner, 1)
                   LET b == c.g.S[2][1] s == SD(c.g.S, d) IN
                   CASE k = 1 -> RAdd(RI(2 * s[1] * d[1]), RI(s[2] * b * d[1]))
                     [] k = 2 -> RI(2 * s[2] * d[1])
                     [] OTHER -> RAdd(RI(s[2] * b * d[1]), RI(2 * s[2] * d[2]))
              [] OTHER -> RI(2 * E(d))
\* the monomials of the trend
Terms == CASE c.deg = -1 -> <<>> [] c.deg = 0 -> <<0>> [] OTHER -> [k \in 1..(c.m + 1) |-> k - 1]
Mono(k, x) == IF k = 0 THEN 1 ELSE x[k]
T == Len(Terms)
K0 == [i \in 1..N |-> [j \in 1..N |-> Ker(D(i, j))]]
KT == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN RAdd(ROne, c.tau) ELSE Ker(D(i, j))]]
Sys == [i \in 1..(N + T) |-> [j \in 1..(N + T) |-> IF i <= N /\ j <= N THEN KT[i][j]
                                                   ELSE IF i <= N THEN RI(Mono(Terms[j - N], c.X[i]))
                                                   ELSE IF j <= N THEN RI(Mono(Terms[i - N], c.X[j])) ELSE RZ]]
Rhs == [i \in 1..(N + T) |-> IF i <= N THEN RI(c.y[i]) ELSE RZ]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 1 THEN M[1][1]
          ELSE RSumSeq([j \in 1..Len(M) |-> RMul(IF j % 2 = 1 THEN M[1][j] ELSE RNeg(M[1][j]),
                  Det(TLCEval([i \in 1..(Len(M) - 1) |-> [k \in 1..(Len(M) - 1) |-> M[i + 1][IF k < j THEN k ELSE k + 1]]])))])
Unit(i) == [j \in 1..N |-> IF i = j THEN ROne ELSE RZ]
Candidates == IF c.m = 1 THEN <<<<-1>>, <<0>>, <<1>>, <<2>>, <<4>>>> ELSE <<<<0, 0>>, <<1, 1>>, <<-1, 0>>, <<2, 1>>, <<1, 3>>>>
Query == SelectSeq(Candidates, LAMBDA x : \A i \in 1..N : E([k \in 1..c.m |-> x[k] - c.X[i][k]]) <= 6)
\* the gradient needs more digits
Grads == N <= 2 \/ (N = 3 /\ c.tau[1] = 0 /\ \A i, j \in 1..N : E(D(i, j)) <= 4) \/ (N = 3 /\ \A i, j \in 1..N : E(D(i, j)) <= 2)
KQ(x) == [i \in 1..N |-> Ker([k \in 1..c.m |-> x[k] - c.X[i][k]])]
Trend(b, x) == RSumSeq([k \in 1..T |-> RMul(b[k], RI(Mono(Terms[k], x)))])
Answer ==
  LET s == TLCEval(IF Small THEN RSolve(TLCEval(Sys), TLCEval(Rhs)) ELSE [ok |-> FALSE, z |-> Nil]) IN
  IF ~s.ok THEN [ok |-> FALSE]
  ELSE LET a == TLCEval([i \in 1..N |-> s.z[i]])
           b == TLCEval([k \in 1..T |-> s.z[N + k]])
           kt == TLCEval(KT) k0 == TLCEval(K0)
           inv == TLCEval(IF Grads THEN [i \in 1..N |-> RSolve(kt, Unit(i)).z] ELSE Nil)
           G(k) == TLCEval([i \in 1..N |-> [j \in 1..N |-> RNeg(RMul(k0[i][j], DE(D(i, j), k)))]])
           half(x) == RMul(R(1, 2), x)
           grad(k) == LET g == G(k) IN half(RSub(RSumSeq([i \in 1..N |-> RDot(inv[i], g[i])]), RDot(a, RMatVec(g, a))))
       IN [ok |-> TRUE, a |-> a,
           f |-> [i \in 1..Len(Query) |-> RAdd(RDot(a, KQ(Query[i])), Trend(b, Query[i]))],
           trend |-> [i \in 1..Len(Query) |-> Trend(b, Query[i])],
           fX |-> [i \in 1..N |-> RSub(RI(c.y[i]), RMul(c.tau, a[i]))],
           var |-> [i \in 1..Len(Query) |-> LET v == TLCEval(KQ(Query[i])) IN RSub(ROne, RDot(v, RSolve(k0, v).z))],
           quad |-> half(RDot(RVec(c.y), a)), det |-> Det(kt), grad |-> IF Grads THEN [k \in 1..Params |-> grad(k)] ELSE Nil]
Next == ans = Nil /\ ans' = TLCEval(Answer) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
\* the model interpolates up to the nugget, the variance is between zero and one and vanishes at the data, the quadratic term is not negative, and
\* data that a trend explains leaves no weights
Sane == (ans # Nil /\ ans.ok) =>
  /\ \A i \in 1..Len(Query) : RLe(RZ, ans.var[i]) /\ RLe(ans.var[i], ROne)
  /\ \A i \in 1..Len(Query), j \in 1..N : Query[i] = c.X[j] => ans.var[i] = RZ /\ ans.f[i] = ans.fX[j]
  /\ RLe(RZ, ans.quad) /\ RLt(RZ, ans.det)
  /\ ((c.deg >= 0 /\ \A i \in 1..N : c.y[i] = c.y[1]) => \A i \in 1..N : ans.a[i] = RZ)
Emit == (ans # Nil /\ ans.ok) => PrintT("@@" \o ToJson([m |-> c.m, X |-> c.X, y |-> c.y, g |-> c.g, deg |-> c.deg, tau |-> c.tau, P |-> Query, ans |-> ans]))
===============================================================================
