------------------------------- MODULE BasFit -------------------------------
(* Fitting polynomials to data in the 1-, 2- and infinity-norm, possibly from below or above: the optimal value, computed
   exactly by enumerating the bases of the corresponding linear programs and the active sets of the least squares problems. *)
EXTENDS Bas, Json
FX == INSTANCE FiniteSetsExt

CONSTANT Full
VARIABLES q, ans
vars == <<q, ans>>
Nil == <<>>

\* data sets: points (dimension m), degree, values
DS(m, p, X, f) == [m |-> m, p |-> p, X |-> X, f |-> f]
Line(v) == [i \in 1..Len(v) |-> <<v[i]>>]
Sets == <<
  DS(1, 0, Line(<<0, 1, 2>>), <<3, -1, 4>>),
  DS(1, 1, Line(<<0, 1, 2, 3>>), <<1, 0, 2, 3>>),
  DS(1, 1, Line(<<-2, -1, 0, 1, 3>>), <<4, -1, 0, 2, -3>>),
  DS(1, 1, Line(<<-2, 0, 1, 1, 3>>), <<5, 1, -1, -1, -5>>),
  DS(1, 2, Line(<<-2, -1, 0, 1, 2>>), <<1, -1, 2, 0, 3>>),
  DS(1, 2, Line(<<0, 1, 2, 4, 5, 6>>), <<0, 3, -1, 2, 2, 5>>),
  DS(1, 2, Line(<<-1, 0, 1, 2>>), <<6, 1, 0, 3>>),
  DS(2, 1, <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>>>, <<1, -1, 2, 3, 0>>),
  DS(2, 1, <<<<-1, 0>>, <<1, -2>>, <<0, 2>>, <<1, 1>>, <<2, -1>>, <<-2, 1>>>>, <<2, 2, -1, 0, 3, -4>>),
  DS(2, 1, <<<<-1, 3>>, <<1, 0>>, <<0, 2>>, <<1, 1>>>>, <<-4, 1, -2, 0>>),
  DS(2, 1, <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<-1, 2>>, <<2, -2>>>>, <<4, -1, 2, 3, 0, -5, 1>>),
  DS(2, 1, <<<<0, 1>>, <<3, 0>>, <<1, 2>>, <<2, 2>>, <<-1, -1>>, <<0, -2>>, <<3, 3>>, <<-2, 1>>>>, <<1, 5, 0, 2, -3, 4, 1, 2>>),
  DS(3, 1, <<<<0, 1, 0>>, <<1, 0, 2>>, <<1, 1, 0>>, <<2, 0, -1>>, <<-1, 2, 1>>, <<0, -1, 1>>>>, <<1, 4, -2, 3, 0, 5>>)
>>
BigSets == <<
  DS(1, 3, Line(<<-2, -1, 0, 1, 2, 3>>), <<2, -1, 0, 1, -1, 4>>),
  DS(1, 2, Line(<<-3, -2, -1, 0, 1, 2, 3>>), <<1, 4, -1, 0, 0, -2, 6>>)
>>
All == IF Full THEN Sets \o BigSets ELSE Sets

Mono(x, a) == RProdSeq([k \in 1..Len(a) |-> RPow(RI(x[k]), a[k])])
Vand(s) == LET idx == MI(s.m, s.p) IN TLCEval([i \in 1..Len(s.X) |-> [j \in 1..Len(idx) |-> Mono(s.X[i], idx[j])]])
Resid(A, f, c) == TLCEval([i \in 1..Len(A) |-> RSub(RDot(A[i], c), f[i])])
NCols(A) == Len(A[1])
\* ordered selections of k rows
Subs(M, k) == TLCEval({TLCEval(SetToS(T)) : T \in (IF k > M THEN {} ELSE FX!kSubset(k, 1..M))})
L1(r) == RSumSeq([i \in 1..Len(r) |-> RAbsV(r[i])])
LInf(r) == RMaxSet({RAbsV(r[i]) : i \in 1..Len(r)})
Feas(bound, r) == CASE bound = "lower" -> \A i \in 1..Len(r) : RSgn(r[i]) <= 0
                    [] bound = "upper" -> \A i \in 1..Len(r) : RSgn(r[i]) >= 0
                    [] OTHER -> TRUE
\* all interpolants of N rows
Interp(A, f) == LET N == NCols(A)
   IN {z \in {RSolve([i \in 1..N |-> A[S[i]]], [i \in 1..N |-> f[S[i]]]) : S \in Subs(Len(A), N)} : z.ok}
OptL1(A, f, bound) == RMinSet({L1(Resid(A, f, z.z)) : z \in {y \in Interp(A, f) : Feas(bound, Resid(A, f, y.z))}})
\* min t subject to |A c - f| <= t
OptInf(A, f) == LET N == NCols(A)
     cand == TLCEval(UNION {{RSolve([i \in 1..(N + 1) |-> Append(A[S[i]], RI(sg[i]))], [i \in 1..(N + 1) |-> f[S[i]]]) : sg \in [1..(N + 1) -> {-1, 1}]} : S \in Subs(Len(A), N + 1)})
     good == {z \in cand : z.ok /\ RSgn(z.z[N + 1]) >= 0 /\ RLe(LInf(Resid(A, f, SubSeq(z.z, 1, N))), z.z[N + 1])}
   IN RMinSet({z.z[N + 1] : z \in good})
\* least squares with the rows S interpolated
EqLs(A, f, S) == LET N == NCols(A) k == Len(S)
     G == [i \in 1..N |-> [j \in 1..N |-> RSumSeq([r \in 1..Len(A) |-> RMul(A[r][i], A[r][j])])]]
     h == [i \in 1..N |-> RSumSeq([r \in 1..Len(A) |-> RMul(A[r][i], f[r])])]
     K == TLCEval([i \in 1..(N + k) |-> [j \in 1..(N + k) |-> IF i <= N /\ j <= N THEN G[i][j]
             ELSE IF i <= N THEN A[S[j - N]][i] ELSE IF j <= N THEN A[S[i - N]][j] ELSE RZ]])
   IN RSolve(K, TLCEval([i \in 1..(N + k) |-> IF i <= N THEN h[i] ELSE f[S[i - N]]]))
LsCands(A, f, bound) == {z \in {EqLs(A, f, S) : S \in IF bound = "none" THEN {<<>>} ELSE UNION {Subs(Len(A), k) : k \in 0..NCols(A)}} : z.ok}
BestLs(A, f, bound) == LET N == NCols(A)
     good == {c \in {SubSeq(z.z, 1, N) : z \in LsCands(A, f, bound)} : Feas(bound, Resid(A, f, c))}
   IN CHOOSE c \in good : \A d \in good : RLe(RNorm2(Resid(A, f, c)), RNorm2(Resid(A, f, d)))

Queries == {g \in [d : 1..Len(All), norm : {"1", "2", "inf"}, bound : {"none", "lower", "upper"}] : TRUE}
Extra(m) == [i \in 1..3 |-> [k \in 1..m |-> i + k - 3]]
Answer == LET s == All[q.d] A == Vand(s) f == RVec(s.f) idx == MI(s.m, s.p) IN
  CASE q.norm = "1" -> [opt |-> OptL1(A, f, q.bound), val |-> Nil, ext |-> Nil]
    [] q.norm = "inf" -> [opt |-> IF q.bound = "none" THEN OptInf(A, f) ELSE RMul(RI(2), OptInf(A, f)), val |-> Nil, ext |-> Nil]
    [] OTHER -> LET c == TLCEval(BestLs(A, f, q.bound))
                IN [opt |-> RNorm2(Resid(A, f, c)), val |-> [i \in 1..Len(A) |-> RDot(A[i], c)],
                    ext |-> [i \in 1..3 |-> RSumSeq([j \in 1..Len(idx) |-> RMul(c[j], Mono(Extra(s.m)[i], idx[j]))])]]
Init == q \in Queries /\ ans = Nil
Ask == ans = Nil /\ ans' = Answer /\ UNCHANGED q
Next == Ask
Spec == Init /\ [][Next]_vars
\* optima of different norms bound each other; bounds cost
Sane == ans # Nil => LET s == All[q.d] A == Vand(s) f == RVec(s.f) M == Len(A) IN
  /\ RLe(RZ, ans.opt)
  /\ q.norm = "1" => /\ RLe(OptInf(A, f), ans.opt)
                     /\ RLe(ans.opt, RMul(RI(M), RMul(RI(2), OptInf(A, f))))
                     /\ q.bound # "none" => RLe(OptL1(A, f, "none"), ans.opt)
  /\ q.norm = "2" => /\ RLe(RSq(OptInf(A, f)), ans.opt)
                     /\ RLe(ans.opt, RMul(RI(M), RSq(RMul(RI(IF q.bound = "none" THEN 1 ELSE 2), OptInf(A, f)))))
                     /\ q.bound = "none" => \A j \in 1..NCols(A) : RSumSeq([i \in 1..M |-> RMul(A[i][j], RSub(ans.val[i], f[i]))]) = RZ
Emit == ans # Nil => PrintT("@@" \o ToJson([norm |-> q.norm, bound |-> q.bound, m |-> All[q.d].m, p |-> All[q.d].p, X |-> All[q.d].X, f |-> All[q.d].f,
     extra |-> Extra(All[q.d].m), opt |-> ans.opt, val |-> ans.val, ext |-> ans.ext]))
=============================================================================
