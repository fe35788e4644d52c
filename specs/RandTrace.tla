----------------------------- MODULE RandTrace -----------------------------
(* Samples of domains with a density, judged against the exact parameters of the distribution.
   Points are in units of 1/K, second moments in units of 1/K^2 divided by 100 / 100 (rounded). *)
EXTENDS DomRandDef, Judge

CONSTANT K
VARIABLES t, verdict
vars == <<t, verdict>>

Adj(M) == CASE Len(M) = 1 -> <<<<1>>>>
            [] Len(M) = 2 -> <<<<M[2][2], -M[1][2]>>, <<-M[2][1], M[1][1]>>>>
            [] OTHER -> LET Co(i, j) == LET r == SelectSeq(<<1, 2, 3>>, LAMBDA k : k # j) s == SelectSeq(<<1, 2, 3>>, LAMBDA k : k # i)
                                            s1 == IF (i + j) % 2 = 0 THEN 1 ELSE -1
                                        IN s1 * (M[r[1]][s[1]] * M[r[2]][s[2]] - M[r[1]][s[2]] * M[r[2]][s[1]])
                        IN [i \in 1..3 |-> [j \in 1..3 |-> Co(i, j)]]
\* (x - mu)' adj(Gamma) (x - mu) = det(Gamma) d^2
Quad(D, x) == LET v == [i \in 1..D.m |-> x[i] - K * D.mean[i]] A == Adj(D.cov) IN IDot(v, [i \in 1..D.m |-> IDot(A[i], v)])
OneN(v) == ISum([i \in 1..Len(v) |-> RAbs(v[i])])
\* how much the rounding of x to 1/K can change Quad
Slack(D, x) == LET v == [i \in 1..D.m |-> x[i] - K * D.mean[i]] A == Adj(D.cov) IN OneN([i \in 1..D.m |-> IDot(A[i], v)]) + ISum([i \in 1..D.m |-> OneN(A[i])])

Mean2(D) == IF D.kind = "uniform" THEN [i \in 1..D.m |-> D.lb[i] + D.ub[i]] ELSE [i \in 1..D.m |-> 2 * D.mean[i]]
\* 12 times the covariance of the untruncated distribution
Cov12(D, i, j) == IF D.kind = "uniform" THEN (IF i = j THEN (D.ub[i] - D.lb[i]) * (D.ub[i] - D.lb[i]) ELSE 0) ELSE 12 * D.cov[i][j]

Clause(ev) ==
  LET D == Cat[ev.c]
  IN CASE ev.kind = "inside" ->       \* clip: the squared radius in units of 1/1000, -1 if not truncated
            IF Len(ev.pts) # ev.n THEN "number of samples"
            ELSE IF \E i \in 1..Len(ev.pts) : Len(ev.pts[i]) # D.m THEN "dimension"
            ELSE IF D.kind = "uniform"
                 THEN IF \E i \in 1..Len(ev.pts) : \E j \in 1..D.m : ev.pts[i][j] < K * D.lb[j] \/ ev.pts[i][j] > K * D.ub[j] THEN "inside" ELSE "ok"
            ELSE IF ev.clip >= 0 /\ \E i \in 1..Len(ev.pts) : Quad(D, ev.pts[i]) - Slack(D, ev.pts[i]) > ((ev.clip + 1) * K * K * IDet(D.cov)) \div 1000 THEN "truncation"
            ELSE "ok"
       [] ev.kind = "moments" ->      \* n samples; mean in 1/K; cov in 1/K; f: reduction of the covariance by truncation, in 1/1000
            LET sd(i) == (K * ISqrt(Cov12(D, i, i) * 100)) \div 34        \* standard deviation in 1/K
                Tol(i) == 1 + (6 * sd(i)) \div ISqrt(ev.n)
                CTol(i, j) == 2 + (K * 9 * ISqrt((Cov12(D, i, i) + 1) * (Cov12(D, j, j) + 1))) \div (12 * ISqrt(ev.n)) 
            IN IF \E i \in 1..D.m : RAbs(2 * ev.mean[i] - K * Mean2(D)[i]) > 2 * Tol(i) THEN "mean"
               ELSE IF \E i, j \in 1..D.m : RAbs(ev.cov[i][j] - (((Cov12(D, i, j) * K) \div 12) * ev.f) \div 1000) > CTol(i, j) + 1 THEN "covariance"
               ELSE "ok"
       [] OTHER -> "unknown event"

Verdict(tr) == LET bad == {i \in 1..Len(tr) : Clause(tr[i]) # "ok"}
               IN IF bad = {} THEN [verdict |-> "ok", at |-> 0]
                  ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN [verdict |-> Clause(tr[i]), at |-> i]
Init == t \in 1..Len(Traces) /\ verdict = [verdict |-> "", at |-> 0]
Next == verdict.verdict = "" /\ verdict' = Verdict(Traces[t]) /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == verdict.verdict # "" => PrintT("@@" \o ToJson([t |-> t, verdict |-> verdict.verdict, at |-> verdict.at]))
=============================================================================
