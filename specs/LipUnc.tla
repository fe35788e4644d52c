------------------------------- MODULE LipUnc -------------------------------
(* What data and a Lipschitz matrix L say about the values of a function elsewhere: at x the value is between
       max_j y_j - |L(x - x_j)|   and   min_j y_j + |L(x - x_j)|
   (wider by epsilon).  The bounds are differences y - sqrt(q) of integers, and are compared exactly.  If L has one row the
   bounds over an interval of s = L x are piecewise linear and their extrema are known exactly. *)
EXTENDS RatLin, Json

CONSTANTS Dims, Vals, Halves
VARIABLES c, ans
vars == <<c, ans>>
Nil == <<>>

\* (the same point may have been measured twice)
Ls(m) == CASE m = 1 -> << <<<<1>>>>, <<<<2>>>>, <<<<0>>>> >>
           [] m = 2 -> << <<<<1, 0>>, <<0, 1>>>>, <<<<2, 1>>, <<1, 3>>>>, <<<<1, -2>>>>, <<<<3, 0>>, <<0, 0>>>>, <<<<1, 1>>, <<1, -1>>, <<2, 0>>>> >>
           [] OTHER -> << <<<<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 0>>>>, <<<<1, 1, -1>>>> >>
Xs(m) == CASE m = 1 -> << <<<<0>>>>, <<<<0>>, <<3>>>>, <<<<-1>>, <<2>>, <<4>>>>, <<<<2>>, <<-1>>, <<2>>>> >>
           [] m = 2 -> << <<<<1, 1>>>>, <<<<0, 0>>, <<3, 1>>>>, <<<<0, 0>>, <<2, -1>>, <<-1, 3>>>>, <<<<1, 2>>, <<-1, 0>>, <<1, 2>>>> >>
           [] OTHER -> << <<<<0, 0, 0>>, <<1, -1, 2>>>>, <<<<2, 0, 1>>, <<-1, 1, 0>>, <<0, 3, -2>>>> >>
Tests(m) == CASE m = 1 -> << <<-3>>, <<0>>, <<1>>, <<2>>, <<5>> >>
              [] m = 2 -> << <<0, 0>>, <<1, 0>>, <<-2, 3>>, <<4, 4>>, <<2, -1>> >>
              [] OTHER -> << <<0, 0, 0>>, <<1, 1, 1>>, <<-2, 3, 1>>, <<2, 0, 1>> >>
Init == /\ ans = Nil
        /\ \E m \in Dims : \E l \in 1..Len(Ls(m)), s \in 1..Len(Xs(m)), e \in {h - 1 : h \in Halves} :
              c \in [m : {m}, l : {l}, s : {s}, eps : {e}, f : [1..Len(Xs(m)[s]) -> Vals]]
L == Ls(c.m)[c.l]
X == Xs(c.m)[c.s]
F == c.f
N == Len(F)
Sub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Sq(v) == IDot(v, v)
Dist2(x, z) == LET d == Sub(x, z) IN Sq([i \in 1..Len(L) |-> IDot(L[i], d)])
\* a surd [y, q]: y - sqrt(q);   Ge: y1 - sqrt(q1) >= y2 - sqrt(q2)
Ge(a, b) == LET d == a.y - b.y IN
            IF d >= 0 THEN LET r == a.q - d * d - b.q IN r <= 0 \/ r * r <= 4 * d * d * b.q
            ELSE LET r == b.q - a.q - d * d IN r >= 0 /\ 4 * d * d * a.q <= r * r
MaxOf(S) == CHOOSE a \in S : \A b \in S : Ge(a, b)
Lb(x) == MaxOf({[y |-> F[j], q |-> Dist2(x, X[j])] : j \in 1..N})
\* the upper bound is minus the lower bound of the negated data
Ub(x) == MaxOf({[y |-> -F[j], q |-> Dist2(x, X[j])] : j \in 1..N})

\* the data are compatible with L
Compatible == \A i, j \in 1..N : (F[i] - F[j]) * (F[i] - F[j]) <= Dist2(X[i], X[j])
RECURSIVE Tri(_)
Tri(n) == IF n = 0 THEN 0 ELSE n + Tri(n - 1)

\* ---- matrices with one row: everything happens on the line s = L x
OneRow == Len(L) = 1
S(x) == IDot(L[1], x)
\* the box [-3, 5]^m and the values of s on it
Smin == ISum([i \in 1..c.m |-> IF L[1][i] > 0 THEN -3 * L[1][i] ELSE 5 * L[1][i]])
Smax == ISum([i \in 1..c.m |-> IF L[1][i] > 0 THEN 5 * L[1][i] ELSE -3 * L[1][i]])
LbS(s, f) == RMaxSet({RSub(RI(f[j]), RAbsV(RSub(s, RI(S(X[j]))))) : j \in 1..N})
\* the minimum of LbS over [a, b] is attained at an end or where a falling and a rising branch meet
Cands(a, b, f) == {RI(a), RI(b)} \cup {z \in {RAdd(R(S(X[i]) + S(X[j]), 2), R(f[i] - f[j], 2)) : i, j \in 1..N} : RLe(RI(a), z) /\ RLe(z, RI(b))}
LowOver(a, b, f) == RMinSet({LbS(s, f) : s \in Cands(a, b, f)})
Neg(f) == [j \in 1..N |-> -f[j]]
Line == IF ~OneRow THEN [ok |-> FALSE]
        ELSE [ok |-> TRUE, smin |-> Smin, smax |-> Smax, lb |-> LowOver(Smin, Smax, F), ub |-> RNeg(LowOver(Smin, Smax, Neg(F))),
              grid |-> [k \in 1..5 |-> LET s == RAdd(RI(Smin), R((k - 1) * (Smax - Smin), 4)) IN [s |-> s, lb |-> LbS(s, F), ub |-> RNeg(LbS(s, Neg(F)))]]]

\* ---- the closest compatible data, in the 1- and infinity-norm; the distances are integers
IntDist == \A i, j \in 1..N : IsSquare(Dist2(X[i], X[j]))
D(i, j) == ISqrt(Dist2(X[i], X[j]))
Near == IF ~IntDist THEN [ok |-> FALSE]
        ELSE LET lo == -RMaxSet({RI(-F[j]) : j \in 1..N})[1]
                 hi == RMaxSet({RI(F[j]) : j \in 1..N})[1]
                 Good == {y \in [1..N -> lo..hi] : \A i, j \in 1..N : RAbs(y[i] - y[j]) <= D(i, j)}
                 Half == {y \in [1..N -> (2 * lo)..(2 * hi)] : \A i, j \in 1..N : RAbs(y[i] - y[j]) <= 2 * D(i, j)}
             IN [ok |-> TRUE,
                 one |-> RMinSet({RI(ISum([j \in 1..N |-> RAbs(y[j] - F[j])])) : y \in Good}),
                 inf |-> RMaxSet({R(IMax(RAbs(F[i] - F[j]) - D(i, j), 0), 2) : i, j \in 1..N}),
                 two |-> RMinSet({R(ISum([j \in 1..N |-> (y[j] - 2 * F[j]) * (y[j] - 2 * F[j])]), 4) : y \in Half})]

Next == /\ ans = Nil
        /\ ans' = [tests |-> TLCEval([k \in 1..Len(Tests(c.m)) |-> [x |-> Tests(c.m)[k], lb |-> Lb(Tests(c.m)[k]), ub |-> Ub(Tests(c.m)[k])]]),
                   line |-> TLCEval(Line), near |-> TLCEval(Near), compatible |-> Compatible]
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

\* if the data are compatible, the bounds do not cross, and at the data they meet
Surd0(a, b) == Ge([y |-> -b.y, q |-> 0], [y |-> a.y, q |-> 0])
Sane == ans # Nil /\ ans.compatible =>
          /\ \A k \in 1..Len(ans.tests) : \A j \in 1..N : ans.tests[k].x = X[j] => ans.tests[k].lb = [y |-> F[j], q |-> 0] \/ Ge([y |-> F[j], q |-> 0], ans.tests[k].lb)
          /\ ans.near.ok => ans.near.one = RZ /\ ans.near.inf = RZ /\ ans.near.two = RZ
          /\ ans.line.ok => RLe(ans.line.lb, ans.line.ub)
Bracket == ans # Nil => /\ (ans.line.ok => \A k \in 1..5 : RLe(ans.line.lb, ans.line.grid[k].lb) /\ RLe(ans.line.grid[k].ub, ans.line.ub))
                        /\ (ans.near.ok => RLe(ans.near.inf, ans.near.one) /\ RLe(RSq(ans.near.inf), ans.near.two) /\ RLe(ans.near.two, RSq(ans.near.one)))
Emit == ans # Nil => PrintT("@@" \o ToJson([m |-> c.m, L |-> L, X |-> X, f |-> F, eps |-> c.eps, ans |-> ans]))
=============================================================================
