------------------------------- MODULE LocLin -------------------------------
(* Local linear models: at x the affine function a_0 + a' z that fits the data best if a sample at squared distance d counts
   2^(-d/unit) times.  The coefficients are exact rationals; the outer products of the gradients follow (OuterProductGradient),
   and so do the fits if the samples lie on an affine function (whatever the weights). *)
EXTENDS RatLin, Json

CONSTANTS Dims, Vals
VARIABLES c, ans
vars == <<c, ans>>
Nil == <<>>

\* samples, places and the unit of squared distance; the last one of each dimension has columns of mean 0 and deviation 1
Designs(m) ==
  CASE m = 1 -> << [X |-> <<<<0>>, <<1>>, <<2>>>>, T |-> <<<<1>>, <<3>>, <<-1>>, <<0>>>>, unit |-> 1],
                   [X |-> <<<<0>>, <<2>>, <<3>>, <<2>>>>, T |-> <<<<1>>>>, unit |-> 1],
                   [X |-> <<<<1>>, <<-1>>, <<1>>, <<-1>>>>, T |-> <<<<1>>, <<-1>>, <<3>>, <<5>>, <<-3>>>>, unit |-> 4] >>
    [] m = 2 -> << [X |-> <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>>>, T |-> <<<<0, 1>>, <<2, 1>>, <<1, -1>>>>, unit |-> 1],
                   [X |-> <<<<0, 0>>, <<2, 0>>, <<0, 1>>, <<1, 2>>>>, T |-> <<<<1, 1>>, <<0, 0>>, <<0, 2>>, <<2, 2>>, <<1, 0>>, <<2, 0>>>>, unit |-> 1],
                   [X |-> <<<<1, 1>>, <<-1, 1>>, <<1, -1>>, <<-1, -1>>>>, T |-> <<<<1, 1>>, <<-1, 1>>>>, unit |-> 4] >>
    [] OTHER -> << [X |-> <<<<1, 1, 1>>, <<-1, 1, -1>>, <<1, -1, -1>>, <<-1, -1, 1>>, <<1, 1, -1>>, <<-1, -1, -1>>, <<-1, 1, 1>>, <<1, -1, 1>>>>, T |-> <<<<1, 1, 1>>>>, unit |-> 4] >>
Slopes(m) == CASE m = 1 -> {<<2>>, <<-3>>, <<0>>} [] m = 2 -> {<<1, 2>>, <<-2, 1>>, <<0, 3>>} [] OTHER -> {<<1, 0, -2>>, <<2, 3, 6>>}
\* on m = 3 the values are a few patterns
Patterns(n) == IF n <= 4 THEN [1..n -> Vals] ELSE {[i \in 1..n |-> (i * i * p) % 5] : p \in 1..6}
Init == /\ ans = Nil
        /\ \E m \in Dims : \E i \in 1..Len(Designs(m)) : \E D \in {Designs(m)[i]} :
             \/ c \in [m : {m}, D : {D}, kind : {"any"}, f : Patterns(Len(D.X)), g : {<<>>}, std : {i = Len(Designs(m))}]
             \/ c \in [m : {m}, D : {D}, kind : {"affine"}, f : {<<>>}, g : Slopes(m), std : {i = Len(Designs(m))}]
N == Len(c.D.X)
F == IF c.kind = "any" THEN c.f ELSE [i \in 1..N |-> 7 + IDot(c.g, c.D.X[i])]
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
D2(x, z) == ISum([i \in 1..c.m |-> (x[i] - z[i]) * (x[i] - z[i])]) \div c.D.unit
Whole == \A i \in 1..N : \A x \in {c.D.X[k] : k \in 1..N} \cup {c.D.T[k] : k \in 1..Len(c.D.T)} :
           ISum([j \in 1..c.m |-> (x[j] - c.D.X[i][j]) * (x[j] - c.D.X[i][j])]) % c.D.unit = 0
Row(i) == <<1>> \o c.D.X[i]
Model(x) == LET d == TLCEval([i \in 1..N |-> D2(c.D.X[i], x)])
                top == CHOOSE t \in {d[i] : i \in 1..N} : \A i \in 1..N : d[i] <= t
                w == TLCEval([i \in 1..N |-> Pow2(top - d[i])])
                G == TLCEval([a \in 1..(c.m + 1) |-> [b \in 1..(c.m + 1) |-> RI(ISum([i \in 1..N |-> w[i] * Row(i)[a] * Row(i)[b]]))]])
                r == TLCEval([a \in 1..(c.m + 1) |-> RI(ISum([i \in 1..N |-> w[i] * Row(i)[a] * F[i]]))])
            IN RSolve(G, r).z
Models(P) == TLCEval([k \in 1..Len(P) |-> Model(P[k])])
Outer(A) == [a \in 1..c.m |-> [b \in 1..c.m |-> RDiv(RSumSeq([k \in 1..N |-> RMul(A[k][a + 1], A[k][b + 1])]), RI(N))]]
Next == /\ ans = Nil
        /\ ans' = LET A == Models(c.D.X) IN [whole |-> Whole, own |-> A, at |-> Models(c.D.T), C |-> IF c.std \/ c.kind = "affine" THEN TLCEval(Outer(A)) ELSE <<>>]
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
\* affine data are reproduced; constants and scales go through
Sane == ans # Nil => /\ ans.whole
                     /\ c.kind = "affine" => \A k \in 1..Len(ans.at) : ans.at[k] = RVec(<<7>> \o c.g)
                     /\ c.kind = "affine" => \A a, b \in 1..c.m : ans.C[a][b] = RI(c.g[a] * c.g[b])
Emit == ans # Nil => PrintT("@@" \o ToJson([m |-> c.m, X |-> c.D.X, T |-> c.D.T, unit |-> c.D.unit, kind |-> c.kind, std |-> c.std, f |-> F, g |-> c.g, ans |-> ans]))
=============================================================================
