-------------------------------- MODULE GpFit --------------------------------
(* Data for fitting Gaussian processes: points of a lattice with values that a polynomial explains, or not. *)
EXTENDS RatLin, FiniteSetsExt, Json

CONSTANTS Dims, Sizes, Share
VARIABLES c, ans
vars == <<c, ans>>
Nil == <<>>
Grid(m) == CASE m = 1 -> {<<i>> : i \in -2..3} [] m = 2 -> {<<i, j>> : i \in -1..1, j \in 0..2} [] OTHER -> {<<i, j, k>> : i \in 0..1, j \in 0..1, k \in -1..1}
Hash(X) == LET RECURSIVE H(_) H(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE
                                        IN ISum([k \in 1..Len(x) |-> (x[k] + 3) * (x[k] + 4) * (2 * k + 5)]) + H(S \ {x}) IN H(X)
SetToSeqOf(S) == LET RECURSIVE Q(_) Q(R0) == IF R0 = {} THEN <<>> ELSE LET y == CHOOSE y \in R0 : TRUE IN <<y>> \o Q(R0 \ {y}) IN Q(S)
Init == ans = Nil /\ \E m \in Dims, n \in Sizes : \E X \in kSubset(n, Grid(m)) : \E deg \in {-1, 0, 1, 2}, p \in {-1, 0, 1, 2} :
           /\ (Hash(X) + 3 * deg + 5 * p) % Share = 0
           /\ c \in [m : {m}, X : {SetToSeqOf(X)}, deg : {deg}, p : {p}, st : {"const", "diag", "tril", "scalar_mult"}]
\* monomials up to the degree
Powers(m, d) == {a \in [1..m -> 0..IMax(d, 0)] : d >= 0 /\ ISum(a) <= d}
RECURSIVE IPow(_, _)
IPow(x, n) == IF n = 0 THEN 1 ELSE x * IPow(x, n - 1)
RECURSIVE IProd(_)
IProd(s) == IF s = <<>> THEN 1 ELSE Head(s) * IProd(Tail(s))
Mono(a, x) == IProd([k \in 1..Len(x) |-> IPow(x[k], a[k])])
Coef(a) == ((5 * a[1] + 3 * ISum(a) + (IF Len(a) > 1 THEN 7 * a[2] ELSE 0) + 4) % 7) - 3
Poly(x, d) == LET s == SetToSeqOf(Powers(Len(x), d)) IN ISum([k \in 1..Len(s) |-> Coef(s[k]) * Mono(s[k], x)])
\* p = -1: values without a pattern; otherwise a polynomial of degree p
Value(i) == IF c.p >= 0 THEN Poly(c.X[i], c.p) ELSE ((i * i * 3 + i * c.X[i][1] + 2) % 7) - 2
Unisolvent == c.deg = -1 \/ LET s == TLCEval(SetToSeqOf(Powers(c.m, c.deg)))
                                V == TLCEval([i \in 1..Len(c.X) |-> [k \in 1..Len(s) |-> Mono(s[k], c.X[i])]])
                            IN Len(s) <= Len(c.X) /\ RSolve(RMat(IGram(V, V)), RVec([k \in 1..Len(s) |-> 0])).ok
Query == CASE c.m = 1 -> <<<<0>>, <<4>>, <<-3>>>> [] c.m = 2 -> <<<<0, 1>>, <<2, -1>>, <<-1, 3>>>> [] OTHER -> <<<<0, 1, 1>>, <<2, -1, 0>>>>
Explained == c.p >= 0 /\ c.p <= c.deg /\ Unisolvent
Next == /\ ans = Nil
        /\ ans' = TLCEval([y |-> [i \in 1..Len(c.X) |-> Value(i)], unisolvent |-> Unisolvent, explained |-> Explained,
                   q |-> IF Explained THEN [i \in 1..Len(Query) |-> Poly(Query[i], c.p)] ELSE Nil])
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Sane == ans # Nil => Len(ans.y) = Len(c.X) /\ (ans.explained => ans.unisolvent) /\ (c.deg = 0 => ans.unisolvent)
Emit == (ans # Nil /\ ans.unisolvent) => PrintT("@@" \o ToJson([m |-> c.m, X |-> c.X, deg |-> c.deg, st |-> c.st, P |-> Query, ans |-> ans]))
===============================================================================
