----------------------------- MODULE RidgeCase -----------------------------
(* Configurations of ridge approximation and how many data determine one: degree d polynomials in n variables have
   C(n + d, d) coefficients, and a subspace of dimension n in R^m has n (m - n) parameters.  The number of data that
   PolynomialRidgeApproximation asks for may count the orientation of the basis as well (n m - n (n + 1) / 2). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Full
VARIABLES q, a
vars == <<q, a>>
RECURSIVE Binom(_, _)
Binom(k, i) == IF i = 0 \/ i = k THEN 1 ELSE Binom(k - 1, i - 1) + Binom(k - 1, i)
Subs(m) == IF Full THEN 1..m ELSE 1..(IF m > 2 THEN 2 ELSE m)
Degs == IF Full THEN 1..4 ELSE 1..3
Counts == {[kind |-> "count", m |-> m, n |-> n, d |-> d] : m \in 1..(IF Full THEN 5 ELSE 4), n \in 1..3, d \in Degs}
Bounds == {"none", "lower", "upper"}
Bases == {"legendre", "arnoldi", "chebyshev", "monomial", "hermite"}
Datas == {"exact", "noise", "even", "constant", "offset"}
Fits == {[kind |-> "fit", m |-> m, n |-> n, d |-> d, norm |-> norm, bound |-> b, basis |-> B, data |-> D, rotate |-> r] :
           m \in 2..3, n \in 1..2, d \in 1..3, norm \in {"1", "2", "inf"}, b \in Bounds, B \in Bases, D \in Datas, r \in BOOLEAN}
\* a covering selection of the configurations: all pairs (norm, bound, data) with the rest varied along
Hash(c) == LET Pos(s, e) == CHOOSE i \in 1..Len(s) : s[i] = e
               b == Pos(<<"legendre", "arnoldi", "chebyshev", "monomial", "hermite">>, c.basis)
               e == Pos(<<"exact", "noise", "even", "constant", "offset">>, c.data)
               o == Pos(<<"none", "lower", "upper">>, c.bound)
               k == Pos(<<"1", "2", "inf">>, c.norm)
           IN b + 2 * e + 3 * o + k + c.n + 2 * c.m + 3 * c.d + (IF c.rotate THEN 1 ELSE 0)
Chosen == {c \in Fits : c.d >= (IF c.n = 2 THEN 2 ELSE 1) /\ c.n <= c.m /\ Hash(c) % (IF Full THEN 12 ELSE 20) = 0}
Init == q \in {c \in Counts : c.n \in Subs(c.m)} \cup Chosen /\ a = [fresh |-> TRUE]
Answer(c) == LET n == IF c.d = 1 THEN 1 ELSE c.n
                 min == Binom(n + c.d, n) + n * (c.m - n)
             IN [fresh |-> FALSE, dim |-> n, least |-> min, enough |-> Binom(n + c.d, n) + n * c.m - (n * (n + 1)) \div 2]
Next == a.fresh /\ a' = Answer(q) /\ UNCHANGED q
Spec == Init /\ [][Next]_vars
Sane == a.fresh \/ (a.least <= a.enough /\ (a.dim = 1 => a.least = a.enough) /\ a.least > 0)
Emit == a.fresh \/ PrintT("@@" \o ToJson([q |-> q, a |-> a]))
=============================================================================
