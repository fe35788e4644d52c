-------------------------------- MODULE Bas --------------------------------
(* Polynomials in one variable (sequences of rational coefficients, constant first), the classical families, and their
   products of bounded total degree in affinely scaled coordinates. *)
EXTENDS RatLin, TLC

\* the elements of a finite set as a sequence
RECURSIVE SetToS(_)
SetToS(X) == IF X = {} THEN <<>> ELSE LET y == CHOOSE y \in X : TRUE IN <<y>> \o SetToS(X \ {y})

PC(p, k) == IF k + 1 <= Len(p) THEN p[k + 1] ELSE RZ
PAdd(p, r) == TLCEval([k \in 1..IMax(Len(p), Len(r)) |-> RAdd(PC(p, k - 1), PC(r, k - 1))])
PScale(c, p) == TLCEval([k \in 1..Len(p) |-> RMul(c, p[k])])
PMulX(p) == <<RZ>> \o p
RECURSIVE PMul(_, _)
PMul(p, r) == IF p = <<>> THEN <<RZ>> ELSE PAdd(PScale(p[1], r), PMulX(PMul(Tail(p), r)))
PDer(p) == IF Len(p) <= 1 THEN <<RZ>> ELSE TLCEval([k \in 1..(Len(p) - 1) |-> RMul(RI(k), p[k + 1])])
RECURSIVE PEval(_, _)
PEval(p, x) == IF p = <<>> THEN RZ ELSE RAdd(p[1], RMul(x, PEval(Tail(p), x)))
PIsZero(p) == \A k \in 1..Len(p) : p[k] = RZ

Bases == {"monomial", "legendre", "chebyshev", "hermite", "laguerre"}
RECURSIVE Phi(_, _)
\* three term recurrences
Phi(b, n) ==
  IF n = 0 THEN <<ROne>>
  ELSE IF n = 1 THEN CASE b = "hermite" -> <<RZ, RI(2)>> [] b = "laguerre" -> <<ROne, RI(-1)>> [] OTHER -> <<RZ, ROne>>
  ELSE LET p == Phi(b, n - 1) r == Phi(b, n - 2) IN
    CASE b = "monomial" -> PMulX(p)
      [] b = "legendre" -> PAdd(PScale(R(2 * n - 1, n), PMulX(p)), PScale(R(1 - n, n), r))
      [] b = "chebyshev" -> PAdd(PScale(RI(2), PMulX(p)), PScale(RI(-1), r))
      [] b = "hermite" -> PAdd(PScale(RI(2), PMulX(p)), PScale(RI(-2 * (n - 1)), r))
      [] b = "laguerre" -> PAdd(PAdd(PScale(R(2 * n - 1, n), p), PScale(R(-1, n), PMulX(p))), PScale(R(1 - n, n), r))
\* the differential equation a family solves: p2 y'' + p1 y' + c y = 0
Ode(b, n) == CASE b = "legendre" -> [p2 |-> <<ROne, RZ, RI(-1)>>, p1 |-> <<RZ, RI(-2)>>, c |-> RI(n * (n + 1))]
               [] b = "chebyshev" -> [p2 |-> <<ROne, RZ, RI(-1)>>, p1 |-> <<RZ, RI(-1)>>, c |-> RI(n * n)]
               [] b = "hermite" -> [p2 |-> <<ROne>>, p1 |-> <<RZ, RI(-2)>>, c |-> RI(2 * n)]
               [] b = "laguerre" -> [p2 |-> <<RZ, ROne>>, p1 |-> <<ROne, RI(-1)>>, c |-> RI(n)]
               [] OTHER -> [p2 |-> <<RZ, RZ, ROne>>, p1 |-> <<RZ, RI(-n)>>, c |-> RI(n)]
OdeHolds(b, n) == LET y == Phi(b, n) o == Ode(b, n)
   IN PIsZero(PAdd(PAdd(PMul(o.p2, PDer(PDer(y))), PMul(o.p1, PDer(y))), PScale(o.c, y)))

\* multi-indices of total degree at most p
MISet(m, p) == {a \in [1..m -> 0..p] : ISum(a) <= p}
MI(m, p) == TLCEval(SetToS(MISet(m, p)))
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)

\* coordinates are scaled as s_k = al[k] x_k + be[k]
Sc(al, be, x) == TLCEval([k \in 1..Len(x) |-> RAdd(RMul(al[k], x[k]), be[k])])
\* values of the one-dimensional elements and of their first two derivatives: T[k][n + 1][d + 1]
Tab(b, p, s) == TLCEval([k \in 1..Len(s) |-> [n \in 1..(p + 1) |-> LET y == Phi(b, n - 1) y1 == PDer(y) y2 == PDer(y1)
                   IN <<PEval(y, s[k]), PEval(y1, s[k]), PEval(y2, s[k])>>]])
\* mixed derivative of order o (a vector of orders) of the element with multi-index a
Elem(T, al, a, o) == RProdSeq([k \in 1..Len(a) |-> RMul(T[k][a[k] + 1][o[k] + 1], RPow(al[k], o[k]))])
O0(m) == [k \in 1..m |-> 0]
O1(m, i) == [k \in 1..m |-> IF k = i THEN 1 ELSE 0]
O2(m, i, j) == [k \in 1..m |-> (IF k = i THEN 1 ELSE 0) + (IF k = j THEN 1 ELSE 0)]

\* the scalings: to [-1, 1] or, for Hermite polynomials, to mean zero and variance one half
ColMin(X, k) == RMinSet({X[i][k] : i \in 1..Len(X)})
ColMax(X, k) == RMaxSet({X[i][k] : i \in 1..Len(X)})
ColMean(X, k) == RMul(R(1, Len(X)), RSumSeq([i \in 1..Len(X) |-> X[i][k]]))
ColVar2(X, k) == RMul(R(2, Len(X)), RSumSeq([i \in 1..Len(X) |-> RSq(RSub(X[i][k], ColMean(X, k)))]))
\* a coordinate that does not vary is only shifted
Al(b, X, k) == IF b = "hermite" THEN RInv(RSqrt(ColVar2(X, k))) ELSE IF ColMin(X, k) = ColMax(X, k) THEN ROne ELSE RDiv(RI(2), RSub(ColMax(X, k), ColMin(X, k)))
Be(b, X, k) == IF b = "hermite" THEN RNeg(RMul(Al(b, X, k), ColMean(X, k))) ELSE IF ColMin(X, k) = ColMax(X, k) THEN RNeg(ColMin(X, k)) ELSE RSub(RI(-1), RMul(Al(b, X, k), ColMin(X, k)))
ScaleOk(b, X, k) == IF b = "hermite" THEN ColVar2(X, k) # RZ /\ RIsSquare(ColVar2(X, k)) ELSE TRUE

\* the coefficients in the basis b of a polynomial given by its monomial coefficients: eliminate the leading terms
RECURSIVE ToBasis(_, _)
ToBasis(b, p) == IF Len(p) = 0 THEN <<>>
   ELSE LET n == Len(p) - 1 y == Phi(b, n) c == RDiv(p[n + 1], y[n + 1])
            rest == [k \in 1..n |-> RSub(p[k], RMul(c, y[k]))]
        IN Append(ToBasis(b, rest), c)
\* p(s) with s = al x + be substituted
RECURSIVE PCompose(_, _, _)
PCompose(p, al, be) == IF p = <<>> THEN <<RZ>> ELSE PAdd(<<p[1]>>, PMul(<<be, al>>, PCompose(Tail(p), al, be)))
RECURSIVE PFromRoots(_)
PFromRoots(rs) == IF rs = <<>> THEN <<ROne>> ELSE PMul(<<RNeg(rs[1]), ROne>>, PFromRoots(Tail(rs)))
=============================================================================
