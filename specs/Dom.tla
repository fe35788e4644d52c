-------------------------------- MODULE Dom --------------------------------
(* What a domain means: a set of points, described by bounds, linear inequalities and equalities, ellipsoids and
   convex hulls of points.  Points are integer vectors in units of 1/S.  Everything is exact. *)
EXTENDS Rat, FiniteSets, TLC

CONSTANT S        \* points are multiples of 1/S
INF == 1000       \* "no bound"
NINF == -1000

\* a domain:
\*   m     dimension            lb, ub  bounds (integers, NINF / INF when absent)
\*   A     sequence of [a, b]   a . x <= b
\*   E     sequence of [a, b]   a . x  = b
\*   Q     sequence of [L, y, r]   | L (x - y) | <= r
\*   H     sequence of [o, pts]    (x[o+1], ..., x[o+k]) is in the convex hull of pts, points of dimension k <= 2
Free(m) == [m |-> m, lb |-> [i \in 1..m |-> NINF], ub |-> [i \in 1..m |-> INF], A |-> <<>>, E |-> <<>>, Q |-> <<>>, H |-> <<>>]

Cross(o, a, b) == (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
Between(x, a, b) == (IMin(a, b) <= x) /\ (x <= IMax(a, b))
InSeg2(x, a, b) == Cross(a, b, x) = 0 /\ Between(x[1], a[1], b[1]) /\ Between(x[2], a[2], b[2])
InTri(x, a, b, c) == LET d == Cross(a, b, c)
                         s1 == Cross(a, b, x) s2 == Cross(b, c, x) s3 == Cross(c, a, x)
                     IN /\ d /= 0
                        /\ \/ s1 >= 0 /\ s2 >= 0 /\ s3 >= 0
                           \/ s1 <= 0 /\ s2 <= 0 /\ s3 <= 0
\* x in units of 1/S, pts integers
InHull(x, pts) ==
  LET P == [j \in 1..Len(pts) |-> [i \in 1..Len(x) |-> S * pts[j][i]]]
      J == 1..Len(pts)
  IN IF Len(x) = 1
     THEN (\E j \in J : P[j][1] <= x[1]) /\ (\E j \in J : P[j][1] >= x[1])
     ELSE \/ \E j, k \in J : InSeg2(x, P[j], P[k])
          \/ \E j, k, l \in J : j < k /\ k < l /\ InTri(x, P[j], P[k], P[l])

InQuad(x, c) == LET v == [i \in 1..Len(c.L) |-> IDot(c.L[i], [k \in 1..Len(x) |-> x[k] - S * c.y[k]])]
                IN IDot(v, v) <= c.r * c.r * S * S

In(D, x) ==
  /\ Len(x) = D.m
  /\ \A i \in 1..D.m : (D.lb[i] = NINF \/ S * D.lb[i] <= x[i]) /\ (D.ub[i] = INF \/ x[i] <= S * D.ub[i])
  /\ \A k \in 1..Len(D.A) : IDot(D.A[k].a, x) <= S * D.A[k].b
  /\ \A k \in 1..Len(D.E) : IDot(D.E[k].a, x) = S * D.E[k].b
  /\ \A k \in 1..Len(D.Q) : InQuad(x, D.Q[k])
  /\ \A k \in 1..Len(D.H) : InHull(SubSeq(x, D.H[k].o + 1, D.H[k].o + Len(D.H[k].pts[1])), D.H[k].pts)

\* the intersection of two domains of the same dimension
Meet(D, F) == [m |-> D.m,
  lb |-> [i \in 1..D.m |-> IMax(D.lb[i], F.lb[i])],
  ub |-> [i \in 1..D.m |-> IMin(D.ub[i], F.ub[i])],
  A |-> D.A \o F.A, E |-> D.E \o F.E, Q |-> D.Q \o F.Q, H |-> D.H \o F.H]

Zeros(n) == [i \in 1..n |-> 0]
\* the Cartesian product
Times(D, F) ==
  LET p == Zeros(D.m)
      q == Zeros(F.m)
      RowD(c) == [a |-> c.a \o q, b |-> c.b]
      RowF(c) == [a |-> p \o c.a, b |-> c.b]
      QuadD(c) == [L |-> [i \in 1..Len(c.L) |-> c.L[i] \o q], y |-> c.y \o q, r |-> c.r]
      QuadF(c) == [L |-> [i \in 1..Len(c.L) |-> p \o c.L[i]], y |-> p \o c.y, r |-> c.r]
  IN [m |-> D.m + F.m, lb |-> D.lb \o F.lb, ub |-> D.ub \o F.ub,
      A |-> [k \in 1..Len(D.A) |-> RowD(D.A[k])] \o [k \in 1..Len(F.A) |-> RowF(F.A[k])],
      E |-> [k \in 1..Len(D.E) |-> RowD(D.E[k])] \o [k \in 1..Len(F.E) |-> RowF(F.E[k])],
      Q |-> [k \in 1..Len(D.Q) |-> QuadD(D.Q[k])] \o [k \in 1..Len(F.Q) |-> QuadF(F.Q[k])],
      H |-> D.H \o [k \in 1..Len(F.H) |-> [o |-> F.H[k].o + D.m, pts |-> F.H[k].pts]]]

\* the lattice on which membership is observed, for dimension m: a sequence of points
LatticeOf(vals, m) == SeqProd(vals, m)
Bits(D, lat) == [i \in 1..Len(lat) |-> IF In(D, lat[i]) THEN 1 ELSE 0]
=============================================================================
