-------------------------------- MODULE Poly --------------------------------
(* Exact optimization over polyhedra, ellipsoids excluded: vertices, recession rays, constrained least squares.
   Hulls in the plane are turned into the inequalities of their edges. *)
EXTENDS Dom, RatLin
FX == INSTANCE FiniteSetsExt

Unit(m, i) == [j \in 1..m |-> IF i = j THEN 1 ELSE 0]
NegV(v) == [i \in 1..Len(v) |-> -v[i]]

RECURSIVE CatSeq(_)
CatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatSeq(Tail(ss))

\* the linear description of one hull (points of dimension 1 or 2)
HullLin(h, m) ==
  LET k == Len(h.pts[1])
      Pad(a) == Zeros(h.o) \o a \o Zeros(m - h.o - k)
      P == h.pts
      n == Len(P)
  IN IF k = 1
     THEN [A |-> <<[a |-> Pad(<<1>>), b |-> CHOOSE x \in {P[i][1] : i \in 1..n} : \A j \in 1..n : P[j][1] <= x],
                   [a |-> Pad(<<-1>>), b |-> -(CHOOSE x \in {P[i][1] : i \in 1..n} : \A j \in 1..n : P[j][1] >= x)]>>, E |-> <<>>]
     ELSE LET edges == {<<i, j>> \in (1..n) \X (1..n) : P[i] # P[j] /\ \A l \in 1..n : Cross(P[i], P[j], P[l]) >= 0}
              \* interior on the left of i -> j : normal pointing out is (dy, -dx)
              RowOf(e) == LET dx == P[e[2]][1] - P[e[1]][1] dy == P[e[2]][2] - P[e[1]][2]
                          IN [a |-> Pad(<<dy, -dx>>), b |-> dy * P[e[1]][1] - dx * P[e[1]][2]]
              rows == {RowOf(e) : e \in edges}
              RECURSIVE ToSeq(_)
              ToSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o ToSeq(X \ {x})
              colin == \A i, j, l \in 1..n : Cross(P[i], P[j], P[l]) = 0
              xs == [A |-> <<[a |-> Pad(<<1, 0>>), b |-> CHOOSE x \in {P[i][1] : i \in 1..n} : \A j \in 1..n : P[j][1] <= x],
                             [a |-> Pad(<<-1, 0>>), b |-> -(CHOOSE x \in {P[i][1] : i \in 1..n} : \A j \in 1..n : P[j][1] >= x)],
                             [a |-> Pad(<<0, 1>>), b |-> CHOOSE x \in {P[i][2] : i \in 1..n} : \A j \in 1..n : P[j][2] <= x],
                             [a |-> Pad(<<0, -1>>), b |-> -(CHOOSE x \in {P[i][2] : i \in 1..n} : \A j \in 1..n : P[j][2] >= x)]>>, E |-> <<>>]
          IN [A |-> ToSeq(rows) \o (IF colin THEN xs.A ELSE <<>>), E |-> <<>>]

\* a domain without hulls, as inequality rows (bounds included) and equality rows
Rows(D) ==
     CatSeq([i \in 1..D.m |-> (IF D.ub[i] # INF THEN <<[a |-> Unit(D.m, i), b |-> D.ub[i]]>> ELSE <<>>)
                           \o (IF D.lb[i] # NINF THEN <<[a |-> NegV(Unit(D.m, i)), b |-> -D.lb[i]]>> ELSE <<>>)])
  \o D.A \o CatSeq([k \in 1..Len(D.H) |-> HullLin(D.H[k], D.m).A])

RowSeq(D) == Rows(D) \o D.E       \* every row as a hyperplane
RInLin(D, rows, x) == /\ \A k \in 1..Len(rows) : RLe(RDot(RVec(rows[k].a), x), RI(rows[k].b))
                      /\ \A k \in 1..Len(D.E) : RDot(RVec(D.E[k].a), x) = RI(D.E[k].b)
RInQuad(D, x) == \A k \in 1..Len(D.Q) :
   LET v == RMatVec(RMat(D.Q[k].L), RVSub(x, RVec(D.Q[k].y))) IN RLe(RDot(v, v), RI(D.Q[k].r * D.Q[k].r))

SubsetsOfSize(n, k) == IF k > n THEN {} ELSE FX!kSubset(k, 1..n)
RECURSIVE SetSeq(_)
SetSeq(K) == IF K = {} THEN <<>> ELSE LET x == CHOOSE x \in K : \A y \in K : x <= y IN <<x>> \o SetSeq(K \ {x})

\* on every face (every set of at most m rows taken as equations) minimize | L x - c |^2: the KKT points that are feasible
FaceMins(D, L, c) ==
  LET rows == Rows(D)
      all == rows \o D.E
      n == Len(all)
      ra == [i \in 1..n |-> RVec(all[i].a)]
      rb == [i \in 1..n |-> RI(all[i].b)]
      W == RMat(IGram(L, L))
      g == RVec(ITMatVec(L, c))
      m == D.m
      Face(K) == LET s == SetSeq(K) k == Len(s)
                     M == [i \in 1..(m + k) |-> IF i <= m
                             THEN W[i] \o [j \in 1..k |-> ra[s[j]][i]]
                             ELSE ra[s[i - m]] \o [j \in 1..k |-> RZ]]
                 IN RSolve(M, g \o [j \in 1..k |-> rb[s[j]]])
      sols == {Face(K) : K \in UNION {SubsetsOfSize(n, k) : k \in 0..m}}
      pts == {SubSeq(s.z, 1, m) : s \in {t \in sols : t.ok}}
  IN {x \in pts : RInLin(D, rows, x)}
\* one point on every face, among them all the vertices; empty iff the polyhedron is empty
FacePts(D) == FaceMins(D, [i \in 1..D.m |-> Unit(D.m, i)], Zeros(D.m))

\* candidates for rays of the recession cone (generators in dimension <= 2, and for 3 with the cross products)
Perp(a) == <<-a[2], a[1]>>
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Rays(D) ==
  LET all == RowSeq(D) n == Len(all)
      base == {Unit(D.m, i) : i \in 1..D.m} \cup {all[k].a : k \in 1..n}
      more == CASE D.m = 1 -> {} [] D.m = 2 -> {Perp(v) : v \in base} [] OTHER -> {Cross3(v, w) : v \in base, w \in base}
  IN base \cup more
IsRay(D, r) == /\ \A k \in 1..Len(Rows(D)) : IDot(Rows(D)[k].a, r) <= 0
               /\ \A k \in 1..Len(D.E) : IDot(D.E[k].a, r) = 0
UnboundedIn(D, p) == \E r \in Rays(D) \cup {p} : \/ IsRay(D, r) /\ IDot(p, r) > 0
                                                 \/ IsRay(D, NegV(r)) /\ IDot(p, NegV(r)) > 0

\* max p.x, given the face points F; the maximum must be finite
MaxLin(F, p) == RMaxSet({RDot(RVec(p), v) : v \in F})
\* | L x - c |^2
LsqObj(L, c, x) == LET v == RVSub(RMatVec(RMat(L), x), RVec(c)) IN RDot(v, v)
MinLsq(D, L, c) == RMinSet({LsqObj(L, c, x) : x \in FaceMins(D, L, c)})
=============================================================================
