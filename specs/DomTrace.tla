------------------------------ MODULE DomTrace ------------------------------
(* What the code answers about the domains of the catalogue, judged against the sets these denote.
   Points in the traces are in units of 1/K, lattice points in units of 1/S; S divides K. *)
EXTENDS DomCat, Judge

CONSTANT K
VARIABLES t, verdict
vars == <<t, verdict>>

Cat(w) == IF w = "poly" THEN PolyCat ELSE QuadCat
M == K \div S
\* the points of the lattice in each domain, in units of 1/K
LatVals(m) == IF m = 3 THEN [i \in 1..11 |-> S * (i - 4)] ELSE [i \in 1..(22 * S + 1) |-> i - 1 - 9 * S]
Lat == [m \in 1..3 |-> LET s == SeqProd(LatVals(m), m) IN {s[i] : i \in 1..Len(s)}]
PolyMem == [c \in 1..Len(PolyCat) |-> {z \in Lat[PolyCat[c].d.m] : In(PolyCat[c].d, z)}]
QuadMem == [c \in 1..Len(QuadCat) |-> {z \in Lat[QuadCat[c].d.m] : In(QuadCat[c].d, z)}]
Members(w, c) == IF w = "poly" THEN PolyMem[c] ELSE QuadMem[c]

\* x (units 1/K) is in D up to tol (units 1/K) in each constraint
OneNorm(a) == ISum([i \in 1..Len(a) |-> RAbs(a[i])])
LinOk(rows, x, tol) == \A k \in 1..Len(rows) : IDot(rows[k].a, x) <= K * rows[k].b + tol * OneNorm(rows[k].a)
NearIn(D, x, tol) ==
  /\ Len(x) = D.m
  /\ LinOk(Rows(D), x, tol)
  /\ \A k \in 1..Len(D.E) : RAbs(IDot(D.E[k].a, x) - K * D.E[k].b) <= tol * OneNorm(D.E[k].a)
  /\ \A k \in 1..Len(D.Q) : LET c == D.Q[k]
                                v == [i \in 1..Len(c.L) |-> IDot(c.L[i], [j \in 1..D.m |-> x[j] - K * c.y[j]])]
                                r == c.r * K + tol * ISum([i \in 1..Len(c.L) |-> OneNorm(c.L[i])])
                            IN IDot(v, v) <= r * r
\* x is at most tol away from leaving D (in some constraint)
NearBoundary(D, x, tol) ==
  \/ \E k \in 1..Len(Rows(D)) : IDot(Rows(D)[k].a, x) >= K * Rows(D)[k].b - tol * OneNorm(Rows(D)[k].a)
  \/ D.E # <<>>
  \/ \E k \in 1..Len(D.Q) : LET c == D.Q[k]
                                v == [i \in 1..Len(c.L) |-> IDot(c.L[i], [j \in 1..D.m |-> x[j] - K * c.y[j]])]
                                r == c.r * K - tol * ISum([i \in 1..Len(c.L) |-> OneNorm(c.L[i])])
                            IN IDot(v, v) >= r * r
Tol == 2

\* the exact tensor grid between the bounds, restricted to the domain; n - 1 divides K
Step(D, i, n) == (K * (D.ub[i] - D.lb[i])) \div (n - 1)
GridPts(D, n) == {x \in LET vals(i) == {K * D.lb[i] + j * Step(D, i, n) : j \in 0..(n - 1)}
                        IN CASE D.m = 1 -> {<<a>> : a \in vals(1)}
                             [] D.m = 2 -> {<<a, b>> : a \in vals(1), b \in vals(2)}
                             [] OTHER -> {<<a, b, d>> : a \in vals(1), b \in vals(2), d \in vals(3)} : NearIn(D, x, 0)}
Set(s) == {s[i] : i \in 1..Len(s)}

\* distance of x from the rows; squared comparisons: (b - a.x)^2 >= r^2 |a|^2, in units 1/K
Dist2Ge(D, x, r) == \A k \in 1..Len(Rows(D)) :
   LET row == Rows(D)[k] s == K * row.b - IDot(row.a, x) IN s >= 0 /\ s * s >= r * r * IDot(row.a, row.a)
Up(z) == [i \in 1..Len(z) |-> M * z[i]]

Clause(ev) ==
  LET D == Cat(ev.which)[ev.cat].d
      Mem == Members(ev.which, ev.cat)
      x == ev.x
  IN CASE ev.kind = "corner" ->
            IF ~NearIn(D, x, Tol) THEN "inside"
            ELSE IF \E z \in Mem : M * IDot(ev.p, z) > IDot(ev.p, x) + Tol * OneNorm(ev.p) THEN "furthest" ELSE "ok"
       [] ev.kind = "lsq" ->        \* minimizer of | A x - b |, b in units 1/K
            LET r == [i \in 1..Len(ev.A) |-> IDot(ev.A[i], x) - ev.b[i]]
                g == ITMatVec(ev.A, r)
                tol == Tol * (OneNorm(g) + 2 * K * ISum([i \in 1..Len(ev.A) |-> OneNorm(ev.A[i])]) * 12)
            IN IF ~NearIn(D, x, Tol) THEN "inside"
               ELSE IF \E z \in Mem : IDot(g, [i \in 1..D.m |-> M * z[i] - x[i]]) < -tol THEN "variational inequality" ELSE "ok"
       [] ev.kind = "cheb" ->
            IF ~NearIn(D, x, Tol) THEN "inside"
            ELSE IF ~Dist2Ge(D, x, IMax(ev.r - 2 * Tol, 0)) THEN "the ball leaves the domain"
            ELSE IF \E z \in Mem : Dist2Ge(D, Up(z), ev.r + 2 * Tol) THEN "there is a larger ball" ELSE "ok"
       [] ev.kind = "range" ->      \* the normalization bounds of coordinate i, and points that attain them
            IF \E z \in Mem : M * z[ev.i] < ev.lo - Tol \/ M * z[ev.i] > ev.hi + Tol THEN "bounds too tight"
            ELSE IF D.lb[ev.i] # NINF /\ ev.lo # K * D.lb[ev.i] THEN "lower bound"
            ELSE IF D.ub[ev.i] # INF /\ ev.hi # K * D.ub[ev.i] THEN "upper bound"
            ELSE IF D.lb[ev.i] = NINF /\ ~(NearIn(D, ev.xlo, Tol) /\ RAbs(ev.xlo[ev.i] - ev.lo) <= Tol) THEN "lower bound not attained"
            ELSE IF D.ub[ev.i] = INF /\ ~(NearIn(D, ev.xhi, Tol) /\ RAbs(ev.xhi[ev.i] - ev.hi) <= Tol) THEN "upper bound not attained"
            ELSE "ok"
       [] ev.kind = "samples" ->
            IF Len(ev.pts) # ev.n THEN "number of samples"
            ELSE IF \E i \in 1..Len(ev.pts) : ~NearIn(D, ev.pts[i], Tol) THEN "inside" ELSE "ok"
       [] ev.kind = "boundary" ->
            IF Len(ev.pts) # ev.n THEN "number of samples"
            ELSE IF \E i \in 1..Len(ev.pts) : ~NearIn(D, ev.pts[i], Tol) THEN "inside"
            ELSE IF \E i \in 1..Len(ev.pts) : ~NearBoundary(D, ev.pts[i], Tol + 1) THEN "not on the boundary" ELSE "ok"
       [] ev.kind = "grid" ->
            IF Len(ev.pts) # Cardinality(Set(ev.pts)) THEN "repeated grid points"
            ELSE IF Set(ev.pts) # GridPts(D, ev.n) THEN "grid" ELSE "ok"
       [] ev.kind = "spread" ->     \* many samples cover most of the range of the domain
            LET i == ev.i
                lo == CHOOSE z \in Mem : \A y \in Mem : z[i] <= y[i]
                hi == CHOOSE z \in Mem : \A y \in Mem : z[i] >= y[i]
                w == M * (hi[i] - lo[i])
            IN IF Mem # {} /\ 2 * (ev.hi - ev.lo) < w THEN "samples do not spread over the domain" ELSE "ok"
       [] ev.kind = "step" ->       \* x + alpha p is the last point inside
            LET y == ev.y
            IN IF ~NearIn(D, y, Tol) THEN "the step leaves the domain"
               ELSE IF NearIn(D, ev.beyond, -1) THEN "a longer step stays inside" ELSE "ok"
       [] OTHER -> "unknown event"

Verdict(tr) == LET bad == {i \in 1..Len(tr) : Clause(tr[i]) # "ok"}
               IN IF bad = {} THEN [verdict |-> "ok", at |-> 0]
                  ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN [verdict |-> Clause(tr[i]), at |-> i]
Init == t \in 1..Len(Traces) /\ verdict = [verdict |-> "", at |-> 0]
Next == verdict.verdict = "" /\ verdict' = Verdict(Traces[t]) /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == verdict.verdict # "" => PrintT("@@" \o ToJson([t |-> t, verdict |-> verdict.verdict, at |-> verdict.at]))
=============================================================================
