----------------------------- MODULE BlockTrace -----------------------------
(* Maximin designs found by moving one point at a time: the points stay in the domain, the least distance between two points is no
   less than that of the points it started from, and the last point (the last that was moved), in the plane, is a vertex of the
   bounded Voronoi diagram of the others: the sides of the domain on which it is and the bisectors between the sites that are
   nearest to it leave it no direction.  Points are in units of 1/K. *)
EXTENDS Vor, Judge

CONSTANTS K
VARIABLES t, n, verdict
vars == <<t, n, verdict>>
Ev == Traces[t][n]
D(e) == Domains[e.k]
L(e) == Metrics(D(e).m)[e.l]
Image(e, x) == [i \in 1..Len(L(e)) |-> IDot(L(e)[i], x)]
Sq(x, y) == ISum([i \in 1..Len(x) |-> (x[i] - y[i]) * (x[i] - y[i])])
Least(Y) == Min({Sq(Y[q[1]], Y[q[2]]) : q \in {q \in (1..Len(Y)) \X (1..Len(Y)) : q[1] < q[2]}})
\* squares within rounding
Close(a, b) == LET d == RAbs(a - b) \div 20 IN d < 40000 /\ d * d <= 1 + (IF a > b THEN a ELSE b)
Sides(e, x) == {D(e).faces[f].a : f \in {f \in 1..Len(D(e).faces) : IDot(D(e).faces[f].a, x) >= K * D(e).faces[f].b - 10}}
Nearest(Y, y) == LET d == Min({Sq(Y[i], y) : i \in 1..Len(Y)}) IN {i \in 1..Len(Y) : Close(Sq(Y[i], y), d)}
Normals(e, Y, y) == LET I == Nearest(Y, y) IN {[j \in 1..D(e).m |-> ISum([i \in 1..Len(L(e)) |-> L(e)[i][j] * (Y[q[1]][i] - Y[q[2]][i])])] : q \in I \X I}
Regular(a, b) == LET d == a[1] * b[2] - a[2] * b[1] IN d # 0
Vertex(e, P) == LET Y == TLCEval([i \in 1..(Len(P) - 1) |-> Image(e, P[i])])
                    x == P[Len(P)]
                    N == TLCEval(Sides(e, x) \cup Normals(e, Y, Image(e, x)))
                    g == LET i == CHOOSE i \in Nearest(Y, Image(e, x)) : TRUE d == [j \in 1..D(e).m |-> x[j] - P[i][j]] IN [j \in 1..D(e).m |-> ISum([i2 \in 1..Len(L(e)) |-> L(e)[i2][j] * IDot(L(e)[i2], d)])]
                IN \/ \E a, b \in N : Regular(a, b)
                   \* (or straight across from the nearest site, where no direction is better than the other)
                   \/ (N # {} /\ \A a \in N : RAbs(a[1] * g[2] - a[2] * g[1]) <= 100 * (RAbs(a[1]) + RAbs(a[2])))
Clause(e) ==
  IF e.shape # <<e.n, D(e).m>> THEN "shape"
  ELSE IF \E i \in 1..e.n : \E f \in 1..Len(D(e).faces) : IDot(D(e).faces[f].a, e.pts[i]) > K * D(e).faces[f].b + 10 THEN "inside"
  ELSE LET Y == TLCEval([i \in 1..e.n |-> Image(e, e.pts[i])])
           Z == TLCEval([i \in 1..Len(e.start) |-> Image(e, [j \in 1..D(e).m |-> K * e.start[i][j]])])
       IN IF e.start # <<>> /\ LET u == Least(Y) v == Least(Z) IN u < v /\ ~Close(u, v) THEN "the least distance got smaller"
          ELSE IF e.regular /\ D(e).m = 2 /\ ~Vertex(e, e.pts) THEN "the last point is not at a vertex"
          ELSE "ok"
Init == t \in 1..Len(Traces) /\ n = 1 /\ verdict = "ok"
Next == /\ n <= Len(Traces[t]) /\ verdict = "ok"
        /\ verdict' = Clause(Ev)
        /\ n' = IF verdict' = "ok" THEN n + 1 ELSE n
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Done == n > Len(Traces[t]) \/ verdict # "ok"
TypeOK == /\ n \in 1..(Len(Traces[t]) + 1)
          /\ (Done => PrintT("@@" \o ToJson([t |-> t, verdict |-> verdict, at |-> n])))
=============================================================================
