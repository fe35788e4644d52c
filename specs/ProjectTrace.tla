----------------------------- MODULE ProjectTrace -----------------------------
(* Searches for designs with good projections.  The first event of a trace is the problem: the pieces of each direction and, for each cell,
   whether the domain has points there and, if unique, the one that is nearest to its targets.  A design takes one point from every piece of
   every direction.  Then come designs, in the order of the number of candidates that the search looked at; the least distance between their
   points does not decrease, and is the greatest possible once there was time to look at all of them.  Lengths are in units of 1/K. *)
EXTENDS Rat, FiniteSetsExt, Judge

CONSTANTS Tol
VARIABLES t, n, best, verdict
vars == <<t, n, best, verdict>>
Ev == Traces[t][n]
Problem == Traces[t][1]
N == Problem.N
Rows == Len(Problem.bounds)
Filled == {cell \in Range(Problem.cells) : cell.ok}
\* a design puts the i-th piece of the first direction together with the pieces order[r][i] of the others
Orders == {o \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => o[i] # o[j]}
Fits(d) == \A i \in 1..N : \E cell \in Filled : cell.p[1] = i /\ \A r \in 2..Rows : cell.p[r] = d[r - 1][i]
Designs == {d \in [1..(Rows - 1) -> Orders] : Fits(d)}
Points(d) == {(CHOOSE cell \in Filled : cell.p[1] = i /\ \A r \in 2..Rows : cell.p[r] = d[r - 1][i]).x : i \in 1..N}
Dist2(x, y) == ISum([a \in 1..Len(x) |-> (x[a] - y[a]) * (x[a] - y[a])])
Least(P) == IF Cardinality(P) < N \/ N = 1 THEN 0 ELSE ISqrt(Min({Dist2(x, y) : <<x, y>> \in {q \in P \X P : q[1] # q[2]}}))
Close(x, y) == \A a \in 1..Len(x) : RAbs(x[a] - y[a]) <= Tol
Same(X, P) == /\ \A i \in 1..N : \E x \in P : Close(X[i], x)
              /\ \A x \in P : \E i \in 1..N : Close(X[i], x)
Inside(v, r) == \A i \in 1..N : v[i] >= Problem.bounds[r][i] - Tol /\ v[i] <= Problem.bounds[r][i + 1] + Tol
Clause(e) ==
  CASE e.kind = "case" -> "ok"
    [] e.kind = "none" -> IF Designs # {} THEN "found no design" ELSE "ok"
    [] OTHER -> IF ~e.shape THEN "shape"
                ELSE IF ~e.inside THEN "left the domain"
                ELSE IF ~e.kept THEN "the arguments changed"
                ELSE IF \E r \in Range(e.rows) : ~Inside(e.values[r], r) THEN "not one point in each piece"
                ELSE IF ~Problem.fixed THEN "ok"
                ELSE IF ~\E d \in Designs : Same(e.X, Points(d)) THEN "not the points nearest to the targets"
                ELSE IF e.more /\ Least(Range(e.X)) < best - Tol THEN "the search went to a worse design"
                ELSE IF e.last /\ \E d \in Designs : Least(Points(d)) > Least(Range(e.X)) + 3 * Tol THEN "not the best design"
                ELSE "ok"
Init == t \in 1..Len(Traces) /\ n = 1 /\ best = 0 /\ verdict = "ok"
Next == /\ n <= Len(Traces[t]) /\ verdict = "ok"
        /\ verdict' = Clause(Ev)
        /\ n' = IF verdict' = "ok" THEN n + 1 ELSE n
        /\ best' = IF verdict' = "ok" /\ Ev.kind = "design" /\ Problem.fixed THEN Least(Range(Ev.X)) ELSE best
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Done == n > Len(Traces[t]) \/ verdict # "ok"
TypeOK == /\ n \in 1..(Len(Traces[t]) + 1)
          /\ (Done => PrintT("@@" \o ToJson([t |-> t, verdict |-> verdict, at |-> n])))
=============================================================================
