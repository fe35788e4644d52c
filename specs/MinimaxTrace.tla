---------------------------- MODULE MinimaxTrace ----------------------------
(* Searches for designs that leave no point far from all of their points.  A trace consists of searches, one after the other; distances are in
   units of 1/K.
     case      the start of a search: its design, whose fill distance is known exactly
     try       another design that was looked at
     design    what a search returned, after a number of steps; it is no worse than anything that the search has seen, stays in the
               domain, says truly how good it is, and if it is a single point that was searched for to the end it
               is the centre of the smallest ball. *)
EXTENDS RatLin, Judge

CONSTANTS K, Tol
VARIABLES t, n, best, verdict
vars == <<t, n, best, verdict>>
Ev == Traces[t][n]
\* the square of x / K is r, to within rounding and the tolerance
Scaled(r) == ((r[1] * K) \div r[2]) * K
Below(x, r) == x < 2 * Tol \/ LET y == x - 2 * Tol IN y * y <= Scaled(r)
Above(x, r) == LET y == x + 2 * Tol IN y * y >= Scaled(r)
Clause(e) ==
  CASE e.kind = "case" -> IF Below(e.fill, e.exact) /\ Above(e.fill, e.exact) THEN "ok" ELSE "the distance of the start"
    [] e.kind = "try" -> "ok"
    [] OTHER -> IF ~e.shape THEN "shape"
                ELSE IF ~e.inside THEN "left the domain"
                ELSE IF ~e.kept THEN "the arguments changed"
                ELSE IF e.fill > best + Tol THEN "got worse"
                ELSE IF e.claim >= 0 /\ RAbs(e.claim - e.fill) > Tol THEN "misreports the distance"
                ELSE IF e.n = 1 /\ e.whole /\ ~Above(e.fill, e.ball) THEN "better than the smallest ball"
                ELSE IF e.n = 1 /\ e.sharp /\ ~Below(e.fill, e.ball) THEN "not the smallest ball"
                ELSE IF e.most >= 0 /\ e.fill > e.most + Tol THEN "leaves points uncovered"
                ELSE "ok"
Init == t \in 1..Len(Traces) /\ n = 1 /\ best = 1000000 /\ verdict = "ok"
Next == /\ n <= Len(Traces[t]) /\ verdict = "ok"
        /\ verdict' = Clause(Ev)
        /\ n' = IF verdict' = "ok" THEN n + 1 ELSE n
        /\ best' = IF verdict' # "ok" THEN best ELSE IF Ev.kind = "case" THEN (IF Ev.fresh THEN 1000000 ELSE Ev.fill) ELSE IF Ev.fill < best THEN Ev.fill ELSE best
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Done == n > Len(Traces[t]) \/ verdict # "ok"
TypeOK == /\ n \in 1..(Len(Traces[t]) + 1)
          /\ (Done => PrintT("@@" \o ToJson([t |-> t, verdict |-> verdict, at |-> n])))
=============================================================================
