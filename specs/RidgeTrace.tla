----------------------------- MODULE RidgeTrace -----------------------------
(* Judging fits of ridge approximations.  A trace is the fit of one data set: the mismatch on the initial subspace, what
   the fit returned, and the same after the data were fitted again from there.  All quantities are integers (1e-6). *)
EXTENDS Judge

CONSTANT Tol
VARIABLES t, n, best, verdict
vars == <<t, n, best, verdict>>
Ev == Traces[t][n]
\* the smallest mismatch seen so far bounds every later one
Clause(e) ==
  CASE e.kind = "start" -> "ok"
    [] e.kind = "fit" -> IF e.orth > Tol THEN "orthonormal"
                         ELSE IF ~e.kept THEN "arguments"
                         ELSE IF e.dims # e.want THEN "dimensions"
                         ELSE IF e.viol > 10 * Tol THEN "bound"
                         ELSE IF e.obj > best + 20 * Tol THEN "improves"
                         ELSE IF e.obj > e.own + 20 * Tol THEN "optimal on its subspace"
                         ELSE IF e.oriented /\ e.slope < -20 * Tol THEN "positive slope"
                         ELSE IF e.exact /\ e.obj > 200 * Tol THEN "recovers"
                         ELSE "ok"
    [] OTHER -> "unknown event"
Init == t \in 1..Len(Traces) /\ n = 1 /\ best = 2000000000 /\ verdict = "ok"
Next == /\ n <= Len(Traces[t]) /\ verdict = "ok"
        /\ verdict' = Clause(Ev)
        /\ n' = IF verdict' = "ok" THEN n + 1 ELSE n
        /\ best' = IF verdict' = "ok" /\ Ev.obj < best THEN Ev.obj ELSE best
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Done == n > Len(Traces[t]) \/ verdict # "ok"
TypeOK == /\ n \in 1..(Len(Traces[t]) + 1)
          /\ (Done => PrintT("@@" \o ToJson([t |-> t, verdict |-> verdict, at |-> n])))
=============================================================================
