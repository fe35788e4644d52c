---------------------------- MODULE RidgeVecTrace ----------------------------
(* Judging polynomial ridge approximations of vector-valued functions. A trace is one problem solved with more and more
   iterations from the same start: the mismatch never grows, every iterate is an orthonormal basis that contains the
   fixed subspace, equivalent problems (outputs in another shape, order or scale, coordinates permuted, another basis
   of the fixed subspace) have equivalent solutions. All quantities are integers (1e-6 relative to the data). *)
EXTENDS Judge

CONSTANT Tol
VARIABLES t, n, best, iters, verdict
vars == <<t, n, best, iters, verdict>>
Ev == Traces[t][n]
Clause(e) ==
  CASE e.kind = "start" -> IF e.obj < 0 THEN "negative" ELSE "ok"
    [] e.kind = "fit" -> IF e.dims # e.want THEN "dimensions"
                         ELSE IF e.orth > Tol THEN "orthonormal"
                         ELSE IF e.fixed > Tol THEN "contains the fixed subspace"
                         ELSE IF ~e.kept THEN "arguments"
                         ELSE IF e.iters < iters THEN "order of the trace"
                         ELSE IF e.obj > best + Tol THEN "improves"
                         ELSE IF e.iters = 0 /\ e.moved > Tol THEN "moved without iterations"
                         ELSE IF e.exact /\ e.obj > 10 * Tol THEN "recovers"
                         ELSE IF e.gap > e.allow THEN "stationary"
                         ELSE "ok"
    [] e.kind = "same" -> IF e.diff > 100 * Tol THEN e.what ELSE "ok"
    [] OTHER -> "unknown event"
Init == t \in 1..Len(Traces) /\ n = 1 /\ best = 2000000000 /\ iters = 0 /\ verdict = "ok"
Next == /\ n <= Len(Traces[t]) /\ verdict = "ok"
        /\ verdict' = Clause(Ev)
        /\ n' = IF verdict' = "ok" THEN n + 1 ELSE n
        /\ best' = IF verdict' = "ok" /\ Ev.kind # "same" /\ Ev.obj < best THEN Ev.obj ELSE best
        /\ iters' = IF verdict' = "ok" /\ Ev.kind = "fit" THEN Ev.iters ELSE iters
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Done == n > Len(Traces[t]) \/ verdict # "ok"
TypeOK == /\ n \in 1..(Len(Traces[t]) + 1)
          /\ (Done => PrintT("@@" \o ToJson([t |-> t, verdict |-> verdict, at |-> n])))
==============================================================================
