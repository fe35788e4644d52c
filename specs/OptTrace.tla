------------------------------ MODULE OptTrace ------------------------------
(* Runs of the solvers, judged step by step.  Every event carries the objective and the violation of the constraints in units of
   1e-6 relative to the size of the problem.
     start   the starting point
     eval    the objective was evaluated (inside: in the domain)
     iter    a derivative was evaluated, that is, a point was accepted
     end     what was returned: val is the exact optimum if it is known, which is only
             promised to be found (sharp) if the problem is convex and its constraints are linear
   The first deviation is reported. *)
EXTENDS Judge

CONSTANTS Tol,        \* accuracy of comparisons of what was computed twice
          OptTol      \* accuracy to which the solver has to find a known optimum
VARIABLES t, n, best, viol, verdict
vars == <<t, n, best, viol, verdict>>
Ev == Traces[t][n]
Max(a, b) == IF a < b THEN b ELSE a
Clause(e) ==
  CASE e.kind = "start" -> IF n = 1 THEN "ok" ELSE "start"
    [] e.kind = "eval" -> IF e.inside THEN "ok" ELSE "evaluated outside of the domain"
    [] e.kind = "iter" -> IF ~e.inside THEN "left the domain"
                          ELSE IF e.obj > best + Tol THEN "got worse"
                          ELSE IF e.viol > Max(viol, 100 * Tol) + Tol THEN "violates a constraint"
                          ELSE "ok"
    [] e.kind = "end" -> IF ~e.inside THEN "returned a point outside of the domain"
                         ELSE IF e.obj > best + Tol THEN "returned a worse point"
                         ELSE IF e.viol > Max(viol, 100 * Tol) + Tol THEN "returned point violates a constraint"
                         ELSE IF e.known /\ e.sharp /\ e.obj > e.val + OptTol THEN "not optimal"
                         ELSE IF e.known /\ e.obj < e.val - OptTol THEN "better than the optimum"
                         ELSE IF ~e.kept THEN "changed its arguments"
                         ELSE IF ~e.same THEN "differs when verbose"
                         ELSE IF ~e.honest THEN "misreports why it stopped"
                         ELSE "ok"
    [] OTHER -> "unknown event"
Init == t \in 1..Len(Traces) /\ n = 1 /\ best = 2000000000 /\ viol = 0 /\ verdict = "ok"
Next == /\ n <= Len(Traces[t]) /\ verdict = "ok"
        /\ verdict' = Clause(Ev)
        /\ n' = IF verdict' = "ok" THEN n + 1 ELSE n
        /\ best' = IF verdict' = "ok" /\ Ev.kind # "eval" /\ Ev.obj < best THEN Ev.obj ELSE best
        /\ viol' = IF Ev.kind = "start" THEN Ev.viol ELSE viol
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
\* a trace is complete only if it ends with what was returned
Final == IF verdict # "ok" THEN verdict ELSE IF Traces[t] # <<>> /\ Traces[t][Len(Traces[t])].kind = "end" THEN "ok" ELSE "incomplete"
Done == n > Len(Traces[t]) \/ verdict # "ok"
TypeOK == /\ n \in 1..(Len(Traces[t]) + 1)
          /\ (Done => PrintT("@@" \o ToJson([t |-> t, verdict |-> Final, at |-> n])))
=============================================================================
