------------------------------- MODULE Armijo -------------------------------
(* Backtracking line search.  The trial steps are 1, b, b^2, ... with b = 1/B; the residual norm at each of them, or that the
   step is not possible (Bad), is chosen freely; the first trial with
       norm < norm0 + step * ftol * slope          (ftol = 1/4; norms in units of 1/64)
   is taken, and without one the search stays where it is. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxTrials, Norms
Bad == -1
Nan == -2
VARIABLES maxiter, B, slope, norm0, trials, phase
vars == <<maxiter, B, slope, norm0, trials, phase>>
RECURSIVE Pow(_, _)
Pow(b, i) == IF i = 0 THEN 1 ELSE b * Pow(b, i - 1)
\* trial i (from 0): 64 norm < 64 norm0 + (1/B^i) (1/4) slope, everything times 4 B^i
Ok(i, v) == v >= 0 /\ 4 * Pow(B, i) * v < 4 * Pow(B, i) * norm0 + slope
Init == /\ maxiter \in 1..MaxTrials /\ B \in {2, 4} /\ slope \in {0, -64, -256} /\ norm0 \in {64, 128} /\ trials = <<>> /\ phase = "search"
Trial(v) == /\ phase = "search"
            /\ trials' = Append(trials, v)
            /\ phase' = IF Ok(Len(trials), v) THEN "found" ELSE IF Len(trials) + 1 = maxiter THEN "failed" ELSE "search"
            /\ UNCHANGED <<maxiter, B, slope, norm0>>
Next == \E v \in Norms \cup {Bad, Nan} : Trial(v)
Spec == Init /\ [][Next]_vars
Sane == /\ (phase = "found" => trials[Len(trials)] < norm0)
        /\ (phase = "failed" => \A i \in 1..Len(trials) : ~Ok(i - 1, trials[i]))
Emit == phase # "search" => PrintT("@@" \o ToJson([maxiter |-> maxiter, B |-> B, slope |-> slope, norm0 |-> norm0, trials |-> trials,
                                                   found |-> (phase = "found"), step |-> (IF phase = "found" THEN <<1, Pow(B, Len(trials) - 1)>> ELSE <<0, 1>>)]))
=============================================================================
