----------------------------- MODULE GaussNewton -----------------------------
(* The Gauss-Newton iteration with all of its parts scripted.  Iterates are numbered 0, 1, 2, ...; iterate k has residual r[k]
   (one number) and Jacobian j[k], so that the gradient there is r[k] j[k].  In every iteration the solver proposes a
   direction, which is replaced with the negative gradient if it does not point downhill, and the line search moves to the next
   iterate, which is accepted exactly if its residual is smaller.  Directions and gradients are in units of 1/64. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Maxiter
\* residuals, Jacobians and directions to choose from
Nan == 99999
Rs == {8, 6, -4, 0}
Js == IF Maxiter > 2 THEN {1, -2} ELSE {1, -2, 0}
Ds == {64, -48, 0, Nan}
VARIABLES maxiter,                \* the bound of the caller
          tol,                    \* tolerance on the gradient, relative to the first one, in 1/64
          k,                      \* iterations made
          x,                      \* the current iterate
          r, j,                   \* residuals and Jacobians of all points visited so far, by number
          d,                      \* directions proposed
          calls,                  \* what the line search was asked: <<point, gradient, direction>>
          phase, info
vars == <<maxiter, tol, k, x, r, j, d, calls, phase, info>>

Abs(n) == IF n < 0 THEN -n ELSE n
Grad(p) == r[p + 1] * j[p + 1]
\* tolerances: on the gradient tol/64 of the first, on the direction 1/2
Small(g) == 64 * Abs(g) < tol * Abs(Grad(0))
Borderline(g) == 64 * Abs(g) = tol * Abs(Grad(0))

Init == /\ maxiter \in 1..Maxiter /\ tol \in {8, 32} /\ k = 0 /\ x = 0
        /\ r \in {<<a>> : a \in Rs} /\ j \in {<<a>> : a \in Js} /\ r[1] # 0 /\ j[1] # 0
        /\ d = <<>> /\ calls = <<>> /\ phase = "solve" /\ info = -1
\* one iteration: the solver proposes p; the line search arrives at a point with residual a and Jacobian b
Iterate(p, a, b) ==
  /\ phase = "solve" /\ k < maxiter
  /\ LET g == Grad(x)
         q == IF p # Nan /\ g * p >= 0 THEN -64 * g ELSE p
         better == Abs(a) < Abs(r[x + 1])
     IN /\ k' = k + 1
        /\ d' = Append(d, p)
        /\ IF p = Nan
           THEN /\ phase' = "error" /\ info' = -2 /\ UNCHANGED <<x, r, j, calls>>
           ELSE /\ calls' = Append(calls, [at |-> x, g |-> g, p |-> q])
                /\ r' = Append(r, a) /\ j' = Append(j, b)
                /\ x' = IF better THEN k + 1 ELSE x
                /\ LET gn == IF better THEN a * b ELSE g
                       stop1 == 64 * Abs(gn) < tol * Abs(Grad(0))
                       stop2 == Abs(q) < 32
                   IN /\ ~(64 * Abs(gn) = tol * Abs(Grad(0))) 
                      /\ phase' = IF stop1 \/ stop2 \/ ~better \/ k + 1 = maxiter THEN "done" ELSE "solve"
                      /\ info' = IF stop1 THEN 0 ELSE IF stop2 THEN 1 ELSE IF k + 1 = maxiter THEN 2 ELSE IF ~better THEN 3 ELSE -1
  /\ UNCHANGED <<maxiter, tol>>
Next == \E p \in Ds, a \in Rs, b \in Js : Iterate(p, a, b)
Spec == Init /\ [][Next]_vars

\* the iteration is monotone and ends; what it reports is true
Monotone == \A i \in 0..x : i = 0 \/ x = 0 \/ Abs(r[x + 1]) <= Abs(r[1])
Ends == k <= maxiter /\ (k = maxiter => phase # "solve")
Truthful == phase = "done" /\ info = 0 => Small(Grad(x))
Descent == \A i \in 1..Len(calls) : calls[i].g * calls[i].p < 0 \/ calls[i].g = 0
Decreases == [][Abs(r'[x' + 1]) <= Abs(r[x + 1])]_vars
Emit == phase \in {"done", "error"} => PrintT("@@" \o ToJson([maxiter |-> maxiter, tol |-> tol, r |-> r, j |-> j, d |-> d, calls |-> calls,
                                                              x |-> x, info |-> info, k |-> k]))
=============================================================================
