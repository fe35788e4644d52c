------------------------------ MODULE DomHist ------------------------------
(* A domain is a value: whatever has been asked of it before, each question is answered as if it was the first one.
   The state has the caches an implementation may fill; the answers do not depend on them. *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANT Len1
Kinds == {"corner1", "corner2", "closest", "lsq", "extent", "isinside", "normalize", "normalized_domain", "is_empty", "is_point",
          "is_unbounded", "sample", "sample1", "sweep", "random_direction", "sample_boundary", "grid", "add", "copy", "mul", "and",
          "volume", "quadrature", "center", "intrinsic", "points"}
VARIABLES hist, caches
vars == <<hist, caches>>
Fills(q) == CASE q = "corner1" \/ q = "corner2" -> {"nonempty", "bounds"}
              [] q = "closest" \/ q = "lsq" -> {"empty", "bounds"}
              [] q \in {"normalize", "normalized_domain"} -> {"bounds"}
              [] q \in {"is_empty", "is_point", "is_unbounded", "volume"} -> {q}
              [] q \in {"sample", "sample1", "sweep", "quadrature"} -> {"walk", "is_point", "center"}
              [] q \in {"extent", "random_direction"} -> {"equalities"}
              [] q \in {"center", "sample_boundary"} -> {"center"}
              [] OTHER -> {}
Init == hist = <<>> /\ caches = {}
Ask(q) == Len(hist) < Len1 /\ hist' = Append(hist, q) /\ caches' = caches \cup Fills(q)
Next == \E q \in Kinds : Ask(q)
Spec == Init /\ [][Next]_vars
Monotone == [][caches \subseteq caches']_vars
Emit == Len(hist) = Len1 => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
