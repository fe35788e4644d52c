----------------------------- MODULE LatinCase -----------------------------
(* The searches for Latin hypercube designs that are to be recorded: boxes whose sides are multiples of each other, sizes and seeds. *)
EXTENDS Integers, Sequences, Json, TLC

CONSTANTS Sizes, Seeds
VARIABLES c
Init == \E m \in 1..4, N \in Sizes, s \in Seeds, kind \in {"box", "uniform", "tensor"} : \E w \in [1..m -> 1..3] : \E lo \in {-2, 0, 5} :
          /\ (m > 2 => w[3] = 1 /\ w[1] <= w[2]) /\ (m = 4 => N <= 3) /\ (kind = "tensor" => m > 1) /\ (kind # "box" => lo = 0 \/ m < 3)
          /\ c = [m |-> m, N |-> N, w |-> w, lo |-> lo, seed |-> s, kind |-> kind]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("@@" \o ToJson(c))
=============================================================================
