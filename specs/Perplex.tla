------------------------------ MODULE Perplex ------------------------------
(* Choosing a bandwidth beta for a list d of squared distances such that the weights p_i ~ exp(-beta d_i) have a given
   perplexity 2^H, H = - sum p_i log2 p_i.  For integer distances and beta = ln 2 the weights are rational, p_i = 2^(-d_i) / Z,
   and H = log2 Z + sum_i p_i d_i: the perplexity is Z 2^E with Z and E rational.  Asking for it must give back ln 2. *)
EXTENDS RatLin, Json

CONSTANTS MaxN, MaxD
VARIABLES d, ans
vars == <<d, ans>>
Nil == <<>>
Init == ans = Nil /\ \E n \in 2..MaxN : d \in [1..n -> 0..MaxD]
N == Len(d)
Least == CHOOSE t \in {d[i] : i \in 1..N} : \A i \in 1..N : t <= d[i]
Ties == Cardinality({i \in 1..N : d[i] = Least})
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Z == RSumSeq([i \in 1..N |-> R(1, Pow2(d[i]))])
E == RDiv(RSumSeq([i \in 1..N |-> R(d[i], Pow2(d[i]))]), Z)
Constant == \A i \in 1..N : d[i] = Least
Next == /\ ans = Nil /\ ~Constant
        /\ ans' = [z |-> TLCEval(Z), e |-> TLCEval(E), ties |-> Ties]
        /\ UNCHANGED d
Spec == Init /\ [][Next]_vars
\* each weight is at most 1/(number of ties), so the perplexity is at least that; sum p d is at least the least distance
Sane == ans # Nil => /\ RLe(RI(Least), ans.e) /\ RLe(R(ans.ties, Pow2(Least)), ans.z)
Emit == ans # Nil => PrintT("@@" \o ToJson([d |-> d, z |-> ans.z, e |-> ans.e, ties |-> ans.ties]))
=============================================================================
