---------------------------- MODULE RidgeVecCase ----------------------------
(* Configurations of polynomial ridge approximation of vector-valued functions (Gauss-Newton on the Grassmann manifold
   with the linear coefficients projected out), with a part of the subspace fixed or not. The invariants count
   parameters: a subspace of dimension n of R^m containing a fixed one of dimension f has (n - f) (m - n). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Full
VARIABLES q, a
vars == <<q, a>>
Bases == <<"LegendrePolynomialBasis", "ArnoldiPolynomialBasis", "MonomialPolynomialBasis">>
Datas == <<"exact", "noise", "even", "offset">>
Starts == <<"near", "random", "none">>
Shapes == <<"vector", "column", "matrix", "tensor">>
All == {[m |-> m, n |-> n, f |-> f, d |-> d, basis |-> b, data |-> da, start |-> s, shape |-> sh] :
          m \in 1..(IF Full THEN 5 ELSE 4), n \in 1..3, f \in 0..3, d \in 1..(IF Full THEN 4 ELSE 3), b \in 1..3, da \in 1..4, s \in 1..3, sh \in 1..4}
\* a polynomial of degree one is a ridge function of one variable
Possible == {c \in All : c.n <= c.m /\ c.f <= c.n /\ (c.d = 1 => c.n = 1 /\ c.data # 3)}
Hash(c) == c.m + 2 * c.n + 3 * c.f + 5 * c.d + 7 * c.basis + 11 * c.data + 4 * c.start + 13 * c.shape
Chosen == {c \in Possible : Hash(c) % (IF Full THEN 8 ELSE 23) = 0}
Init == q \in Chosen /\ a = [fresh |-> TRUE]
Params(c) == (c.n - c.f) * (c.m - c.n)
Answer(c) == [fresh |-> FALSE, params |-> Params(c), basis |-> Bases[c.basis], data |-> Datas[c.data], start |-> Starts[c.start],
              shape |-> Shapes[c.shape], outs |-> <<1, 1, 3, 4>>[c.shape],
              \* nothing to choose: the answer is the fixed subspace or the whole space
              forced |-> Params(c) = 0]
Next == a.fresh /\ a' = Answer(q) /\ UNCHANGED q
Spec == Init /\ [][Next]_vars
Sane == a.fresh \/ (a.params >= 0 /\ (a.forced <=> (q.n = q.f \/ q.n = q.m)) /\ a.params <= q.n * (q.m - q.n))
Emit == a.fresh \/ PrintT("@@" \o ToJson([q |-> q, a |-> a]))
=============================================================================
