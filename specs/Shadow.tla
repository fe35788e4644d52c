------------------------------- MODULE Shadow -------------------------------
(* What shadow plots show: the coordinates u'x against the values, and the envelope: the piecewise linear functions on a uniform
   grid over the coordinates that bound the values from above (below) with the least (greatest) sum of nodal values.  The sums
   are optima of linear programs, attained where as many data as there are nodes touch the envelope. *)
EXTENDS RatLin, FiniteSetsExt, Json

CONSTANTS Vals, Grids
VARIABLES c, ans
vars == <<c, ans>>
Nil == <<>>

\* points and u = w / |w| with whole |w|; the coordinates are w'x / |w|
Data == { [X |-> <<<<0>>, <<2>>, <<1>>, <<3>>>>, w |-> <<1>>, n |-> 1],
          [X |-> <<<<0>>, <<4>>, <<8>>, <<3>>, <<5>>, <<7>>>>, w |-> <<-1>>, n |-> 1],
          [X |-> <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, -1>>>>, w |-> <<3, 4>>, n |-> 5],
          [X |-> <<<<2, 1, 0>>, <<0, 1, 1>>, <<1, -1, 1>>, <<0, 0, 2>>>>, w |-> <<1, 2, -2>>, n |-> 3] }
Patterns(n) == IF n <= 4 THEN [1..n -> Vals] ELSE {[i \in 1..n |-> (i * i * p + q * i) % 5] : p \in 1..6, q \in 0..1}
Init == ans = Nil /\ \E D \in Data : c \in [D : {D}, f : Patterns(Len(D.X)), g : Grids]
N == Len(c.D.X)
S(i) == IDot(c.D.w, c.D.X[i])
Lo == CHOOSE s \in {S(i) : i \in 1..N} : \A i \in 1..N : s <= S(i)
Hi == CHOOSE s \in {S(i) : i \in 1..N} : \A i \in 1..N : S(i) <= s
Node(k) == RAdd(RI(Lo), R((k - 1) * (Hi - Lo), c.g - 1))
H == R(Hi - Lo, c.g - 1)
\* the weight of node k at datum i
Hat(i, k) == LET t == RDiv(RAbsV(RSub(RI(S(i)), Node(k))), H) IN IF RLt(t, ROne) THEN RSub(ROne, t) ELSE RZ
Row(i) == [k \in 1..c.g |-> Hat(i, k)]
\* every node is held by some datum
Held == \A k \in 1..c.g : \E i \in 1..N : Hat(i, k) # RZ
Pick(T) == CHOOSE s \in [1..c.g -> T] : {s[k] : k \in 1..c.g} = T /\ \A a, b \in 1..c.g : a < b => s[a] < s[b]
Corner(T, f) == LET s == Pick(T) IN RSolve([k \in 1..c.g |-> Row(s[k])], [k \in 1..c.g |-> RI(f[s[k]])])
\* multipliers: the sum of the nodal values as a combination of the data that touch
Dual(T) == LET s == Pick(T) IN RSolve([k \in 1..c.g |-> [j \in 1..c.g |-> Row(s[j])[k]]], [k \in 1..c.g |-> ROne])
Optimal(T) == LET d == Dual(T) IN d.ok /\ \A k \in 1..c.g : RLe(RZ, d.z[k])
Above(v, f) == \A i \in 1..N : RLe(RI(f[i]), RDot(Row(i), v))
Corners(f) == IF c.g > N THEN {} ELSE {v \in {Corner(T, f) : T \in {U \in kSubset(c.g, 1..N) : Optimal(U)}} : v.ok /\ Above(v.z, f)}
Neg(f) == [i \in 1..N |-> -f[i]]
Best(f) == RSumSeq((CHOOSE v \in Corners(f) : TRUE).z)
Ok == Held /\ Corners(c.f) # {} /\ Corners(Neg(c.f)) # {}
Bests(f) == {RSumSeq(v.z) : v \in Corners(f)}
Next == /\ ans = Nil
        /\ ans' = [ok |-> Ok, s |-> TLCEval([i \in 1..N |-> S(i)]), rows |-> TLCEval([i \in 1..N |-> Row(i)]),
                   upper |-> IF Ok THEN TLCEval(Best(c.f)) ELSE RZ, lower |-> IF Ok THEN TLCEval(RNeg(Best(Neg(c.f)))) ELSE RZ]
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
\* the hats are a partition of unity and reproduce the coordinate; the envelope has an inside
Sane == ans # Nil => /\ \A i \in 1..N : RSumSeq(ans.rows[i]) = ROne /\ RDot(ans.rows[i], [k \in 1..c.g |-> Node(k)]) = RI(S(i))
                     /\ ans.ok => Cardinality(Bests(c.f)) = 1 /\ RLe(ans.lower, ans.upper)
Emit == ans # Nil => PrintT("@@" \o ToJson([X |-> c.D.X, w |-> c.D.w, n |-> c.D.n, f |-> c.f, g |-> c.g, ans |-> ans]))
=============================================================================
