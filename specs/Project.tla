------------------------------ MODULE Project ------------------------------
(* Designs with good projections.  Several directions v_1, v_2, ...; along each, N targets cut the range of the domain in N pieces, the
   points that are nearest to each target.  A design takes one point from each piece of every direction: a combination of
   pieces, the cell, has one as near as possible to the targets, unless no point of the domain is there.
   The targets are spaced from end to end ("ends") or the centres of pieces of the same length ("centres"). *)
EXTENDS Vor

CONSTANTS Which, Sizes, Share
VARIABLES c, ans
vars == <<c, ans>>
Nil == <<>>
Rows(m) == {w \in [1..m -> -1..2] : w # [i \in 1..m |-> 0]}
Unit(m) == [i \in 1..m |-> Axis(m, i, 1)]
Hash(k, V, n) == (ISum([i \in 1..Len(V) |-> (ISum([j \in 1..Len(V[i]) |-> V[i][j] * (7 * j + 3)]) + 40) * (ISum([j \in 1..Len(V[i]) |-> V[i][j] * (5 * j - 2)]) + 40) * (2 * i + 1)]) + 17 * k + 5 * n) % 4001
Regular(V) == RSolve([i \in 1..Len(V) |-> [j \in 1..Len(V) |-> RI(IDot(V[i], V[j]))]], [i \in 1..Len(V) |-> RZ]).ok
Sequences(m) == UNION {[1..r -> Rows(m)] : r \in 1..2} \cup {Unit(m)}
Init == /\ ans = Nil
        /\ \E k \in Which : \E n \in Sizes : \E V \in Sequences(Domains[k].m) : \E kind \in {"ends", "centres"} :
             /\ V = Unit(Domains[k].m) \/ (Hash(k, V, n) % (IF Domains[k].m = 3 THEN 12 * Share ELSE Share) = 0 /\ (n + V[1][1] + (IF kind = "ends" THEN 1 ELSE 0)) % 2 = 0)
             /\ (Len(V) = 3 => n <= 2) /\ (n = 1 => kind = "centres")
             /\ Regular(V)
             /\ c = [k |-> k, n |-> n, V |-> V, kind |-> kind]
D == Domains[c.k]
m == D.m
N == c.n
V == c.V
Polytope(C) == LET s(T) == SetToSeq(T) IN {v.z : v \in {v \in {RSolve([i \in 1..m |-> s(T)[i].a], [i \in 1..m |-> s(T)[i].b]) : T \in kSubset(m, C)} : v.ok /\ \A f \in C : RLe(RDot(f.a, v.z), f.b)}}
Faces == {[a |-> RVec(D.faces[i].a), b |-> RI(D.faces[i].b)] : i \in 1..Len(D.faces)}
Corners == TLCEval(Polytope(Faces))
Lo(v) == RMinSet({RDot(RVec(v), x) : x \in Corners})
Hi(v) == RMaxSet({RDot(RVec(v), x) : x \in Corners})
At(v, a, b) == RAdd(Lo(v), RMul(R(a, b), RSub(Hi(v), Lo(v))))
Target(v, i) == IF c.kind = "ends" THEN (IF N = 1 THEN Lo(v) ELSE At(v, i - 1, N - 1)) ELSE At(v, 2 * i - 1, 2 * N)
Half(x, y) == RMul(R(1, 2), RAdd(x, y))
Bound(v, i) == IF i = 0 THEN Lo(v) ELSE IF i = N THEN Hi(v) ELSE Half(Target(v, i), Target(v, i + 1))
\* the cell with the pieces p[1] of the first direction, ...
Cell(p) == Faces \cup {[a |-> RVec(V[r]), b |-> Bound(V[r], p[r])] : r \in {r \in 1..Len(V) : p[r] < N}}
                 \cup {[a |-> RVScale(RI(-1), RVec(V[r])), b |-> RNeg(Bound(V[r], p[r] - 1))] : r \in {r \in 1..Len(V) : p[r] > 1}}
Off(p, x) == RSumSeq([r \in 1..Len(V) |-> RSq(RSub(RDot(RVec(V[r]), x), Target(V[r], p[r])))])
\* the point of the cell that is nearest to the targets, where that is unique: for each set of tight constraints, the conditions of Lagrange
Lagrange(p, T) ==
  LET s == SetToSeq(T) G == IGram(V, V)
      sol == RSolve([i \in 1..(m + Len(s)) |-> [j \in 1..(m + Len(s)) |-> IF i <= m THEN (IF j <= m THEN RI(G[i][j]) ELSE s[j - m].a[i]) ELSE (IF j <= m THEN s[i - m].a[j] ELSE RZ)]],
                    [i \in 1..(m + Len(s)) |-> IF i <= m THEN RSumSeq([r \in 1..Len(V) |-> RMul(RI(V[r][i]), Target(V[r], p[r]))]) ELSE s[i - m].b])
  IN [ok |-> sol.ok, z |-> IF sol.ok THEN SubSeq(sol.z, 1, m) ELSE <<>>]
Inside(C, x) == \A f \in C : RLe(RDot(f.a, x), f.b)
Nearest(p, C) == LET free == Lagrange(p, {})
                     all == {t.z : t \in {t \in {Lagrange(p, T) : T \in UNION {kSubset(j, C) : j \in 1..m}} : t.ok /\ Inside(C, t.z)}}
                     best == RMinSet({Off(p, x) : x \in all})
                 IN IF Inside(C, free.z) THEN free.z ELSE CHOOSE x \in all : Off(p, x) = best
Fixed == Len(V) = m
Full(C, P) == \A f \in C : \E x \in P : RLt(RDot(f.a, x), f.b)
Answer(p) == LET C == TLCEval(Cell(p)) P == TLCEval(Polytope(C))
             IN [p |-> p, ok |-> P # {}, full |-> P # {} /\ Full(C, P), x |-> IF P = {} \/ ~Fixed THEN <<>> ELSE TLCEval(Nearest(p, C))]
Next == /\ ans = Nil /\ UNCHANGED c
        /\ ans' = [cells |-> TLCEval({Answer(p) : p \in [1..Len(V) -> 1..N]}),
                   bounds |-> TLCEval([r \in 1..Len(V) |-> TLCEval([i \in 0..N |-> Bound(V[r], i)])]),
                   targets |-> TLCEval([r \in 1..Len(V) |-> TLCEval([i \in 1..N |-> Target(V[r], i)])])]
Spec == Init /\ [][Next]_vars
\* one direction can always be cut; the pieces hold their targets and are in order; points are as near as possible
Sane == ans # Nil =>
  /\ \A r \in 1..Len(V) : \A i \in 1..N : RLe(ans.bounds[r][i - 1], ans.targets[r][i]) /\ RLe(ans.targets[r][i], ans.bounds[r][i])
  /\ \A r \in 1..Len(V) : \A i \in 1..N : \E a \in ans.cells : a.ok /\ a.p[r] = i
  /\ \A a \in ans.cells : a.ok /\ Fixed => /\ InDom(D.faces, a.x)
                                           /\ \A r \in 1..Len(V) : RLe(ans.bounds[r][a.p[r] - 1], RDot(RVec(V[r]), a.x)) /\ RLe(RDot(RVec(V[r]), a.x), ans.bounds[r][a.p[r]])
                                           /\ \A x \in Polytope(Cell(a.p)) : RLe(Off(a.p, a.x), Off(a.p, x))
\* (cells without an interior are not looked at)
Emit == ans # Nil /\ (\A a \in ans.cells : a.ok => a.full) =>
  PrintT("@@" \o ToJson([k |-> c.k, dom |-> Describe(D), V |-> V, N |-> N, fixed |-> Fixed, kind |-> c.kind, cells |-> ans.cells,
                         bounds |-> [r \in 1..Len(V) |-> [i \in 1..(N + 1) |-> ans.bounds[r][i - 1]]], targets |-> ans.targets]))
=============================================================================
