------------------------------- MODULE Active -------------------------------
(* Active subspaces.  The estimator is an object: fitting gradients (with weights) replaces whatever it knew.  It then shows
   the matrix C = sum_i w_i g_i g_i', whose eigenvalues are known here through their elementary symmetric functions (trace, sum of
   the principal minors, determinant), its eigenvectors, and an orientation along which the gradients point on average.
   For a quadratic function on a box C is the exact integral of grad f grad f' . *)
EXTENDS RatLin, Json

CONSTANTS Dims, Sizes, Depth
VARIABLES m, hist, ans
vars == <<m, hist, ans>>
Nil == <<>>

Vecs(k) == CASE k = 1 -> {<<2>>, <<-1>>, <<0>>}
             [] k = 2 -> {<<1, 0>>, <<2, -1>>, <<0, 3>>, <<-1, -2>>, <<0, 0>>}
             [] OTHER -> {<<1, 2, -1>>, <<0, 1, 1>>, <<3, 0, 0>>, <<-1, -2, 1>>}
\* weights: none (equal), or given
Ws(n) == {<<>>, [i \in 1..n |-> R(i, 2)], [i \in 1..n |-> IF i = 2 THEN RZ ELSE RI(3)]}
Fits(k) == UNION {[kind : {"grads"}, G : [1..n -> Vecs(k)], w : Ws(n)] : n \in Sizes}

Quads(k) == CASE k = 1 -> {<<<<2>>>>, <<<<0>>>>} 
              [] k = 2 -> {<<<<2, 1>>, <<1, 3>>>>, <<<<1, -1>>, <<-1, 1>>>>}
              [] OTHER -> {<<<<1, 0, 2>>, <<0, 0, 0>>, <<2, 0, -1>>>>}
Lins(k) == {[i \in 1..k |-> IF i = 1 THEN 1 ELSE -1], [i \in 1..k |-> 0]}
\* half widths and centres of the boxes
Boxes(k) == {[h |-> [i \in 1..k |-> i], c |-> [i \in 1..k |-> 0]], [h |-> [i \in 1..k |-> 1], c |-> [i \in 1..k |-> 2 - i]]}
Funs(k) == {[kind |-> "function", Q |-> Q, b |-> b, box |-> B] : Q \in Quads(k), b \in Lins(k), B \in Boxes(k)}

Outer(f) == \* the matrix sum_i f.w[i] f.G[i] f.G[i]'
  LET n == Len(f.G) 
      w == IF f.w = <<>> THEN [i \in 1..n |-> R(1, n)] ELSE f.w
  IN TLCEval([a \in 1..m |-> [b \in 1..m |-> RSumSeq([i \in 1..n |-> RMul(w[i], RI(f.G[i][a] * f.G[i][b]))])]])
Mean(f) == TLCEval([a \in 1..m |-> R(ISum([i \in 1..Len(f.G) |-> f.G[i][a]]), Len(f.G))])
\* functions take coordinates in [-1, 1]^m: gradients there are h times those in the box
Mid(f) == TLCEval([a \in 1..m |-> RI(f.box.h[a] * (IDot(f.Q[a], f.box.c) + f.b[a]))])
Volume == RProdSeq([i \in 1..m |-> RI(2)])
Integral(f) == LET g == Mid(f)
                   Qn(a, k) == f.box.h[a] * f.Q[a][k] * f.box.h[k]
                   V(a, b) == RSumSeq([k \in 1..m |-> R(Qn(a, k) * Qn(b, k), 3)])
               IN TLCEval([a \in 1..m |-> [b \in 1..m |-> RMul(Volume, RAdd(RMul(g[a], g[b]), V(a, b)))]])
Minor(C, a, b) == RSub(RMul(C[a][a], C[b][b]), RMul(C[a][b], C[b][a]))
E1(C) == RSumSeq([a \in 1..m |-> C[a][a]])
E2(C) == CASE m = 1 -> RZ [] m = 2 -> Minor(C, 1, 2) [] OTHER -> RAdd(Minor(C, 1, 2), RAdd(Minor(C, 1, 3), Minor(C, 2, 3)))
E3(C) == IF m < 3 THEN RZ
         ELSE LET D(a, b) == RSub(RMul(C[2][a], C[3][b]), RMul(C[2][b], C[3][a]))
              IN RAdd(RSub(RMul(C[1][1], D(2, 3)), RMul(C[1][2], D(1, 3))), RMul(C[1][3], D(1, 2)))
Observe(f) == LET C == IF f.kind = "grads" THEN Outer(f) ELSE Integral(f)
              IN [C |-> C, mean |-> IF f.kind = "grads" THEN Mean(f) ELSE Mid(f), e |-> <<E1(C), E2(C), E3(C)>>]

Init == m \in Dims /\ hist = <<>> /\ ans = Nil
\* what came before is varied less
Before == [kind : {"grads"}, G : {<<[i \in 1..m |-> 5 - 2 * i], [i \in 1..m |-> i * i]>>}, w : {<<>>}]
Fit(f) == hist' = Append(hist, f) /\ ans' = Observe(f) /\ UNCHANGED m
Next == \/ hist = <<>> /\ \E f \in Fits(m) \cup Funs(m) \cup Before : Fit(f)
        \/ Len(hist) = 1 /\ Depth > 1 /\ hist[1] \in Before /\ \E f \in Fits(m) \cup Funs(m) : Fit(f)
Spec == Init /\ [][Next]_vars

\* C is positive semidefinite, and has the rank of the gradients
Sane == ans # Nil => /\ \A i \in 1..3 : RLe(RZ, ans.e[i])
                     /\ \A a, b \in 1..m : ans.C[a][b] = ans.C[b][a]
                     /\ hist[Len(hist)].kind = "grads" => \A i \in 1..3 : i > Len(hist[Len(hist)].G) => ans.e[i] = RZ
Emit == ans # Nil => PrintT("@@" \o ToJson([m |-> m, hist |-> hist, ans |-> ans]))
=============================================================================
