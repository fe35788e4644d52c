------------------------------- MODULE FunMod -------------------------------
(* A user function posed on a domain and wrapped so that it lives on the normalized domain: its values are those of the
   user's function at the unnormalized points, its gradients obey the chain rule.  One state per configuration. *)
EXTENDS DomCat

CONSTANT Full
VARIABLES cfg, ans
vars == <<cfg, ans>>
Nil == <<>>

\* domains together with the exact range of each coordinate (used by the normalization)
D3 == Mul(Bx1, Bx2)
Doms == <<
  [e |-> Bx1, r |-> <<<<2, 6>>>>],
  [e |-> Bx2, r |-> <<<<2, 6>>, <<-1, 1>>>>],
  [e |-> B("box", [Free(2) EXCEPT !.lb = <<2, 3>>, !.ub = <<7, 3>>]), r |-> <<<<2, 7>>, <<3, 3>>>>],
  [e |-> B("box", [Free(2) EXCEPT !.lb = <<NINF, 0>>, !.ub = <<3, 4>>]), r |-> <<<<NINF, 3>>, <<0, 4>>>>],
  [e |-> Tri, r |-> <<<<1, 7>>, <<1, 4>>>>],
  [e |-> D3, r |-> <<<<2, 6>>, <<2, 6>>, <<-1, 1>>>>],
  [e |-> B("linquad", [Free(2) EXCEPT !.Q = <<Quad(Id(2), <<4, 2>>, 5)>>]), r |-> <<<<-1, 9>>, <<-3, 7>>>>],
  [e |-> Hul, r |-> <<<<1, 7>>, <<1, 5>>>>],
  [e |-> B("uniform", [Free(3) EXCEPT !.lb = <<0, -3, 5>>, !.ub = <<1, 3, 9>>]), r |-> <<<<0, 1>>, <<-3, 3>>, <<5, 9>>>>]
>>
Fin(r) == r[1] # NINF /\ r[2] # INF
Slope(r) == IF Fin(r) /\ r[1] # r[2] THEN R(r[2] - r[1], 2) ELSE ROne
Cen(r) == IF Fin(r) THEN R(r[1] + r[2], 2) ELSE RZ
Un(r, xn) == [i \in 1..Len(r) |-> RAdd(RMul(Slope(r[i]), xn[i]), Cen(r[i]))]

\* outputs: g(x; s, t) = s (a . x) + sum q_i x_i^2 + e x_1 x_m + t + c
Out(a, q, e, c) == [a |-> a, q |-> q, e |-> e, c |-> c]
Pad(v, m) == [i \in 1..m |-> v[i]]
O1 == Out(<<1, -2, 3>>, <<0, 1, 0>>, 0, 4)
O2 == Out(<<2, 1, -1>>, <<-1, 2, 1>>, 1, 0)
O3 == Out(<<0, 1, 1>>, <<3, 0, -2>>, -2, 7)
O4 == Out(<<5, 0, 0>>, <<0, 0, 0>>, 0, -1)
\* each function of the list has one or more outputs
FunSets == << <<<<O1>>>>, <<<<O2, O3>>>>, <<<<O1>>, <<O2>>>>, <<<<O3>>, <<O4, O1>>>>, <<<<O2>>, <<O3>>, <<O4>>>>, <<<<O1, O2, O3>>>> >>
Kws == << [s |-> 1, t |-> 0, has |-> Nil], [s |-> 2, t |-> 0, has |-> <<"s">>], [s |-> -3, t |-> 5, has |-> <<"s", "t">>] >>
Val(o, m, x, s, t) == LET a == RVec(Pad(o.a, m)) q == RVec(Pad(o.q, m))
   IN RAdd(RAdd(RMul(RI(s), RDot(a, x)), RDot(q, [i \in 1..m |-> RSq(x[i])])),
           RAdd(RMul(RI(o.e), RMul(x[1], x[m])), RI(t + o.c)))
Grad(o, m, x, s) == LET a == RVec(Pad(o.a, m)) q == RVec(Pad(o.q, m))
   IN [i \in 1..m |-> RAdd(RAdd(RMul(RI(s), a[i]), RMul(RMul(RI(2), q[i]), x[i])),
        RMul(RI(o.e), RAdd(IF i = 1 THEN x[m] ELSE RZ, IF i = m THEN x[1] ELSE RZ)))]
Has(k, n) == \E i \in 1..Len(Kws[k].has) : Kws[k].has[i] = n
\* arguments of the call override those given at construction
Eff(kd, kc, n) == IF Has(kc, n) THEN Kws[kc][n] ELSE IF Has(kd, n) THEN Kws[kd][n] ELSE Kws[1][n]

Points(m) == << [i \in 1..m |-> RZ], [i \in 1..m |-> R(1 - 2 * (i % 2), 2)], [i \in 1..m |-> R(i, 4)], [i \in 1..m |-> RI(IF i = 2 THEN 1 ELSE -1)] >>
RECURSIVE CatS(_)
CatS(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o CatS(Tail(s))

Configs == [dom : 1..Len(Doms), fs : 1..Len(FunSets), vec : BOOLEAN, mode : {"none", "grads", "return_grad", "fd"}, kd : 1..Len(Kws), kc : 1..Len(Kws)]
Relevant(g) == Full \/ (g.kd + g.kc + g.dom) % 3 = 0 \/ (g.dom \in {2, 5} /\ g.kd = g.kc)
Answer == LET dm == Doms[cfg.dom] m == dm.e.d.m outs == CatS(FunSets[cfg.fs])
              s == Eff(cfg.kd, cfg.kc, "s") t == Eff(cfg.kd, cfg.kc, "t")
              P == Points(m)
              X == [k \in 1..Len(P) |-> Un(dm.r, P[k])]
          IN [x |-> X, val |-> [k \in 1..Len(P) |-> [j \in 1..Len(outs) |-> Val(outs[j], m, X[k], s, t)]],
              grad |-> [k \in 1..Len(P) |-> [j \in 1..Len(outs) |-> LET g == Grad(outs[j], m, X[k], s) IN [i \in 1..m |-> RMul(Slope(dm.r[i]), g[i])]]]]
Init == cfg \in {g \in Configs : Relevant(g)} /\ ans = Nil
Ask == ans = Nil /\ ans' = Answer /\ UNCHANGED cfg
Next == Ask
Spec == Init /\ [][Next]_vars

\* the model's gradient is the derivative of its value: exact for quadratics through central differences
Sane == ans # Nil =>
  LET dm == Doms[cfg.dom] m == dm.e.d.m outs == CatS(FunSets[cfg.fs]) s == Eff(cfg.kd, cfg.kc, "s") t == Eff(cfg.kd, cfg.kc, "t")
      P == Points(m)
      Sh(p, i, h) == [p EXCEPT ![i] = RAdd(@, h)]
      V(p, j) == Val(outs[j], m, Un(dm.r, p), s, t)
  IN \A k \in 1..Len(P), j \in 1..Len(outs), i \in 1..m :
       ans.grad[k][j][i] = RMul(R(1, 2), RSub(V(Sh(P[k], i, ROne), j), V(Sh(P[k], i, RI(-1)), j)))
Emit == ans # Nil => PrintT("@@" \o ToJson([hist |-> Doms[cfg.dom].e.hist, m |-> Doms[cfg.dom].e.d.m, exact |-> cfg.dom # 7, fs |-> FunSets[cfg.fs], vec |-> cfg.vec, mode |-> cfg.mode,
    kd |-> Kws[cfg.kd], kc |-> Kws[cfg.kc], pts |-> Points(Doms[cfg.dom].e.d.m), x |-> ans.x, val |-> ans.val, grad |-> ans.grad]))
=============================================================================
