------------------------------- MODULE DomOpt -------------------------------
(* What the optimization queries of a polyhedral domain must return, exactly: one state per domain and query. *)
EXTENDS DomCat

CONSTANT Deep
VARIABLES c, qry, ans
vars == <<c, qry, ans>>

Dirs(m) == CASE m = 1 -> {<<1>>, <<-1>>, <<3>>}
             [] m = 2 -> {<<1, 0>>, <<0, -1>>, <<1, 1>>, <<-2, 1>>, <<-1, -3>>} \cup (IF Deep THEN (-2..2) \X (-2..2) ELSE {})
             [] OTHER -> {<<1, 0, 0>>, <<0, 0, -1>>, <<1, 2, 1>>, <<-1, 1, -2>>} \cup (IF Deep THEN {<<x, y, z>> : x \in -1..1, y \in -1..1, z \in -1..1} ELSE {})
Pts(m) == CASE m = 1 -> {<<0>>, <<4>>, <<9>>, <<-6>>}
            [] m = 2 -> {<<0, 0>>, <<4, 2>>, <<9, -3>>, <<-2, 7>>} \cup (IF Deep THEN {<<x, y>> : x \in {-3, 1, 3, 8}, y \in {-4, 0, 3, 6}} ELSE {})
            [] OTHER -> {<<0, 0, 0>>, <<5, 2, -1>>, <<-1, 6, 3>>}
Mats(m) == CASE m = 1 -> {<<<<1>>>>, <<<<3>>>>}
             [] m = 2 -> {Id(2), <<<<2, 1>>, <<0, 1>>>>, <<<<1, 0>>, <<1, 1>>, <<0, 2>>>>, <<<<1, 2>>>>} \cup (IF Deep THEN {<<<<1, -1>>, <<2, 1>>>>, <<<<3, 0>>, <<0, 1>>>>} ELSE {})
             [] OTHER -> {Id(3), <<<<1, 0, 1>>, <<0, 1, 0>>, <<0, 0, 2>>>>, <<<<1, 1, 0>>>>}
Rhs(n) == {[i \in 1..n |-> 3 * i - 4], [i \in 1..n |-> 5 - 2 * i]}
\* the last exported constant keeps the sets of records homogeneous
Nil == <<>>
Queries(m) ==
       {[kind |-> "corner", p |-> p, x0 |-> Nil, L |-> Nil, b |-> Nil] : p \in Dirs(m) \ {Zeros(m)}}
  \cup {[kind |-> "closest", p |-> Nil, x0 |-> x, L |-> L, b |-> Nil] : x \in Pts(m), L \in Mats(m)}
  \cup {[kind |-> "closest", p |-> Nil, x0 |-> x, L |-> Nil, b |-> Nil] : x \in Pts(m)}
  \cup UNION {{[kind |-> "lsq", p |-> Nil, x0 |-> Nil, L |-> L, b |-> b] : b \in Rhs(Len(L))} : L \in Mats(m)}
  \cup {[kind |-> "shape", p |-> Nil, x0 |-> Nil, L |-> Nil, b |-> Nil]}

D == PolyCat[c].d
Lc == IF qry.L = Nil THEN Id(D.m) ELSE qry.L
Rc == IF qry.kind = "lsq" THEN qry.b ELSE [i \in 1..Len(Lc) |-> IDot(Lc[i], qry.x0)]

Answer ==
  LET F == FacePts(D)
      rays == {r \in UNION {{r, NegV(r)} : r \in Rays(D)} \cup {Zeros(D.m)} : IsRay(D, r)}
      hasray == \E r \in rays : r # Zeros(D.m)
      unbd(p) == \E r \in rays \cup (IF IsRay(D, p) THEN {p} ELSE {}) : IDot(p, r) > 0
      some == F # {}
      status == IF ~some THEN "empty" ELSE IF qry.kind = "corner" /\ unbd(qry.p) THEN "unbounded" ELSE "ok"
      \* with a rank deficient L the minimizers may form a ray: no face has a regular KKT system
      regular == qry.kind \in {"corner", "shape"} \/ Len(Lc) >= D.m \/ ~hasray
      range(i) == LET e == Unit(D.m, i)
                  IN <<IF D.lb[i] # NINF THEN RI(D.lb[i]) ELSE IF unbd(NegV(e)) THEN RI(NINF) ELSE RNeg(MaxLin(F, NegV(e))),
                       IF D.ub[i] # INF THEN RI(D.ub[i]) ELSE IF unbd(e) THEN RI(INF) ELSE MaxLin(F, e)>>
  IN [status |-> status, regular |-> regular, faces |-> F, empty |-> ~some, unb |-> some /\ hasray,
      point |-> some /\ ~hasray /\ Cardinality(F) = 1,
      range |-> IF qry.kind = "shape" /\ some THEN [i \in 1..D.m |-> range(i)] ELSE <<>>,
      val |-> CASE status # "ok" \/ ~regular -> RZ
                [] qry.kind = "corner" -> MaxLin(F, qry.p)
                [] qry.kind \in {"closest", "lsq"} -> MinLsq(D, Lc, Rc)
                [] OTHER -> RZ]

Init == \E i \in 1..Len(PolyCat) : c = i /\ ans = Nil /\ qry \in Queries(PolyCat[i].d.m)
Ask == ans = Nil /\ ans' = Answer /\ UNCHANGED <<c, qry>>
Next == Ask
Spec == Init /\ [][Next]_vars

Emit == (ans # Nil /\ ans.regular) =>
  PrintT("@@" \o ToJson([cat |-> c, hist |-> PolyCat[c].hist, q |-> qry, status |-> ans.status, val |-> ans.val, m |-> D.m,
     range |-> ans.range, empty |-> ans.empty, point |-> ans.point, unb |-> ans.unb, neq |-> Len(D.E)]))

\* sanity of the model: a point that is inside is its own closest point, and no point of a face beats the optimum
IsLsq == ans # Nil /\ ans.status = "ok" /\ ans.regular /\ qry.kind \in {"closest", "lsq"}
SaneClosest == (IsLsq /\ qry.kind = "closest" /\ RInLin(D, Rows(D), RVec(qry.x0))) => ans.val = RZ
SaneFaces == IsLsq => \A v \in ans.faces : RLe(ans.val, LsqObj(Lc, Rc, v))
SaneRange == (ans # Nil /\ ans.range # <<>>) => \A i \in 1..D.m : RLe(ans.range[i][1], ans.range[i][2])
=============================================================================
