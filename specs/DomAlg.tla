------------------------------- MODULE DomAlg -------------------------------
(* The algebra of domains as a state machine.  A state is a pool of domains; each step derives a new domain from
   those in the pool (adding constraints, intersecting, multiplying) and appends it.  The domains already in the
   pool never change.  Every state is printed with what membership must be for every domain in the pool, and is
   replayed on the real classes. *)
EXTENDS Dom, Json

CONSTANTS Depth, MaxDim, Big

VARIABLES pool, names, kinds, hist
vars == <<pool, names, kinds, hist>>

Row(a, b) == [a |-> a, b |-> b]
Quad(L, y, r) == [L |-> L, y |-> y, r |-> r]
Id(m) == [i \in 1..m |-> [j \in 1..m |-> IF i = j THEN 1 ELSE 0]]

\* ------------------------------------------------------------------ base domains
\* cls tells the driver which class to construct; nm is the names argument: <<>> for none, one string for a prefix
Base == <<
 [cls |-> "box", nm |-> <<>>, d |-> [Free(1) EXCEPT !.lb = <<-1>>, !.ub = <<2>>]],
 [cls |-> "boxscalar", nm |-> <<"t">>, d |-> [Free(1) EXCEPT !.lb = <<0>>, !.ub = <<2>>]],
 [cls |-> "linineq", nm |-> <<>>, d |-> [Free(1) EXCEPT !.lb = <<-2>>, !.A = <<Row(<<2>>, 1)>>]],
 [cls |-> "linquad", nm |-> <<>>, d |-> [Free(1) EXCEPT !.Q = <<Quad(<<<<2>>>>, <<1>>, 3)>>]],
 [cls |-> "point", nm |-> <<>>, d |-> [Free(1) EXCEPT !.lb = <<1>>, !.ub = <<1>>]],
 [cls |-> "unbounded", nm |-> <<>>, d |-> Free(1)],
 [cls |-> "hull", nm |-> <<>>, d |-> [Free(1) EXCEPT !.H = <<[o |-> 0, pts |-> <<<<2>>, <<-1>>, <<0>>>>]>>]],
 [cls |-> "uniform", nm |-> <<"a", "b">>, d |-> [Free(2) EXCEPT !.lb = <<-1, -2>>, !.ub = <<2, 1>>]],
 [cls |-> "box", nm |-> <<"p">>, d |-> [Free(2) EXCEPT !.lb = <<-1, NINF>>, !.ub = <<2, 1>>]],
 [cls |-> "box", nm |-> <<>>, d |-> [Free(2) EXCEPT !.lb = <<-2, -1>>, !.ub = <<2, 2>>]],
 [cls |-> "linineq", nm |-> <<>>, d |-> [Free(2) EXCEPT !.A = <<Row(<<1, 1>>, 1), Row(<<-1, 0>>, 1), Row(<<1, -2>>, 2)>>]],
 [cls |-> "linineq", nm |-> <<>>, d |-> [Free(2) EXCEPT !.lb = <<-2, -2>>, !.ub = <<2, 2>>, !.E = <<Row(<<1, -1>>, 1)>>]],
 [cls |-> "linquad", nm |-> <<>>, d |-> [Free(2) EXCEPT !.Q = <<Quad(Id(2), <<1, 0>>, 2)>>]],
 [cls |-> "linquad", nm |-> <<"u", "v">>, d |-> [Free(2) EXCEPT !.lb = <<-1, NINF>>, !.Q = <<Quad(<<<<2, 1>>, <<0, 1>>>>, <<0, 1>>, 3)>>]],
 [cls |-> "linquad", nm |-> <<>>, d |-> [Free(2) EXCEPT !.ub = <<2, 2>>, !.Q = <<Quad(<<<<1, 1>>>>, <<0, 0>>, 1), Quad(Id(2), <<0, 0>>, 2)>>]],
 [cls |-> "linquad", nm |-> <<>>, d |-> [Free(2) EXCEPT !.E = <<Row(<<1, 1>>, 0)>>, !.A = <<Row(<<1, 0>>, 1)>>, !.Q = <<Quad(<<<<1, 0>>, <<0, 2>>>>, <<-1, 0>>, 3)>>]],
 [cls |-> "point", nm |-> <<>>, d |-> [Free(2) EXCEPT !.lb = <<1, -1>>, !.ub = <<1, -1>>]],
 [cls |-> "unbounded", nm |-> <<"w">>, d |-> Free(2)],
 [cls |-> "hull", nm |-> <<>>, d |-> [Free(2) EXCEPT !.H = <<[o |-> 0, pts |-> <<<<-2, -2>>, <<2, -1>>, <<0, 2>>, <<0, 0>>>>]>>]],
 [cls |-> "hull", nm |-> <<"h">>, d |-> [Free(2) EXCEPT !.lb = <<-1, NINF>>, !.A = <<Row(<<1, 1>>, 1)>>, !.H = <<[o |-> 0, pts |-> <<<<-2, -1>>, <<2, -1>>, <<0, 2>>>>]>>]],
 [cls |-> "hull", nm |-> <<>>, d |-> [Free(2) EXCEPT !.H = <<[o |-> 0, pts |-> <<<<-2, -1>>, <<2, 1>>>>]>>]]
>>

NameArg(m, nm) == IF nm = <<>> THEN [i \in 1..m |-> "x" \o ToString(i - 1)]
                  ELSE IF Len(nm) = m THEN nm
                  ELSE [i \in 1..m |-> nm[1] \o " " \o ToString(i)]

\* ------------------------------------------------------------------ constraints that can be added
Extra(m) == LET e(i) == [j \in 1..m |-> IF i = j THEN 1 ELSE 0]
                ones == [j \in 1..m |-> 1]
                alt == [j \in 1..m |-> IF j % 2 = 1 THEN 1 ELSE -2]
            IN <<
  [Free(m) EXCEPT !.lb = [j \in 1..m |-> IF j = 1 THEN 0 ELSE NINF]],
  [Free(m) EXCEPT !.ub = [j \in 1..m |-> IF j = m THEN 1 ELSE INF], !.lb = [j \in 1..m |-> -2]],
  [Free(m) EXCEPT !.A = <<Row(ones, 1), Row(alt, 2)>>],
  [Free(m) EXCEPT !.E = <<Row(alt, 0)>>],
  [Free(m) EXCEPT !.Q = <<Quad(Id(m), e(1), 2)>>],
  [Free(m) EXCEPT !.Q = <<Quad(<<ones>>, Zeros(m), 1)>>, !.A = <<Row(e(m), 1)>>, !.ub = [j \in 1..m |-> 2]]
>>

HasAdd(k) == k \notin {"unbounded"}
CanAnd(i, j) == /\ pool[i].m = pool[j].m
                /\ kinds[i] # "unbounded" /\ kinds[j] # "unbounded"
                /\ ~(kinds[i] = "tensor" /\ kinds[j] = "tensor")   \* not provided by the library
                /\ \A k \in {i, j} : ~(kinds[k] = "tensor" /\ FALSE)

Init == \E i \in 1..Len(Base) :
          /\ pool = <<Base[i].d>>
          /\ kinds = <<Base[i].cls>>
          /\ names = <<NameArg(Base[i].d.m, Base[i].nm)>>
          /\ hist = <<[op |-> "base", cls |-> Base[i].cls, nm |-> Base[i].nm, d |-> Base[i].d]>>

Push(d, k, n, h) == /\ pool' = Append(pool, d)
                    /\ kinds' = Append(kinds, k)
                    /\ names' = Append(names, n)
                    /\ hist' = Append(hist, h)

New == \E i \in 1..Len(Base) :
          /\ Len(hist) = 1 \/ (Big /\ Len(hist) = 2)
          /\ Push(Base[i].d, Base[i].cls, NameArg(Base[i].d.m, Base[i].nm), [op |-> "base", cls |-> Base[i].cls, nm |-> Base[i].nm, d |-> Base[i].d])

AddC == \E i \in 1..Len(pool) : \E c \in 1..Len(Extra(pool[i].m)) :
          /\ HasAdd(kinds[i])
          /\ LET k == IF kinds[i] = "hull" THEN "hull" ELSE "linquad"
             IN Push(Meet(pool[i], Extra(pool[i].m)[c]), k, names[i], [op |-> "add", i |-> i, c |-> Extra(pool[i].m)[c]])

\* the intersection takes its names from one of its operands (from the left one if it is not a product)
AndD == \E i, j \in 1..Len(pool) :
          /\ i # j /\ CanAnd(i, j)
          /\ LET n == IF kinds[i] = "tensor" THEN names[j] ELSE names[i]
                 k == IF kinds[i] = "hull" \/ (kinds[i] = "tensor" /\ kinds[j] = "hull") THEN "hull" ELSE "linquad"
             IN Push(Meet(pool[i], pool[j]), k, n, [op |-> "and", i |-> i, j |-> j])

MulD == \E i, j \in 1..Len(pool) :
          /\ pool[i].m + pool[j].m <= MaxDim
          /\ Push(Times(pool[i], pool[j]), "tensor", names[i] \o names[j], [op |-> "mul", i |-> i, j |-> j])

Next == Len(hist) < Depth /\ (New \/ AddC \/ AndD \/ MulD)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ what is observed
Vals(m) == CASE m = 1 -> <<-6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6>>
             [] m = 2 -> <<-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5>>
             [] m = 3 -> <<-4, -2, -1, 0, 2, 3>>
             [] OTHER -> <<-3, -1, 0, 2>>
Lat == [m \in 1..MaxDim |-> LatticeOf(Vals(m), m)]

Emit == Len(hist) >= 1 =>
  PrintT("@@" \o ToJson([hist |-> hist, names |-> names, kinds |-> kinds,
     obs |-> [i \in 1..Len(pool) |-> [bits |-> Bits(pool[i], Lat[pool[i].m]), lb |-> pool[i].lb, ub |-> pool[i].ub,
         m |-> pool[i].m, neq |-> Len(pool[i].E),
         box |-> pool[i].A = <<>> /\ pool[i].E = <<>> /\ pool[i].Q = <<>> /\ pool[i].H = <<>>,
         linear |-> pool[i].Q = <<>>, hull |-> Len(pool[i].H)]],
     vals |-> [m \in 1..MaxDim |-> Vals(m)], s |-> S]))

\* ------------------------------------------------------------------ properties of the model
\* the description of a derived domain denotes the set it should: intersection and product of the operands' sets
Last == Len(hist)
Sound ==
  LET h == hist[Last] D == pool[Last] lat == Lat[D.m]
  IN CASE h.op = "add" -> \A i \in 1..Len(lat) : In(D, lat[i]) <=> In(pool[h.i], lat[i]) /\ In(h.c, lat[i])
       [] h.op = "and" -> \A i \in 1..Len(lat) : In(D, lat[i]) <=> In(pool[h.i], lat[i]) /\ In(pool[h.j], lat[i])
       [] h.op = "mul" -> \A i \in 1..Len(lat) : In(D, lat[i]) <=>
             In(pool[h.i], SubSeq(lat[i], 1, pool[h.i].m)) /\ In(pool[h.j], SubSeq(lat[i], pool[h.i].m + 1, D.m))
       [] OTHER -> TRUE
\* the pool only grows; existing domains are never altered
Pure == [][\A i \in 1..Len(pool) : pool'[i] = pool[i] /\ names'[i] = names[i]]_vars
=============================================================================
