------------------------------- MODULE Sobol -------------------------------
(* The Sobol sequence in Gray code order, scaled to the bounding box of a domain; points outside of the domain are left out. *)
EXTENDS Vor, Bitwise

CONSTANTS Which, Length, Bits
VARIABLES k, n, x, acc
vars == <<k, n, x, acc>>
D == Domains[k]
\* direction numbers: recurrences modulo two of the polynomials 1, 1 + z and 1 + z + z^2
RECURSIVE Dirs(_, _)
Dirs(j, f) == IF Len(f) = Bits THEN f
              ELSE LET e == f[Len(f)] d == f[Len(f) - 1]
                   IN Dirs(j, Append(f, CASE j = 1 -> 1 [] j = 2 -> e ^^ (2 * e) [] OTHER -> (d ^^ (2 * e)) ^^ (4 * d)))
Table == TLCEval([j \in 1..3 |-> LET f == Dirs(j, CASE j = 1 -> <<1, 1>> [] j = 2 -> <<1, 3>> [] OTHER -> <<1, 1>>) IN TLCEval([i \in 1..Bits |-> f[i] * (2^(Bits - i))])])
V(j, i) == Table[j][i]
\* the position of the lowest zero bit
RECURSIVE Low(_)
Low(i) == IF i % 2 = 0 THEN 1 ELSE 1 + Low(i \div 2)
Size == 2^Bits
\* the box that the domain is in: its bounds, or where it ends
Corners == IF D.lb # <<>> THEN [lb |-> RVec(D.lb), ub |-> RVec(D.ub)]
           ELSE LET W == TLCEval(Vertices(Gram(Metrics(D.m)[1]), D.faces, <<[j \in 1..D.m |-> RZ]>>))
                IN [lb |-> [j \in 1..D.m |-> RMinSet({v[j] : v \in W})], ub |-> [j \in 1..D.m |-> RMaxSet({v[j] : v \in W})]]
Point(B, y) == [j \in 1..D.m |-> RAdd(B.lb[j], RMul(RSub(B.ub[j], B.lb[j]), R(y[j], Size)))]
VARIABLES box, run
Init == k \in Which /\ n = 0 /\ x = [j \in 1..Domains[k].m |-> 0] /\ acc = <<>> /\ box = TLCEval(Corners) /\ run = <<[j \in 1..Domains[k].m |-> 0]>>
\* the origin and the centre of the box are skipped
Over == Len(acc) = Length \/ n = Size - 1
Step == /\ ~Over /\ UNCHANGED <<k, box>>
        /\ n' = n + 1
        /\ x' = TLCEval([j \in 1..D.m |-> x[j] ^^ V(j, Low(n))])
        /\ run' = Append(run, x')
        /\ acc' = LET p == TLCEval(Point(box, x')) IN IF n' > 1 /\ InDom(D.faces, p) THEN Append(acc, p) ELSE acc
Spec == Init /\ [][Step]_<<k, n, x, acc, box, run>>
\* the first 2^b coordinates are in different intervals of the length 2^-b
Balanced == \A b \in 0..Bits : n + 1 = 2^b =>
   \A j \in 1..D.m : {(run[i][j] * (2^b)) \div Size : i \in 1..(n + 1)} = 0..(2^b - 1)
\* in two dimensions: one point in every box of the volume 2^-b
Net == D.m = 2 => \A b \in 0..Bits : n + 1 = 2^b =>
   \A a \in 0..b : Cardinality({<<(run[i][1] * (2^a)) \div Size, (run[i][2] * (2^(b - a))) \div Size>> : i \in 1..(n + 1)}) = 2^b
Kept == acc # <<>> => InDom(D.faces, acc[Len(acc)])
Emit == Over => PrintT("@@" \o ToJson([dom |-> Describe(D), acc |-> acc, steps |-> n]))
=============================================================================
