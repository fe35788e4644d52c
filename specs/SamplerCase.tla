---------------------------- MODULE SamplerCase ----------------------------
(* The histories of a sequential sampler that are to be recorded *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Share
VARIABLES c, ops
Boxes == << [m |-> 1, lb |-> <<-1>>, ub |-> <<3>>], [m |-> 2, lb |-> <<0, -1>>, ub |-> <<2, 1>>], [m |-> 3, lb |-> <<0, 0, 0>>, ub |-> <<2, 1, 3>>] >>
Rows(m) == IF m = 1 THEN {<<1>>, <<-2>>} ELSE IF m = 2 THEN {<<1, 0>>, <<1, -1>>, <<0, 2>>} ELSE {<<1, 0, 1>>, <<0, -1, 0>>}
Start(m) == IF m = 1 THEN {<<>>, <<<<0>>>>, <<<<3>>, <<-1>>>>} ELSE IF m = 2 THEN {<<>>, <<<<0, 0>>, <<2, 1>>>>} ELSE {<<>>, <<<<1, 1, 1>>>>}
Init == /\ ops = <<>>
        /\ \E k \in 1..3 : \E v \in Rows(Boxes[k].m), X \in Start(Boxes[k].m), fun \in {"one", "two", "vectorized", "list"}, values \in BOOLEAN :
             /\ (values => X # <<>>)
             /\ c = [k |-> k, box |-> Boxes[k], v |-> v, X |-> X, fun |-> fun, values |-> values]
Next == /\ Len(ops) < Depth /\ UNCHANGED c
        /\ \E o \in {"sample 1", "sample 2", "verbose", "write"} : ops' = Append(ops, o)
Spec == Init /\ [][Next]_<<c, ops>>
Code(o) == CASE o = "sample 1" -> 1 [] o = "sample 2" -> 2 [] o = "verbose" -> 3 [] OTHER -> 4
Word[i \in 0..Depth] == IF i = 0 THEN 7 * c.k + 11 * Len(c.X) + 13 * Len(c.fun) + (IF c.values THEN 5 ELSE 0) + c.v[1] ELSE (5 * Word[i - 1] + Code(ops[i])) % 1009
Hash == Word[Depth]
Emit == (Len(ops) = Depth /\ Hash % Share = 0) => PrintT("@@" \o ToJson([c |-> c, ops |-> ops]))
=============================================================================
