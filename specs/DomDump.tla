------------------------------- MODULE DomDump -------------------------------
(* The catalogue, one record for each domain, for the drivers *)
EXTENDS DomCat
VARIABLES which, c
vars == <<which, c>>
Cat(w) == IF w = "poly" THEN PolyCat ELSE QuadCat
Init == \E w \in {"poly", "quad"} : which = w /\ c \in 1..Len(Cat(w))
Spec == Init /\ [][UNCHANGED vars]_vars
D == Cat(which)[c].d
AllRays == {r \in UNION {{r, NegV(r)} : r \in Rays(D)} : IsRay(D, r) /\ r # Zeros(D.m)}
Empty == which = "poly" /\ FacePts(D) = {}
Bounded == which = "quad" \/ (FacePts(D) # {} /\ AllRays = {})
Point == which = "poly" /\ Bounded /\ Cardinality(FacePts(D)) = 1
Emit == PrintT("@@" \o ToJson([which |-> which, cat |-> c, hist |-> Cat(which)[c].hist, m |-> D.m, lb |-> D.lb, ub |-> D.ub,
                               bounded |-> Bounded, empty |-> Empty, point |-> Point,
                               neq |-> Len(D.E), hull |-> Len(D.H), nq |-> Len(D.Q)]))
=============================================================================
