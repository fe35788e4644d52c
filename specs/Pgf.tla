-------------------------------- MODULE Pgf --------------------------------
(* Tables of named columns.  A table is an object that columns are added to; all of them have the same length, and what is added
   is a copy.  Writing shows the table in a file and changes nothing; reading a file replaces whatever the table held.
   Columns are found by name, the first one if names repeat. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Cols, Names
VARIABLES hist, names, cols, file
vars == <<hist, names, cols, file>>
None == [set |-> FALSE, names |-> <<>>, cols |-> <<>>]

\* columns are sequences of numbers; several shapes, the harness uses the number as an index into awkward values
Columns == UNION {[1..n -> {0}] : n \in {0}} \cup {<<1>>, <<2, 3>>, <<4, 1>>, <<5, 6, 2>>}
Init == hist = <<>> /\ names = <<>> /\ cols = <<>> /\ file = None
Fits(c) == cols = <<>> \/ Len(c) = Len(cols[1])
Log(op, n, c, ok) == hist' = Append(hist, [op |-> op, name |-> n, col |-> c, ok |-> ok, names |-> names', cols |-> cols'])
Add(n, c) == /\ IF Fits(c) THEN names' = Append(names, n) /\ cols' = Append(cols, c) ELSE UNCHANGED <<names, cols>>
             /\ UNCHANGED file /\ Log("add", n, c, Fits(c))
\* the caller goes on using the column that was added last
Scribble == cols # <<>> /\ UNCHANGED <<names, cols, file>> /\ Log("scribble", "", <<>>, TRUE)
Write == cols # <<>> /\ file' = [set |-> TRUE, names |-> names, cols |-> cols] /\ UNCHANGED <<names, cols>> /\ Log("write", "", <<>>, TRUE)
Read == file.set /\ names' = file.names /\ cols' = file.cols /\ UNCHANGED file /\ Log("read", "", <<>>, TRUE)
Fresh == file.set /\ names' = <<>> /\ cols' = <<>> /\ UNCHANGED file /\ Log("fresh", "", <<>>, TRUE)
Next == /\ Len(hist) < Depth
        /\ \/ \E n \in Names, c \in {k \in Columns : Len(k) \in Cols} : Add(n, c)
           \/ Scribble \/ Write \/ Read \/ Fresh
Spec == Init /\ [][Next]_vars

Rectangular == Len(names) = Len(cols) /\ \A i, j \in 1..Len(cols) : Len(cols[i]) = Len(cols[j])
\* what was written can be read back, and what is read is what was written last
RoundTrip == hist # <<>> /\ hist[Len(hist)].op = "read" => names = file.names /\ cols = file.cols
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
