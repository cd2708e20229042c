----------------------------- MODULE ResultSet -----------------------------
(* Query results (pysqlsync/resultset.py, dialect/*/connection.py: _query_all).  A result has named columns and rows;
   a query asks for scalars, tuples or objects of a class.                                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxRows, Names, Width
Representations == {"tuple", "list", "dict", "object", "record"}   \* of a row

VARIABLES columns, rows, want, repr, taken, items
vars == <<columns, rows, want, repr, taken, items>>

Lists == UNION {{f \in [1 .. n -> Names] : \A i, j \in 1 .. n : i # j => f[i] # f[j]} : n \in 1 .. Width}
Wants == {[k |-> "scalar"]} \cup {[k |-> "tuple", n |-> n] : n \in 1 .. Width} \cup {[k |-> "class", fields |-> f] : f \in Lists}
(* rows of values: the value in row r, column c is <<r, c>>, or NULL *)
Null == <<>>
Row(r, n, nulls) == [c \in 1 .. n |-> IF c \in nulls THEN Null ELSE <<r, c>>]

Init == /\ columns \in Lists /\ want \in Wants /\ repr \in Representations
        /\ (want.k = "class") => repr \in {"dict", "object", "tuple", "list"}
        /\ (want.k # "class") => repr \in {"tuple", "list", "record"}
        /\ rows = <<>> /\ taken = 0 /\ items = <<>>
Fetch == /\ Len(rows) < MaxRows /\ taken = 0
         /\ \E nulls \in {{}, {1}, {Len(columns)}} : rows' = Append(rows, Row(Len(rows) + 1, Len(columns), nulls))
         /\ UNCHANGED <<columns, want, repr, taken, items>>

RangeOf(f) == {f[i] : i \in DOMAIN f}
At(name) == CHOOSE i \in DOMAIN columns : columns[i] = name
(* which results have the shape wanted; a class takes the columns of the names of its fields *)
Fits == CASE want.k = "scalar" -> Len(columns) = 1
          [] want.k = "tuple" -> Len(columns) = want.n
          [] want.k = "class" -> RangeOf(want.fields) = RangeOf(columns)
(* whether more columns than fields, or as many of other names, are an error is up to the driver *)
Lacking == CASE want.k = "class" -> Len(columns) < Len(want.fields)
             [] OTHER -> ~Fits
Item(row) == CASE want.k = "scalar" -> row[1]
               [] want.k = "tuple" -> row
               [] want.k = "class" -> [i \in DOMAIN want.fields |-> row[At(want.fields[i])]]
Convert == /\ Fits /\ taken < Len(rows)
           /\ taken' = taken + 1 /\ items' = Append(items, Item(rows[taken + 1]))
           /\ UNCHANGED <<columns, rows, want, repr>>
Next == Fetch \/ Convert
Spec == Init /\ [][Next]_vars

Complete == Fits /\ taken = Len(rows) => Len(items) = Len(rows)
(* every value of the result arrives, once *)
AllValues == Fits /\ taken = Len(rows) /\ want.k # "scalar" =>
    \A i \in DOMAIN rows : {rows[i][j] : j \in DOMAIN rows[i]} = {items[i][j] : j \in DOMAIN items[i]}
Outcome == IF Fits THEN "items" ELSE IF rows = <<>> THEN "empty" ELSE IF Lacking THEN "error" ELSE "unspecified"
Emit == (IF Fits THEN taken = Len(rows) ELSE TRUE) =>
    PrintT("B|" \o ToJson([columns |-> columns, rows |-> rows, want |-> want, repr |-> repr, outcome |-> Outcome, items |-> items]))
=============================================================================
