-------------------------------- MODULE Tsv --------------------------------
(* Tab-separated files (pysqlsync/data/exchange.py).  A file is a sequence of symbols.  The writer writes a header and
   then records, in one or several calls; the reader takes the file apart line by line.  A cell is NULL, a text (a
   sequence of characters) or a value of another type, whose written form contains no special character ("v:3").    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxText, MaxRows
Special == {"tab", "lf", "cr", "nul", "vt", "ff", "bs"}
Chars == {"a", "N", "0", "n", "space", "nonascii", "backslash"} \cup Special
Null == [k |-> "null"]
Text(t) == [k |-> "text", t |-> t]
Other(n) == [k |-> "other", n |-> n]

VARIABLES phase, cols,      \* the fields of the class: their kinds
          map,              \* the fields written, in order
          naming,           \* "none": no mapping given; "same", "renamed"
          rows,             \* the records handed to the writer
          calls,            \* the number of records in each call
          file              \* the symbols written
vars == <<phase, cols, map, naming, rows, calls, file>>

Kinds == {"text", "opttext", "other", "optother"}
(* the cells of a record after the first are chosen from few values *)
Texts == UNION {[1 .. n -> Chars] : n \in 0 .. MaxText}
Few == {<<>>, <<"backslash">>, <<"tab", "a">>}
Cell(kind, full) ==
    CASE kind = "text" -> {Text(t) : t \in IF full THEN Texts ELSE Few}
      [] kind = "opttext" -> {Null} \cup {Text(t) : t \in IF full THEN {<<>>, <<"backslash", "N">>, <<"N">>} ELSE {<<>>}}
      [] kind = "other" -> {Other(1)} \cup (IF full THEN {Other(2)} ELSE {})
      [] kind = "optother" -> {Null} \cup (IF full THEN {Other(1)} ELSE {})

Injective(n) == UNION {{f \in [1 .. m -> 1 .. n] : \A i, j \in 1 .. m : i # j => f[i] # f[j]} : m \in 1 .. n}
Init == /\ phase = "header" /\ rows = <<>> /\ calls = <<>> /\ file = <<>>
        /\ cols \in UNION {[1 .. n -> Kinds] : n \in 1 .. 3}
        /\ naming \in {"none", "same", "renamed"}
        /\ map \in Injective(Len(cols))
        /\ naming = "none" => map = [i \in 1 .. Len(cols) |-> i]

RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o <<"TAB">> \o Join(Tail(s))
Name(i) == <<naming \o ":" \o ToString(i)>>
Header == /\ phase = "header" /\ phase' = "rows"
          /\ file' = Join([i \in DOMAIN map |-> Name(map[i])]) \o <<"LF">>
          /\ UNCHANGED <<cols, map, naming, rows, calls>>

Esc(c) == CASE c = "backslash" -> <<"\\", "\\">> [] c \in Special -> <<"\\", "e:" \o c>> [] OTHER -> <<c>>
RECURSIVE Escape(_)
Escape(t) == IF t = <<>> THEN <<>> ELSE Esc(Head(t)) \o Escape(Tail(t))
Field(c) == CASE c.k = "null" -> <<"\\", "N">> [] c.k = "text" -> Escape(c.t) [] c.k = "other" -> <<"v:" \o ToString(c.n)>>
Line(r) == Join([i \in DOMAIN map |-> Field(r[map[i]])]) \o <<"LF">>

(* texts are explored in full in the first record of files with a single text column, or a text column and another *)
Rich == rows = <<>> /\ (Len(cols) = 1 \/ (Len(cols) = 2 /\ cols[2] # "text" /\ naming = "none"))
WideText == Cardinality({i \in DOMAIN cols : cols[i] \in {"text", "opttext"}})
Records == {r \in [1 .. Len(cols) -> UNION {Cell(cols[i], Rich) : i \in DOMAIN cols}] : \A i \in DOMAIN cols : r[i] \in Cell(cols[i], Rich)}
Write == /\ phase = "rows" /\ Len(rows) < (IF Len(cols) = 3 THEN 1 ELSE MaxRows)
         /\ \E r \in Records, fresh \in BOOLEAN :
              /\ rows' = Append(rows, r) /\ file' = file \o Line(r)
              /\ calls = <<>> => fresh
              /\ Len(cols) > 1 => fresh
              /\ calls' = IF fresh THEN Append(calls, 1) ELSE [calls EXCEPT ![Len(calls)] = @ + 1]
         /\ UNCHANGED <<phase, cols, map, naming>>
Finish == phase = "rows" /\ phase' = "done" /\ UNCHANGED <<cols, map, naming, rows, calls, file>>
Next == Header \/ Write \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ the reader *)
RECURSIVE Split(_, _)
Split(s, at) == IF \E i \in DOMAIN s : s[i] = at
                THEN LET k == CHOOSE i \in DOMAIN s : s[i] = at /\ \A j \in 1 .. i - 1 : s[j] # at
                     IN <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + 1, Len(s)), at)
                ELSE <<s>>
(* every line ends with a line feed: what follows the last one is not a line *)
Lines(f) == LET l == Split(f, "LF") IN SubSeq(l, 1, Len(l) - 1)
RECURSIVE Unescape(_)
Unescape(s) == IF s = <<>> THEN <<>>
               ELSE IF Head(s) = "\\" THEN <<IF s[2] = "\\" THEN "backslash" ELSE SubSeq(s[2], 3, Len(s[2]))>> \o Unescape(SubSeq(s, 3, Len(s)))
               ELSE <<Head(s)>> \o Unescape(Tail(s))
Decode(s) == IF s = <<"\\", "N">> THEN Null
             ELSE IF Len(s) = 1 /\ s[1] \in {"v:1", "v:2"} THEN Other(IF s[1] = "v:1" THEN 1 ELSE 2)
             ELSE Text(Unescape(s))
Read(f) == LET l == Lines(f) IN [header |-> [i \in DOMAIN Split(l[1], "TAB") |-> Split(l[1], "TAB")[i][1]],
                                 rows |-> [i \in 1 .. Len(l) - 1 |-> LET c == Split(l[i + 1], "TAB") IN [j \in DOMAIN c |-> Decode(c[j])]]]
Wanted == [header |-> [i \in DOMAIN map |-> Name(map[i])[1]], rows |-> [k \in DOMAIN rows |-> [i \in DOMAIN map |-> rows[k][map[i]]]]]
ReadsBack == phase # "header" => Read(file) = Wanted

Emit == phase = "done" => PrintT("B|" \o ToJson([cols |-> cols, map |-> map, naming |-> naming, rows |-> rows, calls |-> calls, file |-> file]))
=============================================================================
