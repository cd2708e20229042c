------------------------------- MODULE Data -------------------------------
(***************************************************************************)
(* Writing data: insert, upsert and delete as the client sees them, and the *)
(* statements that carry them out, executed in an abstract database with    *)
(* the rules of each engine.  A trace records calls of the real client and   *)
(* what reached the driver in between.  At the return of a call the state    *)
(* the statements produced has to be the state the call stands for.          *)
(*                                                                           *)
(* A cell is a sequence of strings: <<"N">> is NULL, <<"i:5">> a number,     *)
(* <<"l", ...>> a list.  A cell of a call is [k, v]: "v" a stored value, "e" *)
(* a string to be looked up, "es" a list of such strings.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

(* open: there are changes that have not been committed *)
VARIABLES tid, l, db, count, before, call, open, verdict
vars == <<tid, l, db, count, before, call, open, verdict>>

T == Traces[tid]
Meta(t) == T.tables[t]
Steps == T.steps
Dialect == T.dialect
NULL == <<"N">>
NoCall == [op |-> "none"]

Range(s) == {s[i] : i \in 1..Len(s)}
Names(t) == Range(Meta(t).cols)
Key(t) == Meta(t).pk
Fresh(n) == <<"i:" \o ToString(1000000 + n)>>

(* ------------------------------ engine ---------------------------------- *)
Same(a, b) == a # NULL /\ a = b
Clash(r, s, cols) == \A i \in 1..Len(cols) : Same(r[cols[i]], s[cols[i]])
KeysOf(t) == {Key(t)} \cup Range(Meta(t).uniques)
Conflicts(t, rows, r) == {i \in 1..Len(rows) : \E ks \in KeysOf(t) : Clash(rows[i], r, ks)}

(* An outcome of a statement for one record: the rows and how many numbers   *)
(* the database has assigned, or what is wrong.                              *)
Fail(why) == [err |-> why, rows |-> <<>>, n |-> 0]
Done(rows, n) == [err |-> "", rows |-> rows, n |-> n]

NullBad(t, r) == {c \in Range(Meta(t).notnull) : r[c] = NULL}

(* The row made of values given for some columns.                            *)
Built(t, cols, vals, n) ==
    [c \in Names(t) |->
        IF \E i \in 1..Len(cols) : cols[i] = c THEN vals[CHOOSE i \in 1..Len(cols) : cols[i] = c]
        ELSE IF c = Meta(t).identity THEN Fresh(n + 1)
        ELSE NULL]

BadCols(t, cols) ==
    IF \E c \in Range(cols) : c \notin Names(t) THEN "no such column in " \o t
    ELSE IF Cardinality(Range(cols)) # Len(cols) THEN "a column named twice"
    ELSE ""

Assigns(t, cols) == IF Meta(t).identity # "~none" /\ Meta(t).identity \notin Range(cols) THEN 1 ELSE 0

Append1(t, rows, r, n, a) ==
    IF NullBad(t, r) # {} THEN Fail("NULL in the column " \o (CHOOSE c \in NullBad(t, r) : TRUE))
    ELSE IF Conflicts(t, rows, r) # {} THEN Fail("duplicate key in " \o t)
    ELSE Done(Append(rows, r), n + a)

(* rows[i] with assignments [target, "new" or "old", source]                 *)
Assigned(r, sets, new) ==
    [c \in DOMAIN r |->
        IF \E k \in 1..Len(sets) : sets[k][1] = c
        THEN LET s == sets[CHOOSE k \in 1..Len(sets) : sets[k][1] = c]
             IN  IF s[2] = "new" THEN new[s[3]] ELSE r[s[3]]
        ELSE r[c]]

UpdateRows(t, rows, hit, sets, new, n) ==
    LET out == [i \in 1..Len(rows) |-> IF i \in hit THEN Assigned(rows[i], sets, new) ELSE rows[i]]
    IN  IF \E k \in 1..Len(sets) : sets[k][1] \notin Names(t) \/ (sets[k][2] = "new" /\ sets[k][3] \notin DOMAIN new) THEN Fail("no such column in an assignment")
        ELSE IF \E i \in hit : NullBad(t, out[i]) # {} THEN Fail("NULL in a NOT NULL column")
        ELSE IF \E i, j \in 1..Len(out) : i # j /\ \E ks \in KeysOf(t) : Clash(out[i], out[j], ks) THEN Fail("duplicate key in " \o t)
        ELSE Done(out, n)

Explicit(t, cols) ==
    IF Dialect = "mssql" /\ Meta(t).identity \in Range(cols) THEN "explicit value for an identity column" ELSE ""

Insert(st, rows, vals, n) ==
    LET t == st.table
        r == Built(t, st.cols, vals, n)
        hit == IF st.keys = <<>> THEN Conflicts(t, rows, r) ELSE {i \in 1..Len(rows) : Clash(rows[i], r, st.keys)}
    IN  IF Explicit(t, st.cols) # "" THEN Fail(Explicit(t, st.cols))
        ELSE IF NullBad(t, r) # {} THEN Fail("NULL in the column " \o (CHOOSE c \in NullBad(t, r) : TRUE))
        ELSE IF st.keys # <<>> /\ st.keys \notin KeysOf(t) THEN Fail("no unique constraint on the columns of ON CONFLICT")
        ELSE IF hit = {} \/ st.conflict = "error" THEN Append1(t, rows, r, n, Assigns(t, st.cols))
        ELSE IF st.conflict = "nothing" THEN Done(rows, n)
        ELSE LET first == CHOOSE i \in hit : \A j \in hit : i <= j
             IN  UpdateRows(t, rows, {first}, st.sets, [c \in Range(st.cols) |-> r[c]], n)

Merge(st, rows, vals, n) ==
    LET t == st.table
        src == [c \in Range(st.cols) |-> vals[CHOOSE i \in 1..Len(st.cols) : st.cols[i] = c]]
        hit == {i \in 1..Len(rows) : \E k \in 1..Len(st.on) : Same(rows[i][st.on[k][1]], src[st.on[k][2]])}
        r == Built(t, st.icols, [i \in 1..Len(st.ivals) |-> src[st.ivals[i]]], n)
    IN  IF BadCols(t, st.icols) # "" THEN Fail(BadCols(t, st.icols))
        ELSE IF \E k \in 1..Len(st.on) : st.on[k][1] \notin Names(t) \/ st.on[k][2] \notin DOMAIN src THEN Fail("no such column in the condition")
        ELSE IF \E i \in 1..Len(st.ivals) : st.ivals[i] \notin DOMAIN src THEN Fail("no such source column")
        ELSE IF Len(st.icols) # Len(st.ivals) THEN Fail("columns and values differ in number")
        ELSE IF Dialect = "oracle" /\ \E k \in 1..Len(st.sets) : \E m \in 1..Len(st.on) : st.sets[k][1] = st.on[m][1] THEN Fail("a column of the condition is updated")
        ELSE IF \E k \in 1..Len(st.sets) : st.sets[k][1] = Meta(t).identity THEN Fail("an identity column is updated")
        ELSE IF hit # {} THEN UpdateRows(t, rows, hit, st.sets, src, n)
        ELSE IF st.icols = <<>> THEN Done(rows, n)
        ELSE IF Explicit(t, st.icols) # "" THEN Fail(Explicit(t, st.icols))
        ELSE Append1(t, rows, r, n, Assigns(t, st.icols))

Delete(st, rows, vals, n) ==
    IF st.key \notin Names(st.table) THEN Fail("no such column")
    ELSE Done(SelectSeq(rows, LAMBDA r : ~Same(r[st.key], vals[1])), n)

RECURSIVE Run(_, _, _, _, _)
Run(st, recs, k, rows, n) ==
    IF k > Len(recs) THEN Done(rows, n)
    ELSE LET vals == [i \in 1..Len(st.pars) |-> recs[k][st.pars[i]]]
             o == CASE st.op = "insert" -> Insert(st, rows, vals, n)
                    [] st.op = "merge"  -> Merge(st, rows, vals, n)
                    [] st.op = "delete" -> Delete(st, rows, vals, n)
         IN  IF o.err # "" THEN o ELSE Run(st, recs, k + 1, o.rows, o.n)

(* ------------------------------ client ---------------------------------- *)
LookupId(t, s) ==
    LET rows == db[t]
        hits == {i \in 1..Len(rows) : rows[i]["value"] = <<"s:" \o s>>}
    IN  IF Cardinality(hits) = 1 THEN rows[CHOOSE i \in hits : TRUE]["id"] ELSE <<"?">>

Resolve(c, cell) ==
    IF cell.k = "v" THEN cell.v
    ELSE IF cell.k = "e" THEN LookupId(call.lookups[c], cell.v[1])
    ELSE <<"l">> \o [i \in 1..Len(cell.v) |-> LookupId(call.lookups[c], cell.v[i])[1]]

RecOf(rec) == [c \in Range(call.cols) |-> Resolve(c, rec[CHOOSE i \in 1..Len(call.cols) : call.cols[i] = c])]

RECURSIVE Upserted(_, _, _)
Upserted(rows, recs, k) ==
    IF k > Len(recs) THEN rows
    ELSE LET r == RecOf(recs[k])
             t == call.table
             hit == {i \in 1..Len(rows) : Clash(rows[i], r, Key(t))}
             out == IF hit # {} THEN [i \in 1..Len(rows) |-> IF i \in hit THEN [c \in DOMAIN rows[i] |-> IF c \in DOMAIN r THEN r[c] ELSE rows[i][c]] ELSE rows[i]]
                    ELSE Append(rows, [c \in Names(t) |-> IF c \in DOMAIN r THEN r[c] ELSE NULL])
         IN  Upserted(out, recs, k + 1)

Wanted ==
    LET rows == before[call.table]
        t == call.table
    IN  CASE call.op = "insert" -> rows \o [k \in 1..Len(call.recs) |-> [c \in Names(t) |-> IF c \in Range(call.cols) /\ c # Meta(t).identity THEN RecOf(call.recs[k])[c] ELSE NULL]]
          [] call.op = "upsert" -> Upserted(rows, call.recs, 1)
          [] call.op = "delete" -> SelectSeq(rows, LAMBDA r : \A k \in 1..Len(call.recs) : ~Same(r[Key(t)[1]], call.recs[k][1].v))

(* Columns whose lists come from sets: their order is arbitrary.             *)
CellEq(t, c, a, b) == IF c \in Range(Meta(t).sets) THEN Range(a) = Range(b) /\ Len(a) = Len(b) ELSE a = b

Compared(t) ==
    IF call.op = "insert" \/ (call.op = "upsert" /\ Dialect \in {"mssql", "oracle"}) THEN Names(t) \ {Meta(t).identity} ELSE Names(t)

RowsDiff(t, got, want) ==
    IF Len(got) # Len(want) THEN "number of rows: " \o ToString(Len(got)) \o " instead of " \o ToString(Len(want))
    ELSE LET bad == {i \in 1..Len(got) : \E c \in Compared(t) : ~CellEq(t, c, got[i][c], want[i][c])}
         IN  IF bad = {} THEN ""
             ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
                      c == CHOOSE c \in Compared(t) : ~CellEq(t, c, got[i][c], want[i][c])
                  IN  "row " \o ToString(i) \o ", column " \o c \o ": " \o ToString(got[i][c]) \o " instead of " \o ToString(want[i][c])

(* Strings a call brings to a lookup table.                                  *)
Brought(t) ==
    UNION {IF call.recs[k][i].k \in {"e", "es"} /\ call.lookups[call.cols[i]] = t THEN Range(call.recs[k][i].v) ELSE {} :
              k \in 1..Len(call.recs), i \in 1..Len(call.cols)}

LookupDiff(t) ==
    LET old == before[t]
        new == db[t]
        had == {old[i]["value"] : i \in 1..Len(old)}
        want == {<<"s:" \o s>> : s \in Brought(t)} \ had
        added == {new[i]["value"] : i \in (Len(old) + 1)..Len(new)}
    IN  IF Len(new) < Len(old) \/ SubSeq(new, 1, Len(old)) # old THEN "entries of " \o t \o " have changed"
        ELSE IF added # want THEN "values added to " \o t
        ELSE IF Len(new) - Len(old) # Cardinality(want) THEN "a value added twice to " \o t
        ELSE ""

Lookups == IF call.op = "delete" THEN {} ELSE {call.lookups[c] : c \in DOMAIN call.lookups}

Returned ==
    LET t == call.table
        badL == {x \in Lookups : LookupDiff(x) # ""}
        other == {x \in DOMAIN db : x # t /\ x \notin Lookups /\ db[x] # before[x]}
    IN  IF badL # {} THEN "lookup: " \o LookupDiff(CHOOSE x \in badL : TRUE)
        ELSE IF other # {} THEN call.op \o ": another table has changed"
        ELSE LET d == RowsDiff(t, db[t], Wanted) IN IF d = "" THEN "" ELSE call.op \o ": " \o d

(* ------------------------------ behaviour -------------------------------- *)
Active == verdict = "" /\ l <= Len(Steps)
Stop(why) == verdict' = why /\ UNCHANGED <<tid, l, db, count, before, call, open>>
Go == l' = l + 1 /\ UNCHANGED <<tid, verdict>>

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1 /\ verdict = "" /\ call = NoCall /\ open = FALSE
    /\ db = [t \in DOMAIN Traces[tid].tables |-> Traces[tid].tables[t].rows]
    /\ before = db
    /\ count = [t \in DOMAIN db |-> 0]

Call(st) ==
    IF call # NoCall THEN Stop("harness: call within a call")
    ELSE Go /\ call' = st /\ before' = db /\ UNCHANGED <<db, count, open>>

(* Widths of integers a bound type can carry, and types that carry a kind.   *)
Carries(kind, f) ==
    \/ f = "unknown"
    \/ kind = f
    \/ kind \in {"int1", "int2", "int4", "int8", "bool"} /\ f = "dec"
    \/ kind \in {"int1", "bool"} /\ f \in {"int1", "int2", "int4", "int8"}
    \/ kind = "int2" /\ f \in {"int4", "int8"}
    \/ kind = "int4" /\ f = "int8"
    \/ kind = "json" /\ f = "text"
    \/ kind = "real" /\ f = "float"

(* a parameter bound with a size takes every value its column takes (size 0: any) *)
Room(need, got) ==
    CASE got.n = 0 -> TRUE
      [] got.f \in {"text", "bin"} -> need.n > 0 /\ got.n >= need.n
      [] got.f = "dec" -> got.n >= need.n /\ got.s >= need.s
      [] OTHER -> TRUE

SizesBad(t, cols, sizes) ==
    /\ sizes # <<>>
    /\ \/ Len(sizes) # Len(cols)
       \/ \E i \in 1..Len(cols) : \/ ~Carries(Meta(t).kinds[cols[i]], sizes[i].f)
                                  \/ ~Room(Meta(t).room[cols[i]], sizes[i])

Exec(st) ==
    LET q == st.st
        t == q.table
        cols == IF q.op = "delete" THEN <<q.key>> ELSE q.cols
    IN  IF q.op = "unknown" THEN Stop("statement: " \o q.why)
        ELSE IF call = NoCall THEN Stop("harness: statement outside a call")
        ELSE IF t \notin DOMAIN db THEN Stop(call.op \o ": no table " \o t)
        ELSE IF q.op # "delete" /\ BadCols(t, q.cols) # "" THEN Stop(call.op \o ": " \o BadCols(t, q.cols))
        ELSE IF q.op # "delete" /\ Len(q.cols) # Len(q.pars) THEN Stop(call.op \o ": columns and parameters differ in number")
        ELSE IF st.rows = <<>> THEN Stop(call.op \o ": a statement without records")
        ELSE IF \E k \in 1..Len(st.rows) : Len(st.rows[k]) # q.nparams THEN Stop(call.op \o ": records and parameters differ in number")
        ELSE IF SizesBad(t, cols, st.sizes) THEN Stop(call.op \o ": types bound to the parameters do not match the columns")
        ELSE IF call.op = "insert" /\ t = call.table /\ q.op # "delete" /\ Meta(t).identity \in Range(q.cols) THEN Stop("insert: a value for an identity column")
        ELSE LET o == Run(q, st.rows, 1, db[t], count[t])
             IN  IF o.err # "" THEN Stop(call.op \o ": " \o o.err)
                 ELSE Go /\ db' = [db EXCEPT ![t] = o.rows] /\ count' = [count EXCEPT ![t] = o.n] /\ UNCHANGED <<before, call, open>>

Copy(st) ==
    LET q == [op |-> "insert", table |-> st.table, cols |-> st.cols, pars |-> [i \in 1..Len(st.cols) |-> i], nparams |-> Len(st.cols), conflict |-> "error", keys |-> <<>>, sets |-> <<>>]
    IN  Exec([st |-> q, rows |-> st.rows, sizes |-> <<>>])

(* What the server answered to a query, against the model.                   *)
Query(st) ==
    LET q == st.st
    IN  IF q.op = "unknown" THEN Stop("statement: " \o q.why)
        ELSE IF q.table \notin DOMAIN db THEN Stop("query: no table " \o q.table)
        ELSE IF \E c \in Range(q.cols) : c \notin Names(q.table) THEN Stop("query: no such column")
        ELSE IF Range(st.rows) # {[i \in 1..Len(q.cols) |-> r[q.cols[i]]] : r \in Range(db[q.table])} THEN Stop("harness: answer to a query")
        ELSE Go /\ UNCHANGED <<db, count, before, call, open>>

Return(st) ==
    IF call = NoCall THEN Stop("harness: return outside a call")
    ELSE IF st.err # "" THEN Stop(call.op \o ": raises " \o st.err)
    ELSE IF call.recs = <<>> /\ Steps[l - 1].k # "call" THEN Stop(call.op \o ": something is sent for an empty input")
    ELSE IF Returned # "" THEN Stop(Returned)
    ELSE Go /\ call' = NoCall /\ UNCHANGED <<db, count, before, open>>

Next ==
    \/ /\ Active
       /\ LET st == Steps[l] IN
          CASE st.k = "call"  -> Call(st)
            [] st.k = "exec"  -> Exec(st)
            [] st.k = "copy"  -> Copy(st)
            [] st.k = "query" -> Query(st)
            [] st.k = "ret"   -> Return(st)
            [] st.k = "open"  -> Go /\ open' = TRUE /\ UNCHANGED <<db, count, before, call>>
            [] st.k = "commit" -> Go /\ open' = FALSE /\ UNCHANGED <<db, count, before, call>>
    \/ /\ verdict = "" /\ l = Len(Steps) + 1
       /\ verdict' = (IF open THEN "closed: what has been written is not committed" ELSE "ok") /\ UNCHANGED <<tid, l, db, count, before, call, open>>

Spec == Init /\ [][Next]_vars
Report == verdict # "" => PrintT("V|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o verdict)
=============================================================================
