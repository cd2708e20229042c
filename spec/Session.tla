------------------------------ MODULE Session ------------------------------
(* A session (BaseContext with its generator and explorer) against a database server.  The server is module Db: it
   executes the statements that reach it, or refuses them, and reports its catalog.  A trace is what happened in one
   session:
     sql     a statement reached the server and was executed
     fresh   a new session was opened: it takes the database for an empty one
     refused a statement reached the server and was refused
     model   what the session takes the database for at that point, as the script that makes it from nothing
     same    an operation failed before it changed anything: the session's model has to be what it was, or the database
     quiet   the number of statements changing the schema in an operation that had nothing to do
     wanted  the schema the classes stand for, as the script that makes it from nothing: the database has to be that
     mark    an operation begins whose effect is stated in full
     effect  what the operation has to have done since then: tables and a schema that are gone, a schema that is there
     ask     a question to the explorer about a table, a column or the names of all tables, and its answer
     raised  an operation failed that had no reason to fail
   Scope is the set of schemas (prefixes of names, in dialects without schemas) the session was asked about.          *)
EXTENDS Db, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, step, db, model, verdict
vars == <<tr, step, db, model, verdict>>

T == Traces[tr]
S == T.steps[step + 1]

RECURSIVE Script(_, _, _)
Script(d, events, i) ==
    IF i > Len(events) THEN Ok(d)
    ELSE LET r == Exec(T.P, d, events[i]) IN IF r.ok THEN Script(r.db, events, i + 1) ELSE Err(ToString(i) \o ": " \o r.why)

(* ------------------------------ comparison ------------------------------ *)
Shown(c) == [type |-> c.type, tref |-> c.tref, nullable |-> c.nullable, default |-> c.default, identity |-> c.identity, desc |-> c.desc]
Facets == <<"type", "tref", "nullable", "default", "identity", "desc">>
Content(c) == [kind |-> c.kind, cols |-> c.cols, reft |-> c.reft, refc |-> c.refc]
Keys(t) == {k \in DOMAIN t.cons : t.cons[k].kind # "check"}

TableDiff(n, have, want) ==
    LET names == ColNames(want)
        bad == {x \in names \X {i \in 1..Len(Facets) : TRUE} : x[1] \in ColNames(have) /\ Shown(Col(have, x[1]))[Facets[x[2]]] # Shown(Col(want, x[1]))[Facets[x[2]]]}
    IN  IF ColNames(have) # names THEN "columns of " \o n \o ": " \o ToString(ColNames(have)) \o " instead of " \o ToString(names)
        ELSE IF bad # {} THEN LET x == CHOOSE x \in bad : TRUE IN
             Facets[x[2]] \o " of " \o n \o "." \o x[1] \o ": " \o ToString(Shown(Col(have, x[1]))[Facets[x[2]]]) \o " instead of " \o ToString(Shown(Col(want, x[1]))[Facets[x[2]]])
        ELSE IF have.pk # want.pk THEN "primary key of " \o n
        ELSE IF Keys(have) # Keys(want) THEN "constraints of " \o n \o ": " \o ToString(Keys(have)) \o " instead of " \o ToString(Keys(want))
        ELSE IF \E k \in Keys(have) : Content(have.cons[k]) # Content(want.cons[k])
             THEN "constraint " \o (CHOOSE k \in Keys(have) : Content(have.cons[k]) # Content(want.cons[k])) \o " of " \o n
        ELSE IF have.desc # want.desc THEN "description of " \o n \o ": " \o have.desc \o " instead of " \o want.desc
        ELSE ""

Member(m) == [name |-> m.name, type |-> m.type, tref |-> m.tref, desc |-> m.desc]
TypeDiff(n, have, want) ==
    IF have.kind # want.kind THEN "kind of type " \o n
    ELSE IF have.values # want.values THEN "values of type " \o n
    ELSE IF [i \in 1..Len(have.members) |-> Member(have.members[i])] # [i \in 1..Len(want.members) |-> Member(want.members[i])] THEN "members of type " \o n \o ": "
         \o ToString([i \in 1..Len(have.members) |-> Member(have.members[i])]) \o " instead of " \o ToString([i \in 1..Len(want.members) |-> Member(want.members[i])])
    ELSE IF have.desc # want.desc THEN "description of type " \o n ELSE ""

InScope(d) ==
    IF T.P.schemas
    THEN [d EXCEPT !.schemas = {},
                   !.types = [n \in {n \in DOMAIN d.types : d.types[n].schema \in Range(T.scope)} |-> d.types[n]],
                   !.tables = [n \in {n \in DOMAIN d.tables : d.tables[n].schema \in Range(T.scope)} |-> d.tables[n]]]
    ELSE [d EXCEPT !.schemas = {}]

Diff(have, want) ==
    LET a == InScope(have)
        b == InScope(want)
        diffs == ({TableDiff(n, a.tables[n], b.tables[n]) : n \in DOMAIN a.tables \cap DOMAIN b.tables}
             \cup {TypeDiff(n, a.types[n], b.types[n]) : n \in DOMAIN a.types \cap DOMAIN b.types}) \ {""}
        extra == (DOMAIN a.tables \ DOMAIN b.tables) \cup (DOMAIN a.types \ DOMAIN b.types)
        missing == (DOMAIN b.tables \ DOMAIN a.tables) \cup (DOMAIN b.types \ DOMAIN a.types)
    IN  IF missing # {} THEN "lacks " \o ToString(missing)
        ELSE IF extra # {} THEN "has " \o ToString(extra)
        ELSE IF diffs = {} THEN "" ELSE CHOOSE x \in diffs : TRUE

(* What is left when tables or a schema are dropped with everything that depends on them. *)
Dropped(d, gone, schema) ==
    LET out == gone \cup (IF schema = "" THEN {} ELSE {n \in DOMAIN d.tables : d.tables[n].schema = schema})
        left == DOMAIN d.tables \ out
    IN  [d EXCEPT !.schemas = @ \ (IF schema = "" THEN {} ELSE {schema}),
                  !.types = [n \in {n \in DOMAIN d.types : schema = "" \/ d.types[n].schema # schema} |-> d.types[n]],
                  !.tables = [n \in left |-> [d.tables[n] EXCEPT !.cons = [k \in {k \in DOMAIN @ : @[k].kind # "foreign" \/ @[k].reft \notin out} |-> @[k]]]]]

(* ------------------------------- behaviour ------------------------------ *)
Init == /\ tr \in DOMAIN Traces /\ step = 0 /\ db = EmptyDb /\ model = EmptyDb /\ verdict = "-"

Fail(v) == verdict' = v /\ UNCHANGED <<step, db, model>>
Go == step' = step + 1 /\ UNCHANGED verdict

Step ==
    CASE S.k = "sql" ->
            LET r == Exec(T.P, db, S.ev) IN
            IF r.ok THEN db' = r.db /\ Go /\ UNCHANGED model ELSE Fail(S.what \o ": statement fails: " \o r.why)
      [] S.k = "fresh" -> model' = EmptyDb /\ Go /\ UNCHANGED db
      [] S.k = "refused" -> Go /\ UNCHANGED <<db, model>>
      [] S.k = "model" ->
            LET r == Script(EmptyDb, S.events, 1) IN
            IF ~r.ok THEN Fail(S.what \o ": the model is no schema: " \o r.why)
            ELSE LET x == Diff(r.db, db) IN
                 IF x # "" THEN Fail(S.what \o ": the model differs from the database: " \o x)
                 ELSE model' = r.db /\ Go /\ UNCHANGED db
      [] S.k = "same" ->
            LET r == Script(EmptyDb, S.events, 1) IN
            IF ~r.ok THEN Fail(S.what \o ": the model is no schema: " \o r.why)
            ELSE LET x == Diff(r.db, model) IN
                 IF x = "" \/ Diff(r.db, db) = "" THEN model' = r.db /\ Go /\ UNCHANGED db ELSE Fail(S.what \o ": the model changed: " \o x)
      [] S.k = "quiet" -> IF S.count = 0 THEN Go /\ UNCHANGED <<db, model>> ELSE Fail(S.what \o ": changes the schema: " \o S.first)
      [] S.k = "wanted" ->
            LET r == Script(EmptyDb, S.events, 1) IN
            IF ~r.ok THEN Fail(S.what \o ": the goal is no schema: " \o r.why)
            ELSE LET x == Diff(db, r.db) IN
                 IF x # "" THEN Fail(S.what \o ": the database is not what the classes stand for: " \o x) ELSE Go /\ UNCHANGED <<db, model>>
      [] S.k = "mark" -> model' = db /\ Go /\ UNCHANGED db
      [] S.k = "effect" ->
            LET want == Dropped(model, Range(S.gone), S.schema)
                schemas == IF S.made = "" THEN want.schemas ELSE want.schemas \cup {S.made}
                x == Diff(db, want)
            IN  IF x # "" THEN Fail(S.what \o ": " \o x)
                ELSE IF db.schemas # schemas THEN Fail(S.what \o ": the schemas are " \o ToString(db.schemas))
                ELSE Go /\ UNCHANGED <<db, model>>
      [] S.k = "ask" ->
            LET there == S.n \in DOMAIN db.tables
                want == IF S.c = "" THEN there ELSE there /\ S.c \in ColNames(db.tables[S.n])
                own == {n \in DOMAIN db.tables : T.P.schemas => db.tables[n].schema \in Range(T.scope)}
                bad == IF S.q = "names" THEN IF T.P.schemas THEN own # Range(S.names) ELSE ~(own \subseteq Range(S.names))
                       ELSE S.answer # want
            IN  IF bad THEN Fail(S.what \o ": " \o (IF S.q = "names" THEN "tables are " \o ToString(Range(S.names)) \o " instead of " \o ToString(own)
                                                     ELSE S.n \o "." \o S.c \o " is said to be " \o (IF S.answer THEN "there" ELSE "absent")))
                ELSE Go /\ UNCHANGED <<db, model>>
      [] S.k = "raised" -> Fail(S.what \o ": " \o S.text)

Bare(d) == [d EXCEPT !.tables = [n \in DOMAIN d.tables |-> [d.tables[n] EXCEPT !.rows = <<>>]]]
Next == /\ verdict = "-"
        /\ UNCHANGED tr
        /\ IF step = Len(T.steps) THEN verdict' = "" /\ UNCHANGED <<step, db, model>> ELSE Step
Spec == Init /\ [][Next]_vars
Emit == verdict = "-" \/ (/\ PrintT("V|" \o ToString(tr) \o "|" \o ToString(step) \o "|" \o verdict)
                          /\ (verdict # "" \/ ~T.show \/ PrintT("D|" \o ToString(tr) \o "|" \o ToJson(Bare(db)))))
=============================================================================
