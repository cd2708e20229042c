----------------------------- MODULE RoundTrip -----------------------------
(* From a schema to entity classes and back (pysqlsync/formation/sql_to_py.py, pysqlsync/python_types.py).
   A trace holds the script that creates a schema, the script that the same generator returns for the classes which the code
   under test made of that schema, and, field by field, these classes and the ones their generated source code defines.
   Both scripts are executed on empty databases (module Db); the two databases have to be the same except for the order of
   columns, and the two sets of classes as well.  A schema with a column that no class can express has to be refused.      *)
EXTENDS Db, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, phase, step, db, made, verdict
vars == <<tr, phase, step, db, made, verdict>>
T == Traces[tr]

(* kinds of columns that have no counterpart among the types of fields that classes can be made of *)
Inexpressible(d) ==
    CASE d = "postgresql" -> {"ipv4", "ipv6", "ip", "interval"}
      [] d = "mysql" -> {"uuid", "ipv4", "ipv6", "ip"}
      [] d = "mssql" -> {"uuid", "ipv4", "ipv6", "ip"}
      [] d = "oracle" -> {"uuid", "ipv4", "ipv6", "ip", "bytes"}
      [] OTHER -> {}
Refusal == Range(T.kinds) \cap Inexpressible(T.P.name) # {}

(* ------------------------------ comparison ------------------------------ *)
Named(s) == [n \in {s[i].name : i \in DOMAIN s} |-> LET i == CHOOSE i \in DOMAIN s : s[i].name = n IN s[i]]
Unordered(t) == [t EXCEPT !.cols = Named(t.cols)]
Same(x, y) == Unordered(x) = Unordered(y)

ColsDiff(k, x, y) ==
    LET a == Named(x.cols) b == Named(y.cols)
    IN  IF DOMAIN a # DOMAIN b THEN "table " \o k \o " has columns " \o ToString(DOMAIN b) \o " instead of " \o ToString(DOMAIN a)
        ELSE IF \E n \in DOMAIN a : a[n] # b[n]
        THEN LET n == CHOOSE n \in DOMAIN a : a[n] # b[n] IN "column " \o n \o " of " \o k \o " is " \o ToString(b[n]) \o " instead of " \o ToString(a[n])
        ELSE "table " \o k \o " is " \o ToString(y) \o " instead of " \o ToString(x)

SchemaDiff ==
    IF DOMAIN made.tables # DOMAIN db.tables THEN "tables " \o ToString(DOMAIN db.tables) \o " instead of " \o ToString(DOMAIN made.tables)
    ELSE IF made.types # db.types THEN "types " \o ToString(db.types) \o " instead of " \o ToString(made.types)
    ELSE IF \E k \in DOMAIN db.tables : ~Same(made.tables[k], db.tables[k])
    THEN LET k == CHOOSE k \in DOMAIN db.tables : ~Same(made.tables[k], db.tables[k]) IN ColsDiff(k, made.tables[k], db.tables[k])
    \* references to one of several tables exist in the generator's view of the schema only
    ELSE IF T.links[1] # T.links[2] THEN "references to one of several tables are " \o ToString(T.links[2]) \o " instead of " \o ToString(T.links[1])
    ELSE ""

SourceDiff ==
    IF T.source = T.classes THEN ""
    ELSE IF \E i \in DOMAIN T.classes : i \notin DOMAIN T.source \/ T.source[i] # T.classes[i]
    THEN LET i == CHOOSE i \in DOMAIN T.classes : i \notin DOMAIN T.source \/ T.source[i] # T.classes[i]
         IN  "the source code defines " \o (IF i \in DOMAIN T.source THEN ToString(T.source[i]) ELSE "nothing") \o " instead of " \o ToString(T.classes[i])
    ELSE "the source code defines further classes"

(* ------------------------------- behaviour ------------------------------ *)
Init == tr \in DOMAIN Traces /\ phase = "schema" /\ step = 0 /\ db = EmptyDb /\ made = EmptyDb /\ verdict = "-"

Script == IF phase = "schema" THEN T.schema ELSE T.again
Statement == /\ verdict = "-" /\ phase \in {"schema", "again"} /\ step < Len(Script)
             /\ LET r == Exec(T.P, db, Script[step + 1]) IN
                /\ step' = step + 1
                /\ IF r.ok THEN db' = r.db /\ UNCHANGED verdict ELSE UNCHANGED db /\ verdict' = phase \o ": statement fails: " \o r.why
             /\ UNCHANGED <<tr, phase, made>>

Convert == /\ verdict = "-" /\ phase = "schema" /\ step = Len(Script)
           /\ phase' = "again" /\ step' = 0 /\ made' = db /\ db' = EmptyDb
           /\ verdict' = IF Refusal THEN (IF T.error # "" THEN "" ELSE "a schema that classes cannot express is converted")
                         ELSE IF T.error # "" THEN "refused: " \o T.error ELSE "-"
           /\ UNCHANGED tr

Compare == /\ verdict = "-" /\ phase = "again" /\ step = Len(Script)
           /\ phase' = "done"
           /\ verdict' = IF SchemaDiff # "" THEN SchemaDiff ELSE SourceDiff
           /\ UNCHANGED <<tr, step, db, made>>

Next == Statement \/ Convert \/ Compare
Spec == Init /\ [][Next]_vars
Emit == verdict = "-" \/ PrintT("V|" \o ToString(tr) \o "|" \o ToString(step) \o "|" \o verdict)
=============================================================================
