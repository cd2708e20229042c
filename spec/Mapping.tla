------------------------------ MODULE Mapping ------------------------------
(* How entity classes become a database schema (pysqlsync/formation/py_to_sql.py and the generators of the dialects).
   A trace is a world of classes (entities, structures, enumerations with fields of abstract types), the options of the
   generator, the classes or modules that were passed to it, and the statements of the script it returned.  The
   specification forms the set of classes the schema has to be made of by following references, executes the script on
   an empty database (module Db), and compares what exists with what each class has to become.                       *)
EXTENDS Db, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, todo, seen, step, db, verdict
vars == <<tr, todo, seen, step, db, verdict>>

T == Traces[tr]
D == T.P.name
O == T.opts
C(k) == T.classes[k]
Fields(k) == C(k).fields
Dom(s) == DOMAIN s

(* ----------------------------- references ------------------------------- *)
RECURSIVE Refs(_)
Refs(t) ==
    CASE t.k \in {"ref", "struct", "enum", "xenum"} -> {t.c}
      [] t.k = "union" -> Range(t.cs)
      [] t.k \in {"list", "set"} -> Refs(t.e)
      [] OTHER -> {}
RefsOf(k) == IF C(k).kind = "enum" THEN {} ELSE UNION {Refs(Fields(k)[i].t) : i \in Dom(Fields(k))}

Key(k) == LET i == CHOOSE i \in Dom(Fields(k)) : Fields(k)[i].primary IN Fields(k)[i]

ObjKey(ns, name) == IF T.P.schemas THEN ns \o "|" \o name ELSE "|" \o (IF ns = "" THEN name ELSE ns \o "__" \o name)
KeyOf(k) == ObjKey(C(k).ns, C(k).name)
SchemaOf(k) == IF T.P.schemas THEN C(k).ns ELSE ""

(* A field that becomes a relation of its own (a join table) rather than a column. *)
Relation(f) == f.t.k \in {"list", "set"} /\ (O.array = "RELATION" \/ f.t.e.k = "ref")

(* ---------------------------- type mapping ------------------------------ *)
By(p, my, ms, ora, red, snow, delta, trino) ==
    CASE D = "postgresql" -> p [] D = "mysql" -> my [] D = "mssql" -> ms [] D = "oracle" -> ora
      [] D = "redshift" -> red [] D = "snowflake" -> snow [] D = "delta" -> delta [] D = "trino" -> trino

IntText(bits) ==
    IF D = "oracle" THEN "number"
    ELSE CASE bits \in {8, 16} -> "smallint" [] bits = 32 -> "integer" [] OTHER -> "bigint"
Varchar(n) == "varchar(" \o ToString(n) \o ")"
Text(n) ==
    CASE D \in {"postgresql", "redshift", "snowflake", "trino"} -> IF n = 0 THEN "text" ELSE Varchar(n)
      [] D = "mysql" -> CASE n = 0 -> "mediumtext" [] n < 65536 -> Varchar(n) [] n < 16777216 -> "mediumtext" [] OTHER -> "longtext"
      [] D = "mssql" -> IF n = 0 \/ n > 8000 THEN "varchar(max)" ELSE Varchar(n)
      [] D = "oracle" -> IF n = 0 \/ n > 4000 THEN "clob" ELSE "varchar2(" \o ToString(n) \o ")"
      [] D = "delta" -> "string"
Prec(p) == IF p < 0 THEN "" ELSE "(" \o ToString(p) \o ")"
JsonText == By("jsonb", "json", "varchar(max)", "clob", "text", "variant", "text", "json")
Bytes(n) == LET m == "(" \o ToString(n) \o ")" IN By("bytea", "binary" \o m, "binary" \o m, "raw" \o m, "varbyte" \o m, "binary" \o m, "binary", "binary" \o m)
Col0(x) == [type |-> x, tref |-> ""]
EnumKey == Col0(IntText(32))

(* [type, tref]: the column type that holds values of type t *)
RECURSIVE Ty(_), Members(_, _)
Members(fs, i) == IF i > Len(fs) THEN ""
                  ELSE (IF i = 1 THEN "" ELSE ",") \o "\"" \o fs[i].name \o "\" " \o Ty(fs[i].t).type \o (IF fs[i].nullable THEN "" ELSE " not null") \o Members(fs, i + 1)
Ty(t) ==
    CASE t.k = "bool" -> Col0(By("boolean", "tinyint", "bit", "boolean", "boolean", "boolean", "boolean", "boolean"))
      [] t.k = "int" -> Col0(IntText(t.bits))
      [] t.k = "float" -> Col0(IF t.bits = 32 THEN (IF D = "delta" THEN "float" ELSE "real") ELSE IF D = "delta" THEN "double" ELSE "double precision")
      [] t.k = "decimal" -> Col0(IF t.p < 0 THEN "decimal" ELSE "decimal(" \o ToString(t.p) \o "," \o ToString(t.s) \o ")")
      [] t.k = "text" -> Col0(Text(t.n))
      [] t.k = "datetime" -> Col0(LET p == IF (t.p = 6 /\ D = "oracle") \/ (t.p = 0 /\ D = "mysql") THEN -1 ELSE t.p     \* the default of the engine
                                  IN  By("timestamp" \o Prec(p), "datetime" \o Prec(p), "datetime2", "timestamp" \o Prec(p), "timestamp" \o Prec(p), "datetime", "timestamp_ntz", "timestamp" \o Prec(p)))
      [] t.k = "date" -> Col0("date")
      [] t.k = "time" -> Col0(IF D = "oracle" THEN "interval day to second" ELSE "time" \o Prec(IF t.p = 0 /\ D = "mysql" THEN -1 ELSE t.p))
      [] t.k = "interval" -> Col0("interval")
      [] t.k = "uuid" -> Col0(IF D \in {"postgresql", "trino"} THEN "uuid" ELSE Bytes(16))
      [] t.k = "ipv4" -> Col0(IF D \in {"postgresql", "trino"} THEN "inet" ELSE Bytes(4))
      [] t.k \in {"ipv6", "ip"} -> Col0(IF D \in {"postgresql", "trino"} THEN "inet" ELSE Bytes(16))
      [] t.k = "bytes" -> Col0("blob")
      [] t.k = "literal" -> Col0("char(" \o ToString(t.n) \o ")")
      [] t.k = "enum" -> CASE O.enum = "TYPE" -> [type |-> "udt", tref |-> KeyOf(t.c)]
                           [] O.enum = "INLINE" -> Col0("enum(" \o C(t.c).inline \o ")")
                           [] O.enum = "RELATION" -> EnumKey
                           [] OTHER -> IF C(t.c).text THEN Col0(Text(64)) ELSE Col0(IntText(64))
      [] t.k = "xenum" -> EnumKey
      [] t.k = "ref" -> Ty(Key(t.c).t)
      [] t.k = "union" -> Ty(Key(t.cs[1]).t)
      [] t.k = "struct" -> CASE O.struct = "TYPE" -> [type |-> "udt", tref |-> KeyOf(t.c)]
                             [] O.struct = "INLINE" -> Col0("struct<" \o Members(Fields(t.c), 1) \o ">")
                             [] OTHER -> Col0(JsonText)
      [] t.k \in {"list", "set"} -> IF O.array = "ARRAY" THEN LET e == Ty(t.e) IN [type |-> "array(" \o e.type \o ")", tref |-> e.tref]
                                    ELSE Col0(JsonText)

(* The default value of a required column with option auto_default: the zero of the type, if it has one. *)
RECURSIVE AutoDefault(_)
AutoDefault(t) ==
    CASE t.k = "bool" -> IF D = "mssql" THEN "0" ELSE "FALSE"
      [] t.k = "int" -> "0"
      [] t.k = "float" -> "0.0"
      [] t.k = "decimal" -> "0"
      [] t.k = "text" -> "''"
      [] t.k = "datetime" -> (IF D \in {"oracle", "snowflake"} THEN "TIMESTAMP " ELSE "") \o "'0001-01-01 00:00:00'"
      [] t.k = "date" -> (IF D = "oracle" THEN "DATE " ELSE "") \o "'0001-01-01'"
      [] t.k = "time" -> IF D = "oracle" THEN "INTERVAL '0 00:00:00' DAY TO SECOND" ELSE "'00:00:00'"
      [] t.k = "enum" -> CASE O.enum = "RELATION" -> NONE [] O.enum = "CHECK" -> C(t.c).first [] OTHER -> C(t.c).label
      [] t.k = "ref" -> AutoDefault(Key(t.c).t)
      [] t.k = "union" -> AutoDefault(Key(t.cs[1]).t)
      [] OTHER -> NONE

(* --------------------------- what is possible --------------------------- *)
FieldPossible(entity, f) ==
    CASE f.t.k = "union" -> \A i, j \in Dom(f.t.cs) : Key(f.t.cs[i]).t = Key(f.t.cs[j]).t
      [] f.t.k \in {"list", "set"} ->
            IF f.t.e.k = "ref" THEN entity
            ELSE O.array = "RELATION" => (entity /\ f.t.e.k = "enum" /\ O.enum = "RELATION")
      [] f.t.k = "enum" -> C(f.t.c).rich = <<>> \/ O.enum = "RELATION"       \* values with several fields take a table
      [] f.t.k = "never" -> FALSE
      [] OTHER -> TRUE

Entities == {k \in seen : C(k).kind = "entity"}
Structs  == {k \in seen : C(k).kind = "struct"}
Enums    == {k \in seen : C(k).kind = "enum"}
Composite == Entities \cup (IF O.struct \in {"TYPE", "INLINE"} THEN Structs ELSE {})

AllFields == UNION {{Fields(k)[i] : i \in Dom(Fields(k))} : k \in Composite}
Extensible == {k \in Enums : \E f \in AllFields : f.t.k = "xenum" /\ f.t.c = k}
Listed(f) == IF f.t.k \in {"list", "set"} THEN f.t.e ELSE f.t
Regular    == {k \in Enums : \E f \in AllFields : Listed(f).k = "enum" /\ Listed(f).c = k}

(* The modes a dialect can express. *)
Enumerations == By({"TYPE", "RELATION", "CHECK"}, {"INLINE", "RELATION", "CHECK"}, {"RELATION", "CHECK"}, {"RELATION", "CHECK"}, {"CHECK"}, {"CHECK"}, {"CHECK"}, {"CHECK", "RELATION"})
Structures   == By({"TYPE", "JSON"}, {"JSON"}, {"JSON"}, {"JSON"}, {"JSON"}, {"JSON"}, {"INLINE", "JSON"}, {"JSON"})
Arrays       == LET plain == {"JSON", "RELATION"} IN By(plain \cup {"ARRAY"}, plain, plain, plain, plain, plain, plain \cup {"ARRAY"}, plain)
Expressible == (O.asked.enum = "" \/ O.asked.enum \in Enumerations)
                /\ (O.asked.struct = "" \/ O.asked.struct \in Structures) /\ (O.asked.array = "" \/ O.asked.array \in Arrays)

Possible ==
    /\ Expressible
    /\ Cardinality(Range(T.spaces)) = Len(T.spaces)         \* a namespace for one module only
    /\ \A k \in Entities : Cardinality({i \in Dom(Fields(k)) : Fields(k)[i].primary}) = 1
    /\ \A k \in Composite : \A i \in Dom(Fields(k)) : FieldPossible(C(k).kind = "entity", Fields(k)[i])
    /\ \A k \in Composite \cup Extensible \cup (IF O.enum \in {"TYPE", "RELATION"} THEN Regular ELSE {}) : C(k).mapped
    /\ O.enum = "TYPE" => Extensible \cap Regular = {}

(* ---------------------- what the schema has to contain ------------------ *)
Lookups == Extensible \cup (IF O.enum = "RELATION" THEN {k \in Regular : \E f \in AllFields :
                                ((f.t.k = "enum" /\ f.t.c = k) \/ (Relation(f) /\ f.t.e.k = "enum" /\ f.t.e.c = k))} ELSE {})
MayLookups == IF O.enum = "RELATION" THEN Enums ELSE Extensible
EnumTypes == IF O.enum = "TYPE" /\ T.P.types
             THEN {k \in Regular : \E f \in AllFields : Listed(f).k = "enum" /\ Listed(f).c = k /\ Ty(f.t).tref # ""} ELSE {}
MayEnumTypes == IF O.enum = "TYPE" /\ T.P.types THEN Enums \ Extensible ELSE {}
StructTypes == IF O.struct = "TYPE" /\ T.P.types THEN Structs ELSE {}

Joins == UNION {{<<k, i>> : i \in {i \in Dom(Fields(k)) : Relation(Fields(k)[i])}} : k \in Entities}
JoinItem(j) == Fields(j[1])[j[2]].t.e
JoinName(j) == C(j[1]).name \o "_" \o Fields(j[1])[j[2]].name \o "_" \o C(JoinItem(j).c).name
JoinKey(j)  == ObjKey(C(j[1]).ns, JoinName(j))

(* columns are [name, type, tref, nullable, default, identity, desc] *)
WantCol(f) ==
    LET y == Ty(f.t) IN
    [name |-> f.name, type |-> y.type, tref |-> y.tref, nullable |-> f.nullable, identity |-> f.identity, desc |-> f.desc,
     default |-> IF D = "delta" THEN NONE      \* needs a property of the table, which is not set
                 ELSE IF f.default = NONE /\ O.auto /\ ~f.nullable /\ ~f.primary /\ ~f.identity THEN AutoDefault(f.t) ELSE f.default]
PlainCol(n, y) == [name |-> n, type |-> y.type, tref |-> y.tref, nullable |-> FALSE, default |-> NONE, identity |-> FALSE, desc |-> NONE]
WantCols(k) == LET fs == SelectSeq(Fields(k), LAMBDA f : ~Relation(f)) IN [i \in Dom(fs) |-> WantCol(fs[i])]

Con(kind, cols, reft, refc, cond) == [kind |-> kind, cols |-> cols, reft |-> reft, refc |-> refc, cond |-> cond]
NoCond == [lo |-> "", hi |-> "", among |-> <<>>]
Checks == D \notin {"snowflake", "delta"}       \* warehouses without check constraints
FieldCons(f) ==
       (IF f.unique THEN {Con("unique", <<f.name>>, "", <<>>, NoCond)} ELSE {})
  \cup (IF f.t.k = "ref" /\ O.fk THEN {Con("foreign", <<f.name>>, KeyOf(f.t.c), <<Key(f.t.c).name>>, NoCond)} ELSE {})
  \cup (IF f.t.k = "xenum" \/ (f.t.k = "enum" /\ O.enum = "RELATION")
        THEN {Con("foreign", <<f.name>>, KeyOf(f.t.c), <<"id">>, NoCond)} ELSE {})
  \cup (IF f.t.k = "enum" /\ O.enum = "CHECK" /\ Checks THEN {Con("check", <<f.name>>, "", <<>>, [NoCond EXCEPT !.among = C(f.t.c).sorted])} ELSE {})
  \cup (IF f.t.k = "int" /\ Checks /\ (f.t.lo # "" \/ f.t.hi # "") THEN {Con("check", <<f.name>>, "", <<>>, [NoCond EXCEPT !.lo = f.t.lo, !.hi = f.t.hi])} ELSE {})
WantCons(k) == UNION {FieldCons(f) : f \in {Fields(k)[i] : i \in Dom(Fields(k))}}

JoinLeft(j)  == C(j[1]).name \o "_" \o Fields(j[1])[j[2]].name
JoinRight(j) == C(JoinItem(j).c).name \o "_" \o (IF JoinItem(j).k = "ref" THEN Key(JoinItem(j).c).name ELSE "id")
JoinCols(j) == <<PlainCol("uuid", Col0(IF D \in {"postgresql", "trino"} THEN "uuid" ELSE Bytes(16))),
                 PlainCol(JoinLeft(j), Ty(Key(j[1]).t)),
                 PlainCol(JoinRight(j), IF JoinItem(j).k = "ref" THEN Ty(Key(JoinItem(j).c).t) ELSE EnumKey)>>
JoinCons(j) ==
    {Con("foreign", <<JoinLeft(j)>>, KeyOf(j[1]), <<Key(j[1]).name>>, NoCond),
     Con("foreign", <<JoinRight(j)>>, KeyOf(JoinItem(j).c), <<IF JoinItem(j).k = "ref" THEN Key(JoinItem(j).c).name ELSE "id">>, NoCond)}
    \cup (IF Fields(j[1])[j[2]].t.k = "set" THEN {Con("unique", <<JoinRight(j)>>, "", <<>>, NoCond)} ELSE {})

Rich(k) == C(k).rich # <<>>
LookupCols(k) == <<[PlainCol("id", EnumKey) EXCEPT !.identity = TRUE]>>
                 \o IF Rich(k) THEN [i \in Dom(C(k).rich) |-> WantCol(C(k).rich[i])] ELSE <<PlainCol("value", Col0(Text(64)))>>
LookupCons(k) == IF Rich(k) THEN {} ELSE {Con("unique", <<"value">>, "", <<>>, NoCond)}

(* ------------------------------- comparison ----------------------------- *)
Shown(c) == [name |-> c.name, type |-> c.type, tref |-> c.tref, nullable |-> c.nullable, default |-> c.default, identity |-> c.identity, desc |-> c.desc]
Facets == <<"name", "type", "tref", "nullable", "default", "identity", "desc">>
ColDiff(have, want) ==
    LET bad == {i \in Dom(Facets) : have[Facets[i]] # want[Facets[i]]} IN
    IF bad = {} THEN "" ELSE Facets[CHOOSE i \in bad : \A j \in bad : i <= j]
Content(c) == Con(c.kind, c.cols, c.reft, c.refc, c.cond)
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Show(x) == IF x = TRUE THEN "yes" ELSE IF x = FALSE THEN "no" ELSE x

TableDiff(n, cols, pk, cons, desc) ==
    LET t == db.tables[n]
        diff == {i \in Dom(cols) : ColDiff(Shown(t.cols[i]), cols[i]) # ""}
    IN  IF Len(t.cols) # Len(cols) \/ {t.cols[i].name : i \in Dom(t.cols)} # {cols[i].name : i \in Dom(cols)} THEN "columns of " \o n
        ELSE IF diff # {} THEN LET i == First(diff)
                                   f == ColDiff(Shown(t.cols[i]), cols[i])
                               IN  f \o " of column " \o n \o "." \o cols[i].name \o ": " \o ToString(t.cols[i][f]) \o " instead of " \o ToString(cols[i][f])
        ELSE IF t.pk # pk THEN "primary key of " \o n
        ELSE IF \E c \in cons : \A k \in DOMAIN t.cons : Content(t.cons[k]) # c
             THEN LET c == CHOOSE c \in cons : \A k \in DOMAIN t.cons : Content(t.cons[k]) # c IN "missing constraint on " \o n \o ": " \o c.kind \o " " \o ToString(c.cols) \o " " \o c.reft \o ToString(c.refc) \o ToString(c.cond)
        ELSE IF \E k \in DOMAIN t.cons : Content(t.cons[k]) \notin cons
             THEN LET k == CHOOSE k \in DOMAIN t.cons : Content(t.cons[k]) \notin cons IN "unwanted constraint on " \o n \o ": " \o k
        ELSE IF Cardinality(DOMAIN t.cons) # Cardinality(cons) THEN "repeated constraint on " \o n
        ELSE IF t.desc # desc THEN "description of " \o n
        ELSE ""

RowsDiff(k) ==
    LET t == db.tables[KeyOf(k)]
        v == C(k).values
        have == [i \in Dom(t.rows) |-> t.rows[i]["value"]]
    IN  IF ~O.init THEN (IF t.rows = <<>> THEN "" ELSE "rows of " \o KeyOf(k))
        ELSE IF Rich(k) THEN
            LET w == C(k).lines
                f == C(k).rich
                same(row, line) == \A c \in Dom(f) : row[f[c].name] \in {line[c], "'" \o line[c] \o "'"}
            IN  IF Len(t.rows) = Len(w) /\ \A i \in Dom(w) : \E j \in Dom(t.rows) : same(t.rows[j], w[i]) THEN "" ELSE "rows of " \o KeyOf(k)
        ELSE IF Len(have) = Len(v) /\ \A i \in Dom(v) : \E j \in Dom(have) : have[j] \in {v[i], "'" \o v[i] \o "'"} THEN "" ELSE "rows of " \o KeyOf(k)

EnumDiff(k) == IF db.types[KeyOf(k)].kind = "enum" /\ db.types[KeyOf(k)].values = C(k).values THEN "" ELSE "values of type " \o KeyOf(k)
StructDiff(k) ==
    LET ty == db.types[KeyOf(k)]
        want == [i \in Dom(Fields(k)) |-> LET y == Ty(Fields(k)[i].t) IN [name |-> Fields(k)[i].name, type |-> y.type, tref |-> y.tref, desc |-> Fields(k)[i].desc]]
        have == [i \in Dom(ty.members) |-> [name |-> ty.members[i].name, type |-> ty.members[i].type, tref |-> ty.members[i].tref, desc |-> ty.members[i].desc]]
    IN  IF ty.kind # "struct" \/ have # want THEN "members of type " \o KeyOf(k) \o ": " \o ToString(have) \o " instead of " \o ToString(want)
        ELSE IF ty.desc # C(k).desc THEN "description of type " \o KeyOf(k) ELSE ""

MustTables == {KeyOf(k) : k \in Entities \cup Lookups} \cup {JoinKey(j) : j \in Joins}
MayTables  == MustTables \cup {KeyOf(k) : k \in MayLookups}
MustTypes  == {KeyOf(k) : k \in EnumTypes \cup StructTypes}
MayTypes   == MustTypes \cup {KeyOf(k) : k \in MayEnumTypes}
MaySchemas == {""} \cup {SchemaOf(k) : k \in seen}

Closed ==
    LET missing == (MustTables \ DOMAIN db.tables) \cup (MustTypes \ DOMAIN db.types)
        extra   == (DOMAIN db.tables \ MayTables) \cup (DOMAIN db.types \ MayTypes)
    IN  IF missing # {} THEN "missing: " \o ToString(missing)
        ELSE IF extra # {} THEN "not asked for: " \o ToString(extra)
        ELSE IF ~(db.schemas \subseteq MaySchemas) THEN "schemas: " \o ToString(db.schemas)
        ELSE IF ~Integrity(db) THEN "the schema lacks integrity"
        ELSE IF \E n \in DOMAIN db.tables : \E k \in DOMAIN db.tables : k # n /\ FALSE THEN ""
        ELSE IF ~T.again THEN "the same classes in another order make a different schema"
        ELSE ""

Faithful ==
    LET diffs == ({TableDiff(KeyOf(k), WantCols(k), <<Key(k).name>>, WantCons(k), C(k).desc) : k \in {k \in Entities : KeyOf(k) \in DOMAIN db.tables}}
             \cup {TableDiff(JoinKey(j), JoinCols(j), <<"uuid">>, JoinCons(j), NONE) : j \in {j \in Joins : JoinKey(j) \in DOMAIN db.tables}}
             \cup {TableDiff(KeyOf(k), LookupCols(k), <<"id">>, LookupCons(k), NONE) : k \in {k \in MayLookups : KeyOf(k) \in DOMAIN db.tables}}
             \cup {RowsDiff(k) : k \in {k \in MayLookups : KeyOf(k) \in DOMAIN db.tables}}
             \cup {EnumDiff(k) : k \in {k \in MayEnumTypes : KeyOf(k) \in DOMAIN db.types}}
             \cup {StructDiff(k) : k \in {k \in StructTypes : KeyOf(k) \in DOMAIN db.types}}) \ {""}
    IN  IF diffs = {} THEN "" ELSE CHOOSE x \in diffs : TRUE

(* ------------------------------- behaviour ------------------------------ *)
Init == /\ tr \in DOMAIN Traces /\ todo = Range(T.roots) /\ seen = {} /\ step = 0 /\ db = EmptyDb /\ verdict = "-"

Form == /\ verdict = "-" /\ todo # {}
        /\ LET k == CHOOSE k \in todo : TRUE IN
           /\ seen' = seen \cup {k}
           /\ todo' = (todo \cup RefsOf(k)) \ seen'
        /\ UNCHANGED <<tr, step, db, verdict>>

Both(x, y) == x \o "^" \o y
Run == /\ verdict = "-" /\ todo = {}
       /\ UNCHANGED <<tr, todo, seen>>
       /\ IF T.error # "" \/ ~Possible
          THEN /\ verdict' = IF Possible THEN Both("classes are refused: " \o T.error, "classes are refused: " \o T.error)
                             ELSE IF T.error # "" THEN Both("", "")
                             ELSE Both("impossible classes are accepted", "impossible classes are accepted")
               /\ UNCHANGED <<step, db>>
          ELSE IF step < Len(T.events)
          THEN LET r == Exec(T.P, db, T.events[step + 1]) IN
               /\ step' = step + 1
               /\ IF r.ok THEN db' = r.db /\ UNCHANGED verdict
                  ELSE /\ UNCHANGED db /\ verdict' = Both("statement fails: " \o r.why, "statement fails: " \o r.why)
          ELSE /\ verdict' = Both(Closed, Faithful)
               /\ UNCHANGED <<step, db>>

Next == Form \/ Run
Spec == Init /\ [][Next]_vars
Emit == verdict = "-" \/ PrintT("V|" \o ToString(tr) \o "|" \o ToString(step) \o "|" \o verdict)
=============================================================================
