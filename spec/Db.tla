-------------------------------- MODULE Db --------------------------------
(***************************************************************************)
(* An abstract relational database: the state (schemas, user-defined types, *)
(* tables with columns, constraints, rows) and the transition each SQL       *)
(* statement makes.  Every statement is a partial function: it either fails  *)
(* with a reason or yields the next database.  The dialect profile P says    *)
(* where the four engines differ.  This module is the oracle against which   *)
(* the scripts that pysqlsync emits are executed.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

NONE   == "~none"          \* absent default / description
NULLV  == "~null"          \* SQL NULL in a row
NOFN   == <<>>             \* the empty function

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == (k :> v) @@ f
Has(r, k) == k \in DOMAIN r

EmptyDb == [schemas |-> {""}, types |-> NOFN, tables |-> NOFN]

Ok(db)   == [ok |-> TRUE,  why |-> "", db |-> db]
Err(why) == [ok |-> FALSE, why |-> why, db |-> EmptyDb]

(* --------------------------- helpers on tables ------------------------- *)
ColNames(t) == {t.cols[i].name : i \in 1..Len(t.cols)}
ColIx(t, c) == CHOOSE i \in 1..Len(t.cols) : t.cols[i].name = c
Col(t, c)   == t.cols[ColIx(t, c)]
SetCol(t, c, new) ==
    LET k == ColIx(t, c) IN [t EXCEPT !.cols = [i \in 1..Len(t.cols) |-> IF i = k THEN new ELSE t.cols[i]]]

(* Foreign keys of any table in the database that refer to table n.        *)
InboundFk(db, n) ==
    {<<m, k>> \in UNION {{<<m, k>> : k \in DOMAIN db.tables[m].cons} : m \in DOMAIN db.tables} :
        db.tables[m].cons[k].kind = "foreign" /\ db.tables[m].cons[k].reft = n}

IsKey(t, cols) ==
    \/ Range(t.pk) = Range(cols)
    \/ \E k \in DOMAIN t.cons : t.cons[k].kind = "unique" /\ Range(t.cons[k].cols) = Range(cols)

(* Names that live in the constraint name space of a statement on table n. *)
ConScope(P, db, n, kind) ==
    LET s == db.tables[n].schema
        scope ==
            CASE P.name = "postgresql" -> IF kind = "unique" THEN "schema" ELSE "table"
              [] P.name = "mysql"      -> IF kind = "unique" THEN "table" ELSE "schema"
              [] OTHER                 -> "schema"
        tabs == IF scope = "table" THEN {n} ELSE {m \in DOMAIN db.tables : db.tables[m].schema = s}
        relevant(c) == IF P.name = "postgresql" /\ scope = "schema" THEN c.kind = "unique"
                       ELSE IF P.name = "mysql" /\ scope = "table" THEN c.kind = "unique"
                       ELSE IF P.name = "mysql" THEN c.kind = kind
                       ELSE TRUE
    IN  UNION {{k \in DOMAIN db.tables[m].cons : relevant(db.tables[m].cons[k])} : m \in tabs}
        \cup (IF P.name = "mssql"
              THEN UNION {{db.tables[m].cols[i].defname : i \in 1..Len(db.tables[m].cols)} : m \in tabs} \ {""}
              ELSE {})

(* --------------------------- row predicates ---------------------------- *)
UniqueHolds(rows, cols) ==
    \A i, j \in 1..Len(rows) :
        (i < j /\ \A c \in Range(cols) : rows[i][c] # NULLV /\ rows[j][c] = rows[i][c]) => FALSE

FkHolds(db, n, con) ==
    LET t == db.tables[n]
        r == db.tables[con.reft]
    IN  \A i \in 1..Len(t.rows) :
            \/ \E k \in 1..Len(con.cols) : t.rows[i][con.cols[k]] = NULLV
            \/ \E j \in 1..Len(r.rows) :
                   \A k \in 1..Len(con.cols) : t.rows[i][con.cols[k]] = r.rows[j][con.refc[k]]

(* Value an engine puts in existing rows for a freshly added column.       *)
Implicit(ty) == IF ty \in {"smallint", "integer", "bigint", "tinyint", "real", "double precision"} THEN "0" ELSE ""

(* ------------------------------ schemas -------------------------------- *)
CreateSchema(P, db, st) ==
    IF ~P.schemas THEN Err("dialect has no schemas: " \o st.s)
    ELSE IF st.s \in db.schemas
         THEN (IF st.ine THEN Ok(db) ELSE Err("schema exists: " \o st.s))
         ELSE Ok([db EXCEPT !.schemas = @ \cup {st.s}])

TypeUsers(db, n) ==
    {m \in DOMAIN db.tables : \E i \in 1..Len(db.tables[m].cols) : db.tables[m].cols[i].tref = n}
    \cup {m \in DOMAIN db.types : db.types[m].kind = "struct" /\
             \E i \in 1..Len(db.types[m].members) : db.types[m].members[i].tref = n}

DropSchema(P, db, st) ==
    LET tabs == {n \in DOMAIN db.tables : db.tables[n].schema = st.s}
        typs == {n \in DOMAIN db.types : db.types[n].schema = st.s}
        out  == DOMAIN db.tables \ tabs
        \* CASCADE silently takes dependent objects of other schemas along: a loss
        extfk == \E n \in tabs : \E x \in InboundFk(db, n) : x[1] \in out
        extty == \E n \in typs : TypeUsers(db, n) \ (tabs \cup typs) # {}
    IN  IF st.s \notin db.schemas
        THEN (IF st.ie THEN Ok(db) ELSE Err("no such schema: " \o st.s))
        ELSE IF ~st.cascade /\ (tabs # {} \/ typs # {}) THEN Err("schema not empty: " \o st.s)
        ELSE IF extfk \/ extty THEN Err("dropping schema cascades outside of it: " \o st.s)
        ELSE Ok([schemas |-> db.schemas \ {st.s},
                 tables  |-> [n \in out |-> db.tables[n]],
                 types   |-> [n \in DOMAIN db.types \ typs |-> db.types[n]]])

(* ------------------------------- types --------------------------------- *)
RelNameFree(db, n) == n \notin DOMAIN db.types /\ n \notin DOMAIN db.tables

CreateEnum(P, db, st) ==
    IF ~P.types THEN Err("dialect has no user-defined types: " \o st.n)
    ELSE IF st.s \notin db.schemas THEN Err("no such schema for type: " \o st.n)
    ELSE IF ~RelNameFree(db, st.n) THEN Err("name in use: " \o st.n)
    ELSE IF Cardinality(Range(st.values)) # Len(st.values) THEN Err("duplicate enum label: " \o st.n)
    ELSE Ok([db EXCEPT !.types = With(@, st.n,
             [kind |-> "enum", schema |-> st.s, values |-> st.values, members |-> <<>>, desc |-> NONE])])

AddEnumValue(P, db, st) ==
    IF st.n \notin DOMAIN db.types \/ db.types[st.n].kind # "enum" THEN Err("no such enum: " \o st.n)
    ELSE IF st.v \in Range(db.types[st.n].values) THEN Err("enum label exists: " \o st.v)
    ELSE Ok([db EXCEPT !.types[st.n].values = Append(@, st.v)])

TrefOk(db, tref) == tref = "" \/ tref \in DOMAIN db.types

CreateStruct(P, db, st) ==
    IF ~P.types THEN Err("dialect has no user-defined types: " \o st.n)
    ELSE IF st.s \notin db.schemas THEN Err("no such schema for type: " \o st.n)
    ELSE IF ~RelNameFree(db, st.n) THEN Err("name in use: " \o st.n)
    ELSE IF \E i \in 1..Len(st.members) : ~TrefOk(db, st.members[i].tref) THEN Err("member type missing: " \o st.n)
    ELSE IF Cardinality({st.members[i].name : i \in 1..Len(st.members)}) # Len(st.members) THEN Err("duplicate member: " \o st.n)
    ELSE Ok([db EXCEPT !.types = With(@, st.n,
             [kind |-> "struct", schema |-> st.s, values |-> <<>>, members |-> st.members, desc |-> NONE])])

AlterStruct1(db, n, act) ==
    LET ty == db.types[n]
        names == {ty.members[i].name : i \in 1..Len(ty.members)}
    IN  CASE act.a = "drop_attr" ->
               IF act.m \notin names THEN Err("no such attribute: " \o act.m)
               ELSE Ok([db EXCEPT !.types[n].members = SelectSeq(@, LAMBDA x : x.name # act.m)])
          [] act.a = "alter_attr" ->
               IF act.m \notin names THEN Err("no such attribute: " \o act.m)
               ELSE IF ~TrefOk(db, act.tref) THEN Err("attribute type missing: " \o act.m)
               ELSE Ok([db EXCEPT !.types[n].members =
                        [i \in 1..Len(@) |-> IF @[i].name = act.m
                                             THEN [@[i] EXCEPT !.type = act.type, !.tref = act.tref] ELSE @[i]]])
          [] act.a = "add_attr" ->
               IF act.mem.name \in names THEN Err("attribute exists: " \o act.mem.name)
               ELSE IF ~TrefOk(db, act.mem.tref) THEN Err("attribute type missing: " \o act.mem.name)
               ELSE Ok([db EXCEPT !.types[n].members = Append(@, act.mem)])
          [] OTHER -> Err("unsupported struct action: " \o act.a)

AlterStruct(P, db, st) ==
    IF st.n \notin DOMAIN db.types \/ db.types[st.n].kind # "struct" THEN Err("no such struct: " \o st.n)
    ELSE IF (\E i \in 1..Len(st.acts) : st.acts[i].a = "alter_attr") /\ TypeUsers(db, st.n) # {}
         THEN Err("attribute type altered while the type is in use: " \o st.n)
    ELSE FoldLeft(LAMBDA acc, act : IF acc.ok THEN AlterStruct1(acc.db, st.n, act) ELSE acc, Ok(db), st.acts)

RenameType(P, db, st) ==
    IF st.n \notin DOMAIN db.types THEN Err("no such type: " \o st.n)
    ELSE IF ~RelNameFree(db, st.to) THEN Err("name in use: " \o st.to)
    ELSE LET sub(x) == IF x = st.n THEN st.to ELSE x
         IN  Ok([db EXCEPT
                 !.types  = [n \in (DOMAIN @ \ {st.n}) \cup {st.to} |->
                               LET ty == IF n = st.to THEN @[st.n] ELSE @[n]
                               IN  [ty EXCEPT !.members = [i \in 1..Len(@) |-> [@[i] EXCEPT !.tref = sub(@)]]]],
                 !.tables = [n \in DOMAIN @ |->
                               [@[n] EXCEPT !.cols = [i \in 1..Len(@) |-> [@[i] EXCEPT !.tref = sub(@)]]]]])

DropType(P, db, st) ==
    IF st.n \notin DOMAIN db.types THEN Err("no such type: " \o st.n)
    ELSE IF TypeUsers(db, st.n) # {} THEN Err("type in use: " \o st.n)
    ELSE Ok([db EXCEPT !.types = Without(@, st.n)])

(* ------------------------------- tables -------------------------------- *)
AddCon(P, db, n, con) ==
    LET t == db.tables[n] IN
    IF con.name \in ConScope(P, db, n, con.kind) THEN Err("constraint name in use: " \o con.name)
    ELSE IF ~(Range(con.cols) \subseteq ColNames(t)) THEN Err("constraint on missing column: " \o con.name)
    ELSE IF con.kind = "foreign" THEN
        IF con.reft \notin DOMAIN db.tables THEN Err("referenced table missing: " \o con.name)
        ELSE LET r == db.tables[con.reft] IN
             IF ~(Range(con.refc) \subseteq ColNames(r)) THEN Err("referenced column missing: " \o con.name)
             ELSE IF ~IsKey(r, con.refc) THEN Err("referenced columns not a key: " \o con.name)
             ELSE IF \E k \in 1..Len(con.cols) : Col(t, con.cols[k]).type # Col(r, con.refc[k]).type
                  THEN Err("key type mismatch: " \o con.name)
             ELSE IF ~FkHolds(db, n, con) THEN Err("rows violate foreign key: " \o con.name)
             ELSE Ok([db EXCEPT !.tables[n].cons = With(@, con.name, con)])
    ELSE IF con.kind = "unique" /\ ~UniqueHolds(t.rows, con.cols) THEN Err("rows violate unique: " \o con.name)
    ELSE Ok([db EXCEPT !.tables[n].cons = With(@, con.name, con)])

CreateTable(P, db, st) ==
    LET cols == st.cols
        names == {cols[i].name : i \in 1..Len(cols)}
        defn  == {cols[i].defname : i \in 1..Len(cols)} \ {""}
        t == [schema |-> st.s, cols |-> cols, pk |-> st.pk, cons |-> NOFN, desc |-> st.desc, rows |-> <<>>, next |-> 1]
        db1 == [db EXCEPT !.tables = With(@, st.n, t)]
    IN  IF st.s \notin db.schemas THEN Err("no such schema for table: " \o st.n)
        ELSE IF st.n \in DOMAIN db.tables THEN Err("table exists: " \o st.n)
        ELSE IF st.n \in DOMAIN db.types THEN Err("name in use by a type: " \o st.n)
        ELSE IF Cardinality(names) # Len(cols) THEN Err("duplicate column: " \o st.n)
        ELSE IF Len(cols) = 0 THEN Err("no columns: " \o st.n)
        ELSE IF Len(st.pk) = 0 \/ ~(Range(st.pk) \subseteq names) THEN Err("bad primary key: " \o st.n)
        ELSE IF \E i \in 1..Len(cols) : ~TrefOk(db, cols[i].tref) THEN Err("column type missing: " \o st.n)
        ELSE IF \E i \in 1..Len(cols) : cols[i].name \in Range(st.pk) /\ cols[i].nullable /\ P.name # "postgresql"
                THEN Err("nullable primary key: " \o st.n)
        ELSE IF P.name = "mssql" /\ (Cardinality(defn) # Cardinality({i \in 1..Len(cols) : cols[i].defname # ""})
                                     \/ defn \cap ConScope(P, db1, st.n, "default") # defn
                                     \/ \E m \in DOMAIN db.tables : db.tables[m].schema = st.s /\
                                          (\/ defn \cap DOMAIN db.tables[m].cons # {}
                                           \/ \E i \in 1..Len(db.tables[m].cols) : db.tables[m].cols[i].defname \in defn))
                THEN Err("default constraint name in use: " \o st.n)
        ELSE FoldLeft(LAMBDA acc, con : IF acc.ok THEN AddCon(P, acc.db, st.n, con) ELSE acc, Ok(db1), st.cons)

(* with: the tables that the same statement drops (on SQL Server those it has dropped before) *)
DropTable(P, db, st) ==
    IF st.n \notin DOMAIN db.tables THEN (IF st.ie THEN Ok(db) ELSE Err("no such table: " \o st.n))
    ELSE IF (\E x \in InboundFk(db, st.n) : x[1] \notin Range(st.with)) /\ ~st.cascade THEN Err("table is referenced: " \o st.n)
    ELSE Ok([db EXCEPT !.tables = [n \in DOMAIN @ \ {st.n} |->
             [@[n] EXCEPT !.cons = [k \in {k \in DOMAIN @ : ~(@[k].kind = "foreign" /\ @[k].reft = st.n)} |-> @[k]]]]])

(* --------------------------- ALTER TABLE ------------------------------- *)
ColUses(t, c) == {k \in DOMAIN t.cons : c \in Range(t.cons[k].cols)}

DropCol(P, db, n, c) ==
    LET t == db.tables[n]
        uses == ColUses(t, c)
        gone(tt) == [tt EXCEPT !.cols = SelectSeq(@, LAMBDA x : x.name # c),
                               !.rows = [i \in 1..Len(@) |-> Without(@[i], c)],
                               !.cons = [k \in DOMAIN @ \ uses |-> @[k]]]
    IN  IF c \notin ColNames(t) THEN Err("no such column: " \o c)
        ELSE IF c \in Range(t.pk) THEN Err("column is part of the primary key: " \o c)
        ELSE IF Len(t.cols) = 1 THEN Err("last column: " \o c)
        ELSE IF \E x \in InboundFk(db, n) : c \in Range(db.tables[x[1]].cons[x[2]].refc) /\ x[2] \notin uses
             THEN Err("column is referenced by a foreign key: " \o c)
        ELSE IF P.name = "mssql" /\ uses # {} THEN Err("constraint depends on column: " \o c)
        ELSE IF P.name = "mssql" /\ Col(t, c).defname # "" THEN Err("default constraint depends on column: " \o c)
        ELSE IF P.name = "mysql" /\ \E k \in uses : t.cons[k].kind = "foreign" THEN Err("foreign key depends on column: " \o c)
        ELSE IF P.name = "oracle" /\ \E k \in uses : Len(t.cons[k].cols) > 1 THEN Err("multi-column constraint depends on column: " \o c)
        ELSE Ok([db EXCEPT !.tables[n] = gone(@)])

AddColumn(P, db, n, col) ==
    LET t == db.tables[n]
        m == Len(t.rows)
        val(i) == IF col.identity THEN ToString(t.next + i - 1)
                  ELSE IF col.default # NONE THEN col.default
                  ELSE IF ~col.nullable /\ P.name = "mysql" THEN Implicit(col.type)
                  ELSE NULLV
    IN  IF col.name \in ColNames(t) THEN Err("column exists: " \o col.name)
        ELSE IF ~TrefOk(db, col.tref) THEN Err("column type missing: " \o col.name)
        ELSE IF ~col.nullable /\ ~col.identity /\ col.default = NONE /\ m > 0 /\ P.name # "mysql"
             THEN Err("NOT NULL column added to a table with rows: " \o col.name)
        ELSE IF col.defname # "" /\ col.defname \in ConScope(P, db, n, "default")
             THEN Err("default constraint name in use: " \o col.defname)
        ELSE Ok([db EXCEPT !.tables[n].cols = Append(@, col),
                           !.tables[n].rows = [i \in 1..m |-> With(@[i], col.name, val(i))]])

RenameCol(P, db, n, c, to) ==
    LET t == db.tables[n]
        sub(x) == IF x = c THEN to ELSE x
        seq(s) == [i \in 1..Len(s) |-> sub(s[i])]
    IN  IF c \notin ColNames(t) THEN Err("no such column: " \o c)
        ELSE IF to \in ColNames(t) THEN Err("column exists: " \o to)
        ELSE Ok([db EXCEPT !.tables[n] =
                 [t EXCEPT !.cols = [i \in 1..Len(t.cols) |-> [t.cols[i] EXCEPT !.name = sub(@)]],
                           !.pk   = seq(@),
                           !.cons = [k \in DOMAIN t.cons |-> [t.cons[k] EXCEPT !.cols = seq(@),
                                       !.refc = IF t.cons[k].kind = "foreign" /\ t.cons[k].reft = n THEN seq(@) ELSE @]],
                           !.rows = [i \in 1..Len(t.rows) |-> [x \in {sub(y) : y \in DOMAIN t.rows[i]} |->
                                       IF x = to THEN t.rows[i][c] ELSE t.rows[i][x]]]]])

HasNull(t, c) == \E i \in 1..Len(t.rows) : t.rows[i][c] = NULLV

SetNullable(P, db, n, c, nullable) ==
    LET t == db.tables[n] IN
    IF c \notin ColNames(t) THEN Err("no such column: " \o c)
    ELSE IF ~nullable /\ HasNull(t, c) THEN Err("column contains NULL: " \o c)
    ELSE IF nullable /\ c \in Range(t.pk) THEN Err("primary key column made nullable: " \o c)
    ELSE Ok([db EXCEPT !.tables[n] = SetCol(@, c, [Col(@, c) EXCEPT !.nullable = nullable])])

(* Foreign keys have to connect columns of the same type at all times.     *)
FkTypesHold(db, n) ==
    \A m \in DOMAIN db.tables : \A k \in DOMAIN db.tables[m].cons :
        LET con == db.tables[m].cons[k] IN
        (con.kind = "foreign" /\ (m = n \/ con.reft = n) /\ con.reft \in DOMAIN db.tables) =>
            \A i \in 1..Len(con.cols) : Col(db.tables[m], con.cols[i]).type = Col(db.tables[con.reft], con.refc[i]).type

SetType(P, db, n, c, type, tref) ==
    LET t == db.tables[n] IN
    IF c \notin ColNames(t) THEN Err("no such column: " \o c)
    ELSE IF ~TrefOk(db, tref) THEN Err("column type missing: " \o c)
    ELSE Ok([db EXCEPT !.tables[n] = SetCol(@, c, [Col(@, c) EXCEPT !.type = type, !.tref = tref])])

SetField(db, n, c, f, v) ==
    IF c \notin ColNames(db.tables[n]) THEN Err("no such column: " \o c)
    ELSE Ok([db EXCEPT !.tables[n] = SetCol(@, c, [Col(@, c) EXCEPT ![f] = v])])

SetIdentity(P, db, n, c, on) ==
    LET t == db.tables[n] IN
    IF c \notin ColNames(t) THEN Err("no such column: " \o c)
    ELSE IF on /\ Col(t, c).identity THEN Err("already an identity column: " \o c)
    ELSE IF ~on /\ ~Col(t, c).identity THEN Err("not an identity column: " \o c)
    ELSE IF on /\ Col(t, c).nullable /\ P.name = "postgresql" THEN Err("identity column must be NOT NULL: " \o c)
    ELSE IF on /\ Col(t, c).default # NONE THEN Err("identity column has a default: " \o c)
    ELSE IF on /\ \E i \in 1..Len(t.cols) : t.cols[i].identity THEN Err("second identity column: " \o c)
    ELSE SetField(db, n, c, "identity", on)

(* MySQL MODIFY / CHANGE redefines a column wholesale.                      *)
Redefine(P, db, n, c, col) ==
    LET r1 == IF col.name # c THEN RenameCol(P, db, n, c, col.name) ELSE Ok(db)
    IN  IF c \notin ColNames(db.tables[n]) THEN Err("no such column: " \o c)
        ELSE IF ~r1.ok THEN r1
        ELSE LET t == r1.db.tables[n] IN
             IF ~col.nullable /\ HasNull(t, col.name) THEN Err("column contains NULL: " \o c)
             ELSE Ok([r1.db EXCEPT !.tables[n] = SetCol(@, col.name, col)])

(* Oracle MODIFY lists only what changes.                                  *)
Modify(P, db, n, act) ==
    LET c == act.c
        r0 == IF c \notin ColNames(db.tables[n]) THEN Err("no such column: " \o c) ELSE Ok(db)
        r1 == IF r0.ok /\ Has(act, "type") THEN SetType(P, r0.db, n, c, act.type, act.tref) ELSE r0
        r2 == IF r1.ok /\ Has(act, "default") THEN SetField(r1.db, n, c, "default", act.default) ELSE r1
        r3 == IF r2.ok /\ Has(act, "nullable")
              THEN (IF Col(r2.db.tables[n], c).nullable = act.nullable
                    THEN Err("column nullability is already so: " \o c)
                    ELSE SetNullable(P, r2.db, n, c, act.nullable)) ELSE r2
        r4 == IF r3.ok /\ Has(act, "identity") THEN SetIdentity(P, r3.db, n, c, act.identity) ELSE r3
    IN  r4

(* MSSQL ALTER COLUMN restates type and nullability; nothing may depend on the column. *)
AlterCol(P, db, n, act) ==
    LET t == db.tables[n] IN
    IF act.c \notin ColNames(t) THEN Err("no such column: " \o act.c)
    ELSE IF ColUses(t, act.c) # {} \/ act.c \in Range(t.pk) THEN Err("constraint depends on altered column: " \o act.c)
    ELSE IF Col(t, act.c).type # act.type /\ Col(t, act.c).defname # "" THEN Err("default constraint depends on altered column: " \o act.c)
    ELSE LET r == SetType(P, db, n, act.c, act.type, act.tref)
         IN  IF r.ok THEN SetNullable(P, r.db, n, act.c, act.nullable) ELSE r

DropCon(P, db, n, k) ==
    LET t == db.tables[n]
        def == {i \in 1..Len(t.cols) : t.cols[i].defname = k /\ k # ""}
    IN  IF k \in DOMAIN t.cons
        THEN IF t.cons[k].kind = "unique" /\
                \E x \in InboundFk(db, n) :
                    Range(db.tables[x[1]].cons[x[2]].refc) = Range(t.cons[k].cols) /\ Range(t.cons[k].cols) # Range(t.pk)
             THEN Err("unique constraint backs a foreign key: " \o k)
             ELSE Ok([db EXCEPT !.tables[n].cons = Without(@, k)])
        ELSE IF def # {}
        THEN LET i == CHOOSE i \in def : TRUE
             IN  Ok([db EXCEPT !.tables[n].cols[i] = [@ EXCEPT !.default = NONE, !.defname = ""]])
        ELSE Err("no such constraint: " \o k)

AddDefaultCon(P, db, n, act) ==
    IF act.c \notin ColNames(db.tables[n]) THEN Err("no such column: " \o act.c)
    ELSE IF Col(db.tables[n], act.c).default # NONE THEN Err("column already has a default: " \o act.c)
    ELSE IF act.name \in ConScope(P, db, n, "default") THEN Err("default constraint name in use: " \o act.name)
    ELSE LET r == SetField(db, n, act.c, "default", act.default)
         IN  SetField(r.db, n, act.c, "defname", act.name)

Alter1(P, db, n, act) ==
    CASE act.a = "add_col"      -> AddColumn(P, db, n, act.col)
      [] act.a = "drop_col"     -> DropCol(P, db, n, act.c)
      [] act.a = "rename_col"   -> RenameCol(P, db, n, act.c, act.to)
      [] act.a = "set_type"     -> SetType(P, db, n, act.c, act.type, act.tref)
      [] act.a = "alter_col"    -> AlterCol(P, db, n, act)
      [] act.a = "set_notnull"  -> SetNullable(P, db, n, act.c, FALSE)
      [] act.a = "drop_notnull" -> SetNullable(P, db, n, act.c, TRUE)
      [] act.a = "set_default"  -> SetField(db, n, act.c, "default", act.default)
      [] act.a = "drop_default" -> SetField(db, n, act.c, "default", NONE)
      [] act.a = "add_identity" -> SetIdentity(P, db, n, act.c, TRUE)
      [] act.a = "drop_identity"-> SetIdentity(P, db, n, act.c, FALSE)
      [] act.a = "redefine"     -> Redefine(P, db, n, act.c, act.col)
      [] act.a = "modify"       -> Modify(P, db, n, act)
      [] act.a = "add_con"      -> AddCon(P, db, n, act.con)
      [] act.a = "drop_con"     -> DropCon(P, db, n, act.name)
      [] act.a = "add_default"  -> AddDefaultCon(P, db, n, act)
      [] act.a = "table_comment"-> Ok([db EXCEPT !.tables[n].desc = act.d])
      [] OTHER -> Err("unsupported table action: " \o act.a)

(* PostgreSQL and MySQL carry out the parts of one ALTER TABLE in passes.   *)
Pass(P, act) ==
    IF P.name = "postgresql" THEN
        CASE act.a \in {"drop_col", "drop_con", "drop_notnull", "drop_default", "drop_identity"} -> 0
          [] act.a = "set_type" -> 1
          [] act.a = "add_col" -> 2
          [] act.a = "add_con" -> 3
          [] act.a = "set_notnull" -> 4
          [] OTHER -> 5
    ELSE IF P.name = "mysql" THEN
        CASE act.a = "drop_con" -> 0
          [] act.a = "drop_col" -> 1
          [] act.a = "add_con" -> 3
          [] OTHER -> 2
    ELSE 0

InPasses(P, acts) ==
    LET part(k) == SelectSeq(acts, LAMBDA a : Pass(P, a) = k)
    IN  part(0) \o part(1) \o part(2) \o part(3) \o part(4) \o part(5)

AlterTable(P, db, st) ==
    IF st.n \notin DOMAIN db.tables THEN Err("no such table: " \o st.n)
    ELSE IF P.name = "postgresql" /\ Len(st.acts) > 1 /\ \E i \in 1..Len(st.acts) : st.acts[i].a = "rename_col"
         THEN Err("RENAME cannot be combined: " \o st.n)
    ELSE IF P.name \in {"mssql", "oracle"} /\ Len(st.acts) > 1 /\
            ~(P.name = "mssql" /\ (\A i, j \in 1..Len(st.acts) :
                  (st.acts[i].a \in {"drop_con", "drop_col"} /\ st.acts[j].a \in {"drop_con", "drop_col"})
                  \/ (st.acts[i].a = st.acts[j].a)))
         THEN Err("one action per ALTER TABLE: " \o st.n)
    ELSE LET r == FoldLeft(LAMBDA acc, act : IF acc.ok THEN Alter1(P, acc.db, st.n, act) ELSE acc,
                           Ok(db), InPasses(P, st.acts))
         IN  IF r.ok /\ ~FkTypesHold(r.db, st.n) THEN Err("key type mismatch after ALTER: " \o st.n) ELSE r

(* ------------------------------ comments ------------------------------- *)
CommentTable(P, db, st) ==
    IF P.name \notin {"postgresql", "redshift"} THEN Err("COMMENT ON is not supported")
    ELSE IF st.n \notin DOMAIN db.tables THEN Err("no such table: " \o st.n)
    ELSE Ok([db EXCEPT !.tables[st.n].desc = st.d])

CommentCol(P, db, st) ==
    IF P.name \notin {"postgresql", "redshift"} THEN Err("COMMENT ON is not supported")
    ELSE IF st.n \in DOMAIN db.tables THEN SetField(db, st.n, st.c, "desc", st.d)
    ELSE IF st.n \in DOMAIN db.types /\ db.types[st.n].kind = "struct"
            /\ \E i \in 1..Len(db.types[st.n].members) : db.types[st.n].members[i].name = st.c
         THEN Ok([db EXCEPT !.types[st.n].members =
                   [i \in 1..Len(@) |-> IF @[i].name = st.c THEN [@[i] EXCEPT !.desc = st.d] ELSE @[i]]])
    ELSE Err("no such column to comment on: " \o st.n \o "." \o st.c)

CommentType(P, db, st) ==
    IF P.name \notin {"postgresql", "redshift"} THEN Err("COMMENT ON is not supported")
    ELSE IF st.n \notin DOMAIN db.types THEN Err("no such type: " \o st.n)
    ELSE Ok([db EXCEPT !.types[st.n].desc = st.d])

(* -------------------------------- rows --------------------------------- *)
(* A complete row from a partial one: identity, default, NULL.             *)
FillRow(t, part) ==
    [c \in ColNames(t) |->
        IF c \in DOMAIN part THEN part[c]
        ELSE IF Col(t, c).identity THEN ToString(t.next)
        ELSE IF Col(t, c).default # NONE THEN Col(t, c).default
        ELSE NULLV]

Clashes(t, row) ==
    {i \in 1..Len(t.rows) :
        \/ \A c \in Range(t.pk) : t.rows[i][c] = row[c]
        \/ \E k \in DOMAIN t.cons : t.cons[k].kind = "unique" /\
              \A c \in Range(t.cons[k].cols) : row[c] # NULLV /\ t.rows[i][c] = row[c]}

InsertRow(P, db, n, part, dup) ==
    LET t == db.tables[n]
        row == FillRow(t, part)
    IN  IF ~(DOMAIN part \subseteq ColNames(t)) THEN Err("insert into missing column: " \o n)
        ELSE IF \E c \in ColNames(t) : row[c] = NULLV /\ (~Col(t, c).nullable \/ c \in Range(t.pk))
             THEN Err("NULL in a NOT NULL column: " \o n)
        ELSE IF Clashes(t, row) # {} THEN (IF dup = "ignore" THEN Ok(db) ELSE Err("duplicate key: " \o n))
        ELSE LET db1 == [db EXCEPT !.tables[n].rows = Append(@, row), !.tables[n].next = @ + 1]
             IN  IF \E k \in DOMAIN t.cons : t.cons[k].kind = "foreign" /\ ~FkHolds(db1, n, t.cons[k])
                 THEN Err("dangling foreign key: " \o n) ELSE Ok(db1)

Insert(P, db, st) ==
    IF st.n \notin DOMAIN db.tables THEN Err("no such table: " \o st.n)
    ELSE FoldLeft(LAMBDA acc, vals :
                    IF ~acc.ok THEN acc
                    ELSE IF Len(vals) # Len(st.cols) THEN Err("arity mismatch in INSERT: " \o st.n)
                    ELSE InsertRow(P, acc.db, st.n,
                                   [c \in Range(st.cols) |-> vals[CHOOSE i \in 1..Len(st.cols) : st.cols[i] = c]], st.dup),
                  Ok(db), st.rows)

(* INSERT INTO n (col) SELECT DISTINCT c FROM src                           *)
InsertDistinct(P, db, st) ==
    IF st.n \notin DOMAIN db.tables \/ st.src \notin DOMAIN db.tables THEN Err("no such table: " \o st.n)
    ELSE IF st.c \notin ColNames(db.tables[st.src]) THEN Err("no such column: " \o st.c)
    ELSE LET rows == db.tables[st.src].rows
             vals == FoldLeft(LAMBDA acc, r : IF r[st.c] \in Range(acc) \/ (st.notnull /\ r[st.c] = NULLV)
                                              THEN acc ELSE Append(acc, r[st.c]), <<>>, rows)
         IN  FoldLeft(LAMBDA acc, v : IF acc.ok THEN InsertRow(P, acc.db, st.n, st.col :> v, st.dup) ELSE acc, Ok(db), vals)

(* UPDATE n SET set = look.val FROM look WHERE n.c = look.key                *)
LookupUpdate(P, db, st) ==
    IF st.n \notin DOMAIN db.tables \/ st.look \notin DOMAIN db.tables THEN Err("no such table: " \o st.n)
    ELSE LET t == db.tables[st.n]
             l == db.tables[st.look]
         IN  IF ~({st.set, st.c} \subseteq ColNames(t)) \/ ~({st.key, st.val} \subseteq ColNames(l))
             THEN Err("no such column in UPDATE: " \o st.n)
             ELSE LET hit(r) == {j \in 1..Len(l.rows) : l.rows[j][st.key] = r[st.c] /\ r[st.c] # NULLV}
                      db1 == [db EXCEPT !.tables[st.n].rows =
                                [i \in 1..Len(t.rows) |-> IF hit(t.rows[i]) = {} THEN t.rows[i]
                                    ELSE With(t.rows[i], st.set, l.rows[CHOOSE j \in hit(t.rows[i]) : TRUE][st.val])]]
                  IN  IF \E k \in DOMAIN t.cons : t.cons[k].kind = "foreign" /\ ~FkHolds(db1, st.n, t.cons[k])
                      THEN Err("dangling foreign key: " \o st.n) ELSE Ok(db1)

(* ----------------------------- dispatch -------------------------------- *)
Exec(P, db, st) ==
    CASE st.op = "create_schema"   -> CreateSchema(P, db, st)
      [] st.op = "drop_schema"     -> DropSchema(P, db, st)
      [] st.op = "create_enum"     -> CreateEnum(P, db, st)
      [] st.op = "add_enum_value"  -> AddEnumValue(P, db, st)
      [] st.op = "create_struct"   -> CreateStruct(P, db, st)
      [] st.op = "alter_struct"    -> AlterStruct(P, db, st)
      [] st.op = "rename_type"     -> RenameType(P, db, st)
      [] st.op = "drop_type"       -> DropType(P, db, st)
      [] st.op = "create_table"    -> CreateTable(P, db, st)
      [] st.op = "drop_table"      -> DropTable(P, db, st)
      [] st.op = "alter"           -> AlterTable(P, db, st)
      [] st.op = "comment_table"   -> CommentTable(P, db, st)
      [] st.op = "comment_col"     -> CommentCol(P, db, st)
      [] st.op = "comment_type"    -> CommentType(P, db, st)
      [] st.op = "insert"          -> Insert(P, db, st)
      [] st.op = "insert_distinct" -> InsertDistinct(P, db, st)
      [] st.op = "lookup_update"   -> LookupUpdate(P, db, st)
      [] OTHER -> Err("statement is not understood: " \o st.op)

(* -------------------------- well-formedness ---------------------------- *)
(* Structural integrity every reachable database must have.                *)
Integrity(db) ==
    /\ \A n \in DOMAIN db.tables :
         LET t == db.tables[n] IN
         /\ t.schema \in db.schemas
         /\ Range(t.pk) \subseteq ColNames(t)
         /\ \A i \in 1..Len(t.cols) : TrefOk(db, t.cols[i].tref)
         /\ \A k \in DOMAIN t.cons :
              /\ Range(t.cons[k].cols) \subseteq ColNames(t)
              /\ t.cons[k].kind = "foreign" =>
                    /\ t.cons[k].reft \in DOMAIN db.tables
                    /\ IsKey(db.tables[t.cons[k].reft], t.cons[k].refc)
                    /\ FkHolds(db, n, t.cons[k])
         /\ \A i \in 1..Len(t.rows) : DOMAIN t.rows[i] = ColNames(t)
    /\ \A n \in DOMAIN db.types :
         /\ db.types[n].schema \in db.schemas
         /\ \A i \in 1..Len(db.types[n].members) : TrefOk(db, db.types[n].members[i].tref)
=============================================================================
