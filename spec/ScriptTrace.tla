---------------------------- MODULE ScriptTrace ----------------------------
(***************************************************************************)
(* Conformance of generated scripts to the abstract database of Db.tla.     *)
(* Every trace is a recording: statements of real scripts, rows put into     *)
(* the tables in between, and goals saying which schema a script was meant   *)
(* to reach under which drop policy.  Each trace is one behaviour; TLC       *)
(* executes it and prints one verdict per trace: "ok" or the clause broken.  *)
(***************************************************************************)
EXTENDS Db, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, db, base, touched, verdict
vars == <<tid, l, db, base, touched, verdict>>

Steps(t) == Traces[t].steps
Prof(t)  == Traces[t].profile

(* ------------------------- what a script must reach --------------------- *)
SchemasOf(w) == Range(w.schemas) \cup {""}
Kept(b, w, o, obj, permitted) ==
    \/ obj.schema \in Range(w.namespaces) /\ ~permitted
    \/ obj.schema \notin Range(w.namespaces) /\ ~o.namespace

KeptTables(b, w, o) == {n \in DOMAIN b.tables \ DOMAIN w.tables : Kept(b, w, o, b.tables[n], o.table)}
KeptTypes(b, w, o)  == {n \in DOMAIN b.types \ DOMAIN w.types :
                           Kept(b, w, o, b.types[n], IF b.types[n].kind = "enum" THEN o.enum ELSE o.struct)}
KeptSchemas(b, w, o) == {s \in b.schemas : s \notin SchemasOf(w) /\ ~o.namespace}

(* A kept enumeration whose name the target gives to a table steps aside.   *)
Aside(w, n) == IF n \in DOMAIN w.tables THEN w.aside[n] ELSE n

ColBy(cols, c) == cols[CHOOSE i \in 1..Len(cols) : cols[i].name = c]
NamesOf(seq) == {seq[i].name : i \in 1..Len(seq)}

ColDiff(n, g, w) ==
    IF g.type # w.type \/ g.tref # w.tref THEN "type of " \o n \o "." \o w.name \o ": " \o g.type \o " instead of " \o w.type
    ELSE IF g.nullable # w.nullable THEN "nullability of " \o n \o "." \o w.name
    ELSE IF g.default # w.default THEN "default of " \o n \o "." \o w.name \o ": " \o g.default \o " instead of " \o w.default
    ELSE IF g.identity # w.identity THEN "identity of " \o n \o "." \o w.name
    ELSE IF g.desc # w.desc THEN "description of " \o n \o "." \o w.name
    ELSE ""

ConEq(g, w) == g.kind = w.kind /\ g.cols = w.cols /\ g.reft = w.reft /\ g.refc = w.refc /\ g.cond = w.cond

First(set) == IF set = {} THEN "" ELSE CHOOSE x \in set : TRUE

TableDiff(n, g, w) ==
    IF g.schema # w.schema THEN "schema of " \o n
    ELSE IF NamesOf(g.cols) # NamesOf(w.cols)
         THEN "columns of " \o n \o ": " \o ToString((NamesOf(g.cols) \ NamesOf(w.cols)) \cup (NamesOf(w.cols) \ NamesOf(g.cols)))
    ELSE IF g.pk # w.pk THEN "primary key of " \o n
    ELSE IF DOMAIN g.cons # DOMAIN w.cons
         THEN "constraints of " \o n \o ": " \o ToString((DOMAIN g.cons \ DOMAIN w.cons) \cup (DOMAIN w.cons \ DOMAIN g.cons))
    ELSE IF \E k \in DOMAIN w.cons : ~ConEq(g.cons[k], w.cons[k]) THEN "definition of a constraint of " \o n
    ELSE IF g.desc # w.desc THEN "description of " \o n
    ELSE First({ColDiff(n, ColBy(g.cols, c), ColBy(w.cols, c)) : c \in NamesOf(w.cols)} \ {""})

TypeDiff(b, n, g, w) ==
    IF g.kind # w.kind \/ g.schema # w.schema THEN "kind of type " \o n
    ELSE IF g.kind = "enum" THEN
         (IF n \in DOMAIN b.types
          THEN (IF Range(g.values) # Range(w.values) THEN "values of " \o n ELSE "")
          ELSE (IF g.values # w.values THEN "values of new " \o n ELSE ""))
    ELSE IF NamesOf(g.members) # NamesOf(w.members) THEN "members of " \o n
    ELSE IF \E m \in NamesOf(w.members) : LET x == ColBy(g.members, m) y == ColBy(w.members, m)
                                          IN x.type # y.type \/ x.tref # y.tref THEN "member type of " \o n
    ELSE IF g.desc # w.desc THEN "description of type " \o n
    ELSE IF \E m \in NamesOf(w.members) : ColBy(g.members, m).desc # ColBy(w.members, m).desc THEN "member description of " \o n
    ELSE ""

(* A retained table keeps everything but references to tables that are gone. *)
Loosened(t, tabs) ==
    [t EXCEPT !.cons = [k \in {k \in DOMAIN @ : @[k].kind # "foreign" \/ @[k].reft \in tabs} |-> @[k]]]

SchemaDiff(d, b, w, o) ==
    LET kt == KeptTables(b, w, o)
        ky == KeptTypes(b, w, o)
        tabs == DOMAIN w.tables \cup kt
        typs == DOMAIN w.types \cup {Aside(w, n) : n \in ky}
        scs  == SchemasOf(w) \cup KeptSchemas(b, w, o)
        back(n) == CHOOSE x \in ky : Aside(w, x) = n
        wantT(n) == IF n \in DOMAIN w.tables THEN w.tables[n] ELSE Loosened(b.tables[n], tabs)
        wantY(n) == IF n \in DOMAIN w.types THEN w.types[n] ELSE b.types[back(n)]
    IN  IF tabs \ DOMAIN d.tables # {} THEN "missing table " \o First(tabs \ DOMAIN d.tables)
        ELSE IF DOMAIN d.tables \ tabs # {} THEN "left over table " \o First(DOMAIN d.tables \ tabs)
        ELSE IF typs \ DOMAIN d.types # {} THEN "missing type " \o First(typs \ DOMAIN d.types)
        ELSE IF DOMAIN d.types \ typs # {} THEN "left over type " \o First(DOMAIN d.types \ typs)
        ELSE IF scs \ d.schemas # {} THEN "missing schema " \o First(scs \ d.schemas)
        ELSE IF d.schemas \ scs # {} THEN "left over schema " \o First(d.schemas \ scs)
        ELSE LET td == {TableDiff(n, d.tables[n], wantT(n)) : n \in tabs} \ {""}
                 yd == {TypeDiff(b, n, d.types[n], wantY(n)) : n \in typs} \ {""}
             IN  First(td \cup yd)

(* ------------------------- what must happen to data --------------------- *)
FkOf(t, c) == {k \in DOMAIN t.cons : t.cons[k].kind = "foreign" /\ t.cons[k].cols = <<c>>}
Migrated(bt, dt, c) ==
    /\ ColBy(bt.cols, c).type # ColBy(dt.cols, c).type
    /\ FkOf(dt, c) # {} /\ FkOf(bt, c) = {}

CellDiff(d, bt, dt, n, c, i) ==
    LET old == bt.rows[i][c]
        new == dt.rows[i][c]
    IN  IF ~Migrated(bt, dt, c)
        THEN (IF old = new THEN "" ELSE "value of " \o n \o "." \o c \o " changed")
        ELSE LET r == d.tables[dt.cons[First(FkOf(dt, c))].reft]
                 key == dt.cons[First(FkOf(dt, c))].refc[1]
             IN  IF old = NULLV THEN (IF new = NULLV THEN "" ELSE "NULL in " \o n \o "." \o c \o " became a value")
                 ELSE IF \E j \in 1..Len(r.rows) : r.rows[j][key] = new /\ "value" \in DOMAIN r.rows[j] /\ r.rows[j]["value"] = old
                      THEN "" ELSE "value of " \o n \o "." \o c \o " not migrated"

(* Values that columns turning into references to table n bring along.      *)
Brought(d, b, n) ==
    UNION {UNION {{b.tables[m].rows[i][c] : i \in 1..Len(b.tables[m].rows)} :
                  c \in {c \in NamesOf(b.tables[m].cols) \cap NamesOf(d.tables[m].cols) :
                            Migrated(b.tables[m], d.tables[m], c) /\ d.tables[m].cons[First(FkOf(d.tables[m], c))].reft = n}} :
           m \in DOMAIN b.tables \cap DOMAIN d.tables} \ {NULLV}

(* An inline enumeration brings all its labels along, used or not.           *)
BroughtLabels(d, b, n) ==
    \E m \in DOMAIN b.tables \cap DOMAIN d.tables :
        \E c \in NamesOf(b.tables[m].cols) \cap NamesOf(d.tables[m].cols) :
            /\ Migrated(b.tables[m], d.tables[m], c)
            /\ d.tables[m].cons[First(FkOf(d.tables[m], c))].reft = n
            /\ Len(ColBy(b.tables[m].cols, c).type) > 5
            /\ SubSeq(ColBy(b.tables[m].cols, c).type, 1, 5) = "enum("

RowDiff(d, b, n) ==
    LET bt == b.tables[n]
        dt == d.tables[n]
        common == NamesOf(bt.cols) \cap NamesOf(dt.cols)
        more == (Len(bt.rows) + 1)..Len(dt.rows)
    IN  IF Len(bt.rows) > Len(dt.rows) THEN "rows of " \o n \o " lost"
        ELSE IF more # {} /\ ~BroughtLabels(d, b, n) /\ \E i \in more : "value" \notin DOMAIN dt.rows[i] \/ dt.rows[i]["value"] \notin Brought(d, b, n)
             THEN "rows of " \o n \o " added"
        ELSE First({CellDiff(d, bt, dt, n, c, i) : c \in common, i \in 1..Len(bt.rows)} \ {""})

(* Values of an enumeration type that turns into a lookup table stay.       *)
EnumDiff(d, b, w) ==
    First({"values of enumeration " \o n \o " lost" : n \in {m \in DOMAIN b.types \cap DOMAIN w.tables :
        b.types[m].kind = "enum" /\ m \in DOMAIN d.tables /\ m \notin DOMAIN b.tables /\
        "value" \in ColNames(d.tables[m]) /\
        ~(Range(b.types[m].values) \subseteq {d.tables[m].rows[i]["value"] : i \in 1..Len(d.tables[m].rows)})}})

(* A lookup table that is created with initial values holds them.           *)
InitDiff(d, b, w) ==
    First({"initial values of " \o n : n \in {m \in (DOMAIN w.tables \ DOMAIN b.tables) \cap DOMAIN d.tables :
        Len(w.tables[m].init) > 0 /\ ~("value" \in ColNames(d.tables[m]) /\ Range(w.tables[m].init) \subseteq {d.tables[m].rows[i]["value"] : i \in 1..Len(d.tables[m].rows)})}})

DataDiff(d, b, w) ==
    LET both == DOMAIN b.tables \cap DOMAIN d.tables
        rd == {RowDiff(d, b, n) : n \in both} \ {""}
    IN  IF rd # {} THEN First(rd)
        ELSE IF EnumDiff(d, b, w) # "" THEN EnumDiff(d, b, w) ELSE InitDiff(d, b, w)

(* ---------------------- what a script may touch at all ------------------- *)
Touches(ev) ==
    CASE ev.op \in {"create_schema", "drop_schema"} -> {"schema:" \o ev.s}
      [] ev.op = "rename_type" -> {ev.n}
      [] ev.op \in {"insert", "insert_distinct", "lookup_update"} -> {}
      [] OTHER -> {ev.n}

MayTouch(b, w, o) ==
    LET kt == KeptTables(b, w, o)
        ky == KeptTypes(b, w, o)
        tabs == DOMAIN w.tables \cup kt
    IN  {n \in DOMAIN w.tables : n \notin DOMAIN b.tables \/ TableDiff(n, b.tables[n], w.tables[n]) # ""}
        \cup {n \in DOMAIN w.types : n \notin DOMAIN b.types \/ TypeDiff(b, n, b.types[n], w.types[n]) # ""}
        \cup {n \in DOMAIN b.tables \ DOMAIN w.tables : n \notin kt \/ Loosened(b.tables[n], tabs) # b.tables[n]}
        \cup {n \in DOMAIN b.types \ DOMAIN w.types : n \notin ky \/ Aside(w, n) # n}
        \cup {Aside(w, n) : n \in DOMAIN b.types \ DOMAIN w.types}
        \cup {"schema:" \o s : s \in SchemasOf(w) \ b.schemas}
        \cup {"schema:" \o s : s \in (b.schemas \ SchemasOf(w)) \ KeptSchemas(b, w, o)}

(* All clauses that a goal breaks, not just the first.                       *)
GoalDiff(d, b, st) ==
    LET sd == SchemaDiff(d, b, st.want, st.opts)
        dd == DataDiff(d, b, st.want)
        more == touched \ MayTouch(b, st.want, st.opts)
        p1 == IF sd # "" THEN "goal: " \o sd ELSE ""
        p2 == IF dd # "" THEN "data: " \o dd ELSE ""
        p3 == IF more # {} THEN "touch: nothing changes in " \o First(more) ELSE ""
        sep(x, y) == IF x = "" \/ y = "" THEN x \o y ELSE x \o " ## " \o y
    IN  sep(sep(p1, p2), p3)

(* ------------------------------- behaviour ------------------------------ *)
Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1 /\ db = EmptyDb /\ base = EmptyDb /\ touched = {} /\ verdict = ""

Active == verdict = "" /\ l <= Len(Steps(tid))
Fail(v) == /\ verdict' = v /\ UNCHANGED <<tid, l, db, base, touched>>
Advance(d) == /\ l' = l + 1 /\ db' = d /\ UNCHANGED <<tid, verdict>>

Sql(st) ==
    LET r == Exec(Prof(tid), db, st.ev)
    IN  IF ~r.ok THEN Fail("exec: " \o r.why)
        ELSE IF ~Integrity(r.db) THEN Fail("integrity: broken by " \o st.ev.op)
        ELSE /\ Advance(r.db)
             /\ touched' = touched \cup Touches(st.ev) \cup
                            (IF r.db = db /\ st.ev.op \notin {"insert", "insert_distinct", "lookup_update"}
                             THEN {"(no effect: " \o st.ev.op \o ")"} ELSE {})
             /\ UNCHANGED base

(* Rows put in between two scripts, all tables at once (references may be cyclic). *)
Load(st) ==
    LET d == [db EXCEPT !.tables = [n \in DOMAIN @ |->
                IF n \in DOMAIN st.tables THEN [@[n] EXCEPT !.rows = st.tables[n], !.next = Len(st.tables[n]) + 1] ELSE @[n]]]
        bad == {n \in DOMAIN st.tables : n \notin DOMAIN d.tables}
        keys(n) == {d.tables[n].pk} \cup {d.tables[n].cons[k].cols : k \in {k \in DOMAIN d.tables[n].cons : d.tables[n].cons[k].kind = "unique"}}
    IN  IF bad # {} THEN Fail("harness: no table " \o First(bad))
        ELSE IF ~Integrity(d) THEN Fail("harness: rows break integrity")
        ELSE IF \E n \in DOMAIN st.tables : \E ks \in keys(n) : ~UniqueHolds(d.tables[n].rows, ks) THEN Fail("harness: rows break a key")
        ELSE IF \E n \in DOMAIN st.tables : \E i \in 1..Len(d.tables[n].cols) :
                    ~d.tables[n].cols[i].nullable /\ HasNull(d.tables[n], d.tables[n].cols[i].name) THEN Fail("harness: NULL in a NOT NULL column")
        ELSE Advance(d) /\ UNCHANGED <<base, touched>>

Base == Advance(db) /\ base' = db /\ touched' = {}

Goal(st) ==
    LET v == GoalDiff(db, base, st)
    IN  IF v # "" THEN Fail(v) ELSE Advance(db) /\ UNCHANGED <<base, touched>>

(* A script that should have been empty.                                     *)
Empty(st) ==
    IF st.count > 0 THEN Fail("noop: " \o st.what \o ": " \o st.first) ELSE Advance(db) /\ UNCHANGED <<base, touched>>

(* A change that has to be refused, as the real code answered it.            *)
Refuse(st) ==
    IF st.got = "script" THEN Fail("refusal: impossible change got a script: " \o st.what)
    ELSE IF st.got # "refused" THEN Fail("refusal: " \o st.got \o ": " \o st.what)
    ELSE Advance(db) /\ UNCHANGED <<base, touched>>

Next ==
    \/ /\ Active
       /\ LET st == Steps(tid)[l] IN
          CASE st.k = "sql"    -> Sql(st)
            [] st.k = "load"   -> Load(st)
            [] st.k = "base"   -> Base
            [] st.k = "goal"   -> Goal(st)
            [] st.k = "empty"  -> Empty(st)
            [] st.k = "refuse" -> Refuse(st)
    \/ /\ verdict = "" /\ l = Len(Steps(tid)) + 1
       /\ verdict' = "ok" /\ UNCHANGED <<tid, l, db, base, touched>>

Spec == Init /\ [][Next]_vars

Report == verdict # "" => PrintT("V|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o verdict)
=============================================================================
