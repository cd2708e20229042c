"""System catalogs: what the four engines report of an abstract database (spec/Db.tla), as tables of an SQLite database on which the
queries of the explorers run.  Reported forms of types and default values follow the documentation of the engines."""
import copy, re, sqlite3

NONE = "~none"
CURRENT = {"postgresql": "public", "mysql": "d", "mssql": "dbo", "oracle": "U"}


def items(f):
    """A function of the specification; the empty one is printed as a sequence"""
    return list(f.items()) if isinstance(f, dict) else []


def params(t):
    m = re.fullmatch(r"([a-z0-9 ]+?)(?:\(([^()]*)\))?", t)
    if not m:
        return t, []
    return m.group(1), [x.strip() for x in m.group(2).split(",")] if m.group(2) else []


def number(expr):
    return re.fullmatch(r"- ?\d+(\.\d+)?|\d+(\.\d+)?", expr) is not None


def tight(expr):
    """The text of a number or of a literal without the spaces between tokens"""
    return expr.replace("- ", "-") if not expr.startswith("'") else expr


class Sql:
    def __init__(self):
        self.db = sqlite3.connect(":memory:", check_same_thread=False)
        self.db.execute("PRAGMA case_sensitive_like = ON")

    def table(self, name, columns, rows):
        if "." in name:
            schema = name.split(".")[0]
            if schema not in [r[1] for r in self.db.execute("PRAGMA database_list")]:
                self.db.execute("ATTACH ':memory:' AS %s" % schema)
        self.db.execute("CREATE TABLE %s (%s)" % (name, ", ".join(columns.split())))
        n = len(columns.split())
        self.db.executemany("INSERT INTO %s VALUES (%s)" % (name, ", ".join("?" * n)), rows)

    def query(self, sql):
        cur = self.db.execute(sql.rstrip().rstrip(";"))
        return [c[0] for c in cur.description], cur.fetchall()


# ----------------------------------------------------------------------------- PostgreSQL
PG = {"boolean": ("bool", "boolean"), "smallint": ("int2", "smallint"), "integer": ("int4", "integer"), "bigint": ("int8", "bigint"), "real": ("float4", "real"),
      "double precision": ("float8", "double precision"), "decimal": ("numeric", "numeric"), "text": ("text", "text"), "varchar": ("varchar", "character varying"),
      "char": ("bpchar", "character"), "timestamp": ("timestamp", "timestamp without time zone"), "date": ("date", "date"), "time": ("time", "time without time zone"),
      "interval": ("interval", "interval"), "uuid": ("uuid", "uuid"), "inet": ("inet", "inet"), "jsonb": ("jsonb", "jsonb"), "json": ("json", "json"), "bytea": ("bytea", "bytea")}


def pg_default(expr, typ):
    base, ps = params(typ)
    if number(expr):
        v = tight(expr)
        if base in ("smallint", "integer", "bigint"):
            big = not -2 ** 31 <= int(v) < 2 ** 31
            return "'%s'::bigint" % v if big else "'%s'::integer" % v if v.startswith("-") else v
        if "." in v:
            return "'%s'::numeric" % v if v.startswith("-") else v
        return "'%s'::integer" % v if v.startswith("-") else v
    if expr.upper() in ("TRUE", "FALSE"):
        return expr.lower()
    if expr.startswith("'"):
        return "%s::%s" % (expr, {"text": "text", "varchar": "character varying", "char": "bpchar", "timestamp": "timestamp without time zone", "date": "date",
                                   "time": "time without time zone"}.get(base, typ))
    return expr


def postgresql(db, noise, noise_types):
    s = Sql()
    oids = {}

    def oid(*key):
        return oids.setdefault(key, 1000 + len(oids))

    namespaces, classes, atts, types, defs, descs, cons, conkeys, enums = {}, [], [], {}, [], [], [], [], []
    for n in ["pg_catalog", "information_schema", "public"] + sorted(x for x in db["schemas"] if x) + sorted({t["schema"] for _, t in noise + noise_types if t["schema"]}):
        namespaces[n] = oid("ns", n)

    def nsp(schema):
        return namespaces[schema or "public"]

    def typeof(typ, tref):
        """(oid, format, dimensions)"""
        m = re.fullmatch(r"array\((.*)\)", typ)
        if m:
            o, f, _ = typeof(m.group(1), tref)
            key = ("type", "array", o)
            name, ns = types[o][1], types[o][2]
            types[oid(*key)] = (oid(*key), "_" + name, ns, o)
            return oid(*key), f + "[]", 1
        if typ == "udt":
            schema, name = tref.split("|")
            o = oid("type", schema, name)
            types.setdefault(o, (o, name, nsp(schema), 0))
            plain = re.fullmatch(r"[a-z_][a-z0-9_]*", name) is not None
            text = name if plain else '"%s"' % name.replace('"', '""')
            return o, (text if schema in ("", "public") else "%s.%s" % (schema, text)), 0
        base, ps = params(typ)
        name, fmt = PG[base]
        o = oid("type", "pg_catalog", name)
        types[o] = (o, name, namespaces["pg_catalog"], 0)
        if ps:
            words = fmt.split(" without")
            fmt = words[0] + "(" + ",".join(ps) + ")" + (" without" + words[1] if len(words) > 1 else "")
        return o, fmt, 0

    def attribute(rel, num, c, table=True):
        o, fmt, dims = typeof(c["type"], c["tref"])
        ident = table and c["identity"]
        atts.append((rel, c["name"], o, fmt, num, int(bool(table and not c["nullable"])), dims, ("d" if ident else ""), 0))
        if table and c["default"] != NONE:
            d = pg_default(c["default"], c["type"])
            if c["type"] == "udt":
                d = "%s::%s" % (c["default"], fmt)
            defs.append((oid("def", rel, num), rel, num, d))
        if c["desc"] != NONE:
            descs.append((rel, num, "pg_class", c["desc"]))

    for key, t in items(db["types"]) + noise_types:
        schema, name = key.split("|")
        o = typeof("udt", key)[0]
        if t["kind"] == "enum":
            enums += [(o, v, i + 1.0) for i, v in enumerate(t["values"])]
        else:
            rel = oid("class", schema, name)
            classes.append((rel, name, nsp(schema), "c"))
            for i, m in enumerate(t["members"]):
                attribute(rel, i + 1, m, table=False)
        if t["desc"] != NONE:
            descs.append((o, 0, "pg_type", t["desc"]))
    tables = items(db["tables"]) + noise
    for key, t in tables:
        schema, name = key.split("|")
        rel = oid("class", schema, name)
        classes.append((rel, name, nsp(schema), "r"))
        num = {}
        for i, c in enumerate(t["cols"]):
            num[c["name"]] = i + 1
            attribute(rel, i + 1, c)
        for i, n in enumerate(("tableoid", "ctid", "xmin")):
            atts.append((rel, n, oid("type", "pg_catalog", "oid"), "oid", -1 - i, 1, 0, "", 0))
        if t["desc"] != NONE:
            descs.append((rel, 0, "pg_class", t["desc"]))
        pk = oid("con", rel, "pkey")
        classes.append((oid("class", schema, name + "_pkey"), name + "_pkey", nsp(schema), "i"))
        cons.append((pk, b"p", name + "_pkey", nsp(schema), rel, 0))
        conkeys += [(pk, num[c], None, i + 1) for i, c in enumerate(t["pk"])]
    types[oid("type", "pg_catalog", "oid")] = (oid("type", "pg_catalog", "oid"), "oid", namespaces["pg_catalog"], 0)
    nums = {oid("class", *key.split("|")): {c["name"]: i + 1 for i, c in enumerate(t["cols"])} for key, t in tables}
    for key, t in tables:
        rel = oid("class", *key.split("|"))
        for name, c in items(t["cons"]):
            o = oid("con", rel, name)
            target = oid("class", *c["reft"].split("|")) if c["kind"] == "foreign" else 0
            cons.append((o, {"unique": b"u", "foreign": b"f", "check": b"c"}[c["kind"]], name, nsp(t["schema"]), rel, target))
            cols = c["cols"] or [x["name"] for x in t["cols"][:1]]
            conkeys += [(o, nums[rel][x], nums[target][c["refc"][i]] if target else None, i + 1) for i, x in enumerate(cols)]
    p = "pg_catalog."
    s.table(p + "pg_namespace", "oid nspname", [(o, n) for n, o in namespaces.items()])
    s.table(p + "pg_class", "oid relname relnamespace relkind", classes)
    s.table(p + "pg_attribute", "attrelid attname atttypid atttypmod attnum attnotnull attndims attidentity attisdropped", atts)
    s.table(p + "pg_type", "oid typname typnamespace typelem", list(types.values()))
    s.table(p + "pg_attrdef", "oid adrelid adnum adbin", defs)
    s.table(p + "pg_description", "objoid objsubid classoid description", descs)
    s.table(p + "pg_constraint", "oid contype conname connamespace conrelid confrelid", cons)
    s.table("conkeys", "con pkey fkey pos", conkeys[::-1])
    s.table(p + "pg_enum", "enumtypid enumlabel enumsortorder", enums)
    s.db.create_function("format_type", 2, lambda t, m: m)
    s.db.create_function("pg_get_expr", 2, lambda b, r: b)
    s.db.create_function("current_schema", 0, lambda: "public")
    return s


def pg_query(s, sql):
    sql = re.sub(r"pg_catalog\.(format_type|pg_get_expr)\(", r"\1(", sql)
    sql = re.sub(r"current_schema\(\)", "'public'", sql, flags=re.I)
    sql = re.sub(r"CROSS\s+JOIN\s+UNNEST\((\w+)\.conkey,\s*\1\.confkey\)\s+(?:WITH\s+ORDINALITY\s+)?AS\s+(\w+)\((\w+),\s*(\w+)(?:,\s*(\w+))?\)",
                 lambda m: "INNER JOIN (SELECT con AS __con, pkey AS %s, fkey AS %s, pos AS %s FROM conkeys) AS %s ON %s.__con = %s.oid" % (m[3], m[4], m[5] or "__pos", m[2], m[2], m[1]), sql, flags=re.I)
    sql = re.sub(r"\b(contype)\s+IN\s+\('p', 'u', 'f'\)", r"\1 IN (x'70', x'75', x'66')", sql)
    return s.query(sql)


# ----------------------------------------------------------------------------- information_schema
def mysql_column(c):
    """(data_type, column_type, characters, precision, scale, fraction of a second)"""
    base, ps = params(c["type"])
    if c["type"].startswith("enum("):
        values = re.split(r"', ?'", c["type"][len("enum('"):-2])
        return "enum", "enum(%s)" % ",".join("'" + v.replace("'", "''") + "'" for v in values), max(map(len, values)), None, None, None
    ints = {"tinyint": ("tinyint", 3), "boolean": ("tinyint", 3), "smallint": ("smallint", 5), "integer": ("int", 10), "bigint": ("bigint", 19)}
    if base in ints:
        name, p = ints[base]
        return name, "tinyint(1)" if base == "boolean" else name, None, p, 0, None
    if base in ("real", "double precision"):
        return "double", "double", None, 22, None, None
    if base == "decimal":
        p, sc = (int(ps[0]), int(ps[1])) if len(ps) == 2 else (int(ps[0]), 0) if ps else (10, 0)
        return "decimal", "decimal(%d,%d)" % (p, sc), None, p, sc, None
    if base in ("varchar", "char", "binary", "varbinary"):
        n = int(ps[0]) if ps else 1
        return base, "%s(%d)" % (base, n), n, None, None, None
    if base in ("mediumtext", "longtext", "text", "tinytext", "mediumblob", "longblob"):
        return base, base, {"tinytext": 255, "text": 65535, "mediumtext": 16777215, "longtext": 4294967295, "mediumblob": 16777215, "longblob": 4294967295}[base], None, None, None
    if base in ("datetime", "timestamp", "time"):
        p = int(ps[0]) if ps else 0
        return base, base + ("(%d)" % p if p else ""), None, None, None, p
    return base, base, None, None, None, None


def mysql_default(expr, typ):
    base, ps = params(typ)
    if expr.upper() in ("TRUE", "FALSE"):
        return str(int(expr.upper() == "TRUE"))
    if expr.startswith("'"):
        v = expr[1:-1].replace("''", "'")
        return v
    v = tight(expr)
    if base == "decimal" and len(ps) < 2:
        ps = ["10", "0"] if not ps else [ps[0], "0"]
    if base == "decimal":
        import decimal
        return str(decimal.Decimal(v).quantize(decimal.Decimal(1).scaleb(-int(ps[1]))))
    if base in ("double precision", "real") and v.endswith(".0"):
        return v[:-2]
    return v


def mssql_column(c):
    base, ps = params(c["type"])
    ints = {"tinyint": ("tinyint", 3), "smallint": ("smallint", 5), "integer": ("int", 10), "bigint": ("bigint", 19)}
    if base in ints:
        return ints[base][0], None, None, ints[base][1], 0, None
    if base == "bit":
        return "bit", None, None, None, None, None
    if base in ("real", "double precision"):
        return ("real" if base == "real" else "float"), None, None, 24 if base == "real" else 53, None, None
    if base == "decimal":
        p, sc = (int(ps[0]), int(ps[1])) if len(ps) == 2 else (int(ps[0]), 0) if ps else (18, 0)
        return "decimal", None, None, p, sc, None
    if base in ("varchar", "char", "nvarchar", "binary", "varbinary"):
        return base, None, (-1 if ps[:1] == ["max"] else int(ps[0]) if ps else 1), None, None, None
    if base == "datetime2":
        return base, None, None, None, None, int(ps[0]) if ps else 7
    if base == "time":
        return base, None, None, None, None, int(ps[0]) if ps else 7
    if base == "date":
        return base, None, None, None, None, 0
    return base, None, None, None, None, None


def mssql_default(expr):
    return "((%s))" % tight(expr) if number(expr) else "(%s)" % expr


def information_schema(d, db, noise):
    """noise: tables of schemas that are not part of the model, as (schema, table)"""
    s = Sql()
    current = CURRENT[d]
    tabs, cols, tcons, keys, refs = [], [], [], [], []
    column = mysql_column if d == "mysql" else mssql_column
    sys_schemas, sys_tables, sys_columns, sys_defaults = {}, [], [], []
    objects = iter(range(1000, 10 ** 6))
    tables = [(key, t) for key, t in items(db["tables"])] + noise
    place = {}
    for key, t in tables:
        schema, name = key.split("|")
        place[key] = (schema or current, name)
    for key, t in tables:
        schema, name = place[key]
        cat = "def" if d == "mysql" else current
        sid = sys_schemas.setdefault(schema, 1 + len(sys_schemas))
        obj = next(objects)
        sys_tables.append((obj, name, sid, 0))
        tabs.append((cat, schema, name, "BASE TABLE", "" if t["desc"] == NONE else t["desc"]))
        for i, c in enumerate(t["cols"]):
            dt, ct, chars, prec, scale, frac = column(c)
            default = None if c["default"] == NONE else mysql_default(c["default"], c["type"]) if d == "mysql" else mssql_default(c["default"])
            cols.append((cat, schema, name, c["name"], i + 1, default, "YES" if c["nullable"] else "NO", dt, chars, prec, scale, frac, ct,
                         "auto_increment" if c["identity"] else "", "" if c["desc"] == NONE else c["desc"]))
            dobj = 0
            if default is not None:
                dobj = next(objects)
                sys_defaults.append((dobj, c["defname"] or "DF__%d" % dobj, default, obj, i + 1))
            sys_columns.append((obj, c["name"], i + 1, int(c["identity"]), dobj))
        pk = "PRIMARY" if d == "mysql" else "PK__%s__%08X" % (name[:9], obj)
        place[key] = (schema, name, pk)
        tcons.append((cat, schema, pk, schema, name, "PRIMARY KEY"))
        keys += [(cat, schema, pk, schema, name, c, i + 1, None, None, None, None) for i, c in enumerate(t["pk"])]
    byname = dict(tables)
    for key, t in tables:
        schema, name, pk = place[key]
        cat = "def" if d == "mysql" else current
        for cname, c in items(t["cons"]):
            tcons.append((cat, schema, cname, schema, name, {"unique": "UNIQUE", "foreign": "FOREIGN KEY", "check": "CHECK"}[c["kind"]]))
            if c["kind"] == "check":
                continue
            target = place[c["reft"]] if c["kind"] == "foreign" else (None, None, None)
            keys += [(cat, schema, cname, schema, name, x, i + 1, i + 1 if c["kind"] == "foreign" else None, target[0], target[1], c["refc"][i] if c["kind"] == "foreign" else None)
                     for i, x in enumerate(c["cols"])]
            if c["kind"] == "foreign":
                tt = byname[c["reft"]]
                uq = target[2] if list(tt["pk"]) == list(c["refc"]) else next((k for k, u in items(tt["cons"]) if u["kind"] == "unique" and list(u["cols"]) == list(c["refc"])), target[2])
                refs.append((cat, schema, cname, cat, target[0], uq, name, target[1]))
    p = "information_schema."
    s.table(p + "tables", "table_catalog table_schema table_name table_type table_comment", tabs)
    s.table(p + "columns", "table_catalog table_schema table_name column_name ordinal_position column_default is_nullable data_type character_maximum_length "
                           "numeric_precision numeric_scale datetime_precision column_type extra column_comment", cols)
    s.table(p + "table_constraints", "constraint_catalog constraint_schema constraint_name table_schema table_name constraint_type", tcons)
    s.table(p + "key_column_usage", "constraint_catalog constraint_schema constraint_name table_schema table_name column_name ordinal_position "
                                    "position_in_unique_constraint referenced_table_schema referenced_table_name referenced_column_name", keys)
    s.table(p + "referential_constraints", "constraint_catalog constraint_schema constraint_name unique_constraint_catalog unique_constraint_schema unique_constraint_name "
                                           "table_name referenced_table_name", refs)
    if d == "mssql":
        for x in list(db["schemas"]):
            sys_schemas.setdefault(x or current, 1 + len(sys_schemas))
        p = "sys."
        s.table(p + "schemas", "name schema_id", list(sys_schemas.items()))
        s.table(p + "tables", "object_id name schema_id is_ms_shipped", sys_tables + [(next(objects), "spt_fallback_db", sys_schemas.setdefault(current, 1 + len(sys_schemas)), 1)])
        s.table(p + "columns", "object_id name column_id is_identity default_object_id", sys_columns)
        s.table(p + "default_constraints", "object_id name definition parent_object_id parent_column_id", sys_defaults)
        s.db.create_function("schema_id", -1, lambda *a: sys_schemas.get(a[0] if a else current))
        s.db.create_function("schema_name", 0, lambda: current)
    else:
        s.db.create_function("database", 0, lambda: current)
        s.db.create_function("schema", 0, lambda: current)
    return s


# ----------------------------------------------------------------------------- Oracle
def oracle_column(c):
    """(data_type, length, precision, scale, characters)"""
    base, ps = params(c["type"])
    if base == "number":
        return "NUMBER", 22, (int(ps[0]) if ps else None), (int(ps[1]) if len(ps) > 1 else 0 if ps else None), 0
    if base == "decimal":       # a synonym of number
        return "NUMBER", 22, (int(ps[0]) if ps else None), (int(ps[1]) if len(ps) > 1 else 0), 0
    if base in ("integer", "smallint"):
        return "NUMBER", 22, None, 0, 0
    if base == "real":
        return "FLOAT", 22, 63, None, 0
    if base == "double precision":
        return "FLOAT", 22, 126, None, 0
    if base == "varchar2":
        return "VARCHAR2", int(ps[0]), None, None, int(ps[0])
    if base == "char":
        n = int(ps[0]) if ps else 1
        return "CHAR", n, None, None, n
    if base == "raw":
        return "RAW", int(ps[0]), None, None, 0
    if base in ("clob", "blob"):
        return base.upper(), 4000, None, None, 0
    if base == "timestamp":
        p = int(ps[0]) if ps else 6
        return "TIMESTAMP(%d)" % p, 11, None, p, 0
    if base == "interval day to second":
        return "INTERVAL DAY(2) TO SECOND(6)", 11, 2, 6, 0
    if base == "date":
        return "DATE", 7, None, None, 0
    if base == "boolean":
        return "BOOLEAN", 1, None, None, 0
    return c["type"].upper(), 0, None, None, 0


def oracle(db, noise):
    s = Sql()
    tabs, tcom, cols, ccom, cons, ccols = [], [], [], [], [], []
    tables = [(CURRENT["oracle"], key.split("|")[1], t) for key, t in items(db["tables"])] + [(key.split("|")[0], key.split("|")[1], t) for key, t in noise]
    # every owner has names of its own, which may be those of another owner
    counts = {}
    wide = 4 if len(tables) % 2 else 1      # lengths are of characters or of bytes, a character having up to four of them

    def number(owner):
        counts[owner] = counts.get(owner, 0) + 1
        return counts[owner]
    pks = {}
    for owner, name, t in tables:
        tabs.append((owner, name, "SYSAUX" if owner == "SYSTEM" else "SYSTEM" if owner == "SYS" else "USERS", "VALID", "N", "N", "NO", "NO"))
        tcom.append((owner, name, None if t["desc"] == NONE else t["desc"]))
        for i, c in enumerate(t["cols"]):
            dt, length, prec, scale, chars = oracle_column(c)
            default = None if c["default"] == NONE else tight(c["default"])
            if c["identity"]:
                default = '"%s"."ISEQ$$_%d".nextval' % (owner, number(owner))
            if dt in ("VARCHAR2", "CHAR"):
                length = min(4000, wide * length)
            cols.append((owner, name, c["name"], dt, None, length, prec, scale, "Y" if c["nullable"] else "N", i + 1, default, chars, "YES" if c["identity"] else "NO"))
            ccom.append((owner, name, c["name"], None if c["desc"] == NONE else c["desc"]))
            if not c["nullable"]:
                n = "SYS_C%07d" % number(owner)
                cons.append((owner, n, "C", name, None, None))
                ccols.append((owner, n, name, c["name"], None))
        pks[owner, name] = "SYS_C%07d" % number(owner)
        cons.append((owner, pks[owner, name], "P", name, None, None))
        ccols += [(owner, pks[owner, name], name, c, i + 1) for i, c in enumerate(t["pk"])]
    for owner, name, t in tables:
        for cname, c in items(t["cons"]):
            if c["kind"] == "foreign":
                cons.append((owner, cname, "R", name, owner, pks[owner, c["reft"].split("|")[1]]))
            else:
                cons.append((owner, cname, "U" if c["kind"] == "unique" else "C", name, None, None))
            ccols += [(owner, cname, name, x, i + 1) for i, x in enumerate(c["cols"])]
    s.table("dba_tables", "owner table_name tablespace_name status temporary secondary dropped read_only", tabs)
    s.table("dba_tab_comments", "owner table_name comments", tcom)
    s.table("dba_tab_columns", "owner table_name column_name data_type data_type_owner data_length data_precision data_scale nullable column_id data_default char_length identity_column", cols)
    s.table("dba_col_comments", "owner table_name column_name comments", ccom)
    s.table("dba_constraints", "owner constraint_name constraint_type table_name r_owner r_constraint_name", cons)
    s.table("dba_cons_columns", "owner constraint_name table_name column_name position", ccols)
    return s


def neighbours(d, db, mark):
    """(tables, types) of another schema: those of the database, a little different"""
    tables, types = {}, {}

    def moved(key):
        return mark + "|" + key.split("|")[1] if key else key

    for key, t in items(db["types"]):
        t = copy.deepcopy(t)
        t["schema"] = mark
        t["desc"] = "Another one"
        if t["kind"] == "enum":
            t["values"] = ["first"] + t["values"]
        else:
            t["members"] = [dict(t["members"][0], name="extra", type="integer", tref="")] + [dict(m, tref=moved(m["tref"])) for m in t["members"]]
        types.setdefault(moved(key), t)
    for key, t in items(db["tables"]):
        t = copy.deepcopy(t)
        t["schema"] = mark
        t["desc"] = "Another one"
        pk = [c for c in t["cols"] if c["name"] in t["pk"]]
        rest = [c for c in t["cols"] if c["name"] not in t["pk"]]
        extra = dict(pk[0], name="extra", type="smallint" if d != "oracle" else "number", tref="", nullable=True, default=NONE, identity=False, desc="More", defname="")
        t["cols"] = [extra] + pk + [dict(c, tref=moved(c["tref"]), nullable=not c["nullable"], desc="More", default=NONE, defname="") for c in rest]
        for c in items(t["cons"]):
            c[1]["reft"] = moved(c[1]["reft"])
        tables.setdefault(moved(key), t)
    # references stay within the other schema
    for key, t in tables.items():
        t["cons"] = {n: c for n, c in items(t["cons"]) if c["kind"] != "foreign" or (c["reft"] in tables and all(x in [y["name"] for y in tables[c["reft"]]["cols"]] for x in c["refc"]))}
        for n, c in list(t["cons"].items()):
            if any(x not in [y["name"] for y in t["cols"]] for x in c["cols"]):
                del t["cons"][n]
    return list(tables.items()), list(types.items())


def prefixed(d, db, unnamed):
    """For a dialect without schemas, tables with names that look like those of the database, of other namespaces"""
    out = {}
    names = [key.split("|")[1] for key, t in items(db["tables"])]
    for (key, t), (_, other) in zip(items(db["tables"]), neighbours(d, db, "")[0]):
        ns, sep, name = key.split("|")[1].partition("__")
        if not sep:
            continue
        looks = [ns.replace("_", "x") + "__" + name, "zz" + ns + "__" + name, ns + "zz__" + name]
        if not unnamed:
            looks += [ns + "xy" + name, ns + "_y" + name, ns + "x_" + name]
        for look in looks:
            if look not in names and not any(look.startswith(n + "__") for n in {x.partition("__")[0] for x in names if "__" in x}):
                out["|" + look] = dict(other, cons={})
    return dict(db, tables=dict(list(items(db["tables"])) + list(out.items())))


def build(d, db, mark=None, unnamed=False):
    """mark: name of another schema (database, owner); unnamed: names without a prefix are known to the session"""
    if mark and d in ("mysql", "oracle"):
        noise, types = neighbours(d, db, mark)
        return oracle(prefixed(d, db, unnamed), noise) if d == "oracle" else information_schema(d, prefixed(d, db, unnamed), noise)
    noise, types = neighbours(d, db, mark) if mark else ([], [])
    return postgresql(db, noise, types) if d == "postgresql" else oracle(db, noise) if d == "oracle" else information_schema(d, db, noise)


def query(d, s, sql):
    if d == "postgresql":
        names, rows = pg_query(s, sql)
    else:
        if d == "oracle":
            sql = re.sub(r"SYS_CONTEXT\('USERENV',\s*'CURRENT_SCHEMA'\)", "'U'", sql, flags=re.I)
        if re.fullmatch(r"\s*SELECT\s+@@VERSION\s*;?\s*", sql, re.I):
            return ["v"], [("Microsoft SQL Server",)]
        names, rows = s.query(sql)
    if d == "oracle":
        names = [n.upper() for n in names]
    return names, rows
