"""Random schemas, random edits between two schemas, their rendering as pysqlsync catalogs (input of the real code)
and, independently, as goals of spec/ScriptTrace.tla."""
import copy, random
from env import *  # noqa
from sqlparse import NONE, canon, lex, key

from pysqlsync.factory import get_dialect
from pysqlsync.base import GeneratorOptions
from pysqlsync.formation.mutation import MutatorOptions
from pysqlsync.formation import object_types as ot
from pysqlsync.model import data_types as dt
from pysqlsync.model.id_types import LocalId, QualifiedId, PrefixedId

QUALIFIED = ("postgresql", "mssql", "redshift", "snowflake", "delta", "trino")
FLAT = ("mysql", "oracle")
MIGRATING = ("postgresql", "mssql", "mysql", "oracle")  # have a mutator, an explorer and a data path
PROFILE = {
    "postgresql": dict(name="postgresql", schemas=True, types=True),
    "mssql": dict(name="mssql", schemas=True, types=False),
    "mysql": dict(name="mysql", schemas=False, types=False),
    "oracle": dict(name="oracle", schemas=False, types=False),
    # dialects without an explorer: only their schemas are formed
    "redshift": dict(name="redshift", schemas=True, types=False),
    "snowflake": dict(name="snowflake", schemas=True, types=False),
    "delta": dict(name="delta", schemas=True, types=False),
    "trino": dict(name="trino", schemas=True, types=False),
}
ALL_DROPS = dict(enum=True, struct=True, table=True, namespace=True)


def generator(dialect, opts=None, **kw):
    o = opts or ALL_DROPS
    return get_dialect(dialect).create_generator(GeneratorOptions(
        synchronization=MutatorOptions(allow_drop_enum=o["enum"], allow_drop_struct=o["struct"],
                                       allow_drop_table=o["table"], allow_drop_namespace=o["namespace"]), **kw))


# --------------------------------------------------------------------------- identifiers
def obj_id(d, ns, name):
    return QualifiedId(ns or None, name) if d in QUALIFIED else PrefixedId(ns or None, name)


def obj_key(d, ns, name):
    if d in QUALIFIED:
        return key(ns, name)
    return key("", ns + "__" + name if ns else name)


def obj_schema(d, ns):
    return ns if d in QUALIFIED else ""


# --------------------------------------------------------------------------- types
def pytype(d, t):
    k = t[0]
    if k == "array":
        return dt.SqlArrayType(pytype(d, t[1]))
    if k in ("enum", "struct"):
        return dt.SqlUserDefinedType(obj_id(d, t[1], t[2]))
    if k == "ienum":
        return dt.SqlEnumType(list(t[1]))
    if d == "postgresql":
        from pysqlsync.dialect.postgresql.data_types import PostgreSQLJsonType
        if k == "json":
            return PostgreSQLJsonType()
    if d == "mysql":
        from pysqlsync.dialect.mysql import data_types as m
        if k == "bool":
            return dt.SqlIntegerType(1)
        if k == "varchar":
            return m.MySQLVariableCharacterType(t[1] or 16777215)
        if k == "timestamp":
            return m.MySQLDateTimeType(t[1])
        if k == "uuid":
            return dt.SqlFixedBinaryType(16)
    if d == "mssql":
        from pysqlsync.dialect.mssql import data_types as m
        if k == "bool":
            return m.MSSQLBooleanType()
        if k == "varchar":
            return m.MSSQLVariableCharacterType(t[1])
        if k == "timestamp":
            return m.MSSQLDateTimeType()
        if k == "uuid":
            return dt.SqlFixedBinaryType(16)
    if d == "oracle":
        from pysqlsync.dialect.oracle import data_types as m
        if k == "int":
            return m.OracleIntegerType()
        if k == "varchar":
            return m.OracleVariableCharacterType(t[1])
        if k == "timestamp":
            return m.OracleTimestampType(t[1])
        if k == "time":
            return m.OracleTimeType()
        if k == "uuid":
            return m.OracleVariableBinaryType(16)
        if k == "blob":
            return m.OracleVariableBinaryType()
    return {
        "int": lambda: dt.SqlIntegerType(t[1]), "bool": dt.SqlBooleanType, "real": dt.SqlRealType,
        "double": dt.SqlDoubleType, "decimal": lambda: dt.SqlDecimalType(t[1], t[2]),
        "varchar": lambda: dt.SqlVariableCharacterType(t[1]), "timestamp": lambda: dt.SqlTimestampType(t[1]),
        "date": dt.SqlDateType, "time": dt.SqlTimeType, "uuid": dt.SqlUuidType, "json": dt.SqlJsonType,
    }[k]()


INTS = {1: "tinyint", 2: "smallint", 4: "integer", 8: "bigint"}


def sqltype(d, t):
    """(canonical type, key of the user-defined type) the engine should see"""
    k = t[0]
    if k == "array":
        ty, ref = sqltype(d, t[1])
        return "array(%s)" % ty, ref
    if k in ("enum", "struct"):
        return "udt", obj_key(d, t[1], t[2])
    if k == "ienum":
        return "enum(" + ",".join("'%s'" % v for v in t[1]) + ")", ""
    s = None
    if k == "int":
        s = "number" if d == "oracle" else INTS[t[1]]
    elif k == "bool":
        s = {"mysql": "tinyint", "mssql": "bit"}.get(d, "boolean")
    elif k == "real":
        s = "real"
    elif k == "double":
        s = "double precision"
    elif k == "decimal":
        s = "decimal(%d,%d)" % (t[1], t[2])
    elif k == "varchar":
        if t[1] is not None:
            s = ("varchar2(%d)" if d == "oracle" else "varchar(%d)") % t[1]
        else:
            s = {"postgresql": "text", "mysql": "mediumtext", "mssql": "varchar(max)", "oracle": "clob"}[d]
    elif k == "timestamp":
        p = "" if t[1] is None or (d == "mysql" and t[1] == 0) else "(%d)" % t[1]
        s = {"postgresql": "timestamp" + p, "mysql": "datetime" + p, "mssql": "datetime2", "oracle": "timestamp" + p}[d]
    elif k == "date":
        s = "date"
    elif k == "time":
        s = "interval day to second" if d == "oracle" else "time"
    elif k == "uuid":
        s = {"postgresql": "uuid", "oracle": "raw(16)"}.get(d, "binary(16)")
    elif k == "blob":
        s = "blob"
    elif k == "json":
        s = "jsonb" if d == "postgresql" else "json"
    return s, ""


BASIC = {
    "postgresql": [("int", 2), ("int", 4), ("int", 8), ("bool",), ("real",), ("double",), ("decimal", 10, 2), ("varchar", 40),
                   ("varchar", None), ("timestamp", None), ("timestamp", 3), ("date",), ("time",), ("uuid",), ("json",)],
    "mysql": [("int", 1), ("int", 2), ("int", 4), ("int", 8), ("bool",), ("real",), ("double",), ("decimal", 10, 2), ("varchar", 40),
              ("varchar", None), ("timestamp", None), ("timestamp", 6), ("date",), ("time",), ("uuid",), ("json",)],
    "mssql": [("int", 2), ("int", 4), ("int", 8), ("bool",), ("real",), ("double",), ("decimal", 10, 2), ("varchar", 40),
              ("varchar", None), ("timestamp", None), ("date",), ("time",), ("uuid",)],
    "oracle": [("int", 8), ("real",), ("double",), ("decimal", 10, 2), ("varchar", 40), ("varchar", None), ("timestamp", None),
               ("timestamp", 3), ("date",), ("time",), ("uuid",), ("blob",)],
}


def widened(d, t, r):
    """A type that t can be converted to in place"""
    k = t[0]
    if k == "int" and d != "oracle":
        ws = [w for w in (1, 2, 4, 8) if w > t[1]]
        return ("int", r.choice(ws)) if ws else None
    if k == "real":
        return ("double",)
    if k == "varchar" and t[1] is not None:
        return ("varchar", t[1] + r.randint(1, 60)) if r.random() < .7 or d == "oracle" else ("varchar", None)
    if k == "enum":
        return ("varchar", 255)
    if k == "ienum":
        return ("ienum", tuple(t[1]) + (r.choice(["x1", "x2", "x3"]) + str(len(t[1])),)) if r.random() < .6 else ("varchar", 255)
    return None


def default_for(d, t, r, spec=None):
    k = t[0]
    if k == "int":
        return r.choice(["0", "7", "-3", "42"])
    if k == "bool":
        return r.choice(["TRUE", "FALSE"] if d != "mysql" or r.random() < .5 else ["0", "1"])
    if k in ("real", "double", "decimal"):
        return r.choice(["1.5", "0", "2"])
    if k == "varchar" and t[1] is not None:
        return r.choice(["'abc'", "''", "'it''s'", "'a; b'", "'-- c'"])
    if k == "timestamp":
        return "'2023-01-02 03:04:05%s'" % (r.choice(["", ".250000"]) if d == "oracle" else "")
    if k == "date":
        return "'2023-01-02'"
    if k == "time":
        return "'03:04:05%s'" % (r.choice(["", ".500000"]) if d == "oracle" else "")
    if k == "enum" and spec is not None:
        return "'" + r.choice(spec[t[1]]["enums"][t[2]]).replace("'", "''") + "'"
    if k == "ienum":
        return "'" + r.choice(t[1]).replace("'", "''") + "'"
    return None


# --------------------------------------------------------------------------- random schemas
DESCS = [None, None, "a note", "second note", "it's noted; --", "two\nlines", "two\nother lines", "tab\there"]
EVALS = ["red", "green", "blue", "it's", "semi;colon", "day time", "naïve"]


def desc(r):
    return r.choice(DESCS)


class Gen:
    def __init__(self, d, r, maxns=3, maxtab=3):
        self.d, self.r, self.maxns, self.maxtab = d, r, maxns, maxtab

    def colname(self, tname, base):
        return tname + "_" + base if self.d == "mssql" else base

    def basic(self):
        return self.r.choice(BASIC[self.d])

    def anytype(self, spec, ns, order):
        """A type that a column in namespace ns may have"""
        r, d = self.r, self.d
        x = r.random()
        if d == "postgresql" and x < .35:
            cands = [("enum", m, e) for m in order[:order.index(ns) + 1] for e in spec[m]["enums"]]
            cands += [("struct", m, e) for m in order[:order.index(ns) + 1] for e in spec[m]["structs"]]
            if cands:
                t = r.choice(cands)
                return ("array", t) if r.random() < .2 else t
        if d == "postgresql" and x > .93:
            return ("array", self.basic())
        if d == "mysql" and x < .2:
            return ("ienum", tuple(r.sample(["red", "green", "blue", "day time", "it's", "na\u00efve"], r.randint(1, 3))))
        return self.basic()

    def column(self, spec, ns, order, name):
        r = self.r
        t = self.anytype(spec, ns, order)
        de = default_for(self.d, t, r, spec) if r.random() < .3 else None
        return dict(name=name, type=t, nullable=r.random() < .5, default=de, identity=False, desc=desc(r))

    def lookup(self, ns, name, values=None):
        d = self.d
        cid, cval = "id", "value"
        return dict(cols=[dict(name=cid, type=("int", 4), nullable=False, default=None, identity=True, desc=None),
                          dict(name=cval, type=("varchar", 255), nullable=False, default=None, identity=False, desc=None)],
                    pk=[cid], cons=[dict(name="uq_%s_%s" % (ns, name), kind="unique", cols=[cval], ref=None, refc=[], cond="")],
                    desc=None, values=values)

    def table(self, spec, ns, order, name):
        r, d = self.r, self.d
        if r.random() < .15:
            return self.lookup(ns, name, r.sample(["v1", "v2", "v3", "v4"], r.randint(1, 4)) if r.random() < .5 else None)
        cols, cn = [], lambda b: self.colname(name, b)
        pkt = ("int", 8) if d == "oracle" else r.choice([("int", 8), ("int", 4), ("int", 8), ("varchar", 40), ("uuid",)])
        ident = pkt[0] == "int" and r.random() < .4
        given = "7" if d == "postgresql" and pkt[0] == "int" and not ident and r.random() < .2 else None
        cols.append(dict(name=cn("id"), type=pkt, nullable=False, default=given, identity=ident, desc=desc(r)))
        pk = [cn("id")]
        if r.random() < .2 and not ident:
            cols.append(dict(name=cn("id2"), type=("int", 8), nullable=False, default=None, identity=False, desc=None))
            pk = [cn("id"), cn("id2")] if r.random() < .5 else [cn("id2"), cn("id")]
        for i in range(r.randint(0, 4)):
            cols.append(self.column(spec, ns, order, cn("c%d" % i)))
        if r.random() < .5:
            head, rest = cols[:len(pk)], cols[len(pk):]
            r.shuffle(rest)
            cols = head + rest
        return dict(cols=cols, pk=pk, cons=[], desc=desc(r), values=None)

    def add_constraint(self, spec, ns, order, name):
        """One random constraint on a table; False if there is none to add"""
        r, d = self.r, self.d
        t = spec[ns]["tables"][name]
        if is_lookup(t):
            return False
        have = {c["name"] for c in t["cons"]}
        x = r.random()
        if x < .6:
            cands = [(m, n) for m in order[:order.index(ns) + 1] for n, u in spec[m]["tables"].items()]
            if not cands:
                return False
            m, n = r.choice(cands)
            u = spec[m]["tables"][n]
            base, nullable = r.choice(["r0", "r1", "r2"]), r.random() < .6
            cols = [self.colname(name, base if i == 0 else base + "x") for i in range(len(u["pk"]))]
            if any(c["name"] in cols for c in t["cols"]):
                return False
            cname = "fk_%s_%s_%s" % (ns, name, "_".join(cols))
            if cname in have:
                return False
            for col, key in zip(cols, u["pk"]):
                typ = next(c["type"] for c in u["cols"] if c["name"] == key)
                t["cols"].append(dict(name=col, type=typ, nullable=nullable, default=None, identity=False, desc=desc(r)))
            t["cons"].append(dict(name=cname, kind="foreign", cols=cols, ref=(m, n), refc=list(u["pk"]), cond=""))
            return True
        plain = [c for c in t["cols"] if c["name"] not in t["pk"] and c["type"][0] in ("int", "varchar", "decimal", "date", "uuid")
                 and not any(c["name"] in k["cols"] for k in t["cons"])
                 and not (c["type"] == ("varchar", None)) and c["default"] is None]
        if not plain:
            return False
        if x < .85:
            cs = r.sample(plain, 2 if len(plain) > 1 and r.random() < .3 else 1)
            cname = "uq_%s_%s_%s" % (ns, name, "_".join(c["name"] for c in cs))
            if cname in have:
                return False
            t["cons"].append(dict(name=cname, kind="unique", cols=[c["name"] for c in cs], ref=None, refc=[], cond=""))
            return True
        c = r.choice(plain)
        cname = "ch_%s_%s_%s" % (ns, name, c["name"])
        if cname in have:
            return False
        t["cons"].append(dict(name=cname, kind="check", cols=[c["name"]], ref=None, refc=[],
                              cond='"%s" <> %s' % (c["name"], "0" if c["type"][0] in ("int", "decimal") else "'zz'")))
        return True

    def namespace(self, spec, ns, order):
        r, d = self.r, self.d
        spec[ns] = dict(enums={}, structs={}, tables={})
        if d == "postgresql":
            for i in range(r.randint(0, 2)):
                spec[ns]["enums"]["E%d" % i] = r.sample(EVALS, r.randint(1, 4))
            for i in range(r.randint(0, 2)):
                self.new_struct(spec, ns, order, "S%d" % i)
        for i in range(r.randint(0 if spec[ns]["enums"] else 1, self.maxtab)):
            spec[ns]["tables"]["T%d" % i] = self.table(spec, ns, order, "T%d" % i)

    def new_struct(self, spec, ns, order, name):
        r = self.r
        mem = []
        for j in range(r.randint(1, 3)):
            t = self.anytype(spec, ns, order)
            mem.append(("m%d" % j, t, desc(r)))
        spec[ns]["structs"][name] = dict(members=mem, desc=desc(r))

    def spec(self):
        r = self.r
        names = ["alpha", "beta", "gamma", "delta"]
        if r.random() < .25:
            names[0] = ""
        r.shuffle(names)
        order = names[:r.randint(1, self.maxns)]
        spec = {}
        for ns in order:
            self.namespace(spec, ns, order)
        for ns in order:
            for n, t in list(spec[ns]["tables"].items()):
                if not is_lookup(t):
                    for _ in range(r.randint(0, 2)):
                        self.add_constraint(spec, ns, order, n)
        if r.random() < .3:
            spec = shuffled(spec, r, structs=False)
        return spec

    # ----------------------------------------------------------------------- edits
    def edit(self, t):
        """Applies one random edit to spec t in place; False if it does not apply."""
        r, d = self.r, self.d
        order = ns_order(t)
        if order is None:
            return False
        kinds = ["ns_add", "ns_drop", "tab_add", "tab_drop", "tab_drop", "col_add", "col_add", "col_drop", "col_drop", "nullable", "default", "widen",
                 "cdesc", "tdesc", "con_add", "con_add", "con_drop", "con_drop", "reorder", "renew", "identity"]
        if d == "postgresql":
            kinds += ["enum_add", "enum_drop", "enum_value", "struct_add", "struct_drop", "mem_add", "mem_drop", "mdesc", "sdesc",
                      "enum_lookup", "enum_lookup", "varchar_lookup", "mem_type", "structs_drop"]
        if d == "mysql":
            kinds += ["varchar_lookup", "ienum_lookup"]
        k = r.choice(kinds)
        nss = list(t)
        ns = r.choice(nss) if nss else None
        tabs = [(m, n) for m in t for n in t[m]["tables"]]
        if k == "ns_add":
            free = [x for x in ("alpha", "beta", "gamma", "delta", "") if x not in t]
            if not free or len(t) >= 4:
                return False
            name = r.choice(free)
            self.namespace(t, name, order + [name])
            return True
        if k == "ns_drop":
            if not t:
                return False
            del t[ns]
            prune(t)
            return True
        if k == "tab_add":
            if not t:
                return False
            name = r.choice(["T0", "T1", "T2", "T3", "N0", "E0", "E1"])
            if taken(t, ns, name):
                return False
            t[ns]["tables"][name] = self.table(t, ns, order, name)
            for _ in range(r.randint(0, 2)):
                self.add_constraint(t, ns, order, name)
            return True
        if k == "enum_add":
            name = r.choice(["E0", "E1", "E2"])
            if not t or taken(t, ns, name):
                return False
            t[ns]["enums"][name] = r.sample(EVALS, r.randint(1, 4))
            return True
        if k == "struct_add":
            name = r.choice(["S0", "S1", "S2"])
            if not t or taken(t, ns, name):
                return False
            self.new_struct(t, ns, order, name)
            return True
        if k == "structs_drop":
            m = r.choice([m for m in order if t[m]["structs"]] or [None])
            if m is None:
                return False
            t[m]["structs"].clear()
            prune(t)
            return True
        if k in ("enum_drop", "struct_drop"):
            kk = "enums" if k == "enum_drop" else "structs"
            c = [(m, n) for m in t for n in t[m][kk]]
            if not c:
                return False
            m, n = r.choice(c)
            del t[m][kk][n]
            if kk == "enums" and r.random() < .5:
                for u in t.values():
                    for tab in u["tables"].values():
                        for col in tab["cols"]:
                            if col["type"] == ("enum", m, n):
                                col["type"] = ("varchar", 255)
            prune(t)
            return True
        if k == "enum_value":
            c = [(m, n) for m in t for n in t[m]["enums"]]
            if not c:
                return False
            m, n = r.choice(c)
            new = [v for v in EVALS + ["extra"] if v not in t[m]["enums"][n]]
            t[m]["enums"][n].insert(r.randint(0, len(t[m]["enums"][n])), r.choice(new))
            return True
        if k in ("mem_add", "mem_drop", "mdesc", "sdesc", "mem_type"):
            c = [(m, n) for m in t for n in t[m]["structs"]]
            if not c:
                return False
            m, n = r.choice(c)
            s = t[m]["structs"][n]
            if k == "mem_add":
                nm = "m%d" % r.randint(3, 6)
                if any(x[0] == nm for x in s["members"]):
                    return False
                s["members"].insert(r.randint(0, len(s["members"])), (nm, self.basic(), desc(r)))
            elif k == "mem_drop":
                if len(s["members"]) < 2:
                    return False
                s["members"].pop(r.randrange(len(s["members"])))
            elif k == "mdesc":
                i = r.randrange(len(s["members"]))
                s["members"][i] = s["members"][i][:2] + (desc(r),)
            elif k == "mem_type":
                i = r.randrange(len(s["members"]))
                s["members"][i] = (s["members"][i][0], self.basic(), s["members"][i][2])
            else:
                s["desc"] = desc(r)
            return True
        if k in ("enum_lookup",):
            c = [(m, n) for m in t for n in t[m]["enums"]]
            if not c:
                return False
            m, n = r.choice(c)
            vals = t[m]["enums"].pop(n)
            look = m
            if r.random() < .3:
                # a table of the same name in another schema
                look = r.choice(order[:order.index(m) + 1])
                if look != m and taken(t, look, n):
                    return False
            t[look]["tables"][n] = self.lookup(look, n, r.choice([None, list(vals), vals[:1]]))
            for ns2 in t:
                for tn, tab in t[ns2]["tables"].items():
                    for col in tab["cols"]:
                        if col["type"] == ("enum", m, n):
                            self.to_fk(tab, ns2, tn, col, look, n)
            prune(t)
            return True
        if k in ("varchar_lookup", "ienum_lookup"):
            want = "varchar" if k == "varchar_lookup" else "ienum"
            c = [(m, n, col["name"]) for m, n in tabs for col in t[m]["tables"][n]["cols"]
                 if col["type"][0] == want and not constrained(t[m]["tables"][n], col["name"])]
            if not c:
                return False
            m, n, cn = r.choice(c)
            looks = [(x, y) for x in order[:order.index(m) + 1] for y in t[x]["tables"] if is_lookup(t[x]["tables"][y]) and (x, y) != (m, n)]
            if not looks or r.random() < .6:
                name = r.choice(["L0", "L1"])
                if taken(t, m, name):
                    return False
                t[m]["tables"][name] = self.lookup(m, name)
                looks = [(m, name)]
            x, y = r.choice(looks)
            tab = t[m]["tables"][n]
            self.to_fk(tab, m, n, next(q for q in tab["cols"] if q["name"] == cn), x, y)
            return True
        if not tabs:
            return False
        m, n = r.choice(tabs)
        tab = t[m]["tables"][n]
        if is_lookup(tab) and k not in ("tab_drop", "reorder", "tdesc"):
            return False
        if k == "tab_drop":
            del t[m]["tables"][n]
            prune(t)
            return True
        if k == "renew":
            del t[m]["tables"][n]
            prune(t)
            nn = r.choice(["N1", "N2", "T3"])
            if taken(t, m, nn):
                return False
            t[m]["tables"][nn] = self.table(t, m, order, nn)
            return True
        if k == "reorder":
            r.shuffle(tab["cols"])
            r.shuffle(tab["cons"])
            return True
        if k == "tdesc":
            tab["desc"] = desc(r)
            return True
        if k == "col_add":
            nm = self.colname(n, "c%d" % r.randint(0, 7))
            if any(c["name"] == nm for c in tab["cols"]):
                return False
            tab["cols"].insert(r.randint(0, len(tab["cols"])), self.column(t, m, order, nm))
            return True
        if k == "con_add":
            return self.add_constraint(t, m, order, n)
        if k == "con_drop":
            if not tab["cons"]:
                return False
            tab["cons"].pop(r.randrange(len(tab["cons"])))
            return True
        cols = [c for c in tab["cols"] if c["name"] not in tab["pk"]]
        if k == "identity":
            c = next(c for c in tab["cols"] if c["name"] == tab["pk"][0])
            if d == "mssql" or len(tab["pk"]) > 1 or c["type"][0] != "int" or (d == "oracle" and not c["identity"]):
                return False
            if d == "postgresql" and not c["identity"] and r.random() < .4:
                c["default"] = None if c["default"] else "7"
                return True
            c["identity"] = not c["identity"]
            if c["identity"]:
                c["default"] = None
            return True
        if not cols:
            return False
        c = r.choice(cols)
        if k == "col_drop":
            tab["cols"].remove(c)
            tab["cons"] = [x for x in tab["cons"] if c["name"] not in x["cols"]]
            return len(tab["cols"]) > 0
        if k == "nullable":
            c["nullable"] = not c["nullable"]
            return True
        if k == "default":
            if constrained(tab, c["name"]):
                return False
            c["default"] = None if c["default"] is not None and r.random() < .5 else default_for(d, c["type"], r, t)
            return True
        if k == "cdesc":
            c["desc"] = desc(r)
            return True
        if k == "widen":
            if constrained(tab, c["name"]):
                return False
            w = widened(d, c["type"], r)
            if w is None:
                return False
            if c["type"][0] in ("enum", "ienum") and w[0] == "varchar" or w == ("varchar", None):
                c["default"] = None
            c["type"] = w
            return True
        return False

    def to_fk(self, tab, ns, tn, col, m, n):
        col["type"] = ("int", 4)
        col["default"] = "1" if self.r.random() < .2 else None
        if self.r.random() < .3:
            col["desc"] = desc(self.r)
        tab["cons"] = [x for x in tab["cons"] if col["name"] not in x["cols"]]
        tab["cons"].append(dict(name="fk_%s_%s_%s" % (ns, tn, col["name"]), kind="foreign", cols=[col["name"]], ref=(m, n), refc=["id"], cond=""))

    def target(self, s, edits=None):
        for _ in range(200):
            t = copy.deepcopy(s)
            k = edits or self.r.choice([1, 1, 2, 3, 4, 6, 8])
            done = 0
            for _ in range(k * 6):
                u = copy.deepcopy(t)
                if self.edit(u) and wellformed(self.d, u):
                    t, done = u, done + 1
                    if done >= k:
                        break
            if done and valid_pair(self.d, s, t):
                if self.r.random() < .2:
                    t = shuffled(t, self.r, structs=False)
                return t
        return copy.deepcopy(s)

    def source(self):
        while True:
            s = self.spec()
            if wellformed(self.d, s):
                return s


# --------------------------------------------------------------------------- predicates on specs
def is_lookup(tab):
    return sorted(c["name"] for c in tab["cols"]) == ["id", "value"]


def constrained(tab, c):
    return c in tab["pk"] or any(c in k["cols"] for k in tab["cons"])


def taken(t, ns, name):
    return any(name in t[ns][k] for k in ("enums", "structs", "tables"))


def base_udt(t):
    while t[0] == "array":
        t = t[1]
    return t if t[0] in ("enum", "struct") else None


def type_refs(spec):
    """(owner ns, owner kind, owner name, type) for each use of a user-defined type"""
    for ns in spec:
        for n, s in spec[ns]["structs"].items():
            for m in s["members"]:
                u = base_udt(m[1])
                if u:
                    yield ns, "structs", n, u
        for n, t in spec[ns]["tables"].items():
            for c in t["cols"]:
                u = base_udt(c["type"])
                if u:
                    yield ns, "tables", n, u


def ns_order(spec):
    """Namespaces in dependency order (of references and of position), None if cyclic"""
    g = {ns: set() for ns in spec}
    for ns, _, _, u in type_refs(spec):
        if u[1] != ns and u[1] in g:
            g[ns].add(u[1])
    for ns in spec:
        for t in spec[ns]["tables"].values():
            for c in t["cons"]:
                if c["ref"] and c["ref"][0] != ns and c["ref"][0] in g:
                    g[ns].add(c["ref"][0])
    out = []
    while len(out) < len(g):
        ready = [n for n in g if n not in out and g[n] <= set(out)]
        if not ready:
            return None
        out.extend(ready[:1])
    return out


def has_type(spec, u):
    return u[1] in spec and u[2] in spec[u[1]]["enums" if u[0] == "enum" else "structs"]


def prune(t):
    """Removes columns, members and constraints whose referents are gone."""
    changed = True
    while changed:
        changed = False
        for ns in list(t):
            for n in list(t[ns]["structs"]):
                s = t[ns]["structs"][n]
                keep = [m for m in s["members"] if not base_udt(m[1]) or has_type(t, base_udt(m[1]))]
                if len(keep) != len(s["members"]):
                    changed = True
                    s["members"] = keep
                if not keep:
                    del t[ns]["structs"][n]
            for n in list(t[ns]["tables"]):
                tab = t[ns]["tables"][n]
                gone = {c["name"] for c in tab["cols"] if base_udt(c["type"]) and not has_type(t, base_udt(c["type"]))}
                if gone:
                    changed = True
                    tab["cols"] = [c for c in tab["cols"] if c["name"] not in gone]
                keep = [c for c in tab["cons"] if not (set(c["cols"]) & gone)
                        and not (c["ref"] and (c["ref"][0] not in t or c["ref"][1] not in t[c["ref"][0]]["tables"]))]
                tab["cons"] = keep


def wellformed(d, spec):
    if ns_order(spec) is None:
        return False
    connames = set()
    for ns in spec:
        names = list(spec[ns]["enums"]) + list(spec[ns]["structs"]) + list(spec[ns]["tables"])
        if len(names) != len(set(names)) or not names:
            return False
        seen = set()
        for n, s in spec[ns]["structs"].items():
            if not s["members"]:
                return False
            for m in s["members"]:
                u = base_udt(m[1])
                if u and (not has_type(spec, u) or (u[0] == "struct" and u[1] == ns and u[2] not in seen)):
                    return False
            seen.add(n)
        for n, t in spec[ns]["tables"].items():
            cols = {c["name"]: c for c in t["cols"]}
            if len(cols) != len(t["cols"]) or not set(t["pk"]) <= set(cols):
                return False
            for c in t["cols"]:
                u = base_udt(c["type"])
                if u and not has_type(spec, u):
                    return False
                if (c["name"] in t["pk"] or c["identity"]) and c["nullable"]:
                    return False
                if c["type"][0] == "enum" and c["default"] is not None and c["default"][1:-1].replace("''", "'") not in spec[c["type"][1]]["enums"][c["type"][2]]:
                    return False
            for c in t["cons"]:
                if (ns, c["name"]) in connames or not set(c["cols"]) <= set(cols):
                    return False
                connames.add((ns, c["name"]))
                if c["kind"] == "foreign":
                    m, n2 = c["ref"]
                    if m not in spec or n2 not in spec[m]["tables"]:
                        return False
                    u = spec[m]["tables"][n2]
                    if c["refc"] != u["pk"]:
                        return False
                    types = {x["name"]: x["type"] for x in u["cols"]}
                    if [types[k] for k in c["refc"]] != [cols[k]["type"] for k in c["cols"]]:
                        return False
    return True


def migrated(d, s, t, ct, tab):
    """Column changing from an enumeration or a string into a reference"""
    return (t["type"] == ("int", 4) and s["type"][0] in ("enum", "ienum", "varchar")
            and any(k["kind"] == "foreign" and k["cols"] == [ct] for k in tab["cons"]))


def valid_pair(d, s, t):
    for ns in s:
        if ns not in t:
            continue
        a, b = s[ns], t[ns]
        for n in a["enums"]:
            if n in b["structs"]:
                return False
            if n in b["enums"] and not set(a["enums"][n]) <= set(b["enums"][n]):
                return False
            if n in b["tables"] and not is_lookup(b["tables"][n]):
                return False
        for n in a["structs"]:
            if n in b["tables"] or n in b["enums"]:
                return False
            if n in b["structs"]:
                x, y = dict((m[0], m[1]) for m in a["structs"][n]["members"]), dict((m[0], m[1]) for m in b["structs"][n]["members"])
                if any(x[k] != y[k] for k in x if k in y):
                    users = [1 for u in type_refs(s) if u[3] == ("struct", ns, n)] + [1 for u in type_refs(t) if u[3] == ("struct", ns, n)]
                    if users or any(base_udt(x[k]) or base_udt(y[k]) for k in x if k in y and x[k] != y[k]):
                        return False
                # members of a type that is new or changes its name are not added here
        for n in a["tables"]:
            if n in b["enums"] or n in b["structs"]:
                return False
            if n not in b["tables"]:
                continue
            x, y = a["tables"][n], b["tables"][n]
            if x["pk"] != y["pk"]:
                return False
            if is_lookup(x) != is_lookup(y):
                return False
            cx, cy = {c["name"]: c for c in x["cols"]}, {c["name"]: c for c in y["cols"]}
            kx, ky = {c["name"]: c for c in x["cons"]}, {c["name"]: c for c in y["cons"]}
            for k in kx:
                if k in ky and kx[k] != ky[k]:
                    return False
            # at least one column has to survive any intermediate state
            if not set(cx) & set(cy):
                return False
            for c in cx:
                if c not in cy:
                    continue
                p, q = cx[c], cy[c]
                if p["type"] != q["type"]:
                    if d in ("mssql", "oracle") and q["type"] == ("int", 4) and p["type"][0] != "int":
                        return False
                    if migrated(d, p, q, c, y):
                        if constrained(x, c) or q["identity"]:
                            return False
                        continue
                    if constrained(x, c) or constrained(y, c):
                        return False
                    if p["type"][0] in ("varchar", "ienum", "enum") and q["type"][0] == "int":
                        return False
                    if p["type"][0] in ("varchar",) and q["type"][0] not in ("varchar",):
                        return False
                    if p["type"][0] == "int" and q["type"][0] != "int":
                        return False
                    if p["type"][0] not in ("varchar", "int", "real", "enum", "ienum"):
                        return False
                    if p["type"][0] == "enum" and q["type"][0] != "varchar":
                        return False
                    if p["type"][0] == "ienum" and q["type"][0] not in ("varchar", "ienum"):
                        return False
                    if p["type"][0] == "ienum" and q["type"][0] == "ienum" and not set(p["type"][1]) <= set(q["type"][1]):
                        return False
                    if p["type"][0] in ("enum", "ienum") and q["type"][0] == "varchar" and p["default"] is not None:
                        return False
                if d == "mssql" and (p["type"] != q["type"] or p["nullable"] != q["nullable"]):
                    if any(c in k["cols"] for k in x["cons"] if k["name"] in ky) or c in x["pk"]:
                        return False
                if p["identity"] != q["identity"]:
                    if d == "mssql" or (d == "oracle" and q["identity"]):
                        return False
                    # a column with a default value becomes an identity column without
                    if q["default"] is not None or p["default"] is not None and d != "postgresql":
                        return False
            # two identity columns at no time
            ii = [c for c in cx if cx[c]["identity"]]
            jj = [c for c in cy if cy[c]["identity"]]
            if ii and jj and ii != jj:
                return False
            # identity columns are not added to an existing table as part of this model
            if any(cy[c]["identity"] and c not in cx for c in cy):
                return False
    return True


def shuffled(spec, r, structs=True):
    """The same schema, listed in another order"""
    out = {}
    for ns in r.sample(list(spec), len(spec)):
        a = spec[ns]
        b = dict(enums={}, structs={}, tables={})
        for k in ("enums", "structs", "tables"):
            names = list(a[k])
            if k != "structs" or structs:
                r.shuffle(names)
            for n in names:
                b[k][n] = copy.deepcopy(a[k][n])
        for t in b["tables"].values():
            r.shuffle(t["cols"])
            r.shuffle(t["cons"])
        out[ns] = b
    return out


# --------------------------------------------------------------------------- rows
def row_plan(d, s, t):
    """Rows for every table of s that stay valid all the way to t; None if there are none."""
    rows = {}
    r = random.Random(str(sorted(s)) + str(len(t)))
    for ns in s:
        for n, x in s[ns]["tables"].items():
            y = t.get(ns, {}).get("tables", {}).get(n)
            cx = {c["name"]: c for c in x["cols"]}
            cy = {c["name"]: c for c in y["cols"]} if y else {}
            ky = y["cons"] if y else []
            fkx = {c: k["ref"] for k in x["cons"] if k["kind"] == "foreign" for c in k["cols"]}
            fky = {c: k["ref"] for k in ky if k["kind"] == "foreign" for c in k["cols"]}
            first = {c: k["cols"][0] for k in x["cons"] + ky if k["kind"] == "foreign" for c in k["cols"]}
            uq = {c for k in x["cons"] + ky if k["kind"] == "unique" for c in k["cols"]}
            if y:
                for c, q in cy.items():
                    if c in cx:
                        continue
                    if not q["nullable"] and q["default"] is None and not q["identity"]:
                        return None
                    if c in fky and (q["default"] is not None or not q["nullable"]):
                        return None
                    if c in uq and (q["default"] is not None or not q["nullable"]):
                        return None
                for c, ref in fky.items():
                    if c in cx and fkx.get(c) != ref and not migrated(d, cx[c], cy[c], c, y):
                        # new reference on an existing column: only when the referent keeps its rows
                        if ref[1] not in s.get(ref[0], {}).get("tables", {}):
                            return None
                        if c in fkx:
                            return None
            out = []
            if x.get("values") is not None:
                rows[(ns, n)] = None       # populated by its own script
                continue
            for i in (1, 2, 3):
                row = {}
                for c, p in cx.items():
                    q = cy.get(c)
                    ty = p["type"]
                    fk = c in fkx or (c in fky and q["type"] == p["type"])
                    if c in x["pk"]:
                        v = str(i)
                    elif p["nullable"] and (q is None or q["nullable"]) and r.random() < .25:
                        v = "~null"
                    elif fk:
                        ref = fkx.get(c) or fky.get(c)
                        rt = s[ref[0]]["tables"][ref[1]]
                        n_ref = len(rt["values"]) if rt.get("values") is not None else 3
                        if c in uq and n_ref < 3:
                            return None
                        v = str(i if c in uq else (i + len(first[c])) % n_ref + 1)
                    elif ty[0] == "enum":
                        vals = s[ty[1]]["enums"][ty[2]]
                        v = vals[i % len(vals)]
                    elif ty[0] == "ienum":
                        v = ty[1][i % len(ty[1])]
                    elif ty[0] in ("varchar",) and c == "value":
                        v = "w%d" % i
                    elif ty[0] == "varchar":
                        v = "v%d" % (i if c in uq else i % 2 + 1)
                    else:
                        v = str(i if c in uq else (i * 7) % 10)
                    row[c] = v
                out.append(row)
            rows[(ns, n)] = out
    return rows


def load_step(d, rows):
    return dict(k="load", tables={obj_key(d, ns, n): rs for (ns, n), rs in rows.items() if rs is not None})


# --------------------------------------------------------------------------- rendering as real objects
def catalog(d, spec, r=None):
    f = generator(d).factory
    nss = {}
    flat = d in FLAT

    def column(c):
        return f.column_class(LocalId(c["name"]), pytype(d, c["type"]), c["nullable"], default=c["default"], identity=c["identity"], description=c["desc"])

    def con(c):
        cols = tuple(LocalId(x) for x in c["cols"])
        if c["kind"] == "unique":
            return ot.UniqueConstraint(LocalId(c["name"]), cols)
        if c["kind"] == "foreign":
            return ot.ForeignConstraint(LocalId(c["name"]), cols, ot.ConstraintReference(obj_id(d, *c["ref"]), tuple(LocalId(x) for x in c["refc"])))
        return ot.CheckConstraint(LocalId(c["name"]), c["cond"])

    for ns, b in spec.items():
        enums = [ot.EnumType(obj_id(d, ns, n), list(v)) for n, v in b["enums"].items()]
        structs = [f.struct_class(obj_id(d, ns, n), [ot.StructMember(LocalId(m[0]), pytype(d, m[1]), m[2]) for m in s["members"]], s["desc"])
                   for n, s in b["structs"].items()]
        tables = []
        for n, t in b["tables"].items():
            kw = dict(name=obj_id(d, ns, n), columns=[column(c) for c in t["cols"]], primary_key=tuple(LocalId(x) for x in t["pk"]),
                      constraints=[con(c) for c in t["cons"]] or None, description=t["desc"])
            if t.get("values"):
                tables.append(f.enum_table_class(values=list(t["values"]), **kw))
            else:
                tables.append(f.table_class(**kw))
        where = nss.setdefault("" if flat else ns, ([], [], []))
        where[0].extend(enums)
        where[1].extend(structs)
        where[2].extend(tables)
    return ot.Catalog([f.namespace_class(LocalId(ns), enums=e, structs=s, tables=t) for ns, (e, s, t) in nss.items()])


# --------------------------------------------------------------------------- rendering as a goal
def stored_desc(d, s, kind):
    if s is None or s == "":
        return NONE
    if d == "postgresql" or (d in ("redshift", "snowflake", "delta") and kind in ("table", "col")):
        return s
    if d == "mysql" and kind in ("table", "col"):
        return s.split("\n")[0] or NONE
    return NONE


def canon_default(d, t, expr):
    if expr is None:
        return NONE
    s = canon(lex(d, expr))
    if d == "oracle" and t[0] == "timestamp":
        return "TIMESTAMP " + s
    if d == "oracle" and t[0] == "date":
        return "DATE " + s
    if d == "oracle" and t[0] == "time":
        return "INTERVAL '0 %s' DAY TO SECOND" % s.strip("'")
    if d == "mssql" and t[0] == "bool":
        return {"TRUE": "1", "FALSE": "0"}.get(s, s)
    return s


def want(d, spec):
    tables, types, aside = {}, {}, {}
    for ns, b in spec.items():
        for n, v in b["enums"].items():
            types[obj_key(d, ns, n)] = dict(kind="enum", schema=obj_schema(d, ns), values=list(v), members=[], desc=NONE)
        for n, s in b["structs"].items():
            mem = []
            for m in s["members"]:
                ty, ref = sqltype(d, m[1])
                mem.append(dict(name=m[0], type=ty, tref=ref, desc=stored_desc(d, m[2], "member")))
            types[obj_key(d, ns, n)] = dict(kind="struct", schema=obj_schema(d, ns), values=[], members=mem, desc=stored_desc(d, s["desc"], "struct"))
        for n, t in b["tables"].items():
            cols = []
            for c in t["cols"]:
                ty, ref = sqltype(d, c["type"])
                cols.append(dict(name=c["name"], type=ty, tref=ref, nullable=c["nullable"], default=canon_default(d, c["type"], c["default"]),
                                 identity=c["identity"], desc=stored_desc(d, c["desc"], "col")))
            cons = {}
            for c in t["cons"]:
                cons[c["name"]] = dict(kind=c["kind"], cols=list(c["cols"]), reft=obj_key(d, *c["ref"]) if c["ref"] else "",
                                       refc=list(c["refc"]), cond=canon(lex(d, c["cond"])) if c["cond"] else "")
            k = obj_key(d, ns, n)
            tables[k] = dict(schema=obj_schema(d, ns), cols=cols, pk=list(t["pk"]), cons=cons, desc=stored_desc(d, t["desc"], "table"),
                             init=list(t.get("values") or []))
            aside[k] = key(obj_schema(d, ns), "pysqlsync$" + n)
    if d in QUALIFIED:
        schemas, namespaces = [ns for ns in spec if ns], list(spec)
    else:
        schemas, namespaces = [], [""] if spec else []
    return dict(schemas=schemas, namespaces=namespaces, tables=tables, types=types, aside=aside)


def retained(d, s, t, o):
    """The schema that remains after going from s to t under drop policy o, as a spec; None when what is
    retained would refer to what is dropped or set aside (no engine could do that)."""
    out = copy.deepcopy(t)
    flat_t = bool(t)
    for ns in s:
        in_t = ns in t if d in QUALIFIED else flat_t
        for kind, perm in (("enums", "enum"), ("structs", "struct"), ("tables", "table")):
            ok = o[perm] if in_t else o["namespace"]
            for n, x in s[ns][kind].items():
                if ns in t and n in t[ns][kind]:
                    continue
                if ok:
                    continue
                if ns in t and taken(t, ns, n):
                    if kind != "enums" or n not in t[ns]["tables"]:
                        return None
                    name = "pysqlsync$" + n
                else:
                    name = n
                out.setdefault(ns, dict(enums={}, structs={}, tables={}))[kind][name] = copy.deepcopy(x)
    for ns in out:
        for n, x in out[ns]["tables"].items():
            if ns in t and n in t[ns]["tables"]:
                continue
            x["cons"] = [c for c in x["cons"] if not (c["ref"] and (c["ref"][0] not in out or c["ref"][1] not in out[c["ref"][0]]["tables"]))]
    for ns, kind, n, u in type_refs(out):
        if not has_type(out, u):
            return None
        if n in s.get(ns, {}).get(kind, {}) and not (ns in t and n in t[ns][kind]) and not has_type(s, u):
            return None
    return out
