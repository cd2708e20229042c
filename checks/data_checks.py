"""C11, C12, C13, C15: the real client writes records through stand-ins for the drivers; what reaches them is executed by
spec/Data.tla, which compares the outcome with what each call stands for."""
import asyncio, base64, dataclasses, datetime, decimal, enum, ipaddress, json, re, sys, types, uuid
from typing import Annotated, Literal, Optional, Union
import oracledb, pyodbc
import dml, tlc, drivers
from env import pick, rng
from report import Check, describe, raised_in_repo
from pysqlsync import base
from pysqlsync.base import GeneratorOptions
from pysqlsync.formation.object_types import UniqueConstraint
from pysqlsync.formation.py_to_sql import EnumMode, StructMode
from pysqlsync.model.id_types import LocalId
from pysqlsync.model.key_types import DEFAULT, Identity, PrimaryKey, Unique
from strong_typing.core import JsonType
from strong_typing.auxiliary import int8, int16, int32, int64, float32, float64, MaxLength, Precision

THIS = sys.modules[__name__]
UTC = datetime.timezone.utc
NS = "ns"


# ------------------------------------------------------------------ values as the specification sees them
def tok(v):
    if v is None:
        return "N"
    if isinstance(v, bool) or isinstance(v, int) and not isinstance(v, enum.Enum):
        return "i:%d" % v
    if isinstance(v, float):
        return "f:%r" % v
    if isinstance(v, decimal.Decimal):
        return "d:" + format(v.normalize(), "f")
    if isinstance(v, enum.Enum):
        return "enum:%s" % (v,)
    if isinstance(v, str):
        return "s:" + v
    if isinstance(v, (bytes, bytearray, memoryview)):
        return "y:" + bytes(v).hex()
    if isinstance(v, uuid.UUID):
        return "u:" + v.hex
    if isinstance(v, datetime.datetime):
        return "t:" + (v if v.tzinfo is None else v.astimezone(UTC).replace(tzinfo=None)).isoformat()
    if isinstance(v, datetime.date):
        return "D:" + v.isoformat()
    if isinstance(v, datetime.time):
        return "T:" + v.replace(tzinfo=None).isoformat()
    if isinstance(v, datetime.timedelta):
        return "v:%d.%06d" % (v.days * 86400 + v.seconds, v.microseconds)
    if isinstance(v, (ipaddress.IPv4Address, ipaddress.IPv6Address)):
        return "p:%s" % v
    return "?%s:%r" % (type(v).__name__, v)


def canon(v):
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items() if x is not None}
    if isinstance(v, list):
        return [canon(x) for x in v]
    return v


def jtok(v, is_set=False):
    v = canon(v)
    if is_set and isinstance(v, list):
        v = sorted(v, key=str)
    return "j:" + json.dumps(v, sort_keys=True, ensure_ascii=False)


def cell(v, kind="", is_set=False):
    "What a driver is handed, for a column of the given kind"
    if v is None:
        return ["N"]
    if kind == "json":
        if not isinstance(v, str):
            return [tok(v) if not isinstance(v, (list, dict, set, tuple)) else "?%s" % type(v).__name__]
        try:
            return [jtok(json.loads(v), is_set)]
        except ValueError:
            return ["?" + v]
    if isinstance(v, (list, tuple)):
        return ["l"] + [tok(x) for x in v]
    return [tok(v)]


# ------------------------------------------------------------------ columns
class Col:
    """A field of an entity class: type for the class, type for rows, a source of values, what is expected in the database"""

    def __init__(self, name, py, row, kind, values, stored=None, struct=None):
        self.name, self.py, self.row, self.kind, self.values = name, py, row, kind, values
        self.stored = stored                  # value -> cell
        self.nullable = self.pk = self.identity = self.unique = False
        self.lookup = None                    # enumeration class of a lookup table
        self.is_set = False
        self.tordb = None                     # entity value -> row value
        self.room = dict(n=0, s=0)            # size and scale of what the column holds

    def expect(self, v):
        return ["N"] if v is None else self.stored(v) if self.stored else [tok(v)]

    @property
    def annotation(self):
        t = self.py
        if self.identity:
            t = Identity[t]
        if self.nullable:
            t = Optional[t]
        if self.unique:
            t = Unique[t]
        if self.pk:
            t = PrimaryKey[t]
        return t


STRINGS = ["", "a", "b", "A", "it's", 'q"q', "a\\b", "semi;colon", "%s", "$1", ":1", "?", "\u00e9\u4e16", "None", "NULL", "a\tb\nc", "x" * 50]


def text(r):
    return r.choice(STRINGS[1:]) + str(r.randrange(100))


class Mood(enum.Enum):
    HAPPY = "happy"
    SAD = "sad \u2764"
    ODD = "it's"


class Hue(enum.Enum):
    RED = "red"
    GREEN = "green"


class Temper(enum.Enum):
    CALM = "happy"
    WILD = "wild; \u2764"


class Tint(enum.Enum):
    RED = "red"
    BLUE = "it's blue"


@dataclasses.dataclass
class Point:
    x: int
    label: str
    mood: Optional[Mood] = None


@dataclasses.dataclass
class Other:
    key: PrimaryKey[uuid.UUID]
    note: str
    extra: Optional[int]


@dataclasses.dataclass
class Ordinal:
    n: PrimaryKey[int]
    note: Unique[Annotated[str, MaxLength(80)]]
    extra: Unique[int]


@dataclasses.dataclass
class Named:
    name: PrimaryKey[Annotated[str, MaxLength(80)]]
    note: Unique[Annotated[str, MaxLength(80)]]
    extra: Unique[int]


def ts(r):
    return datetime.datetime(r.randrange(1990, 2040), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60))


def interval(v):
    return [tok(datetime.timedelta(hours=v.hour, minutes=v.minute, seconds=v.second, microseconds=v.microsecond))]


def uid(r):
    return uuid.UUID(int=r.getrandbits(128))


def kinds(d, mode, struct_json):
    """Name -> function making a column of this kind"""
    pg = d == "postgresql"
    out = {}

    def simple(name, py, row, kind, values, stored=None, size=0, scale=0):
        def make(n):
            c = Col(n, py, row, kind, values, stored)
            c.room = dict(n=size, s=scale)
            return c
        out[name] = make
    number = "int8" if d == "oracle" else None
    simple("int", int, int, "int8", lambda r: r.choice([0, 1, -1, r.randrange(10 ** 6)]))
    simple("int8", int8, int, number or "int1", lambda r: r.randrange(100))
    simple("int16", int16, int, number or "int2", lambda r: r.randrange(-1000, 1000))
    simple("int32", int32, int, number or "int4", lambda r: r.randrange(10 ** 6))
    simple("int64", int64, int, "int8", lambda r: r.randrange(10 ** 9))
    simple("bool", bool, bool, "int1" if d == "mysql" else "bool", lambda r: r.random() < .5)
    simple("float", float, float, "float", lambda r: r.choice([0.5, -1.25, 3.0, 1e10]))
    simple("float32", float32, float, "float" if d == "mysql" else "real", lambda r: r.choice([0.5, -1.25, 3.0, 1024.0]))
    simple("str", str, str, "text", text)
    simple("str80", Annotated[str, MaxLength(80)], str, "text", text, size=80)
    simple("long", Annotated[str, MaxLength(9000)], str, "text", text, size=9000)
    simple("word", Literal["on", "off", "it's"], str, "text", lambda r: r.choice(["on", "off", "it's"]), size=4)
    simple("dec", Annotated[decimal.Decimal, Precision(10, 4)], decimal.Decimal, "dec", lambda r: decimal.Decimal(r.randrange(-10 ** 6, 10 ** 6)) / 100, size=10, scale=4)
    # without precision, these are integers of 18 digits on SQL Server
    simple("num", decimal.Decimal, decimal.Decimal, "dec", lambda r: decimal.Decimal(r.randrange(-10 ** r.randrange(1, 18), 10 ** 17)), size=18)
    simple("date", datetime.date, datetime.date, "date", lambda r: ts(r).date())
    simple("time", datetime.time, datetime.time, "time", lambda r: ts(r).time().replace(tzinfo=r.choice([None, UTC]), microsecond=r.choice([0, 250000, 123456])),
           interval if d == "oracle" else None)
    simple("ts", datetime.datetime, datetime.datetime, "ts", lambda r: ts(r).replace(tzinfo=r.choice([None, UTC])))
    simple("uuid", uuid.UUID, uuid.UUID, "uuid" if pg else "bin", uid, None if pg else lambda v: [tok(v.bytes)], size=16)
    simple("ip4", ipaddress.IPv4Address, ipaddress.IPv4Address, "ip" if pg else "bin", lambda r: ipaddress.IPv4Address(r.getrandbits(32)),
           None if pg else lambda v: [tok(v.packed)], size=4)
    simple("ip6", ipaddress.IPv6Address, ipaddress.IPv6Address, "ip" if pg else "bin", lambda r: ipaddress.IPv6Address(r.getrandbits(128)),
           None if pg else lambda v: [tok(v.packed)], size=16)
    if d == "oracle":
        simple("bytes", bytes, bytes, "bin", lambda r: bytes(r.randrange(256) for _ in range(r.randrange(1, 6))))

    def items(name, item, make, is_set=False):
        def make_col(n):
            c = Col(n, set[item] if is_set else list[item], set if is_set else list, "array" if pg else "json",
                    lambda r: (set if is_set else list)(make(r) for _ in range(r.randrange(4))),
                    (lambda v: ["l"] + [tok(x) for x in v]) if pg else (lambda v: [jtok(list(v), is_set)]))
            c.is_set = is_set
            return c
        out[name] = make_col
    items("ints", int, lambda r: r.randrange(9))
    items("strs", str, text)
    items("intset", int, lambda r: r.randrange(50), True)
    if struct_json:
        out["struct"] = lambda n: Col(n, Point, dict, "json", lambda r: Point(r.randrange(9), text(r), r.choice([None, Mood.SAD])),
                                      lambda v: [jtok(dict(x=v.x, label=v.label, mood=v.mood.value if v.mood else None) if isinstance(v, Point) else v)])
        out["struct"].rowvalue = lambda v: dict(x=v.x, label=v.label, **({"mood": v.mood.value} if v.mood else {}))

    def enumeration(e, extensible):
        def make(n):
            c = Col(n, Annotated[Union[e, str], "ext"] if False else (Union[e, str] if extensible else e), str, "text",
                    lambda r: r.choice(list(e)) if not extensible or r.random() < .5 else r.choice([m.value for m in e] + ["new %d" % r.randrange(4)] + ([""] if d != "oracle" else [])),
                    lambda v: [tok(v.value if isinstance(v, enum.Enum) else v)])
            if extensible or mode is EnumMode.RELATION:
                c.lookup = e.__name__
                c.kind = number or "int4"
            elif mode is EnumMode.CHECK:
                c.room = dict(n=max(len(m.value) for m in e), s=0)
            c.tordb = lambda v: v.value if isinstance(v, enum.Enum) else v
            return c
        return make
    out["mood"] = enumeration(Mood, False)
    out["hue"] = enumeration(Hue, False)
    # an enumeration is either a type or extensible, which takes a table
    out["mood_ext"] = enumeration(Temper if mode is EnumMode.TYPE else Mood, True)
    out["hue_ext"] = enumeration(Tint if mode is EnumMode.TYPE else Hue, True)
    simple("ref", Other, uuid.UUID, "uuid" if pg else "bin", uid, None if pg else lambda v: [tok(v.bytes)], size=16)
    simple("ref_str", Named, str, "text", lambda r: r.choice(["happy", "red", "it's", "some one"]), size=80)
    out["ref_int"] = lambda n: Col(n, Ordinal, int, "int8", lambda r: r.randrange(9))
    return out


KEYS = ["int", "int32", "str80", "uuid", "date", "mood", "ip4"]
# what the text format for Redshift carries
PLAIN = ["int", "int16", "int32", "int64", "bool", "float", "str", "str80", "dec", "date", "word"]
MODES = {"redshift": [EnumMode.CHECK], "postgresql": [EnumMode.TYPE, EnumMode.CHECK, EnumMode.RELATION], "mysql": [EnumMode.INLINE, EnumMode.CHECK, EnumMode.RELATION],
         "mssql": [EnumMode.RELATION, EnumMode.CHECK], "oracle": [EnumMode.RELATION, EnumMode.CHECK]}


def table_id(d, name, ns=NS):
    if not ns:
        return name
    return "%s.%s" % (ns, name) if d in ("postgresql", "mssql", "redshift") else "%s__%s" % (ns, name)


# ------------------------------------------------------------------ stand-in for a database with lookup tables
class Store(drivers.Server):
    """Answers queries to lookup tables, which it keeps up to date by the statements that reach it"""

    def __init__(self, d, lookups):
        super().__init__()
        self.d = d
        self.rows = {t: list(rows) for t, rows in lookups.items()}
        self.count = {t: 0 for t in lookups}
        self.answers = []

    sql_mode = ""

    def on_connect(self, params):
        self.sql_mode = str(params.get("sql_mode", "")) + str(params.get("init_command", ""))

    def on_open(self):
        self.log.append(("open",))

    def on_commit(self):
        self.log.append(("commit",))

    def on_executemany(self, sql, rows):
        st = dml.parse(self.d, sql)
        t = st["table"]
        if t not in self.rows or st["op"] not in ("insert", "merge"):
            return
        for row in rows:
            try:
                vals = dict(zip(st["cols"], [row[p - 1] for p in st["pars"]]))
            except IndexError:
                return
            if not any(v == vals.get("value") for _, v in self.rows[t]):
                self.count[t] += 1
                self.rows[t].append((vals.get("id", 1000000 + self.count[t]), vals.get("value")))

    def on_query(self, sql):
        if "@@VERSION" in sql:
            return ("version",), [("Microsoft SQL Server",)]
        q = dml.parse_query(self.d, sql)
        self.answers.append([])
        if q["op"] != "query" or q["table"] not in self.rows or not set(q["cols"]) <= {"id", "value"}:
            return ("x",), []
        self.answers[-1] = [tuple({"id": i, "value": v}[c] for c in q["cols"]) for i, v in self.rows[q["table"]]]
        return q["cols"], self.answers[-1]


ODBC = {pyodbc.SQL_BIT: "bool", pyodbc.SQL_TINYINT: "int1", pyodbc.SQL_SMALLINT: "int2", pyodbc.SQL_INTEGER: "int4", pyodbc.SQL_BIGINT: "int8",
        pyodbc.SQL_REAL: "real", pyodbc.SQL_DOUBLE: "float", pyodbc.SQL_FLOAT: "float", pyodbc.SQL_DECIMAL: "dec", pyodbc.SQL_NUMERIC: "dec",
        pyodbc.SQL_TYPE_TIMESTAMP: "ts", pyodbc.SQL_TYPE_DATE: "date", pyodbc.SQL_TYPE_TIME: "time", pyodbc.SQL_CHAR: "text", pyodbc.SQL_VARCHAR: "text",
        pyodbc.SQL_WCHAR: "text", pyodbc.SQL_WVARCHAR: "text", pyodbc.SQL_LONGVARCHAR: "text", pyodbc.SQL_WLONGVARCHAR: "text",
        pyodbc.SQL_BINARY: "bin", pyodbc.SQL_VARBINARY: "bin", pyodbc.SQL_LONGVARBINARY: "bin", pyodbc.SQL_UNKNOWN_TYPE: "unknown"}
ORA = {"BOOLEAN": "bool", "BINARY_FLOAT": "real", "BINARY_DOUBLE": "float", "NUMBER": "dec", "BINARY_INTEGER": "int4", "RAW": "bin", "BLOB": "bin", "LONG_RAW": "bin",
       "CHAR": "text", "VARCHAR": "text", "NVARCHAR": "text", "CLOB": "text", "NCLOB": "text", "LONG": "text", "DATE": "date", "INTERVAL_DS": "time",
       "TIMESTAMP": "ts", "TIMESTAMP_TZ": "ts", "TIMESTAMP_LTZ": "ts", "UNKNOWN": "unknown"}


def families(sizes):
    if not sizes:
        return []
    out = []
    for s in sizes:
        if isinstance(s, tuple) and s and s[0] == "var":
            name = s[1].split("DB_TYPE_")[-1].rstrip(">")
            f = ORA.get(name, "?" + name)
            out.append(dict(f=f, n=s[2] if f in ("text", "bin") else 0, s=0))
        elif s is None:
            out.append(dict(f="unknown", n=0, s=0))
        else:
            code, n, scale = s if isinstance(s, tuple) else (s, 0, 0)
            out.append(dict(f=ODBC.get(code, "?%s" % code), n=n, s=scale))
    return out


# ------------------------------------------------------------------ scenarios
class Scenario:
    def __init__(self, d, r, prop):
        self.d, self.r, self.prop = d, r, prop
        self.mode = r.choice(MODES[d])
        self.struct_json = d != "postgresql" or r.random() < .5
        ks = kinds(d, self.mode, self.struct_json)
        if d == "redshift":
            ks = {n: ks[n] for n in PLAIN}
        if prop == "C15":
            names = [r.choice(["mood", "mood_ext", "hue", "hue_ext"]) for _ in range(r.randrange(1, 4))] + [r.choice(list(ks)) for _ in range(r.randrange(2))]
            if self.mode is not EnumMode.RELATION:
                names.append("mood_ext")
            r.shuffle(names)
        else:
            names = [r.choice(list(ks)) for _ in range(r.randrange(1, 6))]
        self.ks = ks
        self.cols = []
        key = r.choice(KEYS if d != "redshift" else ["int", "int32", "str80", "date"])
        if key == "mood" and prop != "C13":
            key = "int"
        if key == "mood" and self.mode is EnumMode.RELATION:
            key = "str80"
        pk = ks[key]("key_")
        pk.pk = True
        if key in ("int", "int32") and r.random() < .4:
            pk.identity = True
            pk.tordb = None
        at = r.randrange(len(names) + 1)
        for i, n in enumerate(names):
            if i == at:
                self.cols.append(pk)
            c = ks[n](r.choice(["c%d", "C%d", "col_%d", "order%d"]) % i)
            c.src = n
            if hasattr(ks[n], "rowvalue"):
                c.tordb = ks[n].rowvalue
            c.nullable = r.random() < .5 and d != "redshift"
            if n in ("int", "int64", "str", "str80", "uuid") and r.random() < .25:
                c.unique = True
            if d == "redshift" and c.kind == "text" and n != "word":
                c.values = lambda r: r.choice([s for s in STRINGS if "\n" not in s and s]) + str(r.randrange(100))
            self.cols.append(c)
        if at == len(names):
            self.cols.append(pk)
        self.pk = pk
        self.by = {c.name: c for c in self.cols}
        # a constraint on two columns says nothing about either of them
        self.pair = None
        if len(self.cols) > 1 and r.random() < .3:
            first = r.choice([c for c in self.cols if c.pk or c.unique])
            self.pair = [first.name, r.choice([c for c in self.cols if c is not first]).name]
            r.shuffle(self.pair)
        self.cls = dataclasses.make_dataclass("Thing", [(c.name, c.annotation) for c in self.cols], kw_only=True, module=__name__)
        self.cls.__module__ = __name__
        self.entities = [self.cls]
        setattr(THIS, "Thing", self.cls)
        for c in self.cols:
            if c.py is Other and Other not in self.entities:
                self.entities.append(Other)
            if c.py in (Ordinal, Named) and c.py not in self.entities:
                self.entities.append(c.py)
        self.options = GeneratorOptions(enum_mode=self.mode, struct_mode=StructMode.JSON if self.struct_json else None, namespaces={THIS: NS},
                                        initialize_tables=r.random() < .3)
        self.table = table_id(d, "Thing")
        self.lookups = {c.name: table_id(d, c.lookup) for c in self.cols if c.lookup}
        prefill = {}
        for t in set(self.lookups.values()):
            vals = r.sample(([""] if d != "oracle" else []) + ["happy", "sad \u2764", "it's", "red", "green", "new 0", "new 1"], r.randrange(5))
            prefill[t] = [(k + 1, v) for k, v in enumerate(vals)]
        self.prefill = prefill
        self.seen = {}             # unique values in use: column -> set
        self.counter = 0
        self.initial = []          # rows as entity values, with lookup ids resolved at rendering
        self.keys_used = []
        for _ in range(r.randrange(5)):
            rec = self.record(initial=True)
            self.initial.append(rec)

    # values -------------------------------------------------------------
    def fresh(self, c):
        self.counter += 1
        n = self.counter
        if c.kind in ("int8", "int4", "int2", "int1"):
            return n - 1
        if c.kind == "text":
            if c.py is Mood:
                return None
            return "k%d %s" % (n, self.r.choice(["", "'", "\u00e9", ";"]))
        if c.kind == "date":
            return datetime.date(2000, 1, 1) + datetime.timedelta(days=n)
        if c.py is uuid.UUID:
            return uuid.UUID(int=n << 64 | n)
        if c.py is ipaddress.IPv4Address:
            return ipaddress.IPv4Address(n)
        raise AssertionError(c.kind)

    def key(self, existing=None):
        r = self.r
        if existing is None:
            existing = r.random() < .5
        if existing and self.keys_used:
            return r.choice(self.keys_used)
        if self.pk.py is Mood:
            free = [m for m in Mood if m not in self.keys_used]
            return free[0] if free else r.choice(list(Mood))
        return self.fresh(self.pk)

    def record(self, initial=False, key=None, op="upsert"):
        r = self.r
        rec = {}
        for c in self.cols:
            if c.pk:
                v = key if key is not None else self.key(False)
            elif c.nullable and r.random() < .3:
                v = None
            elif c.unique:
                v = self.fresh(c)
            else:
                v = c.values(r)
            if initial and c.lookup and v is not None:
                ids = self.prefill[self.lookups[c.name]]
                v = ("id", r.choice(ids)[0]) if ids else (None if c.nullable else ("id", 77))
            rec[c.name] = v
        # numbers that the database assigns are not known to the client
        assigned = self.pk.identity and (op == "insert" or self.d in ("mssql", "oracle")) and not initial
        if rec[self.pk.name] not in self.keys_used and not assigned:
            self.keys_used.append(rec[self.pk.name])
        return rec

    def stored_row(self, rec):
        return {c.name: (["i:%d" % rec[c.name][1]] if isinstance(rec[c.name], tuple) and rec[c.name][0] == "id" else c.expect(rec[c.name])) for c in self.cols}

    def spec_cell(self, c, v, as_list=None):
        if v is None:
            return dict(k="v", v=["N"])
        if c.lookup:
            if as_list:
                return dict(k="es", v=[x for x in v])
            return dict(k="e", v=[v.value if isinstance(v, enum.Enum) else v])
        return dict(k="v", v=c.expect(v))

    # meta ---------------------------------------------------------------
    def meta(self):
        tables = {self.table: dict(
            cols=[c.name for c in self.cols], notnull=[c.name for c in self.cols if not c.nullable], identity=self.pk.name if self.pk.identity else "~none",
            pk=[self.pk.name], uniques=[[c.name] for c in self.cols if c.unique], sets=[c.name for c in self.cols if c.is_set],
            kinds={c.name: c.kind for c in self.cols}, room={c.name: c.room for c in self.cols}, rows=[self.stored_row(x) for x in self.initial])}
        for t, rows in self.prefill.items():
            tables[t] = dict(cols=["id", "value"], notnull=["id", "value"], identity="id", pk=["id"], uniques=[["value"]], sets=[],
                             kinds=dict(id="int8" if self.d == "oracle" else "int4", value="text"),
                             room=dict(id=dict(n=0, s=0), value=dict(n=0, s=0)), rows=[dict(id=["i:%d" % i], value=["s:" + v]) for i, v in rows])
        return tables


def source(r, rows, entity):
    """The same records from another kind of source"""
    k = r.randrange(2 if entity else 4)
    if k == 0:
        return rows
    if k == 1:
        return (x for x in rows)
    if k == 2:
        return tuple(rows)

    async def agen():
        for x in rows:
            await asyncio.sleep(0)
            yield x
    return agen()


def entity(sc, rec):
    vals = dict(rec)
    if sc.pk.identity and vals[sc.pk.name] is None:
        vals[sc.pk.name] = DEFAULT
    return sc.cls(**vals)


def rowval(c, v, as_list):
    if v is None or as_list:
        return v
    return c.tordb(v) if c.tordb else v


def new_records(sc, op, n):
    """Records of one call.  Upserts keep unique values of rows they match where the statement also matches by those"""
    r, out = sc.r, []
    for _ in range(n):
        if op == "insert":
            if sc.pk.py is Mood and len(sc.keys_used) >= len(Mood):
                break
            out.append(sc.record(key=sc.key(False), op=op))
            if sc.pk.identity and not sc.pair and not any(c.unique for c in sc.cols):
                # records may be equal
                out += [dict(r.choice(out)) for _ in range(r.choice([0, 0, 0, 1, 2]))]
        else:
            k = sc.key()
            old = sc.current.get(k)
            rec = sc.record(key=k)
            if old is not None and sc.pk.identity:
                for c in sc.cols:
                    if c.unique:
                        rec[c.name] = old[c.name]
            out.append(rec)
        if out[-1][sc.pk.name] in sc.keys_used:
            sc.current[out[-1][sc.pk.name]] = out[-1]
    return out


async def call(sc, ctx, log, op, level, batch):
    r = sc.r
    n = r.choice([0, 1, 1, 2, 3, 5, 8])
    table = ctx.get_table(sc.cls)
    if op == "delete":
        ks = [sc.key(r.random() < .7) for _ in range(n)]
        for k in ks:
            sc.current.pop(k, None)
            if k in sc.keys_used:
                sc.keys_used.remove(k)
        step = dict(k="call", op="delete", table=sc.table, cols=[sc.pk.name], recs=[[dict(k="v", v=sc.pk.expect(k))] for k in ks], lookups={})
        src = source(r, ks, True)
        if level == "data":
            return step, lambda: ctx.delete_data(sc.cls, src)
        vals = source(r, [rowval(sc.pk, k, False) for k in ks], True)
        return step, lambda: ctx.delete_rows(table, sc.pk.row, vals)
    recs = new_records(sc, op, n)
    if level == "data":
        cols = [c for c in sc.cols if not (op == "insert" and c.identity)]
        step = dict(k="call", op=op, table=sc.table, cols=[c.name for c in cols],
                    recs=[[sc.spec_cell(c, x[c.name]) for c in cols] for x in recs], lookups=sc.lookups)
        objs = source(r, [entity(sc, dict(x, **({sc.pk.name: None} if sc.pk.identity and op == "insert" and r.random() < .5 else {}))) for x in recs], True)
        return step, lambda: (ctx.insert_data if op == "insert" else ctx.upsert_data)(sc.cls, objs)
    # rows: a selection of fields in some order, with omitted ones
    order = list(sc.cols)
    if r.random() < .6:
        r.shuffle(order)
    omit = set()
    for c in order:
        if c.nullable and r.random() < .25 or (c.identity and op == "insert" and r.random() < .5):
            omit.add(c.name)
    if all(c.name in omit or c.pk and c.identity for c in order):
        omit = set()
    as_list = {c.name: sc.prop == "C15" and bool(c.lookup) and c.nullable and getattr(c, "listy", None) for c in order}
    absent = {n for n in omit if r.random() < .4}
    # entries of a lookup table may be given by their identifiers as well
    ids = {}
    for c in order:
        t = sc.lookups.get(c.name)
        if t and not as_list[c.name] and not c.pk and not c.unique and sc.prefill.get(t) and r.random() < .2:
            choice = [i for i, _ in sc.prefill[t]] + [None] * c.nullable
            ids[c.name] = [r.choice(choice) for k in range(len(recs))]
    place = {id(x): k for k, x in enumerate(recs)}

    def cell_of(c, x):
        if c.name in ids:
            i = ids[c.name][place[id(x)]]
            return dict(k="v", v=["N"] if i is None else [tok(i)])
        return sc.spec_cell(c, x[c.name], as_list[c.name])
    entries = []                      # (name, type, function of record)
    for c in order:
        if c.name in absent:
            continue
        al = as_list[c.name]
        t = c.row if not al else al
        if c.name in ids:
            t = int

        def get(x, c=c, al=al):
            if c.name in ids:
                return ids[c.name][place[id(x)]]
            return rowval(c, x[c.name], al)
        if c.name in omit:
            if r.random() < .5:
                entries.append(("", t, get))
            else:
                entries.append((c.name, type(None), get))
        else:
            entries.append((c.name, t, get))
    if r.random() < .2:
        entries.insert(r.randrange(len(entries) + 1), ("", r.choice([str, type(None), int]), lambda x: r.choice(["junk", None, 5])))
    names = tuple(e[0] for e in entries)
    if [e[0] or "?" for e in entries] == [c.name for c in sc.cols] and r.random() < .8:
        names = None
    if op == "upsert" and sc.pk.name in omit:
        raise AssertionError
    step_cols = [c for c in sc.cols if c.name not in omit and not (op == "insert" and c.identity)]
    for c in sc.cols:
        if c.name in omit:
            for x in recs:
                pass
    step = dict(k="call", op=op, table=sc.table, cols=[c.name for c in step_cols],
                recs=[[cell_of(c, x) for c in step_cols] for x in recs],
                lookups={c: t for c, t in sc.lookups.items() if c not in omit and c not in ids})
    rows = [tuple(e[2](x) for e in entries) for x in recs]
    src = source(r, rows, False)
    f = ctx.insert_rows if op == "insert" else ctx.upsert_rows
    kw = dict(field_types=tuple(e[1] for e in entries))
    if names is not None:
        kw["field_names"] = names
    return step, lambda: f(table, src, **kw)


OPS = {"C11": ["insert"] * 4 + ["delete"], "C12": ["upsert"] * 5 + ["insert", "delete"], "C13": ["delete"] * 4 + ["insert"], "C15": ["insert", "upsert", "upsert"]}


def sized(x):
    return hasattr(x, "__len__")


def record_trace(sc, ncalls):
    """Runs calls of the real client; returns the trace"""
    store = Store(sc.d, sc.prefill)
    calls = []
    sc.current = {x[sc.pk.name]: x for x in sc.initial}
    r = sc.r

    async def body(ctx, conn):
        await ctx.create_objects(sc.entities)
        if sc.pair:
            ctx.get_table(sc.cls).constraints.add(UniqueConstraint(LocalId("uq_pair"), tuple(LocalId(n) for n in sc.pair)))
        store.log.clear()
        store.answers.clear()
        for _ in range(ncalls):
            op, level = r.choice(OPS[sc.prop] if sc.d != "redshift" else ["insert"]), r.choice(["data", "rows"])
            if sc.prop == "C15" and any(getattr(c, "listy", None) for c in sc.cols):
                level = "rows"
            base.BATCH_SIZE = r.choice([1, 2, 3, 100000])
            step, go = await call(sc, ctx, store.log, op, level, None)
            step["level"] = level
            store.log.append(("step", step))
            err = ""
            try:
                await go()
            except Exception as e:
                if not raised_in_repo(e):
                    raise
                c = e
                while c.__cause__ is not None:
                    c = c.__cause__
                err = describe(c)
            store.log.append(("step", dict(k="ret", err=err)))
            if err:
                return
    size = base.BATCH_SIZE
    try:
        drivers.session(sc.d, store, body, options=sc.options)
    finally:
        base.BATCH_SIZE = size
    return render(sc, store.log, list(store.answers), store.sql_mode)


def render(sc, log, answers, sql_mode):
    kind = {sc.table: sc.by}
    steps, pending = [], False

    # MySQL assigns a number in place of 0, unless the session asks it not to
    zero = sc.d == "mysql" and sc.pk.identity and "NO_AUTO_VALUE_ON_ZERO" not in sql_mode

    def cells(t, names, row):
        by = kind.get(t, {})
        return ([["N"] if zero and v == 0 and t == sc.table and n == sc.pk.name else cell(v, by[n].kind if n in by else "", n in by and by[n].is_set)
                 for n, v in zip(names, row)] + [cell(v) for v in row[len(names):]])
    for e in log:
        if e[0] == "step":
            steps.append(e[1])
        elif e[0] == "executemany":
            st = dml.parse(sc.d, e[1])
            names = []
            if st["op"] in ("insert", "merge"):
                where = {p: c for c, p in zip(st["cols"], st["pars"])}
                names = [where.get(i + 1, "") for i in range(len(e[2][0]) if e[2] else 0)]
            elif st["op"] == "delete":
                names = [st["key"]]
            steps.append(dict(k="exec", st=st, rows=[cells(st["table"], names, x) for x in e[2]], sizes=families(e[3])))
        elif e[0] == "copy":
            if sc.d == "redshift":
                steps.append(text_copy(sc, e[2], e[4][0][0]))
                continue
            t = "%s.%s" % (e[1], e[2]) if e[1] else e[2]
            names = list(e[3]) if e[3] is not None else [c.name for c in sc.cols]
            steps.append(dict(k="copy", table=t, cols=names, rows=[cells(t, names, x) for x in e[4]]))
        elif e[0] == "query":
            q = dml.parse_query(sc.d, e[1])
            steps.append(dict(k="query", st=q, rows=[cells("", q.get("cols", []), x) for x in answers.pop(0)]))
        elif e[0] == "execute":
            steps.append(dict(k="exec", st=dict(op="unknown", why=" ".join(e[1].split())[:200], nparams=0, table=""), rows=[], sizes=[]))
        elif e[0] in ("open", "commit"):
            if (e[0] == "open") != pending:
                pending = not pending
                steps.append(dict(k=e[0]))
        elif e[0] == "close":
            pass
    return dict(dialect=sc.d, tables=sc.meta(), steps=steps)


def text_copy(sc, sql, data):
    """Records as lines of text, with a bar between the fields"""
    m = re.fullmatch(r'COPY ((?:"[^"]+"\.)?"[^"]+") \(("[^"]+"(?:, "[^"]+")*)\) FROM STDIN;?', sql.strip())
    if not m:
        return dict(k="exec", st=dict(op="unknown", why=sql[:200], nparams=0, table=""), rows=[], sizes=[])
    names = [n.strip('"') for n in m.group(2).split(", ")]
    of = {"bool": lambda v: {"True": True, "False": False}[v], "float": float, "text": str, "dec": decimal.Decimal, "date": datetime.date.fromisoformat}
    rows = []
    lines = data.decode("utf-8").split("\n")
    for line in lines[:-1] if lines[-1] == "" else lines:
        row = []
        for i, v in enumerate(line.split("|")):
            c = sc.by.get(names[i]) if i < len(names) else None
            try:
                row.append(cell(of.get(c.kind, int)(v), c.kind, False))
            except (AttributeError, KeyError, ValueError, ArithmeticError):
                row.append(["s:" + v])
        rows.append(row)
    return dict(k="copy", table=m.group(1).replace('"', ""), cols=names, rows=rows)


def lists(sc):
    """Turns some nullable lookup columns into ones that are supplied lists or sets of strings"""
    for c in sc.cols:
        if c.lookup and c.nullable and sc.r.random() < .6:
            c.listy = sc.r.choice([list, set])
            c.is_set = c.listy is set
            kind = c.listy
            c.values = lambda r, kind=kind: kind(r.choice(["happy", "it's", "red", "x %d" % r.randrange(4)]) for _ in range(r.randrange(4)))
            for x in sc.initial:
                x[c.name] = None


def main(prop):
    ck = Check(prop, "model_checking")
    ck.assumptions += ["engines follow the rules written in spec/Data.tla (keys, NOT NULL, identity, ON CONFLICT, ON DUPLICATE KEY, MERGE)",
                       "drivers pass parameters on as they are; stand-ins record what they are handed"]
    n = pick({"C11": 220, "C12": 220, "C13": 150, "C15": 220}[prop], 4000)
    items = []
    for d in drivers.DIALECTS + (("redshift",) if prop == "C11" else ()):
        r = rng(prop, d)
        for i in range(n if d != "redshift" else n // 2):
            sc = Scenario(d, r, prop)
            if prop == "C15" and r.random() < .4:
                lists(sc)
            t = record_trace(sc, r.randrange(1, 5))
            key = (d, sc.mode, tuple((c.kind, c.nullable, c.unique, c.identity, c.lookup) for c in sc.cols), len(t["steps"]))
            items.append((d, t, key))
    judge(ck, items)
    return ck


def judge(ck, items):
    CH = 1500
    for k in range(0, len(items), CH):
        part = items[k:k + CH]
        verdicts, res = tlc.check_traces("Data", [i[1] for i in part])
        ck.tlc(res)
        for (d, t, key), (verdict, step) in zip(part, verdicts):
            if verdict == "skipped":
                continue
            ck.add("traces_validated_against_impl")
            ck.evaluated(key)
            if verdict.startswith("harness:"):
                raise tlc.MachineryError("%s at step %d of %s" % (verdict, step, json.dumps(t)[:3000]))
            if verdict == "ok":
                ck.sample(dict(dialect=d, steps=t["steps"][:2]))
                continue
            ck.violation("%s: %s" % (d, verdict), dict(step=step, trace=t))
