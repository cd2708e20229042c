"""C21: quoting.  Statements are generated by the real code for names and texts made of characters that are special to SQL, and for
plain names; spec/Lex.tla reads both, character by character, with the lexical rules of the dialect."""
import dataclasses, enum, itertools, re, sys, types
from typing import Optional
from report import Check, describe
from env import rng, pick
import tlc, drivers, gen
from drivers import Server, session, DIALECTS
from gen import obj_id, generator, QUALIFIED
from pysqlsync import factory
from pysqlsync.base import GeneratorOptions
from pysqlsync.formation import object_types as ot
from pysqlsync.formation.py_to_sql import EnumMode
from pysqlsync.model import data_types as dt
from pysqlsync.model.id_types import LocalId
from pysqlsync.model.key_types import PrimaryKey
from pysqlsync.dialect.mysql.data_types import MySQLVariableCharacterType

ALPHABET = ["'", '"', ";", "-", "/", "*", "\\", "\n", "\r", "\t", "`", "[", "]", "$", "#", " ", "%", "~", "_", "\u00e9", "(", ")", ",", "?", ":", "@"]
CORE = ["'", '"', ";", "-", "/", "*", "\\", "\n", "`", "]", "$", "#", " ", "_"]
FIXED = ["';--", "'); DROP TABLE x; --", '"; --', "/*", "*/", "--\n", "\\'", "\\", "''", '""', "'/*'", "$$;$$", "\\\\'", "';\n", '"\n;', "\\\n'", "it's", "a;b", "E'", "-- x", "%s", "_%~", "N'", "'\\"]
SLOT = re.compile("[\ue000-\uefff]")


class Slots:
    """Names the texts of one statement list: plain (markers) or special"""

    def __init__(self, dialect, texts, plain):
        self.dialect, self.texts, self.plain = dialect, texts, plain
        self.n, self.denoted = 0, {}

    def _get(self, adjust, denote=lambda s: s):
        i = self.n
        self.n += 1
        s = adjust(self.texts[i % len(self.texts)])
        self.denoted["S:%d" % i] = denote(s)
        return chr(0xE000 + i) if self.plain else s

    def id(self):
        i = self.n
        # names are distinct and not empty; there is no double quote in a name in Oracle
        return self._get(lambda s: (s.replace('"', "\u00e8") if self.dialect == "oracle" else s) + "\u00ea" * (i // len(self.texts) + 1))

    def name(self):
        "An identifier that is also looked up by its text"
        i = self.n
        return self._get(lambda s: (s.replace('"', "\u00e8") if self.dialect == "oracle" else s.replace("\\", "\u00e8") if self.dialect == "mysql" else s)
                         + "\u00ea" * (i // len(self.texts) + 1))

    def value(self):
        "Values of an enumeration type"
        i = self.n
        return self._get(lambda s: s + "\u00ea" * (i // len(self.texts)))

    def text(self):
        "Values in a lookup table, defaults: in MySQL, a backslash is a finding of its own"
        i = self.n
        return self._get(lambda s: (s.replace("\\", "\u00e8") if self.dialect == "mysql" and not getattr(self, "backslash", False) else s) + "\u00ea" * (i // len(self.texts)))

    def comment(self):
        if self.dialect == "mysql":    # the first line
            return self._get(lambda s: "\u00eb" + s, lambda s: s.split("\n")[0])
        return self._get(lambda s: s)


def integer(d):
    return dt.SqlIntegerType(4)


def varchar(d):
    if d == "mysql":
        return MySQLVariableCharacterType(80)
    return dt.SqlVariableCharacterType(80)


def two_catalogs(d, S):
    f = generator(d).factory
    ns = S.name()

    def tab(name, cols, pk, cons=None, desc=None, values=None):
        kw = dict(name=obj_id(d, ns, name), columns=cols, primary_key=(LocalId(pk),), constraints=cons, description=desc)
        return f.enum_table_class(values=values, **kw) if values else f.table_class(**kw)

    def col(name, typ=None, default=None, nullable=True, desc=None):
        return f.column_class(LocalId(name), typ or varchar(d), nullable, default=default, description=desc)
    a, b, c, x, k1, k2, c1, c2, c3, c4 = [S.id() for _ in range(10)]
    u1, u2, f1, ch, q = [S.id() for _ in range(5)]
    lk, e1 = S.id(), S.id()
    dflt = [dt.constant(S.text()) for _ in range(3)]
    com = [S.comment() for _ in range(6)]
    vals = [S.value() for _ in range(3)] + [S.text() for _ in range(2)]
    enums1, enums2, structs1, structs2 = [], [], [], []
    extra1, extra2 = [], []
    if d == "postgresql":
        s1, m1, m2 = S.id(), S.id(), S.id()
        scom = [S.comment() for _ in range(4)]
        old = S.id()
        enums1 = [ot.EnumType(obj_id(d, ns, e1), vals[:2]), ot.EnumType(obj_id(d, ns, old), vals[2:4])]
        enums2 = [ot.EnumType(obj_id(d, ns, e1), vals[:3])]
        structs1 = [f.struct_class(obj_id(d, ns, s1), [ot.StructMember(LocalId(m1), integer(d), scom[0])], scom[1])]
        structs2 = [f.struct_class(obj_id(d, ns, s1), [ot.StructMember(LocalId(m1), integer(d), scom[2]), ot.StructMember(LocalId(m2), integer(d), None)], scom[3])]
        enum_type = dt.SqlUserDefinedType(obj_id(d, ns, e1))
        extra1 = [col(c4, dt.SqlUserDefinedType(obj_id(d, ns, old)))]
    elif d in ("mysql", "oracle"):
        enum_type = dt.SqlEnumType(vals[:2]) if d == "mysql" else None
        extra1 = [col(c4, dt.SqlEnumType(vals[2:4]))] if d == "mysql" else []
    else:
        enum_type = None
    lookup = tab(lk, [f.column_class(LocalId("id"), integer(d), False, identity=True), f.column_class(LocalId("value"), varchar(d), False)], "id",
                 [ot.UniqueConstraint(LocalId(q), (LocalId("value"),))], values=vals[3:5])
    lookup2 = tab(lk, [f.column_class(LocalId("id"), integer(d), False, identity=True), f.column_class(LocalId("value"), varchar(d), False)], "id",
                  [ot.UniqueConstraint(LocalId(q), (LocalId("value"),))], values=vals[3:5])
    fk = S.id()
    if extra1:
        extra2 = [col(c4, integer(d))]
    v1 = f.namespace_class(LocalId(ns if d in QUALIFIED else ""), enums=enums1, structs=structs1, tables=[
        tab(a, [col(k1, integer(d), nullable=False), col(c1, default=dflt[0], desc=com[0]), col(c2, desc=com[1])]
            + ([col(c3, enum_type)] if enum_type else []), k1, [ot.UniqueConstraint(LocalId(u1), (LocalId(c1),))], com[2]),
        tab(b, [col(k2, integer(d), nullable=False)] + extra1 + [col(c3, integer(d), desc=com[3])], k2,
            [ot.ForeignConstraint(LocalId(f1), (LocalId(c3),), ot.ConstraintReference(obj_id(d, ns, a), (LocalId(k1),)))]),
        tab(x, [col(k1, integer(d), nullable=False)], k1)])
    v2 = f.namespace_class(LocalId(ns if d in QUALIFIED else ""), enums=enums2, structs=structs2, tables=[
        lookup2 if extra1 else lookup,
        tab(a, [col(k1, integer(d), nullable=False), col(c1, default=dflt[1], desc=com[4])]
            + ([col(c3, enum_type)] if enum_type else []) + [col(c4, default=dflt[2])], k1, [ot.UniqueConstraint(LocalId(u2), (LocalId(c1),))], com[5]),
        tab(b, [col(k2, integer(d), nullable=False)] + extra2 + [col(c3, integer(d))], k2,
            [ot.ForeignConstraint(LocalId(fk), (LocalId(c4),), ot.ConstraintReference(obj_id(d, ns, lk), (LocalId("id"),)))] if extra1 else None),
        tab(c, [col(k1, integer(d), nullable=False)], k1)])
    return ot.Catalog([v1]), ot.Catalog([v2]), v1.tables[obj_id(d, ns, a).local_id]


def migration(d, S):
    out = []

    def step(label, source, target):
        g = generator(d)
        g.state = source
        out.append((label, g.get_mutate_stmt(target) or ""))
    v1, v2, a = two_catalogs(d, S)
    step("create", ot.Catalog([]), v1)
    out.append(("text of a catalog", str(v1)))
    step("alter", v1, v2)
    n = S.n
    step("drop", v2, ot.Catalog([]))
    g = generator(d)
    for label, stmt in (("insert", g.get_table_insert_stmt(a)), ("upsert", g.get_table_upsert_stmt(a)), ("merge", g.get_table_merge_stmt(a)),
                        ("delete", g.get_table_delete_stmt(a))):
        out.append((label, stmt))
    for t in v2.namespaces.values():
        for x in t.tables.values():
            out.append(("drop table if exists", x.drop_if_exists_stmt()))
    return out


MODES = {"postgresql": [EnumMode.TYPE, EnumMode.CHECK, EnumMode.RELATION], "mysql": [EnumMode.INLINE, EnumMode.RELATION, EnumMode.CHECK],
         "mssql": [EnumMode.CHECK, EnumMode.RELATION], "oracle": [EnumMode.CHECK, EnumMode.RELATION]}


def classes(d, S, mode):
    values = [S.text() for _ in range(2)]
    default = S.text()
    e = enum.Enum("Choice", {"V%d" % i: v for i, v in enumerate(values)})
    e.__module__ = __name__
    cls = dataclasses.make_dataclass("Sample", [("id", PrimaryKey[int]), ("choice", e), ("other", Optional[e]),
                                                ("text", str, dataclasses.field(default=default))], namespace={"__module__": __name__})
    this = sys.modules[__name__]
    this.Choice, this.Sample = e, cls
    engine = factory.get_dialect(d)
    g = engine.create_generator(GeneratorOptions(enum_mode=mode, namespaces={this: None}))
    return [("classes, enumerations as %s" % mode.name, g.create(tables=[cls]) or "")]


class Catalogue(Server):
    def __init__(self, tables):
        super().__init__()
        self.tables = tables

    def on_query(self, sql):
        if "COUNT" in sql.upper():
            return ("n",), [(1,)]
        if self.tables and re.match(r"\s*SELECT table_name, constraint_name", sql, re.I):
            return ("table_name", "constraint_name"), [(self.tables[0], self.tables[1])]
        if self.tables and re.match(r"\s*SELECT table_name\b", sql, re.I):
            return ("table_name",), [(t,) for t in self.tables]
        return ("n",), []


def queries(d, S):
    ns, t, c, x, y = S.name(), S.name(), S.name(), S.id(), S.id()
    out = []

    def record(label, call, tables=()):
        server = Catalogue(list(tables))

        async def body(ctx, conn):
            try:
                await call(ctx, conn)
            except Exception:
                pass
        session(d, server, body)
        sqls = [e[1] for e in server.log if e[0] in ("query", "execute")]
        out.append((label, "\n;\n".join(s for s in sqls if "@@VERSION" not in s)))
    qid = obj_id(d, ns, t)
    engine = factory.get_dialect(d)

    def explorer(ctx):
        return engine.create_explorer(ctx)
    record("drop schema", lambda ctx, conn: ctx.drop_schema(LocalId(ns)), (x, y))
    record("has table", lambda ctx, conn: explorer(ctx).has_table(qid))
    record("has column", lambda ctx, conn: explorer(ctx).has_column(qid, LocalId(c)))
    record("get table", lambda ctx, conn: explorer(ctx).get_table(qid))
    record("get namespace", lambda ctx, conn: explorer(ctx).get_namespace(LocalId(ns)))
    if d == "postgresql":
        record("get struct", lambda ctx, conn: explorer(ctx).get_struct(qid))
    else:
        for m in ("get_columns", "get_table_primary_key", "get_unique_constraints", "get_referential_constraints", "get_table_description"):
            if hasattr(factory.get_dialect(d).get_explorer_type(), m):
                record(m, lambda ctx, conn: getattr(explorer(ctx), m)(qid))
    return out


def symbols(s, plain):
    s = re.sub(r"CHARACTER SET (?:ascii|utf8mb4) COLLATE (?:ascii|utf8mb4)_bin", "CHARACTER SET c", s)       # depends on the text, rightly
    out, i = [], 0
    while i < len(s):
        ch = s[i]
        if plain and SLOT.match(ch):
            out.append("S:%d" % (ord(ch) - 0xE000))
        elif ch == "\b":
            out.append("<bs>")
        elif re.match(r"[A-Za-z0-9_]", ch) and not (i and s[i - 1] == "\\"):
            m = re.compile(r"[A-Za-z0-9_]+").match(s, i)
            out.append(m.group())
            i = m.end()
            continue
        else:
            out.append(ch)
        i += 1
    return out


def pairs(d, texts, make, **kw):
    """(label, plain statement, special statement, what the slots denote)"""
    hs, ps = Slots(d, texts, False), Slots(d, texts, True)
    for k, v in kw.items():
        setattr(hs, k, v)
        setattr(ps, k, v)
    special, plain = make(d, hs), make(d, ps)
    assert [x[0] for x in special] == [x[0] for x in plain]
    for (label, h), (_, p) in zip(special, plain):
        yield dict(dialect=d, label=label, plain=p, hostile=h, slots=hs.denoted)


def trace(case):
    return dict(dialect=case["dialect"], plain=symbols(case["plain"], True), hostile=symbols(case["hostile"], False),
                slots={k: [c if c != "\b" else "<bs>" for c in v] for k, v in case["slots"].items()})


def backslashes():
    "MySQL: texts in which a backslash is not escaped, one statement for each position (known findings)"
    f = generator("mysql").factory

    def lookup(v):
        return f.enum_table_class(values=["x", v], name=obj_id("mysql", None, "t"), columns=[
            f.column_class(LocalId("id"), dt.SqlIntegerType(4), False, identity=True), f.column_class(LocalId("value"), varchar("mysql"), False)],
            primary_key=(LocalId("id"),), constraints=None, description=None).create_stmt()

    def default(v):
        return str(f.column_class(LocalId("c"), varchar("mysql"), False, default=dt.constant(v)))

    def table_name(v):
        async def body(ctx, conn):
            await factory.get_dialect("mysql").create_explorer(ctx).has_table(obj_id("mysql", None, v))
        server = Catalogue([])
        session("mysql", server, body)
        return "\n;\n".join(e[1] for e in server.log if e[0] in ("query", "execute") and v in e[1])
    yield "default value", default
    yield "lookup value", lookup
    yield "table name in a catalog query", table_name


def main(prop):
    ck = Check(prop, "model_checking")
    r = rng("C21")
    texts = ["".join(t) for n in (1, 2) for t in itertools.product(CORE, repeat=n)] + FIXED
    texts += ["".join(r.choice(ALPHABET) for _ in range(r.randint(3, 7))) for _ in range(pick(60, 1500))]
    if pick(False, True):
        texts += ["".join(t) for t in itertools.product(CORE, repeat=3)]
    texts = list(dict.fromkeys(texts))
    r.shuffle(texts)
    cases = []
    for d in DIALECTS:
        for make, width in [(migration, 60), (queries, 5)] + [(lambda d, S, mode=m: classes(d, S, mode), 3) for m in MODES[d]]:
            group = pick(24, 18) if make is migration else width
            rounds = list(texts)
            for k in range(pick(3, 3) if make is migration else 1):
                r.shuffle(rounds)
                for i in range(0, len(rounds) - group, group):
                    try:
                        cases.extend(pairs(d, rounds[i:i + group], make))
                    except AssertionError:
                        raise
                    except Exception as e:
                        ck.violation("%s: generating statements fails: %s" % (d, describe(e)), dict(texts=rounds[i:i + group]))
    # identical statements are judged once
    seen, todo = set(), []
    for c in cases:
        key = (c["dialect"], c["hostile"])
        if c["hostile"] and key not in seen:
            seen.add(key)
            todo.append(c)
    scenario = []
    for v in ("\\", "a\\'", "\\n"):
        for name, fn in backslashes():
            scenario.append((len(todo), "mysql backslash in %s" % name))
            todo.append(dict(dialect="mysql", label=name, plain=fn("\ue000"), hostile=fn(v), slots={"S:0": v}))
    named = dict(scenario)
    verdicts, res = tlc.check_traces("Lex", [trace(c) for c in todo])
    ck.tlc(res)
    for i, ((v, step), c) in enumerate(zip(verdicts, todo)):
        if v.startswith("machinery"):
            raise tlc.MachineryError("%s: %s: %s" % (v, c["label"], c["plain"]))
        ck.evaluated(c["hostile"])
        if v != "OK":
            ck.violation(v if i in named else "%s, %s: %s" % (c["dialect"], c["label"], v), c, scenario=named.get(i))
    ck.add("traces_validated_against_impl", len(todo))
    ck.sample(dict(todo[len(todo) // 2], slots=None))
    ck.assumptions = ["lexical rules of spec/Lex.tla: standard_conforming_strings (PostgreSQL), ANSI_QUOTES without NO_BACKSLASH_ESCAPES (MySQL), QUOTED_IDENTIFIER ON (SQL Server)",
                      "a name in Oracle has no double quote; a description in MySQL is stored up to the end of its first line"]
    return ck
