"""C22: schemas become entity classes, and these become schemas and source code.  Random worlds of classes provide the schemas; the classes
made of them, and the ones defined by generated source code, are judged by spec/RoundTrip.tla."""
import copy, dataclasses, decimal, enum, keyword, re, sys, types, typing
from report import Check, describe
from env import rng, pick
import tlc
from gen import PROFILE
from mapping import BASIC, LISTED, ONLY, World
from sqlparse import Bad, LexError, parse_script
from pysqlsync.formation.sql_to_py import SqlConverter, SqlConverterOptions
from pysqlsync.python_types import module_to_code
from pysqlsync.formation.object_dict import ObjectDict
from pysqlsync.formation.object_types import Column, Constraint, ConstraintReference, DiscriminatedConstraint, Table, UniqueConstraint
from pysqlsync.model.data_types import SqlBooleanType
from pysqlsync.model.id_types import LocalId, PrefixedId, QualifiedId

DIALECTS = ("postgresql", "mysql", "mssql", "oracle")
# columns that no class is made of, each in few worlds only, as they make the whole schema inexpressible
NEVER = ("ipv4", "ipv6", "ip", "interval", "bytes")
REFUSED = {"postgresql": NEVER, "mysql": NEVER + ("uuid",), "mssql": NEVER + ("uuid",), "oracle": NEVER + ("uuid",)}

NOTES = ["a path such as C:\\new\\table and \\'", 'three quotes: """ in the middle, and "at the end"', "It's 'quoted'",
         "a text that is longer than a line of source code, and that has some_very_long_word_that_does_not_fit_" + "x" * 150 + " as well as some-hyphenated-words-" + "and-" * 30 + "more"]


# names of columns and tables that are keywords of Python, where those of fields and classes have an underscore at the end, and similar ones
COLUMNS = ["class_", "from_", "lambda_", "None_", "Class", "type", "match", "case", "true", "import_x", "class__", "_", "end_"]
TABLES = [["None_", "class_", "Import"], ["False_", "from_", "Type_"], ["True_", "def_", "match"]]


class Source(World):
    def __init__(self, d, r, n):
        super().__init__(d, r, n)
        self.fk, self.init, self.auto, self.impossible, self.shared = True, False, False, False, False
        self.marks = False
        self.enum, self.struct, self.array = ("TYPE", "TYPE", "ARRAY") if d == "postgresql" else ("RELATION", "JSON", "JSON")
        self.asked = [self.enum, self.struct, self.array]
        refuse = r.random() < .15

        def fits(t):
            return (refuse or t["k"] not in REFUSED[d]) and not t.get("lo") and t["k"] != "literal"
        self.basic = [p for p in BASIC + (ONLY.get(d, []) if refuse else []) if fits(p[1])]
        self.simple = [p for p in LISTED if fits(p[1])]
        self.refuse = refuse
        self.descs, self.docs = self.descs + NOTES, self.docs + NOTES
        self.wide, self.used = n % 8 == 0, []

    def field_name(self, mi, low, i):
        if self.r.random() < .2:
            free = [n for n in COLUMNS if (mi, n) not in self.used]
            if free:
                self.used.append((mi, self.r.choice(free)))
                return self.used[-1][1]
        return super().field_name(mi, low, i)

    def class_names(self, mi, names):
        return names[:2] + self.r.sample(TABLES[mi], 2) if self.r.random() < .3 else names

    def default(self, typ, t):
        if t["k"] == "decimal" and self.r.random() < .5:
            return decimal.Decimal("0.1"), "0.1"
        return super().default(typ, t)

    def new_enum(self, mi, name):
        if self.d == "postgresql":
            k = super().new_enum(mi, "PQR"[mi] + name)
            for e in self.py[k]:
                if self.r.random() < .2:
                    e.__doc__ = self.r.choice(["A member", "A 'quoted' member", "Two\nlines \"here\""])
            return k

    def new_class(self, mi, name, entity):
        if entity or self.d == "postgresql":
            return super().new_class(mi, name if entity else "PQR"[mi] + name, entity)

    def listed(self, mi, entity, enums, structs, entities):
        if self.d != "postgresql":
            return self.r.choice(self.basic)
        while True:
            p, t = super().listed(mi, False, enums, structs, [])
            if t["k"] != "set":
                return p, t

    def field_type(self, mi, entity):
        while True:
            p, t = super().field_type(mi, entity)
            if t["k"] != "xenum" and (self.refuse or t["k"] not in REFUSED[self.d]):
                return p, t


def kinds(t):
    return {t["k"]} | (kinds(t["e"]) if "e" in t else set())


def show(cls, module):
    """A class as a record: its fields with evaluated types, their defaults, and its description"""
    if issubclass(cls, enum.Enum):
        return dict(name=cls.__name__, doc=cls.__doc__ or "", fields=[dict(name=e.name, type="" if e.__doc__ == cls.__doc__ else e.__doc__ or "", default=repr(e.value)) for e in cls])
    hints = typing.get_type_hints(cls, globalns=module.__dict__, include_extras=True)

    def text(t):
        return repr(t).replace(module.__name__ + ".", "")
    doc = cls.__doc__ or ""
    return dict(name=cls.__name__, doc="" if doc.startswith(cls.__name__ + "(") else "\n\n".join(" ".join(p.split()) for p in re.split(r"\n\s*\n", doc.strip())),
                fields=[dict(name=f.name, type=text(hints[f.name]), default="-" if f.default is dataclasses.MISSING else repr(f.default)) for f in dataclasses.fields(cls)])


def links(state):
    """Columns that refer to a row of one of several tables, which the database is not told about"""
    return sorted([t.name.compact_id, [c.local_id for c in k.foreign_columns], sorted([x.table.compact_id] + [c.local_id for c in x.columns] for x in k.references)]
                  for ns in state.namespaces.values() for t in ns.tables.values() for k in t.constraints.values() if isinstance(k, DiscriminatedConstraint))


def altered(w, state):
    """The schema as it may be found in a database: with what no class can express but must not be taken for something else"""
    r = w.r
    for ns in state.namespaces.values():
        for t in ns.tables.values():
            columns = [c for c in t.columns.values() if not t.is_primary_column(c.name)]
            if len(columns) > 1 and r.random() < .5:
                # uniqueness of columns taken together
                t.constraints.add(UniqueConstraint(LocalId("uq_together_" + t.name.local_id), tuple(c.name for c in r.sample(columns, 2))))
            for c in columns:
                if isinstance(c.data_type, SqlBooleanType) and c.default in ("TRUE", "FALSE") and r.random() < .5:
                    c.default = str(int(c.default == "TRUE")) if w.d in ("mysql", "mssql") else c.default.lower()


def plain(name):
    return name[:-1] if name.endswith("_") and keyword.iskeyword(name[:-1]) else name


def renamed(x):
    """A part of a schema in which no name avoids the keywords of Python"""
    if isinstance(x, (list, tuple)):
        return type(x)(renamed(y) for y in x)
    if isinstance(x, ObjectDict):
        return ObjectDict(renamed(y) for y in x.values())
    if isinstance(x, LocalId):
        return LocalId(plain(x.id))
    if isinstance(x, (QualifiedId, PrefixedId)):
        return x.rename(plain(x.id)) if plain(x.local_id) != x.local_id else x
    if isinstance(x, (Table, Column, Constraint, ConstraintReference)):
        y = copy.copy(x)
        for k, v in vars(x).items():
            setattr(y, k, renamed(v))
        return y
    return x


def observe(w):
    d = w.d
    g = w.generator()
    w.how, w.given = "modules", list(w.modules)
    first = g.create(modules=w.given)
    trace = dict(P=PROFILE[d], kinds=sorted(set().union(*(kinds(f["t"]) for c in w.classes.values() if c["kind"] == "entity" and not c.get("abstract") for f in c["fields"]))),
                 schema=parse_script(d, first or ""), error="", again=[], links=[links(g.state), []], classes=[], source=[])
    info = dict(dialect=d, schema=first)
    target = {}
    made = []
    altered(w, g.state)
    try:
        for i, ns in enumerate(g.state.namespaces.values()):
            name = ("verif_made_%d_%d.tables" if w.n % 3 == 0 else "verif_made_%d_%d") % (w.n, i)
            target[ns.name.local_id or None] = sys.modules[name] = types.ModuleType(name)
        for k, c in w.classes.items():
            if c["kind"] in ("enum", "struct") and (c["ns"] or None) in target:
                # these classes are given; only tables are converted
                m = target[c["ns"] or None]
                w.py[k].__module__ = m.__name__
                setattr(m, c["name"], w.py[k])
        converter = SqlConverter(SqlConverterOptions(dict(target)))
        try:
            for ns in g.state.namespaces.values():
                for table in ns.tables.values():
                    table = renamed(table)
                    if w.n % 4 == 0:
                        # a class made of the table earlier on
                        m = target[ns.name.local_id or None]
                        old = next((c["name"] for c in w.classes.values() if table.name.local_id in (plain(c["name"]),)), None)
                        if old:
                            setattr(m, old, dataclasses.make_dataclass(old, [("old", int)], namespace=dict(__module__=m.__name__)))
                    made.append((converter.table_to_dataclass(table), sys.modules[target[ns.name.local_id or None].__name__]))
        except Exception as e:
            trace["error"] = describe(e)
            return trace, info
        made += [(w.py[k], sys.modules[w.py[k].__module__]) for k, c in w.classes.items() if c["kind"] in ("enum", "struct") and (c["ns"] or None) in target]
        w.mapping = {m: s for s, m in target.items()}
        try:
            g = w.generator()
            again = g.create(modules=list(target.values()))
            trace["links"][1] = links(g.state)
        except Exception as e:
            again = None
            trace["error"] = "the classes are not mapped: " + describe(e)
            return trace, info
        info["again"] = again
        trace["again"] = parse_script(d, again or "")
        made.sort(key=lambda p: p[0].__name__)
        trace["classes"] = [show(c, m) for c, m in made]
        foreign = {c.__name__: c for c in [w.py[k] for k in w.classes if w.classes[k]["kind"] != "entity"] + [c for c, m in made]}
        try:
            source = {}
            for m in target.values():
                code = module_to_code(m)
                info["code"] = code
                copy = types.ModuleType(m.__name__)
                # as an import of the other modules; what this module declares is only there if its code says so
                copy.__dict__.update({k: c for k, c in foreign.items() if c.__module__ != m.__name__})
                sys.modules[m.__name__] = copy
                exec(code, copy.__dict__)
                source[m] = copy
            trace["source"] = [show(source[m].__dict__[c.__name__], source[m]) for c, m in made]
        except Exception as e:
            trace["source"] = [dict(name="error", doc=describe(e), fields=[])]
        return trace, info
    finally:
        for m in target.values():
            sys.modules.pop(m.__name__, None)


def main(prop):
    ck = Check(prop, "model_checking")
    traces, infos = [], []
    n = 500000
    for d in DIALECTS:
        r = rng("c22", d)
        for i in range(pick(150, 3000)):
            n += 1
            w = Source(d, r, n)
            try:
                w.build()
                t, info = observe(w)
                traces.append(t)
                infos.append(info)
            except (Bad, LexError) as e:
                ck.violation("the script is not understood: %s" % describe(e), dict(dialect=d))
            finally:
                w.close()
    verdicts, res = tlc.check_traces("RoundTrip", traces)
    ck.tlc(res)
    for (v, step), t, info in zip(verdicts, traces, infos):
        ck.evaluated((info["dialect"], info["schema"]))
        if v:
            ck.violation("%s: %s" % (info["dialect"], v), dict(info, error=t["error"], step=step))
    ck.add("traces_validated_against_impl", len(traces))
    ck.sample(infos[0])
    ck.assumptions = ["no check constraints, lookup tables or join tables; structures, enumerations and arrays only on PostgreSQL, their classes being given"]
    return ck
