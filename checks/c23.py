"""C23: merging schemas.  spec/Merge.tla enumerates histories of merges and changes with the schemas after each step; each is replayed
with real catalogs whose objects have two definitions that differ in a single attribute."""
import copy, itertools
from report import Check, describe
from env import rng, pick
import tlc
from pysqlsync.formation import object_types as ot
from pysqlsync.model import data_types as dt
from pysqlsync.model.id_types import LocalId, QualifiedId, PrefixedId
from pysqlsync.dialect.mysql.object_types import MySQLObjectFactory
from pysqlsync.dialect.postgresql.object_types import PostgreSQLObjectFactory
from pysqlsync.dialect.mssql.object_types import MSSQLObjectFactory
from pysqlsync.dialect.oracle.object_types import OracleObjectFactory

INT, TXT = dt.SqlIntegerType, dt.SqlVariableCharacterType
FACTORIES = dict(base=ot.ObjectFactory(), postgresql=PostgreSQLObjectFactory(), mysql=MySQLObjectFactory(), mssql=MSSQLObjectFactory(), oracle=OracleObjectFactory())


def set_(path, value):
    """Assigns an attribute in place"""
    def apply(o):
        for p in path[:-1]:
            o = o[p] if isinstance(p, str) and isinstance(o, (dict, ot.ObjectDict)) else getattr(o, p)
        setattr(o, path[-1], value)
    return apply


def members(o, of, change):
    """Adds or removes an item of a collection in place"""
    d = getattr(o, of)
    if isinstance(change, str):
        d.remove(change)
    else:
        d.add(change)


L = LocalId


def enum(f, q):
    return ot.EnumType(q, ["a", "b", "c"])


def struct(f, q):
    return f.struct_class(q, [ot.StructMember(L("x"), INT(4), "first"), ot.StructMember(L("y"), dt.SqlArrayType(TXT(10)))], "a struct")


def table_args(f, q):
    return dict(columns=[f.column_class(L("id"), INT(8), False), f.column_class(L("n"), INT(4), True, default="1"),
                         f.column_class(L("t"), TXT(20), False, description="text"), f.column_class(L("k"), dt.SqlDecimalType(10, 2), True),
                         f.column_class(L("s"), dt.SqlTimestampType(3, True), True), f.column_class(L("u"), dt.SqlUserDefinedType(QualifiedId("a", "e")), True)],
                primary_key=(L("id"),), description="a table",
                constraints=[ot.UniqueConstraint(L("uq"), (L("n"), L("t"))),
                             ot.ForeignConstraint(L("fk"), (L("n"),), ot.ConstraintReference(QualifiedId("a", "other"), (L("id"),))),
                             ot.CheckConstraint(L("ch"), '"n" > 0'),
                             ot.DiscriminatedConstraint(L("dk"), (L("k"),), [ot.ConstraintReference(QualifiedId("a", "p"), (L("id"),)), ot.ConstraintReference(QualifiedId("a", "q"), (L("id"),))])])


def table(f, q):
    return f.table_class(q, **table_args(f, q))


def lookup(f, q):
    return f.enum_table_class(q, [f.column_class(L("id"), INT(4), False, identity=True), f.column_class(L("value"), TXT(64), False)],
                              values=["a", "b"], primary_key=(L("id"),), constraints=[ot.UniqueConstraint(L("uq"), (L("value"),))])


def col(c, *rest):
    return ("columns", c) + rest


def replace(**kw):
    return lambda o: [setattr(o, k, v) for k, v in kw.items()]


KINDS = {
    "enums": (enum, {"value added": lambda o: o.values.append("d"), "value removed": lambda o: o.values.pop(), "values reordered": lambda o: o.values.reverse(),
                     "value renamed": lambda o: o.values.__setitem__(1, "B")}),
    "structs": (struct, {"member type": set_(("members", "x", "data_type"), INT(8)), "member description": set_(("members", "x", "description"), None),
                         "element type": set_(("members", "y", "data_type", "element_type"), TXT(11)), "element limit": set_(("members", "y", "data_type", "element_type", "limit"), 12),
                         "struct description": replace(description="another"), "no description": replace(description=None),
                         "member removed": lambda o: members(o, "members", "y"), "member added": lambda o: members(o, "members", ot.StructMember(L("z"), INT(4)))}),
    "tables": (table, {"column type": set_(col("n", "data_type"), INT(8)), "type parameter": set_(col("t", "data_type", "limit"), 21), "no limit": set_(col("t", "data_type", "limit"), None),
                       "precision": set_(col("k", "data_type", "precision"), 11), "scale": set_(col("k", "data_type", "scale"), 3), "time zone": set_(col("s", "data_type", "with_time_zone"), False),
                       "time precision": set_(col("s", "data_type", "precision"), 6), "type name": set_(col("u", "data_type"), dt.SqlUserDefinedType(QualifiedId("b", "e"))),
                       "nullable": set_(col("n", "nullable"), False), "default": set_(col("n", "default"), "2"), "no default": set_(col("n", "default"), None),
                       "identity": set_(col("id", "identity"), True), "column description": set_(col("t", "description"), "txt"), "no column description": set_(col("t", "description"), None),
                       "primary key": replace(primary_key=(L("id"), L("n"))), "description": replace(description="other"),
                       "column added": lambda o: members(o, "columns", type(o.columns["id"])(L("z"), INT(4), True)), "column removed": lambda o: members(o, "columns", "u"),
                       "constraint removed": lambda o: members(o, "constraints", "ch"), "constraint added": lambda o: members(o, "constraints", ot.UniqueConstraint(L("uq2"), (L("k"),))),
                       "unique columns": set_(("constraints", "uq", "unique_columns"), (L("n"),)), "unique column order": set_(("constraints", "uq", "unique_columns"), (L("t"), L("n"))),
                       "foreign column": set_(("constraints", "fk", "foreign_columns"), (L("k"),)), "reference": set_(("constraints", "fk", "reference", "table"), QualifiedId("b", "other")),
                       "referenced column": set_(("constraints", "fk", "reference", "columns"), (L("key"),)), "condition": set_(("constraints", "ch", "condition"), '"n" > 1'),
                       "references": lambda o: o.constraints["dk"].references.pop(), "a reference of several": set_(("constraints", "dk", "references"), [ot.ConstraintReference(QualifiedId("a", "p"), (L("id"),)), ot.ConstraintReference(QualifiedId("a", "r"), (L("id"),))])}),
    "lookup": (lookup, {"values added": lambda o: o.values.append("c"), "values removed": lambda o: o.values.pop(), "value renamed": lambda o: o.values.__setitem__(0, "A"),
                        "column type": set_(col("value", "data_type", "limit"), 65), "column added": lambda o: members(o, "columns", type(o.columns["id"])(L("z"), INT(4), True))}),
}
VARIANTS = [(k, name) for k, (_, changes) in KINDS.items() for name in changes]
FIELDS = {ot.EnumType: ("name", "values"), ot.StructType: ("name", "members", "description"), ot.Table: ("name", "columns", "primary_key", "constraints", "description")}


def dump(x):
    """What an object says, compared in place of the objects' own notion of equality"""
    if isinstance(x, ot.ObjectDict):
        return {k: dump(v) for k, v in sorted(x.items())}
    if isinstance(x, (list, tuple)):
        return [dump(v) for v in x]
    for cls, fields in FIELDS.items():
        if isinstance(x, cls):
            d = {f: dump(getattr(x, f)) for f in fields}
            if isinstance(x, ot.EnumTable):
                d["values"] = dump(x.values)
            return d
    if hasattr(x, "__dataclass_fields__"):
        return (type(x).__name__, {f: dump(getattr(x, f)) for f in x.__dataclass_fields__})
    return x


class World:
    """Objects of a model, one for each (kind, change, namespace)"""

    def __init__(self, factory, objects, qualified):
        self.f, self.objects, self.qualified = factory, objects, qualified

    def name(self, o):
        kind, change, ns, local = self.objects[o]
        return QualifiedId(ns, local) if self.qualified else PrefixedId(ns, local)

    def build(self, o, variant):
        kind, change, ns, local = self.objects[o]
        x = KINDS[kind][0](self.f, self.name(o))
        if variant == 2:
            KINDS[kind][1][change](x)
        # the order in which columns and constraints are listed is no part of what a table is
        self.built = getattr(self, "built", 0) + 1
        for part in ("columns", "constraints"):
            if self.built % 3 and isinstance(getattr(x, part, None), ot.ObjectDict):
                setattr(x, part, ot.ObjectDict(list(getattr(x, part).values())[::(-1) ** (self.built + len(part))]))
        return x

    def place(self, o):
        kind, change, ns, local = self.objects[o]
        return (ns if self.qualified else ""), {"lookup": "tables"}.get(kind, kind), self.name(o).local_id

    def catalog(self, defs, empty):
        spaces = {n: dict(enums=[], structs=[], tables=[]) for n in empty}
        for o in self.objects:
            if defs[o]:
                ns, kind, _ = self.place(o)
                spaces.setdefault(ns, dict(enums=[], structs=[], tables=[]))[kind].append(self.build(o, defs[o]))
        return ot.Catalog([self.f.namespace_class(LocalId(n), **v) for n, v in spaces.items()])

    def wanted(self, defs):
        return {self.place(o): dump(self.build(o, defs[o])) for o in self.objects if defs[o]}


def found(catalog):
    return {(ns, kind, name): dump(x) for ns, n in catalog.namespaces.items() for kind in ("enums", "structs", "tables") for name, x in getattr(n, kind).items()}


def replay(case, w, empties):
    """None, or what is wrong"""
    num = sorted(int(k) for k in case["init"]) if isinstance(case["init"], dict) else range(1, len(case["init"]) + 1)
    get = lambda s, i: s[str(i)] if isinstance(s, dict) else s[i - 1]
    defs = lambda s: {o: get(s, o) for o in w.objects}
    cats = {i: w.catalog(defs(get(case["init"], i)), empties[i]) for i in num}
    spaces = {i: set(c.namespaces.keys()) for i, c in cats.items()}
    for step, (op, state) in enumerate(zip(case["ops"], case["states"])):
        last = step == len(case["ops"]) - 1
        if op[0] == "merge":
            try:
                cats[op[1]].merge(cats[op[2]])
                if case["failed"] and last:
                    return "step %d: merging different definitions is not rejected" % (step + 1)
                spaces[op[1]] = spaces[op[1]] | spaces[op[2]]
            except ot.FormationError as e:
                if not (case["failed"] and last):
                    return "step %d: merging is rejected: %s" % (step + 1, describe(e))
                # the schema merged is untouched
                if op[1] != op[2] and found(cats[op[2]]) != w.wanted(defs(get(state, op[2]))):
                    return "step %d: a rejected merge changes the schema merged" % (step + 1)
                return None
            except Exception as e:
                return "step %d: merging fails: %s" % (step + 1, describe(e))
        else:
            ns, kind, name = w.place(op[2])
            x = getattr(cats[op[1]].namespaces[ns], kind)[name]
            new = get(get(state, op[1]), op[2])
            if new == 2:
                KINDS[w.objects[op[2]][0]][1][w.objects[op[2]][1]](x)
            else:       # take over all parts of the other definition, in place
                y = w.build(op[2], new)
                x.__dict__.update(y.__dict__)
        for i in num:
            if found(cats[i]) != w.wanted(defs(get(state, i))):
                return "step %d, %s: schema %d is not as specified" % (step + 1, op, i)
            if set(cats[i].namespaces.keys()) != spaces[i]:
                return "step %d, %s: schema %d has namespaces %s" % (step + 1, op, i, sorted(cats[i].namespaces.keys()))
    return None


def main(prop):
    ck = Check(prop, "model_checking")
    r = rng("C23")
    factories = list(FACTORIES.items())
    turn = 0
    for cfg, count in (("MergeA", pick(6000, 60000)), ("MergeB", pick(3000, 40000))):
        cases, res = tlc.behaviours("Merge", pick(cfg, cfg + "Deep"))
        ck.tlc(res)
        if len(cases) > count:
            cases = r.sample(cases, count)
        for case in cases:
            first = case["init"][0] if isinstance(case["init"], list) else list(case["init"].values())[0]
            objects = {}
            for o in range(1, len(first) + 1):
                kind, change = VARIANTS[turn % len(VARIANTS)]
                turn += 1
                # names coincide across kinds and namespaces, but lookup tables are tables
                ns = r.choice(["a", "b"])
                local = r.choice(["x", "y"])
                while any((dict(lookup="tables").get(k, k), n, l) == (dict(lookup="tables").get(kind, kind), ns, local) for k, _, n, l in objects.values()):
                    ns, local = r.choice(["a", "b"]), r.choice(["x", "y", "z"])
                objects[o] = (kind, change, ns, local)
            turn += r.randint(0, 1)
            fname, f = r.choice(factories)
            w = World(f, objects, fname in ("base", "postgresql", "mssql"))
            empties = {i: r.choice([[], [], ["a"], ["b", "a"], ["c"]]) if w.qualified else [] for i in (1, 2, 3)}
            ck.evaluated((str(case["init"]), str(case["ops"]), str(objects)))
            what = replay(case, w, empties)
            if what:
                ck.violation("%s (%s): %s" % (", ".join("%s: %s" % (o[0], o[1]) for o in objects.values()), fname, what), dict(case=case, objects=objects))
        ck.add("traces_validated_against_impl", len(cases))
        ck.sample(dict(case=cases[len(cases) // 3], objects=objects))
    ck.assumptions = ["columns of a table and members of a struct are the same in any order; values of an enumeration are not",
                      "what a rejected merge leaves in the schema merged into is unspecified"]
    return ck
