"""C09, C10: entity classes become a database schema.  Random worlds of modules and classes are built, handed to the real generators,
and the script they return is judged by spec/Mapping.tla."""
import abc, dataclasses, datetime, decimal, enum, sys, types, uuid
from ipaddress import IPv4Address, IPv6Address
from typing import Annotated, Literal, Optional, Union, get_args, get_origin
from strong_typing.auxiliary import IntegerRange, MaxLength, Precision, Storage, TimePrecision, float32, float64, int8, int16, int32, int64, uint8, uint16, uint32, uint64
from report import Check, describe
from env import rng, pick
import gen, tlc
from gen import NONE, PROFILE, QUALIFIED
from sqlparse import Bad, LexError, canon, lex, parse_script
from pysqlsync.base import GeneratorOptions
from pysqlsync.factory import get_dialect
from pysqlsync.formation.py_to_sql import ArrayMode, EnumMode, StructMode
from pysqlsync.model.entity_types import make_entity
from pysqlsync.model.key_types import Identity, PrimaryKey, Unique

MODES = {"postgresql": (["TYPE", "RELATION", "CHECK"], ["TYPE", "JSON"], ["ARRAY", "JSON", "RELATION"]),
         "mysql": (["INLINE", "RELATION", "CHECK"], ["JSON"], ["JSON", "RELATION"]),
         "mssql": (["RELATION", "CHECK"], ["JSON"], ["JSON", "RELATION"]),
         "oracle": (["RELATION", "CHECK"], ["JSON"], ["JSON", "RELATION"]),
         "redshift": (["CHECK"], ["JSON"], ["JSON", "RELATION"]),
         "snowflake": (["CHECK"], ["JSON"], ["JSON", "RELATION"]),
         "trino": (["CHECK", "RELATION"], ["JSON"], ["JSON", "RELATION"]),
         "delta": (["CHECK"], ["INLINE", "JSON"], ["ARRAY", "JSON", "RELATION"])}
DEFAULT = {"postgresql": ("TYPE", "TYPE", "ARRAY"), "mysql": ("INLINE", "JSON", "JSON"), "mssql": ("RELATION", "JSON", "JSON"), "oracle": ("RELATION", "JSON", "JSON"),
           "redshift": ("RELATION", "JSON", "JSON"), "snowflake": ("CHECK", "JSON", "JSON"), "trino": ("CHECK", "JSON", "JSON"), "delta": ("CHECK", "INLINE", "ARRAY")}
FORMED = ("redshift", "snowflake", "delta")      # no foreign key relationships but those of lookup and join tables


def integer(bits, lo="", hi=""):
    return dict(k="int", bits=bits, lo=lo, hi=hi)


def ranged(lo, hi):
    return Annotated[int, IntegerRange(lo, hi)], integer(64, str(lo), str(hi))


def text(n=0):
    return (Annotated[str, MaxLength(n)] if n else str), dict(k="text", n=n)


def moment(p=-1):
    return (Annotated[datetime.datetime, TimePrecision(p)] if p >= 0 else datetime.datetime), dict(k="datetime", p=p)


BASIC = [(bool, dict(k="bool")), (int, integer(64)), (int8, integer(8)), (int16, integer(16)), (int32, integer(32)), (int64, integer(64)),
         (uint8, integer(8)), (uint16, integer(16)), (uint32, integer(32)), (uint64, integer(64)),
         (Annotated[int, Storage(2)], integer(16)), (Annotated[int, Storage(4)], integer(32)), (Annotated[int, Storage(8)], integer(64)),
         ranged(0, 10), ranged(-5, 2 ** 40), ranged(7, 7), ranged(-9, 0),
         (float, dict(k="float", bits=64)), (float32, dict(k="float", bits=32)), (float64, dict(k="float", bits=64)),
         (decimal.Decimal, dict(k="decimal", p=-1, s=0)), (Annotated[decimal.Decimal, Precision(10, 2)], dict(k="decimal", p=10, s=2)),
         (Annotated[decimal.Decimal, Precision(5, 5)], dict(k="decimal", p=5, s=5)), (Annotated[decimal.Decimal, Precision(4)], dict(k="decimal", p=4, s=0)),
         text(), text(1), text(40), text(4000), text(4001), text(8000), text(8001), text(65535), text(65536), text(16777215), text(16777216),
         moment(), moment(0), moment(1), moment(3), moment(6), (datetime.date, dict(k="date")), (datetime.time, dict(k="time", p=-1)),
         (Annotated[datetime.time, TimePrecision(0)], dict(k="time", p=0)), (Annotated[datetime.time, TimePrecision(1)], dict(k="time", p=1)), (Annotated[datetime.time, TimePrecision(3)], dict(k="time", p=3)),
         (uuid.UUID, dict(k="uuid")), (IPv4Address, dict(k="ipv4")), (IPv6Address, dict(k="ipv6")), (Union[IPv4Address, IPv6Address], dict(k="ip")),
         (Literal["a"], dict(k="literal", n=1)), (Literal["one", "three", "two"], dict(k="literal", n=5)),
         (Literal["na\u00efve"], dict(k="literal", n=5)),
         # a value of one type or another is held by the wider of the two
         (Union[int16, int32], integer(32)), (Union[int64, int16], integer(64)), (Union[int8, int16], integer(16)), (Union[uint16, int32, int16], integer(32)),
         (Union[float32, float64], dict(k="float", bits=64)), (Union[float64, float32], dict(k="float", bits=64)),
         (Union[Literal["a"], Literal["bcd"]], dict(k="literal", n=3)), (Union[Literal["abcde"], str], text()[1]),
         (Union[text(3)[0], Literal["abcd"]], text(4)[1]), (Union[Literal["abcd"], text(40)[0]], text(40)[1])]
NEVER = [Union[decimal.Decimal, int], Union[int, float], Union[bool, str], Literal["a", 1], Literal[1, "a"], enum.Enum("Mixed", [("A", "a"), ("B", 1)]), enum.Enum("Also", [("A", 1), ("B", "b"), ("C", "c")]), complex, Union[bool, datetime.date]]
ONLY = {"postgresql": [(datetime.timedelta, dict(k="interval"))], "oracle": [(bytes, dict(k="bytes"))]}
KEYS = [(int, integer(64)), (int32, integer(32)), (int64, integer(64)), (int16, integer(16)), text(40), text(64), (uuid.UUID, dict(k="uuid"))]
LISTED = [p for p in BASIC if p[1]["k"] in ("bool", "int", "float", "text", "datetime", "date", "uuid", "decimal") and not p[1].get("lo") and get_origin(p[0]) is not Union]
DESCS = [None, None, "Some description.", "It's \"quoted\"; -- not a comment", "A % sign, a \\ and a tab"]
DOCS = DESCS + ["First line.\n\nMore, in a second paragraph.\n\nAnd a third."]
LABELS = ["red", "green", "it's", "semi;colon", "two words", "na\u00efve", "UPPER"]


class Marker:
    """An annotation that means something to the application only"""
    def __init__(self, n):
        self.n = n


def marked(r, typ, t):
    """A type with annotations that the converter is told to skip"""
    if get_origin(typ) is Union or t["k"] not in ("bool", "int", "decimal", "text", "datetime", "date", "time", "uuid") or (t["k"] == "int" and not t["lo"] and typ is not int):
        return typ
    if hasattr(typ, "__metadata__") and r.random() < .5:
        base, given = typ.__origin__, typ.__metadata__
        return Annotated[(base, Marker(1)) + given]
    return Annotated[typ, Marker(2)]


def key_type(typ):
    """The type of a key without the mark of the primary key"""
    base, *notes = get_args(typ)
    notes = [x for x in notes if "PrimaryKey" not in type(x).__name__]
    return Annotated[tuple([base] + notes)] if notes else base


class World:
    """Modules, classes, and their description for the specification"""
    wide = False        # entities with a field of every type, most with a default value
    schemas = ["alpha", "beta", "gamma"]
    named = False

    def __init__(self, d, r, n):
        self.d, self.r, self.n = d, r, n
        self.basic, self.simple = BASIC, LISTED
        self.descs, self.docs = DESCS, DOCS
        self.marks = True       # some fields have annotations that the converter is told to skip
        enums, structs, arrays = MODES[d]
        self.enum, self.struct, self.array = r.choice(enums), r.choice(structs), r.choice(arrays + arrays[:1])
        self.fk, self.init, self.auto = r.random() < .8 and d not in FORMED, r.random() < .4, d != "mysql" and r.random() < .2
        self.asked = [self.enum, self.struct, self.array]
        for i, mode in enumerate((EnumMode, StructMode, ArrayMode)):
            x = r.random()
            if x < .15:
                self.asked[i] = ""        # whatever the dialect prefers
            elif x < .17 and d != "trino":    # which does not refuse any
                self.asked[i] = r.choice(list(mode)).name
        self.enum, self.struct, self.array = [a or b for a, b in zip(self.asked, DEFAULT[d])]
        self.classes, self.py, self.modules = {}, {}, []
        self.pykey = {}
        self.used = {}
        self.impossible = r.random() < .1
        self.shared = r.random() < .5      # names of entities may occur in several modules

    # ------------------------------------------------------------------ modules
    def module(self, i):
        name = "verif_world_%d_%s" % (self.n, "xyz"[i])
        m = types.ModuleType(name)
        sys.modules[name] = m
        self.modules.append(m)
        return m

    def close(self):
        for m in self.modules:
            sys.modules.pop(m.__name__, None)

    # ------------------------------------------------------------------ classes
    def put(self, kind, name, mi, **kw):
        k = "%s%d_%s" % (kind[0], mi, name)
        c = dict(kind=kind, name=name, ns=self.ns[mi] or "", mapped=mi not in self.unmapped, fields=[], values=[], sorted=[], inline="", first="", label="", text=True, desc=NONE, module=mi, rich=[], lines=[])
        c.update(kw)
        self.classes[k] = c
        return k

    def reachable(self, mi, kind):
        """Classes a class of module mi may refer to: of its own module and earlier ones (schemas do not refer to each other in circles)"""
        return [k for k, c in self.classes.items() if c["kind"] == kind and c["module"] <= mi and not c.get("abstract")]

    def new_enum(self, mi, name):
        r, m = self.r, self.modules[mi]
        string = r.random() < .75
        values = r.sample(LABELS, r.randint(1, 4)) if string else r.sample([0, 1, 2, 7, -1, 10], r.randint(1, 4))
        e = enum.Enum(name, [("M%d" % i, v) for i, v in enumerate(values)], module=m.__name__)
        setattr(m, name, e)
        lit = [("'" + v.replace("'", "''") + "'") if string else str(v) for v in values]
        inline = ",".join("'%s'" % v for v in values)
        k = self.put("enum", name, mi, values=[str(v) for v in values], sorted=sorted(lit), inline=inline, first=canon(lex(self.d, lit[0])), label="'" + str(values[0]).replace("'", "''") + "'", text=string)
        self.py[k] = e
        return k

    def new_rich(self, mi, name):
        """An enumeration whose values are objects with several fields"""
        r, m = self.r, self.modules[mi]
        records, fields = [], []
        for i in r.sample(range(3), r.randint(1, 3)):
            typ, t = r.choice([(str, text()[1]), text(40), (int, integer(64)), (int16, integer(16))])
            records.append(self.field("r%d" % i, typ, t, plain=True)[2])
            fields.append(("r%d" % i, typ))
        info = dataclasses.make_dataclass(name + "Value", fields, frozen=True, module=m.__name__)
        values = [info(*[r.choice(LABELS) if f["t"]["k"] == "text" else r.randrange(-5, 20) for f in records]) for _ in range(r.randint(1, 4))]
        e = enum.Enum(name, [("M%d" % i, v) for i, v in enumerate(dict.fromkeys(values))], module=m.__name__)
        setattr(m, name, e)
        k = self.put("enum", name, mi, text=False, rich=records, lines=[[str(getattr(v, f["name"])) for f in records] for v in (x.value for x in e)])
        self.py[k] = e
        return k

    def field_type(self, mi, entity):
        """(Python type, abstract type) of a field of a class in module mi"""
        r, x = self.r, self.r.random()
        own = lambda kind: [k for k in self.reachable(mi, kind)]
        enums, structs, entities = own("enum"), own("struct"), own("entity")
        if x < .14 and enums:
            k = r.choice(enums)
            if self.mode_of.setdefault(k, "regular") == "regular" or self.impossible:
                return self.py[k], dict(k="enum", c=k)
        enums = [k for k in enums if not self.classes[k]["rich"]]
        if x < .19 and enums:
            k = r.choice(enums)
            if self.classes[k]["text"] and (self.enum != "TYPE" or self.mode_of.setdefault(k, "ext") == "ext" or self.impossible):
                return Union[self.py[k], str], dict(k="xenum", c=k)
        if x < .28 and structs:
            k = r.choice(structs)
            return self.py[k], dict(k="struct", c=k)
        if x < .42 and entities and entity:
            k = r.choice(entities)
            return self.py[k], dict(k="ref", c=k)
        if x < .47 and len(entities) > 1 and entity:
            k = r.choice(entities)
            same = [o for o in entities if o != k and (self.pykey[o] == self.pykey[k] or (self.impossible and self.key(o) != self.key(k)))]
            if same:
                others = r.sample(same, min(len(same), r.choice([1, 1, 2, 3])))
                return Union[tuple(self.py[o] for o in [k] + others)], dict(k="union", cs=[k] + others)
        if x < .62:
            return self.listed(mi, entity, enums, structs, entities)
        if x < .65 and self.d in ONLY:
            return r.choice(ONLY[self.d])
        if x < .7 and self.impossible:
            return r.choice(NEVER), dict(k="never")
        typ, t = r.choice(self.basic)
        return (marked(r, typ, t), t) if self.marks and r.random() < .15 else (typ, t)

    def listed(self, mi, entity, enums, structs, entities):
        r = self.r
        x = r.random()
        if x < .45 and entities and (entity or self.impossible):
            k = r.choice(entities)
            p, t = self.py[k], dict(k="ref", c=k)
        elif x < .65 and enums and (self.array != "RELATION" or (entity and self.enum == "RELATION")):
            k = r.choice(enums)
            if self.mode_of.setdefault(k, "regular") != "regular" and not self.impossible:
                return r.choice(self.basic)
            p, t = self.py[k], dict(k="enum", c=k)
        elif x < .8 and structs and (self.array != "RELATION" or self.impossible):
            k = r.choice(structs)
            p, t = self.py[k], dict(k="struct", c=k)
        elif self.array != "RELATION" or self.impossible:
            p, t = r.choice(self.simple)
        else:
            return r.choice(self.basic)
        which = "set" if r.random() < .3 else "list"
        return (set if which == "set" else list)[p], dict(k=which, e=t)

    def key(self, k):
        return next(f["t"] for f in self.classes[k]["fields"] if f["primary"])

    def default(self, typ, t):
        """(Python value, its expression in the dialect)"""
        r, k = self.r, t["k"]
        if k == "bool":
            v = r.random() < .5
            return v, str(int(v)) if self.d == "mssql" else str(v).upper()
        if k == "int" and not t["lo"]:
            v = r.choice([0, 1, -7, 100])
            return v, str(v)
        if k == "float":
            v = r.choice([0.5, -2.0])
            return v, str(v)
        if k == "decimal":
            v = decimal.Decimal(r.choice(["0.25", "0"]))
            return v, str(v)
        if k == "text" and t["n"] >= 40:
            v = r.choice(["abc", "it's", "", "a; b", "'q'"])
            return v, "'" + v.replace("'", "''") + "'"
        if k == "date":
            return datetime.date(1999, 12, 31), ("DATE " if self.d == "oracle" else "") + "'1999-12-31'"
        if k == "time" and t["p"] < 0:
            v = datetime.time(12, 30, 1, r.choice([0, 0, 500000]))
            return v, "INTERVAL '0 %s' DAY TO SECOND" % v if self.d == "oracle" else "'%s'" % v
        if k == "datetime":
            # a moment with a time zone is stored as the same moment in UTC
            v = datetime.datetime(2020, 2, 29, 23, 59, 58, r.choice([0, 0, 250000]))
            s = str(v)
            if r.random() < .5:
                h = r.choice([0, 2, -11])
                v = (v + datetime.timedelta(hours=h)).replace(tzinfo=datetime.timezone(datetime.timedelta(hours=h)))
            return v, ("TIMESTAMP " if self.d in ("oracle", "snowflake") else "") + "'%s'" % s
        return None

    def field(self, name, typ, t, primary=False, identity=False, desc=None, plain=False):
        """(Python annotation, default, description of the field)"""
        r = self.r
        nullable = not primary and not plain and r.random() < .35
        unique = not primary and not plain and self.fk and t["k"] in ("int", "text", "uuid", "ref") and not (t["k"] == "text" and t["n"] not in (1, 40)) and r.random() < .2
        default, expr = dataclasses.MISSING, NONE
        if not primary and not plain and not unique and r.random() < (.8 if self.wide else .3):
            x = self.default(typ, t)
            if x is not None and not (self.d == "mysql" and t["k"] == "text" and t["n"] >= 65536):
                default, expr = x[0], canon(lex(self.d, x[1]))
        ann = typ
        if nullable:
            ann = Optional[Unique[typ]] if unique and r.random() < .5 else Optional[typ]
            if default is dataclasses.MISSING and r.random() < .5:
                default = None
        if primary:
            ann = r.choice([PrimaryKey[Identity[ann]], Identity[PrimaryKey[ann]]]) if identity else PrimaryKey[ann]
        if unique and "UniqueTag" not in str(ann):
            ann = Unique[ann]
        return ann, default, dict(name=name, t=t, nullable=nullable, primary=primary, identity=identity, unique=unique, default=expr,
                                  desc=gen.stored_desc(self.d, desc, "col"))

    def field_name(self, mi, low, i):
        return "%sf%d" % (low, i)

    def class_names(self, mi, names):
        return names

    def new_class(self, mi, name, entity):
        r, m = self.r, self.modules[mi]
        kind = "entity" if entity else "struct"
        doc = r.choice(self.docs)
        fields, records, params = [], [], []
        base = None

        def add(fname, typ, t, **kw):
            desc = r.choice(self.descs)
            if desc is not None and doc is None:
                desc = None
            ann, default, rec = self.field(fname, typ, t, desc=desc, **kw)
            if not entity:
                rec["desc"] = gen.stored_desc(self.d, desc, "member")
            if desc is not None:
                params.append(":param %s: %s" % (fname, desc))
            fields.append((fname, ann) if default is dataclasses.MISSING else (fname, ann, dataclasses.field(default=default)))
            records.append(rec)

        low = name.lower()
        inherited = []
        if entity:
            bases = [k for k in self.classes if self.classes[k].get("abstract") and self.classes[k]["module"] <= mi]
            if bases and r.random() < .4 and not (self.auto and self.d == "mssql"):
                base = r.choice(bases)
                inherited = [dict(f, desc=NONE) for f in self.classes[base]["fields"]]
                pykey = self.pykey[base]
            else:
                typ, t = r.choice(KEYS)
                pykey = str(typ)
                add("%sid" % low, typ, t, primary=True, identity=t["k"] == "int" and r.random() < .4)
        for i in range(r.randint(0 if entity else 1, 5)):
            typ, t = self.field_type(mi, entity)
            add(self.field_name(mi, low, i), typ, t, plain=not entity)
        for i, (typ, t) in enumerate(self.basic if entity and self.wide else []):
            add("%sw%d" % (low, i), typ, t)
        k = None
        if entity and not base and r.random() < .25:
            # a reference to the class itself, by name
            keyt = records[0]["t"]
            fname = "%sself" % low
            ann, default, rec = self.field(fname, None, dict(k="ref", c="?"), plain=True)
            rec["nullable"] = True
            fields.append((fname, Optional[name], dataclasses.field(default=None)))
            records.append(rec)
        order = list(range(len(fields)))
        if r.random() < .5:
            r.shuffle(order)
        fields, records = [fields[i] for i in order], [records[i] for i in order]
        space = {"__module__": m.__name__}
        text = (doc or "") + ("\n\n" + "\n".join(params) if params else "")
        key = next((i for i, f in enumerate(records) if f["primary"]), None)
        turned = entity and base is None and key is not None and all(len(f) == 2 for f in fields) and r.random() < .3
        if turned:
            # a plain class is turned into an entity class, with the key as the first field
            plain = [(n, key_type(typ)) if i == key else (n, typ) for i, (n, typ) in enumerate(fields)]
            fields.insert(0, fields.pop(key))
            records.insert(0, records.pop(key))
        cls = dataclasses.make_dataclass(name, fields, bases=(self.py[base],) if base else (), namespace=dict(space, verify=lambda self: None) if base else space, kw_only=True)
        cls.__module__ = m.__name__
        cls.__doc__ = text or "%s(...)" % name
        if not text:
            cls.__doc__ = None
        if turned:
            given = dataclasses.make_dataclass(name, plain, namespace=space)
            given.__module__, given.__doc__ = m.__name__, cls.__doc__
            cls = make_entity(given, fields[0][0])
        else:
            setattr(m, name, cls)
        k = self.put(kind, name, mi, fields=inherited + records, desc=gen.stored_desc(self.d, doc, "table" if entity else "struct"))
        if entity:
            self.pykey[k] = pykey
        for f in records:
            if f["t"].get("c") == "?":
                f["t"]["c"] = k
        self.py[k] = cls
        return k

    def new_abstract(self, mi, name):
        r, m = self.r, self.modules[mi]
        low = name.lower()
        records = []
        fields = []
        keyt = r.choice(KEYS)
        for fname, (typ, t), primary in (("%sid" % low, keyt, True), ("%sx" % low, r.choice(self.basic), False)):
            ann, default, rec = self.field(fname, typ, t, primary=primary, plain=self.d == "mssql")
            fields.append((fname, ann) if default is dataclasses.MISSING else (fname, ann, dataclasses.field(default=default)))
            records.append(rec)
        cls = dataclasses.make_dataclass(name, fields, bases=(abc.ABC,), namespace={"__module__": m.__name__, "verify": abc.abstractmethod(lambda self: None)}, kw_only=True)
        cls.__module__ = m.__name__
        setattr(m, name, cls)
        k = self.put("entity", name, mi, fields=records, abstract=True)
        self.pykey[k] = str(keyt[0])
        self.py[k] = cls
        return k

    def build(self):
        r = self.r
        count = r.randint(1, 3)
        for i in range(count):
            self.module(i)
        self.ns = self.schemas[:count]
        r.shuffle(self.ns)
        if r.random() < .25 and not self.named:
            self.ns[r.randrange(count)] = None
        self.unmapped = {r.randrange(count)} if count > 1 and self.impossible and r.random() < .5 else set()
        if count > 1 and self.impossible and r.random() < .25:
            # two modules for one namespace
            i, j = r.sample(range(count), 2)
            self.ns[i] = self.ns[j]
        self.mode_of = {}
        en = 0
        barren = 0 if count > 1 and r.random() < .3 else None      # a module of enumerations only
        for mi in range(count):
            for i in range(2 if mi == barren else r.randint(0, 2)):
                self.new_enum(mi, "E%d" % (en if self.d not in QUALIFIED else i))
                en += 1
            if self.marks and (self.enum == "RELATION" or self.impossible) and r.random() < .3:
                self.new_rich(mi, "R%d" % mi)
            if mi == barren:
                continue
            for i in range(r.randint(0, 2)):
                self.new_class(mi, "S%d" % i if r.random() < .7 else "Z%dS%d" % (9 - i, i), False)
            if r.random() < .3:
                self.new_abstract(mi, "Base%d" % mi)
            names = ["T%d" % i for i in range(4)] if self.shared else ["%s%d" % ("ABC"[mi], i) for i in range(4)]
            if None not in self.ns and r.random() < .15:
                names = [n[0] + "__" + n[1:] for n in names]
            names = self.class_names(mi, names)
            r.shuffle(names)
            for i in range(r.randint(0 if count > 1 else 1, 3)):
                self.new_class(mi, names[i], True)
        entities = [k for k, c in self.classes.items() if c["kind"] == "entity" and not c.get("abstract")]
        if not entities:
            entities = [self.new_class(0, "Last", True)]
        for i, m in enumerate(self.modules):
            for k in r.sample(sorted(self.classes), min(len(self.classes), r.randint(0, 3))):
                if self.classes[k]["module"] != i or r.random() < .3:
                    # a class imported from another module, or a second name for a class
                    setattr(m, r.choice(["Imported%s", "A%s", "z%s"]) % self.classes[k]["name"], self.py[k])
        self.mapping = {m: self.ns[i] for i, m in enumerate(self.modules) if i not in self.unmapped}
        if r.random() < .5:
            self.how = "tables"
            self.roots = r.sample(entities, r.randint(1, len(entities)))
            abstract = [k for k, c in self.classes.items() if c.get("abstract")]
            self.given = [self.py[k] for k in self.roots + (abstract if r.random() < .5 else [])]
        else:
            self.how = "modules"
            mods = r.sample(range(count), r.randint(1, count))
            self.roots = [k for k in entities if self.classes[k]["module"] in mods]
            self.given = [self.modules[i] for i in mods]
        return self

    # ------------------------------------------------------------------ running the code
    def generator(self):
        return get_dialect(self.d).create_generator(GeneratorOptions(
            enum_mode=EnumMode[self.asked[0]] if self.asked[0] else None, struct_mode=StructMode[self.asked[1]] if self.asked[1] else None,
            array_mode=ArrayMode[self.asked[2]] if self.asked[2] else None, foreign_constraints=self.fk or self.d in FORMED, initialize_tables=self.init, namespaces=dict(self.mapping), auto_default=self.auto, skip_annotations=(Marker,)))

    def trace(self):
        r = self.r
        if r.random() < .5:
            for i in range(300):    # the typing module forgets parameterized types
                Annotated[int, "flush", self.n, i]
        error, events, again, script = "", [], True, ""
        try:
            g = self.generator()
            script = g.create(**{self.how: list(self.given)})
        except Exception as e:
            error = describe(e) + (" <- " + describe(e.__cause__) if e.__cause__ is not None else "")
        else:
            events = [conditions(self.d, e) for e in parse_script(self.d, script or "")]
            other = list(self.given)
            r.shuffle(other)
            try:
                again = not (g.create(**{self.how: other}) or "").strip()
            except Exception as e:
                again = False
        classes = {k: {a: b for a, b in c.items() if a not in ("module", "abstract")} for k, c in self.classes.items()}
        self.script = script
        return dict(P=PROFILE[self.d], spaces=[ns or "" for ns in self.mapping.values()], opts=dict(asked=dict(enum=self.asked[0], struct=self.asked[1], array=self.asked[2]), enum=self.enum, struct=self.struct, array=self.array, fk=self.fk, init=self.init, auto=self.auto),
                    classes=classes, roots=self.roots, error=error, events=events, again=again)


# ----------------------------------------------------------------------------- conditions of check constraints
def condition(d, cond):
    """A condition as a range or a set of values for one column; otherwise as it is"""
    out = dict(lo="", hi="", among=[])
    if not cond:
        return out
    toks = cond.replace("(", " ( ").replace(")", " ) ")
    import re
    m = re.fullmatch(r'\s*"?(\w+)"?\s+IN\s*\((.*)\)\s*', cond.strip(), re.S)
    if m:
        items = re.findall(r"'(?:[^']|'')*'|-\s?\d+|\d+", m.group(2))
        return dict(out, among=sorted(i.replace("- ", "-") for i in items))
    parts = [p.strip(" ()") for p in re.split(r"\bAND\b", cond)]
    for p in parts:
        m = re.fullmatch(r'"?(\w+)"?\s*(>=|<=)\s*(-?\s?\d+)', p)
        if not m:
            return dict(out, lo=cond)
        out["lo" if m.group(2) == ">=" else "hi"] = m.group(3).replace(" ", "")
    return out


def conditions(d, e):
    if e["op"] == "create_table":
        e["cons"] = [dict(c, cond=condition(d, c["cond"])) for c in e["cons"]]
    if e["op"] == "alter":
        e["acts"] = [dict(a, con=dict(a["con"], cond=condition(d, a["con"]["cond"]))) if a["a"] == "add_con" else a for a in e["acts"]]
    return e


# ----------------------------------------------------------------------------- fixed worlds: inputs of known findings
class Fixed(World):
    """One or more modules with classes given in full: (module, name, [(field, annotation, type, properties)]) or (module, name, values)"""

    def __init__(self, d, n, modules, classes, **options):
        super().__init__(d, rng("fixed", d), n)
        self.enum, self.struct, self.array = [m[0] for m in MODES[d]]
        self.fk, self.init, self.auto = True, False, False
        self.__dict__.update(options)
        self.asked = [self.enum, self.struct, self.array]
        for i in range(modules):
            self.module(i)
        self.ns, self.unmapped = ["alpha", "beta", "gamma"][:modules], set()
        self.roots, self.given, self.how = [], [], "tables"
        for mi, name, content in classes:
            m = self.modules[mi]
            if isinstance(content, str):
                e = enum.Enum(name, [(v, v) for v in content.split()], module=m.__name__)
                lit = sorted("'%s'" % v for v in content.split())
                k = self.put("enum", name, mi, values=content.split(), sorted=lit, inline=",".join(lit), first=lit[0], label=lit[0])
                self.py[k] = e
                setattr(m, name, e)
                continue
            fields, records = [], []
            for fname, ann, t, props in content:
                if "c" in t:
                    t = dict(t, c=next(k for k, c in self.classes.items() if (c["module"], c["name"]) == t["c"]))
                    ann = self.py[t["c"]]
                fields.append((fname, ann))
                records.append(dict(dict(name=fname, t=t, nullable=False, primary=False, identity=False, unique=False, default=NONE, desc=NONE), **props))
            cls = dataclasses.make_dataclass(name, fields, namespace={"__module__": m.__name__})
            cls.__module__, cls.__doc__ = m.__name__, None
            setattr(m, name, cls)
            k = self.put("entity", name, mi, fields=records)
            self.py[k] = cls
            self.roots.append(k)
            self.given.append(cls)
        self.mapping = {m: self.ns[i] for i, m in enumerate(self.modules)}


def fixed_worlds(n):
    i64 = integer(64)
    key = ("id", PrimaryKey[int], i64, dict(primary=True))
    for d in ("postgresql", "mysql", "mssql", "oracle"):
        n += 1
        yield "unique field without foreign constraints", Fixed(d, n, 1, [(0, "T", [key, ("code", Unique[int], i64, dict(unique=True))])], fk=False)
    for d in ("postgresql", "mysql", "mssql", "oracle"):
        n += 1
        yield "two primary keys", Fixed(d, n, 1, [(0, "T", [key, ("other", PrimaryKey[int], i64, dict(primary=True))])])
    for d in ("mysql", "mssql", "oracle"):
        n += 1
        yield "lookup tables of the same name in two modules", Fixed(
            d, n, 2, [(0, "E", "red green"), (1, "E", "blue"), (0, "T", [key, ("e", None, dict(k="enum", c=(0, "E")), {})]), (1, "U", [key, ("e", None, dict(k="enum", c=(1, "E")), {})])],
            enum="RELATION")


def main(prop):
    ck = Check(prop, "model_checking")
    traces, info = [], []
    n = 0
    names = {}
    for name, w in fixed_worlds(100000):
        names[len(traces)] = name
        traces.append(w.trace())
        info.append((w.d, w.how, w.script, [str(x) for x in w.given]))
        w.close()
    for d in MODES:
        r = rng("mapping", d)
        for i in range(pick(90, 1500) if d in FORMED + ("trino",) else pick(280, 4500)):
            n += 1
            w = World(d, r, n)
            w.wide = i % 15 == 0
            try:
                w.build()
                traces.append(w.trace())
                info.append((d, w.how, w.script, [str(x) for x in w.given]))
            except (Bad, LexError) as e:
                if w.__dict__.get("script") is None and "parse" not in str(e):
                    pass
                ck.violation("the script is not understood: %s" % describe(e), dict(dialect=d, options=[w.enum, w.struct, w.array]))
            finally:
                w.close()
    verdicts, res = tlc.check_traces("Mapping", traces)
    ck.tlc(res)
    part = {"C10": 0, "C09": 1}[prop]
    for no, ((v, step), t, (d, how, script, given)) in enumerate(zip(verdicts, traces, info)):
        key = (d, str(sorted(t["opts"].items())), how, len(t["classes"]), len(t["events"]), str(sorted(f["t"]["k"] for c in t["classes"].values() for f in c["fields"])))
        ck.evaluated(key)
        what = v.split("^")[part] if "^" in v else v
        if what:
            ck.violation("%s: %s" % (d, what), dict(dialect=d, options=t["opts"], how=how, given=given, error=t["error"], script=script, step=step,
                                                     event=t["events"][step:step + 1], classes=t["classes"]), scenario=names.get(no))
    ck.add("traces_validated_against_impl", len(traces))
    ck.sample(dict(dialect=info[0][0], given=info[0][3], options=traces[0]["opts"], script=(info[0][2] or "")[:1500]))
    return ck
