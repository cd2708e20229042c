"""C25: sample data.  Objects are generated by the real random_objects for random classes, from streams of random numbers that take
their extremes; spec/Sample.tla judges every object."""
import contextlib, dataclasses, datetime, decimal, enum, itertools, random, sys, uuid
from ipaddress import IPv4Address, IPv6Address
from typing import Annotated, Literal, Optional, Union
from strong_typing.auxiliary import (IntegerRange, MaxLength, MinLength, Precision, Storage, int8, int16, int32, int64, uint8, uint16, uint32)
from report import Check, describe
from env import rng, pick
import tlc
from pysqlsync.data.generator import random_objects
from pysqlsync.model.key_types import DefaultTag, Identity, PrimaryKey, Unique

BASE = 10 ** 9


class Stream(random.Random):
    "Random numbers that follow a pattern of extremes"

    def __init__(self, pattern, seed):
        super().__init__(seed)
        self.pattern, self.i = pattern, 0

    def _turn(self):
        self.i += 1
        return self.pattern[self.i % len(self.pattern)]

    def random(self):
        t = self._turn()
        return {"lo": 0.0, "hi": 1.0 - 2.0 ** -53, "mid": 0.5}.get(t) if t != "any" else super().random()

    def _randbelow(self, n):
        t = self._turn()
        return {"lo": 0, "hi": n - 1, "mid": n // 2}[t] if t != "any" else super()._randbelow(n)

    def getrandbits(self, k):
        t = getattr(self, "pattern", None) and self._turn()
        return {"lo": 0, "hi": 2 ** k - 1, "mid": 2 ** (k - 1) if k else 0}[t] if t in ("lo", "hi", "mid") else super().getrandbits(k)


NAMES = ["random", "uniform", "randint", "randrange", "choice", "choices", "shuffle", "sample", "getrandbits", "gauss", "triangular", "betavariate"]


@contextlib.contextmanager
def stream(pattern, seed):
    s = Stream(pattern, seed)
    old = {n: getattr(random, n) for n in NAMES}
    for n in NAMES:
        setattr(random, n, getattr(s, n))
    try:
        yield
    finally:
        for n, f in old.items():
            setattr(random, n, f)


class Colour(enum.Enum):
    RED = "red"
    GREEN = "green value"
    BLUE = "bl\u00fce"


class Single(enum.Enum):
    ONLY = "only"


class Many(enum.Enum):
    A, B, C, D, E, F, G = "abcdefg"


@dataclasses.dataclass
class Other:
    key: PrimaryKey[int]


@dataclasses.dataclass
class OtherUuid:
    key: PrimaryKey[uuid.UUID]


@dataclasses.dataclass
class OtherText:
    key: PrimaryKey[Annotated[str, MaxLength(9)]]


@dataclasses.dataclass
class Inner:
    number: int
    text: Annotated[str, MaxLength(5)]
    colour: Colour


@dataclasses.dataclass
class Outer:
    inner: Inner
    numbers: list[int]
    moment: datetime.datetime
    maybe: Optional[uuid.UUID]


def pair(n):
    return [n // BASE ** 2, n // BASE % BASE, n % BASE]


def field(kind, **kw):
    f = dict(kind=kind, nullable=False, primary=False, bounded=False, lo=[0, 0, 0], hi=[0, 0, 0], minlen=0, maxlen=-1, distinct=False, digits=0, places=0, values=[], parts=[])
    f.update(kw)
    return f


def integer(lo, hi):
    return field("int", bounded=True, lo=pair(lo), hi=pair(hi))


def members(cls, fields):
    return [dict(name=n, field=f) for n, f in fields]


def text(lo, hi):
    return field("text", minlen=lo, maxlen=hi)


MOMENTS = [(datetime.datetime, field("datetime")), (datetime.date, field("date")), (datetime.time, field("time"))]
ENUMS = [(e, field("enum", values=[v for m in e for v in (e.__name__ + "." + m.name, "text:" + m.value)])) for e in (Colour, Single, Many)]
INNER = field("struct", parts=[dict(name="number", field=field("int")), dict(name="text", field=text(0, 5)), dict(name="colour", field=ENUMS[0][1])])
PLAIN = ([(bool, field("bool")), (int, field("int")), (float, field("float")), (str, text(0, -1)), (uuid.UUID, field("uuid")),
          (IPv4Address, field("ipv4")), (IPv6Address, field("ipv6")), (decimal.Decimal, field("decimal", digits=38, places=10)),
          (int8, integer(-128, 127)), (int16, integer(-32768, 32767)), (int32, integer(-2 ** 31, 2 ** 31 - 1)), (int64, integer(-2 ** 63, 2 ** 63 - 1)),
          (uint8, integer(0, 255)), (uint16, integer(0, 65535)), (uint32, integer(0, 2 ** 32 - 1)), (Annotated[float, Storage(4)], field("float")),
          (Annotated[int, IntegerRange(5, 5)], integer(5, 5)), (Annotated[int, IntegerRange(-3, 0)], integer(-3, 0)), (Annotated[int, IntegerRange(0, 0)], integer(0, 0)), (Annotated[int, IntegerRange(0, 2)], integer(0, 2)), (Annotated[int, IntegerRange(-10, -1)], integer(-10, -1)), (Annotated[int, IntegerRange(10 ** 12, 10 ** 12 + 2)], integer(10 ** 12, 10 ** 12 + 2)),
          (Annotated[str, MaxLength(1)], text(0, 1)), (Annotated[str, MaxLength(20)], text(0, 20)), (Annotated[str, MaxLength(1000)], text(0, 1000)),
          (Annotated[str, MinLength(3), MaxLength(4)], text(3, 4)), (Annotated[str, MinLength(7), MaxLength(7)], text(7, 7)), (Annotated[str, MinLength(200)], text(200, -1)),
          (Annotated[decimal.Decimal, Precision(5, 2)], field("decimal", digits=5, places=2)), (Annotated[decimal.Decimal, Precision(4)], field("decimal", digits=4, places=0)),
          (Annotated[decimal.Decimal, Precision(3, 3)], field("decimal", digits=3, places=3)), (Annotated[decimal.Decimal, Precision(19, 6)], field("decimal", digits=19, places=6)),
          (Literal["one"], field("literal", values=["text:one"])), (Literal["one", "two", "three"], field("literal", values=["text:one", "text:two", "text:three"])),
          (Union[IPv4Address, IPv6Address], field("union", parts=members(None, [("", field("ipv4")), ("", field("ipv6"))]))),
          (Union[bool, Annotated[str, MaxLength(3)]], field("union", parts=members(None, [("", field("bool")), ("", text(0, 3))]))),
          (Inner, INNER), (Outer, field("struct", parts=[dict(name="inner", field=INNER), dict(name="numbers", field=field("list", parts=members(None, [("", field("int"))]))),
                                                        dict(name="moment", field=field("datetime")), dict(name="maybe", field=field("uuid", nullable=True))])),
          (Other, field("int")), (OtherUuid, field("uuid")), (OtherText, text(0, 9))] + MOMENTS + ENUMS)
LISTED = [p for p in PLAIN if p[1]["kind"] not in ("union", "list", "decimal")]  # decimals have no JSON representation
IMPOSSIBLE = [(bytes, field("bytes")), (datetime.timedelta, field("interval")), (dict, field("dict")), (object, field("object")), (complex, field("complex")),
              (list[bytes], field("list", parts=members(None, [("", field("bytes"))])))]
KEYS = [(int, field("int", primary=True)), (uuid.UUID, field("uuid", primary=True)), (int32, field("int", primary=True)), (int64, field("int", primary=True))]


def make(r, impossible=False):
    """A random class: (class, fields)"""
    fields = []
    typ, f = r.choice(KEYS)
    if r.random() < 0.1 and impossible:
        typ, f = str, field("text", primary=True)
    fields.append(("id", PrimaryKey[typ] if r.random() < 0.8 else Identity[PrimaryKey[typ]] if f["kind"] == "int" else PrimaryKey[typ], f))
    for i in range(r.randint(1, 6)):
        typ, f = r.choice(PLAIN)
        x = r.random()
        if x < 0.15:
            typ, f = r.choice(LISTED)
            typ, f = list[typ], field("list", parts=members(None, [("", f)]))
        elif x < 0.2:
            typ, f = r.choice(ENUMS)
            typ, f = set[typ], field("list", distinct=True, parts=members(None, [("", f)]))
        elif x < 0.4 and f["kind"] != "union":
            typ, f = Optional[typ], dict(f, nullable=True)
        elif x < 0.45 and f["kind"] in ("text", "int"):
            typ = Unique[typ]
        elif x < 0.5 and f["kind"] in ("text", "int"):
            typ = Union[typ, DefaultTag]
        fields.append(("f%d" % i, typ, f))
    if impossible and fields[0][2]["kind"] != "text":
        typ, f = r.choice(IMPOSSIBLE)
        fields.insert(r.randint(1, len(fields)), ("x", typ, f))
    fields = [fields[0]] + r.sample(fields[1:], len(fields) - 1)
    cls = dataclasses.make_dataclass("Sample", [(n, t) for n, t, _ in fields], namespace={"__module__": __name__})
    return cls, fields


def cell(v):
    if v is None:
        return dict(k="null", text="", n=[0, 0, 0])
    if isinstance(v, enum.Enum):
        return dict(k="enum", text=type(v).__name__ + "." + v.name, n=[0, 0, 0])
    if isinstance(v, bool):
        return dict(k="bool", text="bool:%s" % v, n=[0, 0, 0])
    if isinstance(v, int):
        return dict(k="int", text=str(v), n=pair(v))
    if isinstance(v, float):
        return dict(k="float", text=repr(v), n=[0, 0, 0])
    if isinstance(v, str):
        return dict(k="text", text="text:" + v, len=len(v), n=[0, 0, 0])
    if isinstance(v, decimal.Decimal):
        if not v.is_finite():
            return dict(k="not a number", text=str(v), n=[0, 0, 0])
        s = format(abs(v), "f")
        whole, _, frac = s.partition(".")
        return dict(k="decimal", text=s, whole=len(whole.lstrip("0")), frac=len(frac), n=[0, 0, 0])
    for cls, k in ((datetime.datetime, "datetime"), (datetime.date, "date"), (datetime.time, "time"), (uuid.UUID, "uuid"), (IPv4Address, "ipv4"), (IPv6Address, "ipv6")):
        if isinstance(v, cls):
            return dict(k=k, text=k + ":" + str(v), n=[0, 0, 0])
    if isinstance(v, dict):
        return dict(k="dict", text="", n=[0, 0, 0], items=[dict(name=str(a), value=cell(b)) for a, b in v.items()])
    if isinstance(v, (list, tuple)):
        return dict(k="list", text="", n=[0, 0, 0], items=[dict(name="", value=cell(b)) for b in v])
    return dict(k="type " + type(v).__name__, text="", n=[0, 0, 0])


def main(prop):
    ck = Check(prop, "model_checking")
    r = rng("C25")
    this = sys.modules[__name__]
    patterns = [list(p) for n in (1, 2, 3) for p in itertools.product(("lo", "hi", "mid", "any"), repeat=n)]
    traces, info = [], []
    for n in range(pick(2500, 30000)):
        impossible = n % 12 == 11
        cls, fields = make(r, impossible)
        this.Sample = cls
        count = r.choice([0, 1, 1, 2, 3, 5, 12] if n % 50 else [40, 200])
        pattern = patterns[n % len(patterns)] if n % 3 else ["any"]
        error, objects = None, []
        with stream(pattern, n):
            try:
                objects = random_objects(cls, count)
            except Exception as e:
                error = describe(e)
        traces.append(dict(fields=[dict(name=a, field=f) for a, _, f in fields], count=count, error=error is not None,
                           objects=[[cell(getattr(o, a)) for a, _, _ in fields] if type(o) is cls else [dict(k="not an object", text="", n=[0, 0, 0])] * len(fields) for o in objects]))
        info.append((fields, pattern, error))
    verdicts, res = tlc.check_traces("Sample", traces)
    ck.tlc(res)
    for (v, step), t, (fields, pattern, error) in zip(verdicts, traces, info):
        ck.evaluated((str([(a, str(b)) for a, b, _ in fields]), str(pattern), t["count"]))
        if v != "OK":
            what = [str(b) for a, b, _ in fields if v == "value: " + a]
            ck.violation("%s %s%s, stream %s" % (v, what[0] if what else "", " (%s)" % error if error else "", pattern),
                         dict(fields=[(a, str(b)) for a, b, _ in fields], count=t["count"], step=step, object=t["objects"][step - 1:step]))
    ck.add("traces_validated_against_impl", len(traces))
    ck.sample(dict(fields=[(a, str(b)) for a, b, _ in info[5][0]], stream=info[5][1], objects=traces[5]["objects"][:1]))
    ck.assumptions = ["values of nested types are their JSON representation", "keys of other classes are not looked up: a reference is a value of the type of the key"]
    return ck
