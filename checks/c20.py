"""C20: tab-separated files.  spec/Tsv.tla builds classes, field mappings and records with the symbols a file must have; each is
written by the real TextWriter and read by the real readers, synchronous and asynchronous."""
import asyncio, dataclasses, datetime, decimal, enum, io, ipaddress, json, sys, uuid
from typing import Annotated, Any, Literal, Optional, Union
from report import Check, describe
from env import rng, pick
import tlc
from strong_typing.auxiliary import MaxLength, int16, int64, float64
from pysqlsync.data.exchange import AsyncTextReader, TextReader, TextWriter, fields_to_types
from pysqlsync.model.key_types import PrimaryKey, Unique, Identity

BYTE = dict(tab=b"\t", lf=b"\n", cr=b"\r", nul=b"\0", vt=b"\v", ff=b"\f", bs=b"\b", space=b" ", backslash=b"\\", a=b"a", N=b"N", n=b"n")
BYTE["0"] = b"0"
ESC = dict(tab=b"t", lf=b"n", cr=b"r", nul=b"0", vt=b"v", ff=b"f", bs=b"b")
NONASCII = ["\u00e9", "\u4e16", "\U0001f600", "\u0085", "\u2028", "\u00a0", '"', "'", ",", "\x1a", "\x1f"]


class Color(enum.Enum):
    RED = "red"
    DARK_BLUE = "dark\tblue"


@dataclasses.dataclass
class Target:
    id: PrimaryKey[int]
    name: str


@dataclasses.dataclass
class Other:
    id: PrimaryKey[uuid.UUID]


U = [uuid.UUID("12345678-9abc-def0-1234-56789abcdef0"), uuid.UUID(int=1)]
# type, two values, the values read back, the plain type of the column in the file
TYPES = [
    (int, [0, -17], None, int), (int, [2 ** 63 - 1, -2 ** 63], None, int), (int16, [-32768, 7], None, int), (int64, [1, 2], None, int),
    (PrimaryKey[int], [1, 10], None, int), (Unique[int], [3, 4], None, int), (PrimaryKey[Identity[int]], [5, 6], None, int),
    (bool, [True, False], None, bool), (float, [1.5, -0.1], None, float), (float64, [1e300, 0.0], None, float),
    (decimal.Decimal, [decimal.Decimal("1.20"), decimal.Decimal("-100000000000000000000.5")], None, decimal.Decimal),
    (datetime.datetime, [datetime.datetime(2020, 1, 2, 3, 4, 5), datetime.datetime(1999, 12, 31, 23, 59, 59, 999999)], None, datetime.datetime),
    (datetime.date, [datetime.date(2024, 2, 29), datetime.date(1, 1, 1)], None, datetime.date),
    (datetime.time, [datetime.time(1, 2, 3), datetime.time(23, 59, 59, 10)], None, datetime.time),
    (uuid.UUID, U, None, uuid.UUID),
    (ipaddress.IPv4Address, [ipaddress.IPv4Address("10.0.0.1"), ipaddress.IPv4Address("255.255.255.255")], None, ipaddress.IPv4Address),
    (ipaddress.IPv6Address, [ipaddress.IPv6Address("::1"), ipaddress.IPv6Address("2001:db8::1")], None, ipaddress.IPv6Address),
    (Union[ipaddress.IPv4Address, ipaddress.IPv6Address], [ipaddress.IPv4Address("1.2.3.4"), ipaddress.IPv6Address("::1")], None,
     Union[ipaddress.IPv4Address, ipaddress.IPv6Address]),
    (bytes, [b"\x00\xff\t\n\\N", b""], None, bytes), (bytes, [b"\\", b"\\\\t"], None, bytes),
    (Color, [Color.RED, Color.DARK_BLUE], ["red", "dark\tblue"], str), (Union[Color, str], ["red", "\\N"], None, str),
    (Literal["x", "y\n"], ["x", "y\n"], None, str), (Literal[1, 2], [1, 2], None, int),
    (list[str], [["a\t\n", "b\\"], []], None, list), (list[int], [[1, 2], [3]], None, list),
    (dict[str, str], [{"k\t": "v\n"}, {}], None, dict), (dict[str, int], [{"k": 1}, {"\u00e9": 2}], None, dict),
    (Target, [1, 2], None, int), (Other, U, None, uuid.UUID), (Annotated[str, MaxLength(20)], ["a b", "tab\there"], None, str),
    (PrimaryKey[str], ["k1", "\\"], None, str), (Annotated[decimal.Decimal, "d"], [decimal.Decimal(3), decimal.Decimal("0.001")], None, decimal.Decimal),
]
NULLABLE = [x for x in TYPES if x[0] != PrimaryKey[Identity[int]]]
TEXT = [str, str, Annotated[str, MaxLength(255)], Unique[str]]
OPTTEXT = [Optional[str], Optional[Annotated[str, MaxLength(50)]], Annotated[Optional[str], "note"]]


def optional(t):
    return Optional[t]


class Stream:
    def __init__(self, data):
        self.b = io.BytesIO(data)

    async def readline(self, limit=-1):
        await asyncio.sleep(0)
        return self.b.readline(limit)


async def read_async(data, types):
    r = AsyncTextReader(Stream(data), types)
    await r.read_header()
    one = await r.read_records()
    q = AsyncTextReader(Stream(data), types)
    await q.read_header()
    two = [x async for x in q.records()]
    return r.columns, r.field_types, one, q.columns, q.field_types, two


def text(t, na):
    return b"".join(na if c == "nonascii" else BYTE[c] for c in t).decode("utf-8")


def symbols(file, names, na):
    "The bytes a file must have; None for values of other types"
    out = []
    for s in file:
        if s == "TAB":
            out.append(b"\t")
        elif s == "LF":
            out.append(b"\n")
        elif s == "\\":
            out.append(b"\\")
        elif s.startswith("e:"):
            out.append(ESC[s[2:]])
        elif s.startswith("v:"):
            out.append(None)
        elif ":" in s:
            out.append(names[int(s.split(":")[1])].encode("utf-8"))
        else:
            out.append(na if s == "nonascii" else BYTE[s])
    return out


def same_bytes(want, got):
    pos, i = 0, 0
    while i < len(want):
        w = want[i]
        if w is None:
            ends = [e for e in (got.find(b"\t", pos), got.find(b"\n", pos)) if e >= 0]
            if not ends:
                return False
            pos = min(ends)
        elif got[pos:pos + len(w)] != w:
            return False
        else:
            pos += len(w)
        i += 1
    return pos == len(got)


def replay(ck, case, rnd, k):
    na = rnd.choice(NONASCII).encode("utf-8")
    if rnd.random() < .004:
        na *= rnd.choice([5000, 40000])        # long lines
    kinds = case["cols"]
    fields, values, types = [], {}, {}
    pool = ["id", "name", "Value", "x_1", "created", "code2", "_y", "select"]
    rnd.shuffle(pool)
    for i, kind in enumerate(kinds, 1):
        if kind in ("text", "opttext"):
            t, types[i] = rnd.choice(TEXT if kind == "text" else OPTTEXT), str
        else:
            t, vals, back, types[i] = rnd.choice(TYPES if kind == "other" else NULLABLE)
            values[i] = (vals, back or vals)
            if kind == "optother":
                t = optional(t)
        fields.append((pool[i - 1], t))
    cls = dataclasses.make_dataclass("Sample", fields, namespace={"__module__": __name__})
    names = {i: n for i, (n, _) in enumerate(fields, 1)}
    mapping = None
    if case["naming"] == "same":
        mapping = {names[i]: names[i] for i in case["map"]}
    elif case["naming"] == "renamed":
        target = {i: rnd.choice(["f%d", "key.%d", "a b %d", "\u00e9%d", "N%d", "%d", "f%d ", " f%d", "%d\u00a0", "#%d", "\"%d\""]) % i for i in names}
        if rnd.random() < .01:
            target = {i: n + "x" * rnd.choice([1100, 5000, 70000]) for i, n in target.items()}
        if rnd.random() < 0.3:     # names of other fields
            order = list(names)
            target = {i: names[order[(j + 1) % len(order)]] for j, i in enumerate(order)}
        mapping = {names[i]: target[i] for i in case["map"]}
        names = {i: target[i] for i in names}

    def cell(i, c, back):
        if c["k"] == "null":
            return None
        if c["k"] == "text":
            return text(c["t"], na)
        return values[i][1 if back else 0][c["n"] - 1]
    objects = [cls(*[cell(i, c, False) for i, c in enumerate(row, 1)]) for row in case["rows"]]
    want_rows = [tuple(cell(i, row[i - 1], True) for i in case["map"]) for row in case["rows"]]
    want_cols = tuple(names[i] for i in case["map"])
    want_types = tuple(types[i] for i in case["map"])
    stream = io.BytesIO()
    w = TextWriter(stream, cls, mapping) if mapping is not None else TextWriter(stream, cls)
    at = 0
    for n in case["calls"]:
        w.write_objects(objects[at:at + n])
        at += n
    data = stream.getvalue()
    info = dict(fields=[(n, str(t)) for n, t in fields], mapping=mapping, rows=repr(objects), file=repr(data))
    if not same_bytes(symbols(case["file"], names, na), data):
        ck.violation("the file does not have the form of tab-separated values", info)
    nt = fields_to_types(cls, mapping) if mapping is not None else fields_to_types(cls)
    r = TextReader(io.BytesIO(data), nt)
    got = [("read_records", r.columns, r.field_types, list(r.read_records()))]
    q = TextReader(io.BytesIO(data), nt)
    got.append(("records", q.columns, q.field_types, list(q.records())))
    if k % 4 == 0 or len(data) > 4000:
        a = LOOP.run_until_complete(read_async(data, nt))
        got += [("async read_records",) + a[:3], ("async records",) + a[3:]]
    if k % 4 == 1 and not data.endswith(b"\n\n"):
        # the line break after the last record may be missing
        r, q = TextReader(io.BytesIO(data[:-1]), nt), TextReader(io.BytesIO(data[:-1]), nt)
        got += [("read_records without last line break", r.columns, r.field_types, list(r.read_records())), ("records without last line break", q.columns, q.field_types, list(q.records()))]
        a = LOOP.run_until_complete(read_async(data[:-1], nt))
        got += [("async read_records without last line break",) + a[:3], ("async records without last line break",) + a[3:]]
    for how, cols, ft, rows in got:
        if tuple(cols) != want_cols:
            ck.violation("%s: columns %r instead of %r" % (how, cols, want_cols), info)
        elif tuple(ft) != want_types:
            ck.violation("%s: types %r instead of %r" % (how, ft, want_types), info)
        elif len(rows) != len(want_rows):
            ck.violation("%s: %d records are read of %d" % (how, len(rows), len(want_rows)), info)
        elif [tuple(x) for x in rows] != want_rows or [[type(v) for v in x] for x in rows] != [[type(v) for v in x] for x in want_rows]:
            ck.violation("%s: the records read differ" % how, dict(info, got=repr(rows), want=repr(want_rows)))
    ck.evaluated(data)


LOOP = None


def main(prop):
    global LOOP
    LOOP = asyncio.new_event_loop()
    ck = Check(prop, "model_checking")
    cases, r = tlc.behaviours("Tsv", pick("Tsv", "TsvDeep"))
    ck.tlc(r)
    rnd = rng("C20")
    rounds = pick(1, 2)
    for n in range(rounds):
        for k, case in enumerate(cases):
            try:
                replay(ck, case, rnd, k)
            except Exception as e:
                ck.violation("fails: %s" % describe(e), dict(case=case))
    ck.add("traces_validated_against_impl", rounds * len(cases))
    ck.sample(cases[len(cases) // 2])
    ck.assumptions = ["tsv2py parses and generates single lines; times are naive, enumerations have string values, JSON fields hold lists or dictionaries of plain values"]
    LOOP.close()
    return ck
