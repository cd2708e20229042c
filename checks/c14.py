"""C14: records from sources of every kind and length through the real client; reads from the source and batches at the driver
are validated by spec/Batch.tla."""
import asyncio, dataclasses, enum, sys, uuid
from typing import Optional, Union
import dml, drivers, tlc
from data_checks import Store, tok
from env import pick, rng
from report import Check, describe, raised_in_repo
from pysqlsync import base
from pysqlsync.base import GeneratorOptions
from pysqlsync.model.key_types import PrimaryKey

THIS = sys.modules[__name__]
REAL = getattr(base, "BATCH_SIZE", 100000)


class Kind(enum.Enum):
    A = "a"
    B = "b"


@dataclasses.dataclass
class Item:
    id: PrimaryKey[int]
    u: Optional[uuid.UUID]
    note: str
    kind: Union[Kind, str]
    more: Optional[int]


class SourceError(Exception):
    pass


class Sink(Store):
    def __init__(self, d):
        super().__init__(d, {"ns.Kind" if d in ("postgresql", "mssql") else "ns__Kind": []})
        self.steps, self.long, self.live, self.fields = [], False, False, []

    def batch(self, rows):
        if self.long:
            ids = [r[0] for r in rows]
            lo = ids[0] if ids else 0
            same = ids == list(range(lo, lo + len(ids)))
            self.steps.append(dict(k="send", lo=lo if same else 0, hi=ids[-1] if same and ids else len(ids) - 1, rows=[]))
        else:
            self.steps.append(dict(k="send", lo=0, hi=-1, rows=[[tok(v) for v in (r if isinstance(r, (tuple, list)) else ["not a record: %r" % (r,)])] for r in rows]) if rows else dict(k="send", lo=1, hi=0, rows=[]))

    def on_executemany(self, sql, rows):
        st = dml.parse(self.d, sql)
        if st["table"] in self.rows:
            super().on_executemany(sql, rows)
        elif self.live:
            if st["op"] in ("insert", "merge") and len(st["cols"]) == len(st["pars"]) == len(set(st["pars"])):
                where = {c: p - 1 for c, p in zip(st["cols"], st["pars"])}
                if set(where) == set(self.fields):
                    rows = [tuple(r[where[f]] for f in self.fields) if len(r) == len(where) else r for r in rows]
            self.batch(rows)

    def on_copy(self, schema, table, columns, rows):
        where = {c: p for p, c in enumerate(columns)}
        if set(where) == set(self.fields):
            rows = [tuple(r[where[f]] for f in self.fields) if len(r) == len(where) else r for r in rows]
        self.batch(rows)

    def on_query(self, sql):
        names, rows = super().on_query(sql)
        if self.live and set(names) == {"id", "value"}:
            self.steps.append(dict(k="ids", pairs=[[r[list(names).index("value")], r[list(names).index("id")]] for r in rows]))
        return names, rows

    def read(self, i):
        last = self.steps[-1] if self.steps else None
        if last is not None and last["k"] == "read" and last["hi"] == i - 1:
            last["hi"] = i
        else:
            self.steps.append(dict(k="read", lo=i, hi=i))


def make_source(kind, sink, rows, fails, r):
    """The same records from sources of every kind; reads are logged by those that can"""
    def gen():
        for i, x in enumerate(rows):
            sink.read(i + 1)
            yield x
        if fails:
            raise SourceError("planted")

    async def agen():
        for i, x in enumerate(rows):
            if len(rows) < 50 and i % 3 == 0:
                await asyncio.sleep(0)
            sink.read(i + 1)
            yield x
        if fails:
            raise SourceError("planted")

    class Again:
        "can be iterated over many times"

        def __iter__(self):
            return gen()

    class Measured(Again):
        def __len__(self):
            return len(rows)

    class AsyncAgain:
        def __aiter__(self):
            return agen()
    if kind in ("list", "tuple"):
        if rows:
            sink.steps.append(dict(k="read", lo=1, hi=len(rows)))
        return rows if kind == "list" else tuple(rows)
    return {"generator": gen, "iterable": Again, "sized": Measured, "asyncgen": agen, "asynciterable": AsyncAgain}[kind]()


KINDS = ["list", "tuple", "generator", "iterable", "sized", "asyncgen", "asynciterable"]
FIELDS = ["id", "u", "note", "kind", "more"]


def effective():
    """Whether the limit can be lowered for a test at all"""
    async def go():
        base.BATCH_SIZE = 1
        try:
            return [len(b) async for b in base.to_data_source([(i,) for i in range(50)]).batches()]
        finally:
            base.BATCH_SIZE = REAL
    try:
        return max(drivers.run(go())) < 50
    except Exception:
        return True


PIPES = ("SelectorDataSource", "TransformerDataSource", "SelectorTransformerDataSource", "ScalarTransformer", "to_data_source")


def pipe(r, src):
    """A source behind up to three selections and transformations, and the fields it delivers"""
    cols = [(f, "same") for f in FIELDS]
    out = base.to_data_source(src)
    for _ in range(r.randrange(4)):
        kind = r.choice(PIPES[:3])
        at = list(range(len(cols)))
        if kind != PIPES[1]:
            at = [r.randrange(len(cols)) for _ in range(r.choice([1, 1, 2, 3, 5]))]
            cols = [cols[k] for k in at]
        fns = []
        if kind != PIPES[0]:
            for k, (f, fn) in enumerate(cols):
                if f == "u" and fn == "same" and r.random() < .6:
                    fns.append(base.ScalarTransformer(lambda v: v.bytes if isinstance(v, uuid.UUID) else "not a UUID: %r" % (v,)))
                    cols[k] = (f, "bytes")
                else:
                    fns.append(base.ScalarTransformer(r.choice([None, lambda v: v])))
        args = {PIPES[0]: (out, at), PIPES[1]: (out, fns), PIPES[2]: (out, at, fns)}[kind]
        out = getattr(base, kind)(*args)
    return out, cols


async def one(ctx, sink, r, d, how, kind, n, limit, fails, long):
    bytes_ = "same" if d == "postgresql" else "bytes"
    note = lambda i: "n%d" % (i % 7)
    objs = [(i, None if i % 3 == 0 else uuid.UUID(int=i), note(i), r.choice(["a", "b", "new %d" % (i % 4)]), None if i % 2 else i) for i in range(1, n + 1)]
    if kind in ("asyncgen", "asynciterable") and how in ("insert_data", "upsert_data", "delete_rows", "delete_data"):
        kind = "generator"
    if fails and kind in ("list", "tuple"):
        kind = "generator"
    if kind == "sized" and n == 0:
        fails = False
    cols = [(f, {"u": bytes_, "kind": "id"}.get(f, "same")) for f in FIELDS]
    sink.steps, sink.long, sink.fields = [], long, [c for c, _ in cols]
    if how == "execute_all":
        rows = objs
        cols = [(f, "same") for f in FIELDS]
        src = make_source(kind, sink, rows, fails, r)
        go = lambda: ctx.execute_all("INSERT INTO x (id, u, note, kind, more) VALUES (?, ?, ?, ?, ?);", src)
        sink.fields = []
    elif how in ("pipe", "held"):
        out, cols = pipe(r, make_source(kind, sink, objs, fails, r))
        if how == "pipe":
            text = "INSERT INTO x (%s) VALUES (%s);" % (", ".join("c%d" % k for k in range(len(cols))), ", ".join("?" for _ in cols))
            go = lambda: ctx.execute_all(text, out)
        else:
            async def go():
                # batches that are looked at when all of them are there
                for b in [b async for b in out.batches()]:
                    sink.batch(b)
        sink.fields = []
    elif how in ("insert_rows", "upsert_rows"):
        order = list(FIELDS)
        types = dict(id=int, u=uuid.UUID, note=str, kind=str, more=int)
        if r.random() < .7:
            r.shuffle(order)
        omit = {f for f in ("u", "more") if r.random() < .4}
        names = tuple("" if f in omit else f for f in order)
        at = [FIELDS.index(f) for f in order]
        rows = [tuple(x[k] for k in at) for x in objs]
        sink.fields = [f for f in FIELDS if f not in omit]
        cols = [c for c in cols if c[0] not in omit]
        src = make_source(kind, sink, rows, fails, r)
        f = getattr(ctx, how)
        go = lambda: f(ctx.get_table(Item), src, field_types=tuple(types[f] for f in order), field_names=names)
    elif how in ("insert_data", "upsert_data"):
        src = make_source(kind, sink, [Item(*x) for x in objs], fails, r)
        f = getattr(ctx, how)
        go = lambda: f(Item, src)
    else:
        sink.fields, cols = [], [("id", "same")]
        src = make_source(kind, sink, [x[0] for x in objs], fails, r)
        go = (lambda: ctx.delete_rows(ctx.get_table(Item), int, src)) if how == "delete_rows" else (lambda: ctx.delete_data(Item, src))
    base.BATCH_SIZE = limit
    sink.live = True
    err = ""
    try:
        await go()
    except Exception as e:
        c = e
        while c.__cause__ is not None:
            c = c.__cause__
        if not isinstance(c, SourceError) and not raised_in_repo(e):
            raise
        err = "source" if isinstance(c, SourceError) else describe(c)
    finally:
        base.BATCH_SIZE = REAL
        sink.live = False
    sink.steps.append(dict(k="ret", err=err))
    recs = [] if long else [[tok(v) for v in x] for x in objs]
    return dict(n=n, limit=limit, fails=fails, cols=[dict(src=FIELDS.index(f) + 1, fn=fn) for f, fn in cols], recs=recs, steps=sink.steps)


HOW = ["execute_all", "insert_rows", "upsert_rows", "insert_data", "upsert_data", "delete_rows", "delete_data"]


def main(prop):
    ck = Check(prop, "model_checking")
    items = []
    hows = HOW + (["pipe", "held"] if all(hasattr(base, x) for x in PIPES) else [])
    for d in drivers.DIALECTS:
        r = rng(prop, d)
        small = effective()
        plans = []
        if small:
            for how in hows:
                for n in range(pick(7, 10)):
                    for limit in range(1, pick(4, 6)):
                        plans.append((how, r.choice(KINDS), n, limit, r.random() < .1, False))
            for _ in range(pick(150, 6000)):
                plans.append((r.choice(hows), r.choice(KINDS), r.randrange(13), r.randrange(1, 8), r.random() < .15, False))
        else:
            for _ in range(300):
                plans.append((r.choice(hows), r.choice(KINDS), r.randrange(13), REAL, r.random() < .15, False))
        # around multiples of the real limit
        L = REAL if 1000 <= REAL <= 250000 else 100000
        lengths = [L - 1, L, L + 1, 2 * L, 2 * L + 1] if pick(0, 1) else [r.choice([L - 1, L]), r.choice([L + 1, 2 * L])]
        for n in lengths:
            for kind in pick([r.choice(KINDS)], KINDS):
                plans.append((r.choice(["execute_all", "insert_rows"]) if not pick(0, 1) else r.choice(HOW), kind, n, REAL, False, True))

        async def body(ctx, conn):
            await ctx.create_objects([Item])
            for how, kind, n, limit, fails, long in plans:
                t = await one(ctx, sink, r, d, how, kind, n, limit, fails, long)
                items.append((d, t, (d, how, kind, n, limit, fails)))
        sink = Sink(d)
        drivers.session(d, sink, body, options=GeneratorOptions(namespaces={THIS: "ns"}))
    verdicts, res = tlc.check_traces("Batch", [t for _, t, _ in items])
    ck.tlc(res)
    for (d, t, key), (verdict, step) in zip(items, verdicts):
        if verdict == "skipped":
            continue
        ck.add("traces_validated_against_impl")
        ck.evaluated(key)
        if verdict == "ok":
            ck.sample(dict(case=key, steps=t["steps"][:5]))
        else:
            ck.violation("%s %s: %s" % (d, key[1], verdict), dict(step=step, case=key, trace=t))
    return ck
