"""C16: scripts, statements with records and queries through the real client, with a failure at any position; what reaches
the driver and how the calls return is validated by spec/Exec.tla."""
import asyncio, dataclasses, itertools, sys
import drivers, tlc
from env import pick, rng
from report import Check, describe, raised_in_repo
from pysqlsync import base
from pysqlsync.base import GeneratorOptions, QueryException
from pysqlsync.model.key_types import PrimaryKey

THIS = sys.modules[__name__]
DIALECTS = drivers.DIALECTS + ("redshift", "trino")
SINGLE = ("oracle", "redshift")           # drivers that take one statement at a time


@dataclasses.dataclass
class Row:
    id: PrimaryKey[int]
    note: str
    more: int


def split_sql(text):
    """Statements of a script: split at semicolons outside of literals, quoted identifiers and comments; white space and
    comments around a statement are dropped"""
    out, cur, i = [], "", 0
    if text.lstrip().upper().startswith("BEGIN"):
        return [text.strip()]
    while i < len(text):
        c = text[i]
        if c in "'\"":
            j = text.find(c, i + 1)
            j = len(text) - 1 if j < 0 else j
            cur += text[i:j + 1]
            i = j + 1
        elif text.startswith("--", i):
            j = text.find("\n", i)
            i = len(text) if j < 0 else j
        elif text.startswith("/*", i):
            j = text.find("*/", i)
            i = len(text) if j < 0 else j + 2
            cur += " "
        elif c == ";":
            out.append(cur.strip())
            cur, i = "", i + 1
        else:
            cur += c
            i += 1
    out.append(cur.strip())
    return [s for s in out if s]


def ascii_(s):
    return s.encode("ascii", "backslashreplace").decode()


class Flaky(drivers.Server):
    """Runs what reaches it statement by statement and fails at the given one"""

    def __init__(self, d):
        super().__init__()
        self.d, self.steps, self.fail_at, self.n, self.live = d, [], None, 0, False

    def on_open(self):
        if self.live:
            self.steps.append(dict(k="open"))

    def on_commit(self):
        if self.live and self.steps[-1]["k"] == "open":
            self.steps.append(dict(k="commit"))

    def run(self, s, lo=0, hi=0):
        if not self.live:
            return
        self.n += 1
        ok = self.n != self.fail_at
        self.steps.append(dict(k="run", s=ascii_(s), lo=lo, hi=hi, ok=ok))
        if not ok:
            kinds = (drivers.STATEMENT_ERRORS[self.d],) * 3 + OTHER_ERRORS
            self.error = kinds[(len(self.steps) + lo) % len(kinds)]("planted failure")
            raise self.error

    def on_execute(self, sql):
        if not self.live:
            return
        stmts = split_sql(sql)
        if self.d in SINGLE and not sql.startswith("BEGIN"):
            if len(stmts) > 1 or not stmts:
                return self.run("[%d statements at once] %s" % (len(stmts), sql))
            if self.d == "oracle" and sql.rstrip().endswith(";"):
                return self.run("[terminated] " + sql)
        for s in stmts:
            self.run(s)

    def records(self, sql, rows):
        if not self.live:
            return
        ids = [r[0] for r in rows]
        if ids and ids == list(range(ids[0], ids[0] + len(ids))):
            self.run(sql, ids[0], ids[-1])
        else:
            self.run(sql, 0, len(ids) + 1000)

    def on_executemany(self, sql, rows):
        self.records(" ".join(split_sql(sql)), rows)

    def on_copy(self, schema, table, columns, rows):
        self.records("copy", rows)

    def on_query(self, sql):
        if "@@VERSION" in sql:
            return ("version",), [("x",)]
        for s in split_sql(sql):
            self.run(s)
        return ("n",), [(1,), (2,)]


# what a driver or the network below it may raise besides its own errors
OTHER_ERRORS = (ConnectionResetError, ValueError, RuntimeError, OSError, KeyError)
BODIES = ["CREATE TABLE t%d (a int)", "INSERT INTO t VALUES (%d, 'it''s; fine')", "COMMENT ON TABLE t IS 'ends with a semicolon;\nsecond %d line;\n'",
          "ALTER TABLE \"we;ird\" ADD (c%d int)", "UPDATE t SET a = 'multi\nline' WHERE b = %d", "COMMENT ON COLUMN t.c IS 'quote '' and \" %d;\n'",
          "DROP TABLE\n  t%d\n  CASCADE", "COMMENT ON TABLE \"a\" IS '\u00e9;%d'", "SELECT_INTO x%d -- it's a comment;\n FROM t", "/* note; \n' */ TRUNCATE TABLE t%d",
          "COMMENT ON TABLE t%d IS 'BEGIN here;\nEND;\n'", "GRANT x%d TO \"a;\n b\""]


def script(r, k):
    bodies = [r.choice(BODIES) % r.randrange(100) for _ in range(k)]
    text = "".join(b + r.choice([";\n", ";\n", ";\n\n", ";\n  ", "; \n", ";\r\n"]) for b in bodies)
    if r.random() < .3:
        text = text.rstrip().rstrip(";")
    elif r.random() < .5:
        text = text.rstrip()
    return text, [split_sql(b)[0] for b in bodies]


BLANKS = ["", " ", "\n", "\t \r\n", "   \n  "]


def how(e):
    if e is None:
        return dict(k="ret", err="none", stmts=[], cause=True)
    stmts = [ascii_(s) for s in split_sql(e.query)] if isinstance(e, QueryException) else []
    if isinstance(e, QueryException):
        err = "query"
    elif isinstance(e, ValueError):
        err = "value"
    else:
        err = "other: " + describe(e)
    return dict(k="ret", err=err, stmts=stmts, cause=False)


async def one(ctx, server, r, d, op, k, fail):
    """One call, with the failure at the given statement or batch"""
    server.n, server.fail_at, server.error = 0, fail, None
    n, size = 0, 100000
    stmts, blank, wraps, batched = [], False, True, False
    if op == "blank":
        blank = True
        text = r.choice(BLANKS)
        which = r.choice(["execute", "execute_all", "execute"] if d != "trino" else ["execute"])
        go = (lambda: ctx.execute(text)) if which == "execute" else (lambda: ctx.execute_all(text, [(1, "x", 2)]))
        op = which
    elif op == "execute":
        text, stmts = script(r, k)
        if d == "oracle" and r.random() < .1:
            text = "BEGIN\n EXECUTE IMMEDIATE 'DROP TABLE t; ';\nEND;"
            stmts = [text]
        go = lambda: ctx.execute(text)
    elif op == "query":
        text = "SELECT a%d, ';' FROM t" % r.randrange(100)
        stmts = [text]
        if r.random() < .3:
            text = "\n  " + text + "\n"
        go = (lambda: ctx.query_all(int, text)) if r.random() < .7 else (lambda: ctx.query_one(int, text))
    else:
        batched = True
        size = r.choice([1, 2, 3, 100000])
        n = r.choice([0, k, k, 2 * k])
        rows = [(i + 1, "n%d" % i, i) for i in range(n)]
        src = rows
        if r.random() < .4:
            src = (x for x in rows)
        elif r.random() < .4:
            async def agen():
                for x in rows:
                    await asyncio.sleep(0)
                    yield x
            src = agen()
        if op == "execute_all":
            text = "INSERT INTO t (a, b, c) VALUES (?, ?, ';')" + r.choice(["", ";", ";\n"])
            stmts = split_sql(text)
            go = lambda: ctx.execute_all(text, src)
        elif op == "rows":
            wraps = False
            table = ctx.get_table(Row)
            f = ctx.insert_rows if r.random() < .5 else ctx.upsert_rows
            if d == "redshift":
                f = ctx.upsert_rows
            if d == "redshift":
                return
            go = lambda: f(table, src, field_types=(int, str, int))
        else:
            if d == "redshift":
                return
            wraps = False
            objs = [Row(*x) for x in rows]
            g = objs if r.random() < .5 else (x for x in objs)
            f = ctx.insert_data if r.random() < .5 else ctx.upsert_data
            go = lambda: f(Row, g)
    server.steps.append(dict(k="call", op=op, blank=blank, stmts=[ascii_(s) for s in stmts], recs=n, wraps=wraps, batched=batched))
    keep = getattr(base, "BATCH_SIZE", None)
    base.BATCH_SIZE = size
    server.live = True
    exc = None
    try:
        await go()
    except Exception as e:
        if not raised_in_repo(e) and e is not server.error:
            raise
        exc = e
    finally:
        base.BATCH_SIZE = keep
        server.live = False
    ret = how(exc)
    c = exc
    while c is not None:
        if c is server.error:
            ret["cause"] = True
        c = c.__cause__
    server.steps.append(ret)


def record(d, r, plan):
    server = Flaky(d)

    async def body(ctx, conn):
        await ctx.create_objects([Row])
        for op, k, fail in plan:
            await one(ctx, server, r, d, op, k, fail)
    drivers.session(d, server, body, options=GeneratorOptions(namespaces={THIS: "ns"}))
    return dict(steps=server.steps)


def main(prop):
    ck = Check(prop, "model_checking")
    ck.assumptions += ["a driver runs the statements of a script it is handed in order and stops at the first that fails"]
    items = []
    for d in DIALECTS:
        r = rng(prop, d)
        ops = ["execute", "execute_all", "query", "rows", "data"] if d != "trino" else ["execute", "query"]
        # every number of statements with a failure at every position, then another call on the same connection
        for op in ops:
            for k in range(1, pick(5, 8)):
                for fail in [None] + list(range(1, k + 1)):
                    for _ in range(pick(3, 40)):
                        items.append((d, record(d, r, [(op, k, fail), ("execute", 2, None)]), (d, op, k, fail)))
        for _ in range(pick(60, 2000)):
            plan = [(r.choice(ops + ["blank"]), r.randrange(1, 6), r.choice([None, None, 1, 2, 3, 5])) for _ in range(r.randrange(1, 6))]
            items.append((d, record(d, r, plan), (d,) + tuple(plan)))
        for b in range(len(BLANKS)):
            items.append((d, record(d, r, [("blank", 1, None)] * 3), (d, "blank", b)))
    for k in range(0, len(items), 4000):
        part = items[k:k + 4000]
        verdicts, res = tlc.check_traces("Exec", [t for _, t, _ in part])
        ck.tlc(res)
        for (d, t, key), (verdict, step) in zip(part, verdicts):
            if verdict == "skipped":
                continue
            ck.add("traces_validated_against_impl")
            ck.evaluated(key)
            if verdict.startswith("harness:"):
                raise tlc.MachineryError("%s at step %d of %s" % (verdict, step, t))
            if verdict == "ok":
                ck.sample(dict(dialect=d, steps=t["steps"][:6]))
            else:
                ck.violation("%s: %s" % (d, verdict), dict(step=step, trace=t))
    return ck
