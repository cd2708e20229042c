"""C24: query results.  spec/ResultSet.tla enumerates results and requests with the items expected; each is replayed in the conversion
functions, with rows in every representation, and in query_all and query_one of every dialect on driver stand-ins."""
import collections, dataclasses
from typing import Any
from report import Check, describe
from env import rng, pick
import tlc
from drivers import Server, Record, Row, session
from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_object, resultset_unwrap_tuple

SCALARS = {bool: [False, True, False, True], int: [0, 7, -1, 2 ** 40], float: [0.0, 1.5, -2.25, 1e300], str: ["", "text", "None", "\u00e9\n"]}
FIELD = {"a": "id", "b": "userName", "c": "v"}


def value(cell, scalar, n):
    """The value of an abstract cell <<row, column>>"""
    if not cell:
        return None
    r, c = cell
    pool = SCALARS[scalar]
    return pool[(r * 3 + c + n) % len(pool)] if n % 3 else ("r%dc%d" % (r, c) if scalar is str else pool[(r + c) % len(pool)])


class Answer(Server):
    def __init__(self):
        super().__init__()
        self.answer = ((), [])

    def on_query(self, sql):
        return self.answer if sql.startswith("SELECT * FROM t") else (("version",), [("16",)])


def signature(want, scalar, defaults=False, inherited=False):
    if want["k"] == "scalar":
        return scalar
    if want["k"] == "tuple":
        return tuple[tuple([scalar] * want["n"])]
    # values of the result take precedence over default values, also NULL
    fields = [(FIELD[f], Any, "default") if defaults else (FIELD[f], Any) for f in want["fields"]]
    if inherited:
        # the first fields are declared in a base class
        k = (len(fields) + 1) // 2
        return dataclasses.make_dataclass("Item", fields[k:], bases=(dataclasses.make_dataclass("Base", fields[:k]),))
    return dataclasses.make_dataclass("Item", fields)


def outcome(call):
    try:
        return ("items", call())
    except Exception as e:
        return ("error", describe(e))


def same(want, got, items, cls):
    """Compares the items found with those expected, values and their types"""
    if not isinstance(got, list):
        return False
    if len(got) != len(items):
        return False
    for g, i in zip(got, items):
        if want["k"] == "scalar":
            ok = type(g) is type(i) and g == i
        elif want["k"] == "tuple":
            ok = isinstance(g, tuple) and tuple(g) == i and [type(x) for x in g] == [type(x) for x in i]
        else:
            ok = type(g) is cls and all(getattr(g, FIELD[f]) == v and type(getattr(g, FIELD[f])) is type(v) for f, v in zip(want["fields"], i))
        if not ok:
            return False
    return True


def judge(ck, case, where, got, items, cls):
    kind = case["outcome"]
    ck.evaluated((where, str(case["columns"]), str(case["want"]), str(case["rows"])))
    if kind == "unspecified":
        return
    if kind == "error":
        if got[0] != "error":
            ck.violation("%s: a result of %s is accepted as %s" % (where, case["columns"], case["want"]), dict(case=case, got=str(got)))
    elif got[0] == "error":
        ck.violation("%s: a result of %s cannot be had as %s: %s" % (where, case["columns"], case["want"], got[1]), case)
    elif not same(case["want"], got[1], items, cls):
        ck.violation("%s: a result of %s as %s: %s instead of %s" % (where, case["columns"], case["want"], str(got[1])[:150], str(items)[:150]), case)


def main(prop):
    ck = Check(prop, "model_checking")
    cases, res = tlc.behaviours("ResultSet", pick("ResultSet", "ResultSetDeep"))
    ck.tlc(res)
    rnd = rng("C24")
    work = []
    for n, case in enumerate(cases):
        scalar = list(SCALARS)[n % 4]
        val = lambda cell: value(cell, scalar, n)
        names = [FIELD[c] for c in case["columns"]]
        rows = [tuple(val(x) for x in r) for r in case["rows"]]
        want = case["want"]
        cls = signature(want, scalar, defaults=n % 3 == 0 and case["outcome"] == "items", inherited=n % 5 < 2)
        items = [val(i) if want["k"] == "scalar" else tuple(val(x) for x in i) for i in case["items"]]
        work.append((case, names, rows, cls, items))
        shape = {"tuple": lambda r: tuple(r), "list": list, "record": lambda r: Record(names, r), "dict": lambda r: dict(zip(names, r)), "object": lambda r: Row(names, r)}[case["repr"]]
        records = [shape(r) for r in rows]
        if want["k"] == "tuple" and case["repr"] == "tuple" and n % 2:
            records = [collections.namedtuple("Named", ["f%d" % i for i in range(len(names))])(*r) for r in rows]
        source = [records, tuple(records), iter(records), (x for x in records)][rnd.randrange(4)]
        if want["k"] == "class" and case["repr"] == "dict":
            judge(ck, case, "dict rows", outcome(lambda: resultset_unwrap_dict(cls, source)), items, cls)
        elif want["k"] == "class" and case["repr"] == "object":
            judge(ck, case, "object rows", outcome(lambda: resultset_unwrap_object(cls, source)), items, cls)
        elif want["k"] != "class":
            judge(ck, case, "%s rows" % case["repr"], outcome(lambda: resultset_unwrap_tuple(cls, source)), items, cls)
    # the same through connections
    distinct = [w for w in work if w[0]["repr"] == "tuple"]
    for d in ("postgresql", "mysql", "mssql", "oracle", "redshift", "trino"):
        server = Answer()

        async def body(ctx, conn):
            for case, names, rows, cls, items in distinct:
                if d == "trino" and case["want"]["k"] == "class":
                    continue        # not supported
                # Oracle reports names that are not quoted in upper case
                server.answer = ([x.upper() for x in names] if d == "oracle" and rnd.random() < 0.5 else names, rows)
                try:
                    got = ("items", await ctx.query_all(cls, "SELECT * FROM t"))
                except Exception as e:
                    got = ("error", describe(e))
                judge(ck, case, d, got, items, cls)
                if case["outcome"] != "unspecified":
                    try:
                        one = ("items", [await ctx.query_one(cls, "SELECT * FROM t")])
                    except Exception as e:
                        one = ("error", describe(e))
                    first = dict(case, outcome="error" if not rows or case["outcome"] == "error" else "items")
                    judge(ck, first, d + ", one row", one, items[:1], cls)
        session(d, server, body)

        # results of many rows: what becomes of a row does not depend on the others
        async def many(ctx, conn):
            for case, names, rows, cls, items in rnd.sample([w for w in distinct if w[0]["outcome"] == "items" and w[2]], 24):
                if d == "trino" and case["want"]["k"] == "class":
                    continue
                times = rnd.choice([60, 101, 260, 1100, 2600])
                server.answer = (names, rows * times)
                try:
                    got = ("items", await ctx.query_all(cls, "SELECT * FROM t"))
                except Exception as e:
                    got = ("error", describe(e))
                judge(ck, case, "%s, %d rows" % (d, len(rows) * times), got, items * times, cls)
        session(d, server, many)
    ck.add("traces_validated_against_impl", len(cases) + 5 * len(distinct))
    ck.sample(cases[len(cases) // 2])
    ck.assumptions = ["driver stand-ins of harness/drivers.py", "columns beyond the fields of a class may be an error or left out",
                      "with Oracle, a class takes columns by position when their names are not those of its fields"]
    return ck
