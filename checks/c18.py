"""C18: the dialect registry and the independence of generators.  Every history that spec/Registry.tla admits within its
bounds is replayed in the real registry; availability of bundled dialects is decided by spec/Availability.tla."""
import dataclasses, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from report import Check, describe
from env import REPO, TIER
import tlc
from pysqlsync import factory
from pysqlsync.base import BaseEngine, GeneratorOptions
from pysqlsync.connection import ConnectionParameters
from pysqlsync.model.key_types import PrimaryKey

TRY = """
import sys, json
sys.path.insert(0, %r)
hidden = set(%r)
class Block:
    def find_spec(self, name, path=None, target=None):
        if name in hidden or name.split('.')[0] in hidden:
            raise ModuleNotFoundError("No module named '%%s'" %% name, name=name)
sys.meta_path.insert(0, Block())
from pysqlsync import factory
from pysqlsync.connection import ConnectionParameters
out = {}
for d in %r:
    res = []
    for use in (lambda e: e.create_generator(), lambda e: e.create_connection(ConnectionParameters(host="h")),
                lambda e: e.get_explorer_type(), lambda e: e.get_generator_type(), lambda e: e.get_connection_type()):
        try:
            e = factory.get_dialect(d)
        except Exception as x:
            res.append("lookup fails: %%s" %% type(x).__name__)
            continue
        try:
            use(e)
            res.append("available")
        except NotImplementedError:
            res.append("available")
        except RuntimeError as x:
            res.append("missing: " + str(x))
        except Exception as x:
            res.append("fails: %%s: %%s" %% (type(x).__name__, x))
        if e.name != d:
            res.append("is called " + e.name)
    out[d] = res
print("RESULT" + json.dumps(out))
"""


@dataclasses.dataclass
class A:
    id: PrimaryKey[int]
    a: str


@dataclasses.dataclass
class B:
    id: PrimaryKey[int]
    b: int


CLASSES = {"": [], "A": [A], "A,B": [A, B]}


class StubEngine(BaseEngine):
    def __init__(self, name):
        self._name = name

    @property
    def name(self):
        return self._name

    def get_generator_type(self):
        raise NotImplementedError

    get_connection_type = get_explorer_type = get_generator_type


def replay_registry(hist, original):
    engines = {"e1": StubEngine("e1"), "e2": StubEngine("e2"), "postgresql": original}
    for n in ("alpha", "Alpha", "postgresql"):
        try:
            factory.unregister_dialect(n)
        except Exception:
            pass
    factory.register_dialect("postgresql", original)
    for op in hist:
        try:
            if op["op"] == "register":
                factory.register_dialect(op["a"], engines[op["b"]])
                res = "ok"
            elif op["op"] == "unregister":
                factory.unregister_dialect(op["a"])
                res = "ok"
            else:
                e = factory.get_dialect(op["a"])
                res = next((k for k, v in engines.items() if v is e), "unknown engine %r" % e)
        except Exception as e:
            res = "error" if op["op"] == "unregister" else type(e).__name__
        if res != op["res"]:
            return "%s(%s) answers %s instead of %s" % (op["op"], ", ".join(x for x in (op["a"], op["b"]) if x), res, op["res"])
    return None


def options():
    return GeneratorOptions(namespaces={sys.modules[__name__]: None})


def tables(gen):
    names = []
    for ns in gen.state.namespaces.values():
        for t in ns.tables.values():
            names.append(t.name.local_id.split("__")[-1])
    return ",".join(sorted(names))


def replay_generators(hist, dialect):
    engine = factory.get_dialect(dialect)
    gens = {}
    for op in hist:
        g = op["a"]
        if op["op"] == "new":
            if g == "g1":
                gens[g] = engine.create_generator(options())
            elif dialect in ("delta", "snowflake"):   # these have no connection
                gens[g] = engine.create_generator(options())
            else:
                gens[g] = engine.create_connection(ConnectionParameters(host="h"), options()).generator
        elif op["op"] == "create":
            gens[g].create(tables=CLASSES[op["b"]])
        elif op["op"] == "drop":
            gens[g].drop()
        res = tables(gens[g])
        if res != op["res"]:
            return "%s: after %s(%s) generator %s describes {%s} instead of {%s}" % (dialect, op["op"], op["b"], g, res, op["res"])
    return None


def main(prop):
    ck = Check(prop, "model_checking")
    original = factory.get_dialect("postgresql")
    thorough = TIER == "thorough"
    hists, r = tlc.behaviours("Registry", "RegistryA" + ("Deep" if thorough else ""), timeout=700)
    ck.tlc(r)
    try:
        for h in hists:
            w = replay_registry(h, original)
            ck.evaluated(("r", json.dumps(h)))
            if w:
                ck.violation("registry: " + w, h)
    finally:
        for n in ("alpha", "Alpha", "postgresql"):
            try:
                factory.unregister_dialect(n)
            except Exception:
                pass
        factory.register_dialect("postgresql", original)
    ck.add("traces_validated_against_impl", len(hists))
    ck.sample(hists[len(hists) // 2])

    hists, r = tlc.behaviours("Registry", "RegistryB" + ("Deep" if thorough else ""), timeout=700)
    ck.tlc(r)
    dialects = [d for d in ("postgresql", "mysql", "mssql", "oracle", "redshift", "snowflake", "delta", "trino")]
    for i, h in enumerate(hists):
        d = dialects[i % len(dialects)]
        w = replay_generators(h, d)
        ck.evaluated(("g", d, json.dumps(h)))
        if w:
            ck.violation("generators: " + w, h)
    ck.add("traces_validated_against_impl", len(hists))
    ck.sample(hists[len(hists) // 2])

    cases, r = tlc.behaviours("Availability")
    ck.tlc(r)

    def attempt(case):
        p = subprocess.run([sys.executable, "-c", TRY % (REPO, case["hidden"], [d["dialect"] for d in case["expect"]])],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        line = [l for l in p.stdout.splitlines() if l.startswith("RESULT")]
        return json.loads(line[0][6:]) if line else p.stderr[-1500:]
    with ThreadPoolExecutor(8) as pool:
        outs = list(pool.map(attempt, cases))
    for case, out in zip(cases, outs):
        hidden = ",".join(case["hidden"]) or "nothing"
        ck.evaluated(("a", hidden))
        if isinstance(out, str):
            ck.violation("availability: the package does not load when these modules are missing: " + hidden, out)
            continue
        for e in case["expect"]:
            for res in out[e["dialect"]]:
                good = res == "available" if not e["missing"] else (
                    res.startswith("missing: ") and any("`%s`" % m in res for m in e["missing"]) and "[%s]" % e["dialect"] in res)
                if not good:
                    ck.violation("availability: without %s, %s answers %s instead of %s" % (hidden, e["dialect"], res, e["missing"] or "available"), out)
    ck.add("traces_validated_against_impl", len(cases))
    ck.assumptions = ["histories up to the stated length over three names, two engines, two generators; one missing module at a time, and all"]
    return ck
