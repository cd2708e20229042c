"""C07, C08: sessions against a server.  The server is spec/Session.tla (which executes the statements); its catalog is shown to the explorers
through harness/catalogs.py.  A session runs until it asks for a catalog that is not known yet; TLC then computes the state of the database at
that point, and the session runs again from its start."""
import asyncio, contextlib, copy, dataclasses, hashlib, json, re, sys, types
from typing import Optional
from report import Check, describe
from env import rng, pick
import catalogs, drivers, tlc
import gen, mapping
from gen import PROFILE
from sqlparse import Bad, LexError, parse_script
from pysqlsync.model.key_types import PrimaryKey
from pysqlsync.base import ClassRef, GeneratorOptions
from pysqlsync.model.id_types import LocalId
from pysqlsync.factory import get_dialect
from pysqlsync.formation.object_types import Catalog
from pysqlsync.formation.py_to_sql import ArrayMode, EnumMode, StructMode

DIALECTS = ("postgresql", "mysql", "mssql", "oracle")


class NeedCatalog(BaseException):
    pass


class Stop(BaseException):
    pass


class Refused(Exception):
    pass


def parsed(d, text):
    """Statements; MySQL takes Boolean constants for numbers"""
    evs = parse_script(d, text)
    if d == "mysql":
        for ev in evs:
            for c in (ev["cols"] if ev["op"] == "create_table" else []) + [a["col"] for a in ev.get("acts", []) if "col" in a]:
                c["default"] = {"TRUE": "1", "FALSE": "0"}.get(c["default"], c["default"])
    return evs


class StoredWorld(mapping.World):
    """Classes with what the engines report in the form in which it was declared"""

    def __init__(self, d, r, n):
        super().__init__(d, r, n)
        enums, structs, arrays = mapping.MODES[d]
        self.enum, self.struct, self.array = r.choice([m for m in enums if m != "CHECK"]), r.choice(structs), r.choice(arrays + arrays[:1])
        self.auto, self.impossible, self.marks = False, False, False
        self.schemas = r.choice([self.schemas, ["alpha", "alpha_b", "a_pha"], ["alpha", "a_pha", "alpha_b"]])
        if d in ("postgresql", "mssql") and r.random() < .15:
            self.schemas, self.named = [catalogs.CURRENT[d], "alpha", "beta"], True      # the current schema by its name
        self.basic = [p for p in mapping.BASIC if stored(d, p[1])]
        self.simple = [p for p in mapping.LISTED if stored(d, p[1])]
        self.wide = n % 12 == 0

    def default(self, typ, t):
        x = super().default(typ, t)
        # MySQL reports numbers as the column holds them
        if x is not None and self.d == "mysql" and (t["k"] == "float" and x[0] == -2.0 or t["k"] == "decimal" and (x[1], t["s"]) not in (("0", 0), ("0.25", 2))):
            return None
        return x


def stored(d, t):
    """Is a column of the type reported as it was declared?  (MySQL: real is double)"""
    return not t.get("lo") and not (d == "mysql" and t["k"] == "float" and t["bits"] == 32)


# ----------------------------------------------------------------------------- server
class Server(drivers.Server):
    def __init__(self, session):
        super().__init__()
        self.session = session

    def on_execute(self, sql):
        self.session.execute(sql)

    def on_query(self, sql):
        return self.session.query(sql)


class Session:
    """One history: steps for the specification, the catalogs known so far"""

    def __init__(self, d, world, noise=None):
        self.d, self.world, self.noise = d, world, noise
        self.snapshots = {}
        self.start()

    def start(self):
        self.steps, self.events, self.texts = [], "", []      # events: what the database depends on
        self.refuse, self.cancelled = None, False
        self.count = 0          # statements of the current operation
        self.what = ""
        self.queries = 0
        self.refuse_query = None
        self.sqlite = {}

    def failure(self):
        """How a statement ends that the server does not run: with an error, or the task is cancelled meanwhile"""
        if self.cancelled:
            return asyncio.CancelledError()
        return drivers.STATEMENT_ERRORS[self.d](*([1064] if self.d == "mysql" else []), "refused")

    # ------------------------------------------------------------------ called by the server
    def execute(self, sql):
        if sql.startswith("ALTER SESSION SET"):
            return
        self.count += 1
        self.texts.append((self.what, sql))
        if self.refuse is not None and self.count > self.refuse:
            self.steps.append(dict(k="refused"))
            raise self.failure()
        try:
            evs = parsed(self.d, sql)
        except (Bad, LexError) as e:
            evs = [dict(op="unknown", text=describe(e))]
        for ev in evs:
            self.steps.append(dict(k="sql", ev=ev, what=self.what))
            self.events = hashlib.sha1((self.events + json.dumps(ev, sort_keys=True)).encode()).hexdigest()

    def query(self, sql):
        self.queries += 1
        # (a catalog that cannot be counted is one that the server does not have)
        if self.refuse_query is not None and self.queries > self.refuse_query and not re.match(r"SELECT\s+COUNT\(", sql):
            self.steps.append(dict(k="refused"))
            raise self.failure()
        if self.events not in self.snapshots:
            raise NeedCatalog()
        if self.events not in self.sqlite:
            self.sqlite[self.events] = catalogs.build(self.d, self.snapshots[self.events], self.noise, None in self.world.mapping.values())
        return catalogs.query(self.d, self.sqlite[self.events], sql)

    # ------------------------------------------------------------------ steps
    def options(self):
        w = self.world
        return GeneratorOptions(enum_mode=EnumMode[w.enum], struct_mode=StructMode[w.struct], array_mode=ArrayMode[w.array],
                                foreign_constraints=w.fk, initialize_tables=w.init, namespaces=dict(w.mapping))

    def script(self, state):
        g = get_dialect(self.d).create_generator(self.options())
        return g.get_mutate_stmt(copy.deepcopy(state))

    def model(self, generator, kind="model"):
        try:
            text = self.script(generator.state)
        except Exception as e:
            self.steps.append(dict(k="raised", what=self.what, text="the model cannot be expressed: " + describe(e)))
            raise Stop()
        self.texts.append((self.what + ": model", text))
        self.steps.append(dict(k=kind, what=self.what, events=parsed(self.d, text)))

    def wanted(self, classes):
        g = get_dialect(self.d).create_generator(self.options())
        self.steps.append(dict(k="wanted", what=self.what, events=parsed(self.d, g.create(tables=list(classes)))))

    def quiet(self):
        self.steps.append(dict(k="quiet", what=self.what, count=self.count, first=" ".join(self.texts[-1][1].split())[:200] if self.count else ""))

    async def operate(self, what, op, refuse=None, refuse_query=None, cancelled=False):
        """Runs an operation; True if it succeeded"""
        self.cancelled = cancelled
        self.what, self.count, self.queries, self.refuse, self.refuse_query = what, 0, 0, refuse, refuse_query
        try:
            await op()
        except (Exception, asyncio.CancelledError) as e:
            self.error = describe(e) + (" <- " + describe(e.__cause__) if e.__cause__ is not None else "")
            return False
        return True

    def run(self, body):
        """body(session) runs everything; True if it came to its end"""
        self.start()
        try:
            body(self)
        except NeedCatalog:
            return False
        except Stop:
            pass
        return True

    def connect(self, body):
        """Runs body(ctx, conn, explorer) in a new connection"""
        async def go(ctx, conn):
            return await body(ctx, conn, get_dialect(self.d).create_explorer(ctx))
        return drivers.session(self.d, Server(self), go, options=self.options())

    def trace(self, show):
        w = self.world
        return dict(P=PROFILE[self.d], scope=[ns or "" for ns in w.mapping.values()], steps=self.steps, show=show)


def play(sessions, body, ck, limit=40):
    """Runs all sessions to their end -> their verdicts"""
    todo = list(range(len(sessions)))
    out = [None] * len(sessions)
    for phase in range(limit):
        ended, waiting = [], []
        for i in todo:
            (ended if sessions[i].run(body) else waiting).append(i)
        order = ended + waiting
        traces = [sessions[i].trace(i in waiting) for i in order]
        verdicts, res = tlc.check_traces("Session", traces)
        ck.tlc(res)
        shown = {}
        for line in res.out.splitlines():
            if line.startswith('"D|'):
                _, no, text = json.loads(line).split("|", 2)
                shown[int(no) - 1] = json.loads(text)
        todo = []
        for k, i in enumerate(order):
            if verdicts[k][0] or i in ended:
                out[i] = verdicts[k]
            else:
                if k not in shown:
                    raise tlc.MachineryError("no database for session %d" % i)
                sessions[i].snapshots[sessions[i].events] = shown[k]
                todo.append(i)
        if not todo:
            return out
    raise tlc.MachineryError("sessions do not end")


# ----------------------------------------------------------------------------- C07
class Unmappable:
    pass


def variant(w, r, k):
    """The entity with other columns"""
    cls = w.py[k]
    pk = next(f["name"] for f in w.classes[k]["fields"] if f["primary"])
    fields = [f for f in dataclasses.fields(cls)]
    own = [f for f in fields if f.name == pk or r.random() < .6]
    extra = [("zz%d" % i, Optional[r.choice([int, str, bool, float])], dataclasses.field(default=None)) for i in range(r.randint(0, 2))]
    out = dataclasses.make_dataclass(cls.__name__, [(f.name, f.type, dataclasses.field(default=f.default)) for f in own] + extra, kw_only=True)
    out.__module__, out.__doc__ = cls.__module__, None
    return out


def bad_class(w):
    """An entity that cannot be mapped to a table"""
    out = dataclasses.make_dataclass("Bad", [("badid", PrimaryKey[int]), ("badf", Unmappable)], kw_only=True)
    out.__module__, out.__doc__ = w.modules[0].__name__, None
    return out


def history(s):
    w, d = s.world, s.d
    r = rng("history", d, w.n)
    mods = list(w.mapping)
    entities = [k for k, c in w.classes.items() if c["kind"] == "entity" and not c.get("abstract")]
    used = {f["t"].get("c") for c in w.classes.values() for f in c["fields"]} if w.classes else set()
    used |= {e for c in w.classes.values() if "fields" in c for f in c["fields"] for e in f["t"].get("cs", []) + [f["t"].get("e", {}).get("c")]}
    leaves = [k for k in entities if k not in used]
    changed = {k: variant(w, r, k) for k in leaves if r.random() < .7}
    bad = bad_class(w)

    def subset():
        """Some of the entities, some of them changed"""
        chosen = r.sample(entities, r.randint(0 if r.random() < .1 else 1, len(entities)))
        if r.random() < .4:
            chosen = entities
        return [changed[k] if k in changed and r.random() < .5 else w.py[k] for k in chosen]

    def needs(k):
        for f in w.classes[k]["fields"]:
            t = f["t"]
            for c in [t.get("c"), t.get("e", {}).get("c")] + t.get("cs", []):
                if c is not None and c not in closure and w.classes[c]["kind"] in ("entity", "struct"):
                    closure.add(c)
                    needs(c)

    @contextlib.contextmanager
    def defined(classes):
        """The modules define the classes, and those they refer to; gives all of them"""
        nonlocal closure
        closure = set()
        for k in entities:
            if w.py[k] in classes or changed.get(k) in classes:
                needs(k)
        closed = list(classes) + [w.py[k] for k in entities if k in closure and w.py[k] not in classes and changed.get(k) not in classes]
        ours = {w.py[k] for k in entities}
        before = {m: dict(vars(m)) for m in w.modules}
        for m in w.modules:
            for name in [n for n, c in vars(m).items() if isinstance(c, type) and c in ours]:
                delattr(m, name)
            for c in closed:
                if c.__module__ == m.__name__:
                    setattr(m, c.__name__, c)
        try:
            yield closed
        finally:
            for m in w.modules:
                vars(m).clear()
                vars(m).update(before[m])

    closure = set()
    known = [True]       # the session knows the database
    blurred = [False]    # a script failed halfway: nothing is said about the model before the next discovery

    async def go(ctx, conn, explorer):
        for i in range(r.randint(2, 4)):
            op = r.choice(["create", "create", "discover", "synchronize", "synchronize", "drop"] if known[0] else ["discover", "synchronize"])
            refuse, refuse_query, unmappable = None, None, False
            x = r.random()
            if x < .2 and op != "discover":
                refuse = 0 if r.random() < .6 else r.randint(1, 6)
            elif x < .4 and op in ("discover", "synchronize"):
                refuse_query = r.randint(0, 8)
            elif x < .5 and op in ("create", "synchronize"):
                unmappable = True
            classes = subset() if op in ("create", "synchronize") else []
            with defined(classes) as closed:
                await one("%d %s" % (i, op), op, classes if op == "create" else closed, unmappable, refuse, refuse_query, ctx, conn, explorer)

    async def one(what, op, classes, unmappable, refuse, refuse_query, ctx, conn, explorer):
        if unmappable and op == "synchronize":
            setattr(w.modules[0], "Bad", bad)
        cancelled = r.random() < .4
        given = classes + [bad] if unmappable else classes
        n = len(s.steps)
        if op == "create":
            ok = await s.operate(what, lambda: ctx.create_objects(given), refuse, None, cancelled)
        elif op == "drop":
            ok = await s.operate(what, lambda: ctx.drop_objects(), refuse, None, cancelled)
        elif op == "discover":
            ok = await s.operate(what, lambda: explorer.discover(modules=mods), None, refuse_query, cancelled)
        else:
            ok = await s.operate(what, lambda: explorer.synchronize(modules=mods), refuse, refuse_query, cancelled)
        made = s.steps[n:]
        refused = any(x["k"] == "refused" for x in made)
        if ok:
            if unmappable or refused:
                s.steps.append(dict(k="raised", what=what, text="an error was not reported"))
                raise Stop()
            known[0], blurred[0] = True, False
            if op != "discover":
                s.wanted(classes)
            s.model(conn.generator)
        else:
            if not unmappable and not refused:
                s.steps.append(dict(k="raised", what=what, text=s.error))
                raise Stop()
            if any(x["k"] == "sql" for x in made):
                known[0], blurred[0] = False, True
            elif not blurred[0]:
                s.model(conn.generator, "same")
    def key(k):
        c = w.classes[k]
        return gen.obj_key(d, c["ns"], c["name"])

    # tables nothing depends on: not referred to, without join tables
    alone = [k for k in leaves if not any(f["t"]["k"] in ("list", "set") for f in w.classes[k]["fields"])]

    async def admin(ctx, conn, explorer):
        """Operations on single objects, which a session without a model of the database can do"""
        for i in range(r.randint(1, 3)):
            op = r.choice(["drop table", "drop table", "drop no table", "drop schema", "drop schema"] + (["create schema"] if d in ("postgresql", "mssql") else []))
            gone, schema, made, go = [], "", "", None
            if op == "drop table":
                if not alone:
                    continue
                k = r.choice(alone)
                gone, go = [key(k)], lambda: ctx.drop_table_if_exists(ctx.get_table_id(ClassRef(w.py[k])))
            elif op == "drop no table":
                go = lambda: ctx.drop_table_if_exists(gen.obj_id(d, w.ns[0], "Missing"))
            elif op == "create schema":
                made = "extra" if r.random() < .5 else next((ns for ns in w.ns if ns), "extra")
                go = lambda: ctx.create_schema(LocalId(made))
            else:
                # nothing refers to the tables of the last module
                schema = name = r.choice(["none", w.ns[-1] or "none", w.ns[-1] or "none"])
                if d in ("mysql", "oracle"):
                    # a namespace is a prefix of names
                    schema = ""
                    gone = sorted({x["ev"]["n"] for x in s.steps if x["k"] == "sql" and x["ev"]["op"] == "create_table" and x["ev"]["n"].split("|")[-1].startswith(name + "__")})
                go = lambda: ctx.drop_schema(LocalId(name))
            s.steps.append(dict(k="mark"))
            if not await s.operate("admin: " + op, go):
                s.steps.append(dict(k="raised", what=op, text=s.error))
                raise Stop()
            s.steps.append(dict(k="effect", what=op, gone=gone, schema=schema, made=made))

    for c in range(r.choice([1, 1, 2])):
        if r.random() < (.1 if c == 0 else .6):
            s.steps.append(dict(k="fresh"))
            s.refuse = s.refuse_query = None
            s.connect(admin)
        s.steps.append(dict(k="fresh"))
        known[0], blurred[0] = c == 0, False
        s.refuse = s.refuse_query = None
        s.connect(go)
    if r.random() < .5:
        s.steps.append(dict(k="fresh"))
        s.refuse = s.refuse_query = None
        s.connect(admin)


# ----------------------------------------------------------------------------- C08
async def questions(s, explorer):
    """Asks the explorer for single tables and columns, and for the names of all tables"""
    d, unnamed = s.d, None in s.world.mapping.values()
    if d == "oracle":
        return        # which does not answer
    r = rng("questions", d, s.world.n)
    tables = {x["ev"]["n"]: [c["name"] for c in x["ev"]["cols"]] for x in s.steps if x["k"] == "sql" and x["ev"]["op"] == "create_table"}
    if not tables:
        return
    columns = sorted({c for cs in tables.values() for c in cs})
    answer, scope = [], [ns or "" for ns in s.world.mapping.values()]

    for i in range(r.randint(2, 5)):
        n = r.choice(sorted(tables))
        ns, name = n.split("|")
        x = r.random()
        if x < .2:
            name += "x"
        elif x < .4 and d in gen.QUALIFIED:
            ns = r.choice([a or "" for a in s.world.mapping.values()])
        tid = gen.obj_id(d, ns, name) if d in gen.QUALIFIED else gen.obj_id(d, None, name)
        key = gen.obj_key(d, ns, name)
        step = dict(k="ask", what="has table", q="table", n=key, c="", names=[], answer=False)
        if r.random() < .5:
            c = r.choice(columns if r.random() < .4 else tables.get(key) or columns)
            step.update(what="has column", c=c)
            op = lambda: explorer.has_column(tid, LocalId(c))
        else:
            op = lambda: explorer.has_table(tid)

        async def put():
            step["answer"] = bool(await op())
        if not await s.operate(step["what"], put):
            s.steps.append(dict(k="raised", what=s.what, text=s.error))
            raise Stop()
        s.steps.append(step)

    async def names():
        for q in await explorer.get_table_names():
            schema = "" if d not in gen.QUALIFIED or (unnamed and q.scope_id == catalogs.CURRENT[d]) else q.scope_id
            if schema in scope or d not in gen.QUALIFIED:
                answer.append(gen.key(schema, q.local_id))
    if not await s.operate("names of tables", names):
        s.steps.append(dict(k="raised", what=s.what, text=s.error))
        raise Stop()
    s.steps.append(dict(k="ask", what=s.what, q="names", n="", c="", names=answer, answer=False))


def round_trip(s):
    w = s.world
    modules = list(w.mapping)

    async def create(ctx, conn, explorer):
        if not await s.operate("synchronize", lambda: explorer.synchronize(modules=modules)):
            s.steps.append(dict(k="raised", what=s.what, text=s.error))
            raise Stop()
        s.wanted(w.everything)
    s.connect(create)

    async def discover(ctx, conn, explorer):
        if not await s.operate("discover", lambda: explorer.discover(modules=modules)):
            s.steps.append(dict(k="raised", what=s.what, text=s.error))
            raise Stop()
        s.model(conn.generator)
        if not await s.operate("synchronize again", lambda: explorer.synchronize(modules=modules)):
            s.steps.append(dict(k="raised", what=s.what, text=s.error))
            raise Stop()
        s.quiet()
        await questions(s, explorer)
    s.connect(discover)


class Made:
    """A schema that was not made from classes: keys of several columns, references to them"""
    enum, struct, array, fk, init, auto, classes = "TYPE", "TYPE", "ARRAY", True, False, False, {}

    def __init__(self, d, r, n):
        self.d, self.n = d, n
        self.enum, self.struct, self.array = mapping.MODES[d][0][0], mapping.MODES[d][1][0], mapping.MODES[d][2][0]
        g = gen.Gen(d, r)
        self.specs = []
        while not self.specs:
            spec = g.spec()
            plain(d, spec)
            if not gen.wellformed(d, spec):
                continue
            self.specs = [spec]
            for _ in range(r.choice([0, 1, 1])):
                t = g.target(self.specs[-1])
                if t is None or t == self.specs[-1]:
                    break
                plain(d, t)
                if gen.wellformed(d, t) and gen.valid_pair(d, self.specs[-1], t):
                    self.specs.append(t)
        names = sorted({ns for spec in self.specs for ns in spec})
        self.mapping = {types.ModuleType("verif_made_%d_%d" % (n, i)): ns or None for i, ns in enumerate(names)}
        sys.modules.update({m.__name__: m for m in self.mapping})

    def close(self):
        for m in self.mapping:
            del sys.modules[m.__name__]


def plain(d, spec):
    """Leaves out what the engines report in another form"""
    for b in spec.values():
        for t in b["tables"].values():
            t["cons"] = [k for k in t["cons"] if k["kind"] != "check"]
            for c in t["cols"]:
                if d == "mysql":
                    if c["type"] == ("real",):
                        c["type"] = ("double",)
                    if c["type"][0] in ("double", "decimal"):
                        c["default"] = None


def made(s):
    w, d = s.world, s.d

    def modules(spec):
        return [m for m, ns in w.mapping.items() if (ns or "") in spec]

    async def change(ctx, conn, explorer):
        g = conn.generator
        g.state = gen.catalog(d, before)
        text = g.get_mutate_stmt(gen.catalog(d, spec))
        if text and not await s.operate("change %d" % i, lambda: ctx.execute(text)):
            s.steps.append(dict(k="raised", what=s.what, text=s.error))
            raise Stop()

    async def discover(ctx, conn, explorer):
        if not await s.operate("discover %d" % i, lambda: explorer.discover(modules=modules(spec))):
            s.steps.append(dict(k="raised", what=s.what, text=s.error))
            raise Stop()
        s.model(conn.generator)
        try:
            text = conn.generator.get_mutate_stmt(gen.catalog(d, spec)) or ""
        except Exception as e:
            text = describe(e)
        s.steps.append(dict(k="quiet", what="change %d again" % i, count=len(text), first=" ".join(text.split())[:200]))

    before = {}
    for i, spec in enumerate(w.specs):
        s.connect(change)
        s.connect(discover)
        before = spec


def world(d, r, n):
    w = StoredWorld(d, r, n)
    w.build()
    w.everything = [w.py[k] for k, c in w.classes.items() if c["kind"] == "entity" and not c.get("abstract")]
    return w


def main(prop):
    ck = Check(prop, "model_checking")
    sessions = []
    n = 0
    body = history if prop == "C07" else lambda s: made(s) if isinstance(s.world, Made) else round_trip(s)
    count = pick(100, 1200) if prop == "C07" else pick(100, 900)
    for d in DIALECTS:
        r = rng("session", prop, d)
        for i in range(count):
            n += 1
            w = world(d, r, n)
            sessions.append(Session(d, w, r.choice([None, "noise", "Alpha"])))
        if prop == "C08":
            r = rng("made", d)
            for i in range(pick(40, 600)):
                n += 1
                sessions.append(Session(d, Made(d, r, n), r.choice([None, "noise", "Alpha"])))
    verdicts = play(sessions, body, ck)
    for s, (v, step) in zip(sessions, verdicts):
        w = s.world
        ck.evaluated((s.d, w.enum, w.struct, w.array, w.fk, w.init, len(s.steps), str(w.specs) if isinstance(w, Made) else str(sorted(f["t"]["k"] for c in w.classes.values() for f in c["fields"]))))
        if v:
            ck.violation("%s: %s" % (s.d, v), dict(dialect=s.d, n=w.n, options=[w.enum, w.struct, w.array, w.fk, w.init], classes=w.specs if isinstance(w, Made) else w.classes, step=step,
                                                   texts=s.texts, at=s.steps[step:step + 1]))
        w.close()
    ck.add("traces_validated_against_impl", len(sessions))
    ck.sample(dict(dialect=sessions[0].d, texts=[t for t in sessions[0].texts][:6]))
    return ck
