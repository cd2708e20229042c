"""C01-C06: scripts of the real mutators on generated schemas, executed by spec/ScriptTrace.tla."""
import copy, itertools
import tlc
from env import pick, rng
from report import Check, describe, raised_in_repo
from gen import ALL_DROPS, MIGRATING, PROFILE, Gen, catalog, generator, migrated, retained, valid_pair, want, wellformed
import ddl
from ddl import Unexpected, mutate, record
import pairs, scenarios

SEGMENTS = {
    "C01": ("exec:", "integrity:", "form:"),
    "C02": ("goal:", "exec:", "form:"),
    "C03": ("noop:", "touch:", "form:"),
    "C04": ("exec:", "integrity:", "goal:", "data:", "noop:", "touch:", "form:"),
    "C05": ("data:", "exec:", "form:"),
    "C06": ("refusal:", "exec:", "goal:", "form:"),
}


def relevant(prop, verdict):
    return [s for s in verdict.split(" ## ") if s.startswith(SEGMENTS[prop])]


def render(trace, texts, step):
    lines = []
    for what, text in texts:
        lines.append("---- script: %s\n%s" % (what, text))
    lines.append("---- step %d: %s" % (step, str(trace["steps"][step - 1])[:1500] if 0 < step <= len(trace["steps"]) else ""))
    return "\n".join(lines)


def judge(ck, items):
    """items: (dialect, trace, texts, key, scenario)"""
    if not items:
        return
    verdicts, res = tlc.check_traces("ScriptTrace", [i[1] for i in items])
    ck.tlc(res)
    for (d, trace, texts, key, scenario), (verdict, step) in zip(items, verdicts):
        if verdict == "skipped":
            continue
        ck.add("traces_validated_against_impl")
        ck.evaluated(key)
        if verdict.startswith("harness:"):
            raise tlc.MachineryError("%s in %s" % (verdict, scenario or key))
        if verdict == "ok":
            continue
        segs = relevant(ck.prop, verdict)
        if segs:
            ck.violation("%s: %s" % (d, segs[0]), render(trace, texts, step), scenario)


def samples(prop):
    """Random source and target schemas with a drop policy, mixed to suit the property"""
    n = pick(260, 4000)
    for d in MIGRATING:
        r = rng(prop, d)
        for i in range(n if prop != "C05" else n):
            g = Gen(d, r)
            opts = None
            if prop == "C04":
                opts = dict(zip(("enum", "struct", "table", "namespace"), [bool(i >> k & 1) for k in range(4)]))
            elif prop in ("C01", "C03") and i % 4 == 3:
                opts = {k: r.random() < .6 for k in ("enum", "struct", "table", "namespace")}
            for _ in range(60):
                s = g.source()
                if prop == "C04" or i % 5 == 0:
                    t = g.target(s, r.choice([2, 4, 8, 12]))
                    if prop == "C04" and r.random() < .25:
                        t = {} if r.random() < .3 else {k: v for k, v in t.items() if r.random() < .6}
                        from gen import prune
                        prune(t)
                        t = {k: v for k, v in t.items() if v["tables"] or v["enums"] or v["structs"]}
                        if not wellformed(d, t) or not valid_pair(d, s, t):
                            continue
                elif prop == "C05" and i % 2:
                    t = g.target(s, r.choice([1, 2, 3]))
                    for _ in range(30):
                        if moves(d, s, t):
                            break
                        t = g.target(s, r.choice([1, 2, 3, 5]))
                else:
                    t = g.target(s)
                if opts is None or retained(d, s, t, opts) is not None:
                    break
            else:
                continue
            yield d, s, t, opts, r


def moves(d, s, t):
    """Does a column turn into a reference to a lookup table?"""
    for ns in s:
        for n, x in s[ns]["tables"].items():
            y = t.get(ns, {}).get("tables", {}).get(n)
            if not y:
                continue
            cy = {c["name"]: c for c in y["cols"]}
            if any(c["name"] in cy and c["type"] != cy[c["name"]]["type"] and migrated(d, c, cy[c["name"]], c["name"], y) for c in x["cols"]):
                return True
    return d in ("mssql", "oracle")


def main(prop):
    ck = Check(prop, "model_checking")
    ck.cov["rule"] = ("random source schema, 1..12 random edits to it (or removals), random listing order, random rows; the real script is "
                      "replayed statement by statement in the TLA+ database; non-trivial: the migration script is not empty, distinct by its text")
    if prop == "C06":
        return refusals(ck)
    items = []

    def consider(d, s, t, opts, r, rows, group=None):
        try:
            trace, texts, with_rows = record(d, s, t, opts, r=r, rows=rows)
        except Unexpected as e:
            if prop in ("C01", "C02", "C04", "C05"):
                ck.evaluated(str(e))
                ck.violation("%s: a possible change raises: %s" % (d, e), repr(dict(source=s, target=t, options=opts)))
            return
        mig = next((x for w, x in texts if w == "migrate"), None)
        if group is None:
            ck.sample(dict(dialect=d, options=opts, rows=with_rows, script=(mig or "")[:1200]))
        items.append((d, trace, texts, d + (mig or "") if mig else None, None))
        if len(items) >= 4000:
            judge(ck, items)
            items.clear()

    for d, s, t, opts, r in samples(prop):
        consider(d, s, t, opts, r, prop != "C03" or r.random() < .5)
    chosen, within, total, res = pairs.possible(prop)
    ck.tlc(res)
    ck.cov["small_scope_steps"] = dict(enumerated=total, within_reach=within, replayed=len(chosen), exhaustive=len(chosen) == within)
    r = rng(prop, "steps")
    for sl, d, s, t, opts in chosen:
        consider(d, s, t, opts, r, True, sl)
    for sc in scenarios.ddl(prop):
        try:
            trace, texts, _ = record(sc["d"], sc["s"], sc["t"], sc.get("opts"), r=None, back=sc.get("back", False), rows=True)
            items.append((sc["d"], trace, texts, sc["name"], sc["name"]))
        except Unexpected as e:
            ck.violation("%s: a possible change raises: %s" % (sc["d"], e), repr(sc), sc["name"])
    judge(ck, items)
    ck.assumptions = ["the engines execute a statement as spec/Db.tla says", "statements are read from the script by harness/sqlparse.py"]
    return ck


# --------------------------------------------------------------------------- C06
def impossible(d, s, t, r):
    """Makes the change from s to t impossible in one place; returns (s, t, what) or None."""
    s, t = copy.deepcopy(s), copy.deepcopy(t)
    kinds = ["con"] + (["enum"] * 2 if d == "postgresql" else []) + (["identity"] * 2 if d == "mssql" else [])
    k = r.choice(kinds)
    if k == "enum":
        c = [(m, n) for m in s for n in s[m]["enums"] if m in t and n in t[m]["enums"]]
        if not c:
            return None
        m, n = r.choice(c)
        keep = t[m]["enums"][n]
        gone = r.choice(["~first", "~last", "~all", "~swap"])
        if gone == "~first":
            s[m]["enums"][n].insert(0, "gone")
        elif gone == "~last":
            s[m]["enums"][n].append("gone")
        elif gone == "~all":
            s[m]["enums"][n] = ["gone1", "gone2"]
            if any(u[3] == ("enum", m, n) for u in []):
                return None
        else:
            s[m]["enums"][n] = list(keep) + ["gone"]
            t[m]["enums"][n] = list(keep) + ["new"]
        # defaults of the source have to be labels
        for b in s.values():
            for x in b["tables"].values():
                for col in x["cols"]:
                    if col["type"] == ("enum", m, n):
                        col["default"] = None
        if set(s[m]["enums"][n]) <= set(t[m]["enums"][n]):
            return None
        return s, t, "enumeration value removed (%s)" % gone
    common = [(m, n) for m in s for n in s[m]["tables"] if m in t and n in t[m]["tables"]]
    if k == "identity":
        c = []
        for m, n in common:
            x, y = s[m]["tables"][n], t[m]["tables"][n]
            if x["pk"] == y["pk"] and len(x["pk"]) == 1 and next(q for q in x["cols"] if q["name"] == x["pk"][0])["type"][0] == "int":
                c.append((m, n))
        if not c:
            return None
        m, n = r.choice(c)
        pk = s[m]["tables"][n]["pk"][0]
        q = next(q for q in t[m]["tables"][n]["cols"] if q["name"] == pk)
        p = next(q for q in s[m]["tables"][n]["cols"] if q["name"] == pk)
        if q["identity"] != p["identity"]:
            return None
        q["identity"] = not q["identity"]
        q["default"] = None
        return s, t, "identity property changed"
    c = [(m, n, a["name"]) for m, n in common for a in s[m]["tables"][n]["cons"] for b in t[m]["tables"][n]["cons"] if a["name"] == b["name"] and a == b]
    if not c:
        return None
    m, n, name = r.choice(c)
    con = next(x for x in t[m]["tables"][n]["cons"] if x["name"] == name)
    if con["kind"] == "foreign":
        others = [(a, b) for a in t for b in t[a]["tables"] if (a, b) != tuple(con["ref"])]
        if others and r.random() < .7:
            a, b = r.choice(others)
            con["ref"], con["refc"] = (a, b), list(t[a]["tables"][b]["pk"][:1])
        else:
            cols = [q["name"] for q in t[m]["tables"][n]["cols"] if q["name"] not in con["cols"]]
            if not cols:
                return None
            con["cols"] = [r.choice(cols)]
    elif con["kind"] == "unique":
        cols = [q["name"] for q in t[m]["tables"][n]["cols"] if q["name"] not in con["cols"]]
        if not cols:
            return None
        con["cols"] = [r.choice(cols)] + (con["cols"] if r.random() < .4 else [])
    else:
        con["cond"] = con["cond"].replace("<>", ">")
    return s, t, "constraint %s redefined (%s)" % (name, con["kind"])


def snapshot(cat):
    """What a catalog says, whatever order it is listed in"""
    def flat(ns):
        return (str(ns.name), sorted(repr(e) for e in ns.enums.values()), sorted(repr(x) for x in ns.structs.values()),
                sorted(repr(x) for x in ns.tables.values()))
    return sorted((flat(n) for n in cat.namespaces.values()), key=lambda x: x[0])


def refusals(ck):
    from pysqlsync.formation.object_types import FormationError
    from gen import ns_order
    items = []
    n = pick(220, 3000)
    kinds = {}
    def attempt(d, s2, t2, u, opts, what):
        gen_ = generator(d, opts)
        src, tgt = catalog(d, s2), catalog(d, t2)
        before = snapshot(src), snapshot(tgt)
        gen_.state = src
        text = None
        try:
            text = gen_.get_mutate_stmt(tgt)
            got = "script"
        except FormationError as e:
            got = "refused"
        except Exception as e:
            if not raised_in_repo(e):
                raise
            got = "not a formation error: " + describe(e)
        if got == "refused" and (gen_.state is not src or before != (snapshot(src), snapshot(tgt))):
            got = "refused, but a schema was altered"
        steps = []
        # history: create s2, attempted impossible change, permitted change from the same state
        try:
            create = mutate(d, {}, s2)
            permitted = None
            if opts is None:
                gen_.mutator.options = generator(d, None).mutator.options
                permitted = gen_.get_mutate_stmt(catalog(d, u))
        except Exception as e:
            if not raised_in_repo(e):
                raise
            ck.violation("%s: a permitted change after a refusal raises: %s" % (d, describe(e)), repr((s2, t2, u)))
            return
        steps += ddl.script_steps(d, create)
        steps.append(dict(k="base"))
        steps.append(dict(k="refuse", got=got, what=what))
        if opts is None:
            steps += ddl.script_steps(d, permitted)
            steps.append(dict(k="goal", want=want(d, u), opts=ALL_DROPS))
        texts = [("create", create), ("impossible (%s): %s" % (what, got), text or ""), ("permitted", permitted)]
        items.append((d, dict(profile=PROFILE[d], steps=steps), texts, "%s %s %d" % (d, what, hash(create)), None))
        ck.sample(dict(dialect=d, what=what, answer=got))

    for d in MIGRATING:
        r = rng("C06", d)
        done = 0
        for _ in range(n * 8):
            if done >= n:
                break
            g = Gen(d, r)
            s = g.source()
            t = g.target(s) if r.random() < .8 else copy.deepcopy(s)
            im = impossible(d, s, t, r)
            if im is None:
                continue
            s2, t2, what = im
            if not wellformed(d, s2) or ns_order(t2) is None:
                continue
            u = g.target(s2, r.choice([1, 2, 3]))   # a permitted change
            done += 1
            kinds[d + ":" + what.split("(")[0].split(" ")[0]] = kinds.get(d + ":" + what.split("(")[0].split(" ")[0], 0) + 1
            opts = None
            if r.random() < .3:
                opts = {k: r.random() < .6 for k in ALL_DROPS}
            attempt(d, s2, t2, u, opts, what)
    chosen, within, res = pairs.impossible("C06")
    ck.tlc(res)
    ck.cov["small_scope_steps"] = dict(impossible=within, replayed=len(chosen), exhaustive=len(chosen) == within)
    for sl, d, s2, t2, opts, why in chosen:
        attempt(d, s2, t2, {}, opts, "%s (step in %s)" % (" and ".join(why), sl))
    judge(ck, items)
    ck.cov["refusals_by_kind"] = kinds
    ck.cov["rule"] = ("random schema change made impossible in one place (value of an enumeration removed, constraint redefined under its name, "
                      "identity property changed on SQL Server); the real answer and the permitted change after it are replayed in the TLA+ database; "
                      "every case is non-trivial, distinct by change and source")
    return ck
