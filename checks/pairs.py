"""Steps between small releases (spec/Pairs.tla), rendered for a dialect."""
import tlc
from env import pick, rng
from gen import ALL_DROPS, MIGRATING, ns_order, retained, valid_pair, wellformed

TYPES = {"i4": ("int", 4), "i8": ("int", 8), "v40": ("varchar", 40), "v80": ("varchar", 80), "text": ("varchar", None), "dec": ("decimal", 10, 2)}
DEFAULTS = {"i4": "7", "i8": "42", "v40": "'abc'", "v80": "'it''s'", "dec": "1.5", "E": "'red'"}
NOTES = [None, "a note", "it's noted; --"]


def render(d, x):
    """The release as a schema of harness/gen.py; None if the dialect has nothing like it"""
    if d != "postgresql" and (x["s"] != "no" or x["r"] != "no" or x["eb"] or x["c"] == "lE" or x["u"] == "E"):
        return None
    if d in ("mssql", "oracle") and (x["e"] or x["c"] == "E"):
        return None
    if d == "mysql" and x["e"] and x["c"] != "E":
        return None
    lit = lambda t: ("int", 8) if d == "oracle" and t[0] == "int" else t
    out = {}

    def ns(name):
        return out.setdefault(name, dict(enums={}, structs={}, tables={}))

    def col(table, name, t, nullable=False, default=None, identity=False, desc=None):
        return dict(name=table + "_" + name if d == "mssql" else name, type=t, nullable=nullable, default=default, identity=identity, desc=desc)

    def table(where, name, identity=False, desc=None):
        pk = col(name, "id", ("int", 8), identity=identity)
        ns(where)["tables"][name] = dict(cols=[pk], pk=[pk["name"]], cons=[], desc=desc, values=None)
        return ns(where)["tables"][name]

    def refer(where, name, c, to):
        m, n = to
        t = out[where]["tables"][name]
        t["cols"].append(c)
        t["cons"].append(dict(name="fk_%s_%s_%s" % (where, name, c["name"]), kind="foreign", cols=[c["name"]], ref=to, refc=[out[m]["tables"][n]["pk"][0]], cond=""))

    u = None
    if x["u"] in ("A", "B"):
        table(x["u"], "U")
        u = (x["u"], "U")
    elif x["u"] in ("L", "E"):
        u = ("A", x["u"])
        ns("A")["tables"][x["u"]] = dict(
            cols=[dict(name="id", type=lit(("int", 4)), nullable=False, default=None, identity=True, desc=None),
                  dict(name="value", type=("varchar", 255), nullable=False, default=None, identity=False, desc=None)],
            pk=["id"], cons=[dict(name="uq_A_" + x["u"], kind="unique", cols=["value"], ref=None, refc=[], cond="")],
            desc=None, values=["red", "green", "it's"][:x["ul"]] or None)
    if x["e"] and d == "postgresql":
        ns("A")["enums"]["E"] = list(x["e"])
    if x["eb"]:
        ns("B")["enums"]["EB"] = list(x["eb"])
    if x["r"] != "no":
        ns("A")["structs"]["R"] = dict(members=[(m, ("int", 8) if m == "x" else ("varchar", None), None) for m in x["r"]], desc=None)
    if x["s"] != "no":
        of = {"x": ("int", 8), "y": ("varchar", None), "z": ("date",), "r": ("struct", "A", "R")}
        ns("A")["structs"]["S"] = dict(members=[(m, of[m], NOTES[x["sd"]] if m == "x" else None) for m in x["s"]], desc=NOTES[x["sd"]])
    if x["t"] != "no":
        t = table("A", "T", identity=x["t"] == "auto", desc=NOTES[x["td"]])
        c = x["c"]
        if c != "no":
            ty = {"E": ("enum", "A", "E") if d == "postgresql" else ("ienum", tuple(x["e"])), "lE": ("array", ("enum", "A", "E")),
                  "S": ("struct", "A", "S"), "lS": ("array", ("struct", "A", "S")), "R": ("struct", "A", "R")}.get(c) or lit(TYPES[c])
            q = col("T", "c", ty, nullable=x["null"], default=DEFAULTS[c] if x["def"] else None, desc=NOTES[x["cd"]])
            if x["fk"] == "look":
                refer("A", "T", q, u)
            else:
                t["cols"].append(q)
            if x["con"]:
                t["cons"].append(dict(name="uq_A_T_" + q["name"], kind="unique", cols=[q["name"]], ref=None, refc=[], cond=""))
        if x["fk"] in ("null", "full"):
            refer("A", "T", col("T", "r0", ("int", 8), nullable=x["fk"] == "null"), u)
        if x["self"]:
            refer("A", "T", col("T", "up", ("int", 8), nullable=True), ("A", "T"))
    if x["w"] != "no":
        table("A", "W")
        if x["w"] == "ref":
            refer("A", "W", col("W", "r0", ("int", 8), nullable=True), u)
    return out


def steps(prop):
    """(slice, dialect, source, target, options, what makes the step impossible); each once"""
    cases, res = tlc.behaviours("Pairs", pick("Pairs" + prop, "Pairs"))
    seen = set()
    for b in cases:
        for d in MIGRATING:
            s, t = render(d, b["a"]), render(d, b["b"])
            if s is None or t is None:
                continue
            k = (d, repr(s), repr(t), repr(b["policy"]))
            if s == t or k in seen:
                continue
            seen.add(k)
            opts = None if all(b["policy"].values()) else b["policy"]
            yield b["slice"], d, s, t, opts, [w for w in b["impossible"] if refused(d, w)], res


def refused(d, why):
    return why == "constraint" or (why == "value" and d == "postgresql") or (why == "identity" and d == "mssql")


def possible(prop):
    """Steps that a script can take, and those within reach of the model of the engines"""
    out, total, res = [], 0, None
    for sl, d, s, t, opts, why, res in steps(prop):
        total += 1
        if why or not wellformed(d, s) or not wellformed(d, t) or not valid_pair(d, s, t):
            continue
        if opts is not None and retained(d, s, t, opts) is None:
            continue
        out.append((sl, d, s, t, opts))
    return choose(prop, out, pick(600, None)), len(out), total, res


def impossible(prop):
    out, res = [], None
    for sl, d, s, t, opts, why, res in steps(prop):
        if why and wellformed(d, s) and ns_order(t) is not None:
            out.append((sl, d, s, t, opts, why))
    return choose(prop, out, pick(300, None)), len(out), res


def choose(prop, out, n):
    r = rng(prop, "pairs")
    r.shuffle(out)
    if n is None or len(out) <= n:
        return out
    # as many of each slice and dialect as there are, or as fit
    groups = {}
    for x in out:
        groups.setdefault((x[0], x[1]), []).append(x)
    res = []
    while len(res) < n:
        for g in groups.values():
            if g:
                res.append(g.pop())
    return res
