"""Recording of migration scripts: real mutators on generated schemas -> traces of spec/ScriptTrace.tla."""
import copy
import gen
from gen import (PROFILE, ALL_DROPS, catalog, generator, load_step, retained, row_plan, shuffled, want)
from sqlparse import parse_script
from pysqlsync.formation.object_types import Catalog, FormationError


class Unexpected(Exception):
    """The real code failed on a change that is possible."""


def mutate(d, s, t, opts=None, r=None):
    """Script taking the real catalog of spec s to that of t"""
    g = generator(d, opts)
    g.state = catalog(d, s)
    return g.get_mutate_stmt(catalog(d, t))


def script_steps(d, text):
    return [dict(k="sql", ev=ev) for ev in parse_script(d, text)]


def first_line(text):
    return " ".join((text or "").split())[:160]


def record(d, s, t, opts=None, rows=True, noop=True, r=None, back=True):
    """Creates s, fills it, migrates to t under the drop policy, drops everything.
    Returns (trace, texts) or raises Unexpected."""
    steps, texts = [], []

    def script(a, b, o, what):
        try:
            text = mutate(d, a, b, o)
        except Exception as e:  # a possible change that raises is an executability failure
            raise Unexpected("%s: %s: %s" % (what, type(e).__name__, e))
        texts.append((what, text))
        return text

    def empty(a, b, o, what):
        text = script(a, b, o, what)
        steps.append(dict(k="empty", count=len(text or ""), what=what, first=first_line(text).encode("ascii", "replace").decode()))

    steps += script_steps(d, script({}, s, None, "create"))
    steps.append(dict(k="goal", want=want(d, s), opts=ALL_DROPS))
    if noop:
        empty(s, shuffled(s, r) if r else s, opts, "same schema, listed differently")
    plan = row_plan(d, s, t) if rows else None
    if plan is not None:
        steps.append(load_step(d, plan))
    steps.append(dict(k="base"))
    o = opts or ALL_DROPS
    steps += script_steps(d, script(s, t, opts, "migrate"))
    steps.append(dict(k="goal", want=want(d, t), opts=o))
    after = retained(d, s, t, o)
    if noop and after is not None:
        empty(after, t, opts, "reached schema to the same target")
    if back and after is not None:
        steps.append(dict(k="base"))
        steps += script_steps(d, script(after, {}, None, "drop"))
        steps.append(dict(k="goal", want=want(d, {}), opts=ALL_DROPS))
    return dict(profile=PROFILE[d], steps=steps), texts, plan is not None
