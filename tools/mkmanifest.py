"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DB = ("TLA+ trace validation: scripts the real mutator generates for random schema pairs are executed statement by statement by TLC in an "
      "abstract database specification (spec/Db.tla, spec/ScriptTrace.tla)")
NOTE = ("Every generated script is decided by the specification; the pairs are sampled. Trusted: spec/Db.tla as a model of the engines, "
        "harness/sqlparse.py, the independent rendering of the wanted schema.")
CHECKS = {
    "C01": (DB + "; clause: every statement is executable", NOTE),
    "C02": (DB + "; clause: the state reached equals the target", NOTE),
    "C03": (DB + "; clause: equal schemas give no script, only differing objects are touched", NOTE),
    "C04": (DB + "; all 16 drop policies", NOTE),
    "C05": (DB + "; rows are loaded before the migration and compared after it", NOTE),
    "C06": (DB + "; the answers to impossible changes and the permitted change after a refusal", NOTE),
}
try:
    from manifest_more import MORE
    CHECKS.update(MORE)
except ImportError:
    pass
REASON = "Not yet covered by a check."
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
fixes = []
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=[dict(property=p, quick_cmd="bash check.sh %s quick" % p, thorough_cmd="bash check.sh %s thorough" % p,
                      technique=CHECKS[p][0], level="model_checking", level_note=CHECKS[p][1]) for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason=REASON) for p in props if p not in CHECKS])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
