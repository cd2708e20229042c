"""Verdicts, known findings, replay files and evidence of a check."""
import json, os, re, sys, time, traceback
from env import EVID, KNOWN, REPO, SEED, TIER, T0


def load_known(prop):
    with open(KNOWN) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop]


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.violations = []
        self.known = load_known(prop)
        self.hit = {}
        self.cov = dict(samples=[])
        self.distinct = set()
        self.assumptions = []

    # ------------------------------------------------------------------ counting
    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def tlc(self, res):
        self.add("states", res.distinct)
        self.add("transitions", res.generated)

    def evaluated(self, key=None):
        """One case; key identifies it when it is non-trivial"""
        self.add("evaluations")
        if key is not None:
            self.distinct.add(key)

    def sample(self, x):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(x if isinstance(x, (dict, list)) else str(x)[:3000])

    # ------------------------------------------------------------------ verdicts
    def violation(self, what, detail=None, scenario=None):
        """scenario: name of a fixed scenario; only those can be known findings, and only with this verdict"""
        if scenario is not None:
            for e in self.known:
                if re.fullmatch(e["scenario"], scenario) and re.fullmatch(e["verdict"], what, re.S):
                    self.hit[e["scenario"]] = e["what"]
                    return
            what = "%s: %s" % (scenario, what)
        self.violations.append((what, detail))

    def finish(self):
        for name, what in sorted(self.hit.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, name, what))
        self.cov["distinct_nontrivial"] = len(self.distinct)
        for k in ("evaluations", "states", "transitions", "traces_validated_against_impl"):
            self.cov.setdefault(k, 0)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(self.violations))
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, "replay_%s.txt" % self.prop)
        if os.path.exists(path):
            os.remove(path)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
        if not self.violations:
            print("OK property=%s evaluations=%d distinct=%d states=%d traces=%d wall=%.1fs" % (
                self.prop, self.cov["evaluations"], self.cov["distinct_nontrivial"], self.cov["states"],
                self.cov["traces_validated_against_impl"], time.time() - T0))
            return 0
        with open(path, "w") as f:
            for what, detail in self.violations[:20]:
                f.write("==== %s\n" % what)
                if detail is not None:
                    f.write(detail if isinstance(detail, str) else json.dumps(detail, indent=1, default=str))
                    f.write("\n")
        for what, _ in self.violations[:5]:
            print("  " + " ".join(what.split())[:400])
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def from_repo(e):
    """True if an exception comes out of the code under test"""
    frames = traceback.extract_tb(e.__traceback__)
    root = os.path.realpath(REPO) + os.sep
    return bool(frames) and any(os.path.realpath(f.filename).startswith(root) for f in frames)


def raised_in_repo(e):
    """True if the innermost frames (those below the harness) are the code under test or what it calls"""
    frames = traceback.extract_tb(e.__traceback__)
    root = os.path.realpath(REPO) + os.sep
    here = os.path.dirname(os.path.realpath(__file__)) + os.sep
    checks = os.path.join(os.path.dirname(os.path.dirname(os.path.realpath(__file__))), "checks") + os.sep
    for f in reversed(frames):
        p = os.path.realpath(f.filename)
        if p.startswith(root):
            return True
        if p.startswith(here) or p.startswith(checks):
            return False
    return False


def describe(e):
    return "%s: %s" % (type(e).__name__, " ".join(str(e).split())[:300])
