"""Runs TLC on a specification and returns what it printed.  A non-zero exit that is not explained by printed
verdicts raises MachineryError: an error of the check, never a verdict."""
import os, re, json, subprocess, tempfile, shutil
from env import SPEC

JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class Result:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def lines(self, tag):
        """Printed records TAG|a|b|..."""
        res = []
        for line in self.out.splitlines():
            line = line.strip()
            if line.startswith('"') and line.endswith('"'):
                line = line[1:-1]
            if line.startswith(tag + "|"):
                res.append(line.split("|", 3) if tag == "V" else line.split("|"))
        return res


def run(module, cfg=None, env=None, workers="auto", timeout=600, extra=(), mem="4g"):
    meta = tempfile.mkdtemp(prefix="tlc_")
    try:
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m", "-cp", JAR + ":" + DEPS, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
        return Result(out, p.returncode)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def _traces(module, traces, cfg, timeout, mem):
    d = tempfile.mkdtemp(prefix="traces_")
    try:
        path = os.path.join(d, "traces.json")
        with open(path, "w") as f:
            json.dump(traces, f, ensure_ascii=True)
        r = run(module, cfg, env={"TRACES": path}, timeout=timeout, mem=mem)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    verdicts = {}
    for rec in r.lines("V"):
        verdicts[int(rec[1]) - 1] = (rec[3], int(rec[2]))
    return verdicts, r


def check_traces(module, traces, cfg=None, timeout=800, mem="6g", limit=20):
    """Runs a trace specification over a list of traces; returns ([(verdict, step)], Result).  A recording the
    specification cannot evaluate at all (it does not have the form of any behaviour) gets the verdict "form: ...",
    provided that TLC stops at that recording alone; anything else that goes wrong is an error of the machinery."""
    if not traces:
        raise MachineryError("no traces")
    out = [None] * len(traces)
    todo = list(range(len(traces)))
    last, bad = None, 0
    while todo:
        v, r = _traces(module, [traces[i] for i in todo], cfg, timeout, mem)
        for k, x in v.items():
            out[todo[k]] = x
        if last is None:
            last = r
        else:
            last.generated += r.generated
            last.distinct += r.distinct
        left = [i for i in todo if out[i] is None]
        if not left:
            if r.rc != 0:
                raise MachineryError("TLC: rc=%d\n%s" % (r.rc, r.out[-4000:]))
            break
        # narrow down to one recording that stops TLC
        group = left
        while len(group) > 1:
            half = group[:len(group) // 2]
            v2, r2 = _traces(module, [traces[i] for i in half], cfg, timeout, mem)
            for k, x in v2.items():
                out[half[k]] = x
            group = half if len(v2) < len(half) else group[len(group) // 2:]
        v3, r3 = _traces(module, [traces[i] for i in group], cfg, timeout, mem)
        if v3:
            out[group[0]] = v3[0]
        else:
            m = re.findall(r"[Ee]rror:? (.*)", r3.out)
            if not any(w in r3.out for w in ("evaluating", "Attempted", "In evaluation", "The exception was")):
                raise MachineryError("TLC: rc=%d\n%s" % (r3.rc, r3.out[-4000:]))
            out[group[0]] = ("form: not a behaviour of the specification: " + " ".join(m)[:200].replace("|", "/"), 0)
            bad += 1
            if bad >= limit:
                for i in range(len(out)):
                    if out[i] is None:
                        out[i] = ("skipped", 0)
        todo = [i for i in range(len(traces)) if out[i] is None]
    return out, last


def model_check(module, cfg=None, env=None, timeout=800, extra=(), mem="6g"):
    """Exhaustive check of a design model; any violation there is an error of the model."""
    r = run(module, cfg, env=env, timeout=timeout, extra=extra, mem=mem)
    if r.rc != 0 or "No error has been found" not in r.out:
        raise MachineryError("model checking %s failed: rc=%d\n%s" % (cfg or module, r.rc, r.out[-4000:]))
    return r


def behaviours(module, cfg=None, env=None, timeout=800, extra=(), mem="6g", simulate=False):
    """Behaviours the model checker enumerates (lines "B|<json>"), after checking the design's own properties."""
    r = run(module, cfg, env=env, timeout=timeout, extra=extra, mem=mem)
    if r.rc != 0 or not (simulate or "No error has been found" in r.out):
        raise MachineryError("model checking %s failed: rc=%d\n%s" % (cfg or module, r.rc, r.out[-4000:]))
    res = []
    for line in r.out.splitlines():
        if line.startswith('"B|'):
            res.append(json.loads(json.loads(line)[2:]))
    if not res:
        raise MachineryError("no behaviours of %s" % (cfg or module))
    r.out = ""
    return res, r
