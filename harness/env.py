"""Common environment of every check: where the code under test is, seeds, tiers, paths."""
import os, sys, random, json, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known", "findings.json")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
T0 = time.time()

def rng(*salt):
    return random.Random("|".join(map(str, (SEED,) + salt)))

def pick(quick, thorough):
    return thorough if TIER == "thorough" else quick
