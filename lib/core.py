"""Shared runner: obligations, known findings, evidence, exit status."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "rules"))
import extract
from extract import CheckError, BuildError

EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = {}          # rule -> [n, ok]
        self.bad = {}          # key -> (what, where)
        self.notes = []
        self.analysed = {}
        self.assumptions = []
        self.samples = []
        self.skipped = {}

    def ob(self, rule, key, ok, what="", where=""):
        """One obligation; `key` identifies the construct (no line numbers)."""
        o = self.obs.setdefault(rule, [0, 0])
        o[0] += 1
        if ok:
            o[1] += 1
            if len(self.samples) < 12 and o[0] % 7 == 1:
                self.samples.append({"rule": rule, "obligation": key, "where": where})
        else:
            self.bad.setdefault("%s|%s" % (rule, key), (what, where))
        return ok

    def floor(self, rule, name, n, least):
        """Fail closed when the analysis sees fewer constructs than the tree is known to have."""
        self.analysed[name] = n
        self.ob(rule, "floor:" + name, n >= least,
                "only %d %s found in the current source, the rule is anchored on at least %d" % (n, name, least))

    def undecided(self, key, why):
        """A construct the analysis does not follow: reported, not judged. Floors bound how many there may be."""
        self.skipped.setdefault(key, why)

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n


def known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property="):
                head, _, rest = line[len("known: property="):].partition(" key=")
                key, _, what = rest.partition(" -- ")
                out[(head.strip(), key.strip())] = what.strip()
    return out


def run(pid, tier):
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    rep = Report(pid, tier)
    try:
        mod.check(rep)
    except BuildError as e:
        print("CHECK-ERROR property=%s the tree could not be compiled for analysis: %s" % (pid, str(e)[-1500:]))
        return 2
    except CheckError as e:
        rep.ob("anchor", str(e), False, "the analysis cannot establish the property: " + str(e))
    kn = known()
    fresh, old = {}, {}
    for k, v in rep.bad.items():
        if (pid, k) in kn:
            old[k] = v
        else:
            fresh[k] = v
    os.makedirs(EVID, exist_ok=True)
    n = sum(o[0] for o in rep.obs.values())
    ok = sum(o[1] for o in rep.obs.values())
    cov = {"explanation": getattr(mod, "EXPLAIN", (mod.__doc__ or "")).strip(),
           "obligations": n, "discharged": ok,
           "by_rule": {k: {"obligations": v[0], "discharged": v[1]} for k, v in rep.obs.items()},
           "analysed": rep.analysed, "samples": rep.samples}
    if rep.skipped:
        cov["undecided"] = [{"construct": k, "why": w} for k, w in sorted(rep.skipped.items())][:400]
    if getattr(mod, "NOT_COVERED", None):
        cov["not_covered"] = mod.NOT_COVERED
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + rep.assumptions,
          "wall_s": round(time.time() - t0, 3),
          "violations": len(fresh),
          "violation_list": [{"key": k, "what": w, "where": l} for k, (w, l) in sorted(fresh.items())],
          "known_findings": [{"key": k, "what": w, "where": l} for k, (w, l) in sorted(old.items())]}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for k, (w, l) in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (pid, k, l, kn[(pid, k)] or w))
    print("%s: %d obligations, %d discharged; %s%s (%.1fs)" % (
        pid, n, ok, ", ".join("%s=%s" % x for x in rep.analysed.items()),
        "; %d constructs not decided" % len(rep.skipped) if rep.skipped else "", time.time() - t0))
    if fresh:
        rp = os.path.join(EVID, pid + ".violation.json")
        json.dump(ev["violation_list"], open(rp, "w"), indent=1)
        for k, (w, l) in sorted(fresh.items())[:40]:
            print("  violated: %s at %s\n    %s" % (k, l, w))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        rc = run(pid, tier)
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
