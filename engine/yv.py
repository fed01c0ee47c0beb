"""Common part of the checks: facts of /repo's current tree, reports, evidence."""
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("YV_REPO", "/repo")
WORK = os.environ.get("YV_WORK", os.path.join(VERIF, "work"))
sys.path.insert(0, os.path.join(VERIF, "engine"))

KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


def source_hash():
    h = hashlib.sha256()
    files = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    files += [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock")]
    files += [os.path.join(VERIF, "driver", "src", f) for f in sorted(os.listdir(os.path.join(VERIF, "driver", "src")))]
    for f in files:
        if os.path.exists(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def load_facts():
    """Facts of the current source, built anew unless the source is unchanged."""
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, "facts-%s.json" % source_hash())
    if not os.path.exists(out):
        for f in os.listdir(WORK):
            if f.startswith("facts-"):
                os.remove(os.path.join(WORK, f))
        log = os.path.join(WORK, "facts.log")
        with open(log, "w") as lf:
            r = subprocess.run(["bash", os.path.join(VERIF, "facts.sh"), REPO, out + ".tmp", os.path.join(WORK, "tgt")], stdout=lf, stderr=subprocess.STDOUT)
        if r.returncode != 0 or not os.path.exists(out + ".tmp"):
            return None, open(log).read()[-3000:]
        os.rename(out + ".tmp", out)
    with open(out) as f:
        return json.load(f), None


def known_findings(prop):
    """Keys listed as open findings of the property."""
    keys = []
    if os.path.exists(KNOWN_FILE):
        for l in open(KNOWN_FILE):
            l = l.strip()
            if l.startswith("finding: property=%s key=" % prop):
                keys.append(l.split(" key=", 1)[1].split(" :: ")[0])
    return keys


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []      # (key, text)
        self.ok = {}              # rule -> count
        self.analysed = set()
        self.states = 0
        self.callsites = 0
        self.samples = []
        self.t0 = time.time()
        self.rules = []
        self.assumptions = []
        self.floors = {}

    def good(self, rule, n=1, sample=None):
        self.ok[rule] = self.ok.get(rule, 0) + n
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, text):
        """key identifies the construct without line numbers."""
        if (key, text) not in self.violations:
            self.violations.append((key, text))

    def floor(self, what, have, want):
        self.floors[what] = have
        if have < want:
            self.bad("floor:%s" % what, "only %d instances of %s were found; at least %d are expected, so the analysis no longer covers what it is meant to cover" % (have, what, want))

    def use(self, E):
        self.analysed |= E.analysed
        self.states += E.nstates
        self.callsites += E.callsites

    def finish(self):
        prop = self.prop
        known = known_findings(prop)
        new, old = [], []
        for k, t in self.violations:
            (old if k in known else new).append((k, t))
        nok = sum(self.ok.values())
        ev = {
            "property": prop,
            "tier": os.environ.get("VERIF_TIER", "quick"),
            "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the MIR of the current source: " + "; ".join(self.rules),
                "functions_analysed": len(self.analysed),
                "local_functions": sorted(x for x in self.analysed if "yason" in x)[:400],
                "abstract_states": self.states,
                "call_sites": self.callsites,
                "obligations": nok + len(self.violations),
                "discharged": nok,
                "obligations_by_rule": self.ok,
                "instances": self.floors,
                "samples": self.samples,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        d = os.environ.get("YV_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, prop + ".violations.txt")
        with open(os.path.join(d, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k, t in old:
            print("KNOWN-FINDING: property=%s %s" % (prop, t))
        if new:
            with open(rp, "w") as f:
                for k, t in new:
                    f.write("[%s] %s\n" % (k, t))
            for k, t in new[:20]:
                print("%s: [%s] %s" % (prop, k, t))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        print("%s: held: %d obligations discharged over %d functions, %d abstract states, %.1f s" % (prop, nok, len(self.analysed), self.states, time.time() - self.t0))
        return 0


def main(prop, check):
    """Runs a check; anything that keeps it from deciding is a violation."""
    R = Report(prop)
    try:
        F, err = load_facts()
        if F is None:
            R.bad("facts", "the facts of the current source could not be computed: " + err[-1500:])
        else:
            check(F, R)
    except Exception as e:
        import traceback
        traceback.print_exc()
        R.bad("analysis-error", "the analysis could not be completed: %s: %s" % (type(e).__name__, str(e)[:400]))
    return R.finish()
