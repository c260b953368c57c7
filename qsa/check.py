"""Command line of the checks:  python3 -m qsa C01 [--tier quick|thorough]

exit 0: the property's rule holds on every construct analysed
exit 1: "VIOLATION property=<id> replay=<report>" was printed
exit 2: the analysis itself is broken (an anchor vanished, internal error)
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ["effects", "flow", "contract", "formula", "current", "balance",
           "exper", "power", "objects", "recovery", "plots"]


class Report(object):
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.findings = {}        # key -> text
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.undecided = []
        self.rule = ""

    def finding(self, key, text):
        """a violation, keyed by rule and construct (no line numbers)"""
        self.findings.setdefault(key, text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text, limit=12):
        if len(self.samples) < limit:
            self.samples.append(text)

    def undec(self, text):
        if text not in self.undecided:
            self.undecided.append(text)


def registry():
    reg = {}
    for m in MODULES:
        try:
            mod = importlib.import_module("qsa.checks." + m)
        except ImportError as e:
            if "qsa.checks." + m not in str(e) and \
                    getattr(e, "name", "") != "qsa.checks." + m:
                raise
            continue
        reg.update(mod.CHECKS)
    return reg


def known(pid):
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(path):
        return out
    with open(path) as fin:
        for line in fin:
            line = line.strip()
            if not line.startswith("finding: property=" + pid + " "):
                continue
            body = line.split(" ", 2)[2]
            key, _, what = body.partition(" :: ")
            out[key.strip()] = what.strip()
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    rep = Report(pid, tier)
    try:
        fn = registry()[pid]
        fn(rep, tier == "thorough")
    except Exception as e:            # analysis broken, not a verdict
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s %s: %s"
              % (pid, type(e).__name__, e))
        return 2
    kn = known(pid)
    new = {k: v for k, v in rep.findings.items() if k not in kn}
    old = {k: v for k, v in rep.findings.items() if k in kn}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = {"explanation": rep.rule}
    cov.update(rep.counts)
    cov["samples"] = rep.samples
    cov["undecided"] = rep.undecided
    cov["known_findings_seen"] = sorted(old)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": cov, "assumptions": rep.assumptions,
          "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as out:
        json.dump(ev, out, indent=1, sort_keys=True)
        out.write("\n")
    print("%s (%s): %s" % (pid, tier, ", ".join(
        "%s=%s" % kv for kv in sorted(rep.counts.items()))))
    for u in rep.undecided:
        print("undecided: " + u)
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k] or k))
    vpath = os.path.join(HERE, "evidence", pid + ".violation.txt")
    if os.path.exists(vpath):
        os.remove(vpath)
    if new:
        with open(vpath, "w") as out:
            for k in sorted(new):
                out.write("%s\n    %s\n" % (k, new[k]))
        for k in sorted(new):
            print("  %s\n      %s" % (k, new[k]))
        print("VIOLATION property=%s replay=%s" % (pid, vpath))
        return 1
    return 0
