#!/usr/bin/env python3
"""Which checks report which planted bugs (scratch copies, QSA_REPO).

usage: catch.py [--own] [id ...]   --own: only the check of the bug's property
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def checks():
    return [c["property"] for c in json.load(open(
        os.path.join(ROOT, "MANIFEST.json")))["checks"]]


def run(args):
    wt, c = args
    v = tempfile.mkdtemp(prefix="catch-v-")
    try:
        shutil.copytree(os.path.join(ROOT, "qsa"), os.path.join(v, "qsa"))
        shutil.copy(os.path.join(ROOT, "known_findings.txt"), v)
        r = subprocess.run([sys.executable, "-m", "qsa", c], cwd=v,
                           env=dict(os.environ, QSA_REPO=wt),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return c, r.returncode, r.stdout.decode()
    finally:
        shutil.rmtree(v)


def main(argv):
    own = "--own" in argv
    verb = "-v" in argv
    ids = [a for a in argv if not a.startswith("-")]
    sd = os.path.join(ROOT, "seeded")
    jobs, keep = [], []
    for i in sorted(os.listdir(sd)):
        if ids and i not in ids:
            continue
        prop = json.load(open(os.path.join(sd, i, "meta.json")))["property"]
        tmp = tempfile.mkdtemp(prefix="catch-")
        wt = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", wt])
        r = subprocess.run(["git", "apply", os.path.join(
            sd, i, "patch.diff")], cwd=wt)
        if r.returncode:
            print(i, "DOES NOT APPLY")
            shutil.rmtree(tmp)
            continue
        keep.append((i, prop, tmp))
        for c in ([prop] if own else checks()):
            if c in checks():
                jobs.append((i, prop, wt, c))
    res = {}
    with ThreadPoolExecutor(8) as ex:
        for (i, prop, wt, c), (c2, rc, out) in zip(jobs, ex.map(
                run, [(j[2], j[3]) for j in jobs])):
            res.setdefault(i, {})[c] = (rc, out)
    for i, prop, tmp in keep:
        r = res.get(i, {})
        hit = [c for c in sorted(r) if r[c][0] == 1]
        odd = ["%s:%d" % (c, r[c][0]) for c in sorted(r)
               if r[c][0] not in (0, 1)]
        print("%-28s %s %s  by %s %s" % (
            i, prop, "CAUGHT" if prop in hit else "missed",
            ",".join(hit) or "-", " ".join(odd)))
        if verb:
            for c in hit:
                print("\n".join("      " + l[:300] for l in
                                r[c][1].splitlines() if l.startswith("  ")))
        shutil.rmtree(tmp)


if __name__ == "__main__":
    main(sys.argv[1:])
