#!/usr/bin/env python3
"""Validate the planted bugs of tools/plants/*.py and write seeded/<id>/.

usage: plant.py [id ...]      (default: those not yet in seeded/)
Works in a scratch copy under /tmp; /repo is not touched.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(ROOT, "tools/plants/*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        out += ns["PLANTS"]
    ids = [p["id"] for p in out]
    assert len(ids) == len(set(ids)), ids
    return out


def env(wt):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             MPLBACKEND="Agg", MPLCONFIGDIR="/tmp/mplconfig", PYTHONPATH=wt)
    return e


def tests(wt):
    xml = os.path.join(wt, "junit-plant.xml")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                    "--timeout=300", "-o", "junit_family=xunit2",
                    "--junitxml=" + xml, "tests"], cwd=wt, env=env(wt),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    import xml.etree.ElementTree as E
    ok = set()
    for c in E.parse(xml).iter("testcase"):
        if not any(x.tag in ("failure", "error", "skipped") for x in c):
            ok.add(c.get("classname") + "::" + c.get("name"))
    os.remove(xml)
    return STABLE - ok


def demo(d, wt):
    r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=wt,
                       env=env(wt), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=300)
    return r.returncode, r.stdout.decode()[-600:]


def one(p):
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        wt = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", wt])
        d = os.path.join(tmp, "demo")
        os.makedirs(d)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(p["demo"].lstrip("\n"))
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\n# exit 0: the property holds; nonzero: '
                    'broken\nexport MPLBACKEND=Agg PYTHONPATH="$PWD" '
                    'PYTHONDONTWRITEBYTECODE=1\n'
                    'T=$(mktemp -d)\nexport MPLCONFIGDIR="$T" SCRATCH="$T"\n'
                    '/opt/venv/bin/python "$(dirname "$0")/demo.py"\nrc=$?\n'
                    'rm -r "$T"\nexit $rc\n')
        rc, out = demo(d, wt)
        if rc != 0:
            return "demo fails on the unchanged tree: " + out
        for f, old, new in p["edits"]:
            path = os.path.join(wt, f)
            s = open(path).read()
            if s.count(old) != 1:
                return "edit matches %d times in %s: %r" % (
                    s.count(old), f, old[:80])
            open(path, "w").write(s.replace(old, new))
        rc, out = demo(d, wt)
        if rc == 0:
            return "demo passes with the bug: " + out
        bad = tests(wt)
        if bad:
            return "tests notice: %s" % sorted(bad)
        diff = subprocess.check_output(["git", "diff"], cwd=wt)
        dst = os.path.join(ROOT, "seeded", p["id"])
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        os.makedirs(dst)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(d, f), dst)
        open(os.path.join(dst, "patch.diff"), "wb").write(diff)
        json.dump({"property": p["prop"], "needs": p["needs"],
                   "what_it_breaks": p["what"]},
                  open(os.path.join(dst, "meta.json"), "w"), indent=1)
        return "ok    (demo: %s)" % out.strip().splitlines()[-1][-150:]
    finally:
        shutil.rmtree(tmp)


def main(argv):
    from concurrent.futures import ThreadPoolExecutor
    ps = load()
    if argv:
        ps = [p for p in ps if p["id"] in argv]
    else:
        ps = [p for p in ps if not os.path.isdir(
            os.path.join(ROOT, "seeded", p["id"]))]
    with ThreadPoolExecutor(6) as ex:
        for p, r in zip(ps, ex.map(one, ps)):
            print(p["id"], p["prop"], r)


if __name__ == "__main__":
    main(sys.argv[1:])
