#!/usr/bin/env python3
"""Turn the uncommitted change of /repo into /verif/seeded/<id>/patch.diff.

Confirms: only non-test source lines of the original repository change, the
stable tests pass, demo.sh fails with the change and passes without it.
Always leaves /repo clean.  With --check it also runs the property's check.
"""
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          stdin=subprocess.DEVNULL, **kw)


def tests():
    sh("bash /opt/vp/build.sh", cwd="/repo")
    sh("bash /opt/vp/test.sh /tmp/seed-out.json")
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    now = json.load(open("/tmp/seed-out.json"))
    return base - set(now["passed"])


def main():
    ident = sys.argv[1]
    folder = os.path.join(VERIF, "seeded", ident)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    patch = os.path.join(folder, "patch.diff")
    if "--again" in sys.argv:
        r = sh("git -C /repo apply " + patch)
        assert r.returncode == 0, r.stderr
    diff = sh("git -C /repo diff").stdout
    assert diff, "no change"
    demo = os.path.join(folder, "demo.sh")
    ok = True
    try:
        root = sh("git -C /repo log --format=%h").stdout.split()[-1]
        name = None
        removed = 0
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                name = line[6:]
                blame = sh("git -C /repo blame -s HEAD -- " + name).stdout
                orig = set()
                for bline in blame.splitlines():
                    if bline.startswith("^" + root[:6]):
                        orig.add(re.sub(r"^\S+ (\S+ )?\s*\d+\) ", "", bline))
            elif line.startswith("-") and not line.startswith("---"):
                removed += 1
                if line[1:].strip() and line[1:] not in orig:
                    print("NOT ORIGINAL:", line)
                    ok = False
        if not removed:
            print("no original line changed")
            ok = False
        missing = tests()
        if missing:
            print("TESTS FAIL", len(missing), sorted(missing)[:4])
            ok = False
        r = sh("bash " + demo, cwd="/repo", timeout=300)
        print("demo with patch: rc", r.returncode, (r.stdout + r.stderr)[-400:])
        if r.returncode == 0:
            ok = False
        if "--check" in sys.argv:
            r = sh("./check {}".format(meta["property"]), cwd=VERIF)
            print("check rc", r.returncode, r.stdout[-900:], r.stderr[-300:])
    finally:
        sh("git -C /repo checkout -- .")
    r = sh("bash " + demo, cwd="/repo", timeout=300)
    print("demo without: rc", r.returncode, (r.stdout + r.stderr)[-400:])
    if r.returncode != 0:
        ok = False
    if ok:
        with open(patch, "w") as fil:
            fil.write(diff)
    else:
        with open("/tmp/rejected.diff", "w") as fil:
            fil.write(diff)
    print("KEPT" if ok else "REJECTED (diff in /tmp/rejected.diff)", ident)


main()
