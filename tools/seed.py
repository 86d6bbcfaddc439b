#!/usr/bin/env python3
"""Confirm planted bugs: seed.py [--all-checks] ID...   (applies each to /repo in turn and undoes it)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build():
    return sh("bash /opt/vp/build.sh").returncode == 0


def test():
    sh("bash /opt/vp/test.sh /tmp/seed-o.json")
    d = json.load(open("/tmp/seed-o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("passed") or base.get("stable") or base.get("tests") or []
    return [t for t in want if t not in set(d["passed"])]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    allc = "--all-checks" in sys.argv
    notest = "--no-test" in sys.argv
    if not args:
        args = sorted(os.listdir(V + "/seeded"))
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
    checks = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    if not notest:
        build()
        for i in args:
            r = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd="/repo")
            if r.returncode:
                print(i, "DEMO FAILS ON CLEAN TREE", r.stdout[-600:])
    for i in args:
        d = "%s/seeded/%s" % (V, i)
        prop = json.load(open(d + "/meta.json"))["property"]
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stdout)
            continue
        try:
            msg = []
            if not notest:
                msg.append("build ok" if build() else "BUILD FAILS")
                t = test()
                msg.append("tests ok" if not t else "TESTS FAIL %s" % t[:3])
                r = sh("bash %s/demo.sh" % d, cwd="/repo")
                msg.append("demo fails as it should" if r.returncode else "DEMO PASSES")
            caught = []
            for c in (checks if allc else [prop] if prop in checks else []):
                r = sh("bin/check %s quick" % c, cwd=V)
                if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                    caught.append(c)
                    if c == prop:
                        msg.append([l for l in r.stdout.splitlines() if "violated:" in l][:2])
                elif r.returncode:
                    msg.append("CHECK %s rc=%d" % (c, r.returncode))
            print(i, prop, "CAUGHT" if prop in caught else "MISSED", caught, *msg, flush=True)
        finally:
            sh("git -C /repo checkout -- .")
    if not notest:
        build()


main()
