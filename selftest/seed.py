#!/usr/bin/env python3
"""seed.py ID...: validate seeded/<ID> (patch applies, builds, baseline tests pass, demo 0 without / nonzero with)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("passed") or base
    want = set(want if isinstance(want, list) else want.keys())
    for i in sys.argv[1:]:
        d = os.path.join(V, "seeded", i)
        a = sh("bash %s/demo.sh" % d, cwd=R)
        if a.returncode:
            print(i, "demo fails on the clean tree", a.stdout[-600:]); continue
        try:
            p = sh("git apply %s/patch.diff" % d, cwd=R)
            if p.returncode:
                print(i, "does not apply", p.stdout[-300:]); continue
            b = sh("bash /opt/vp/build.sh")
            if b.returncode:
                print(i, "does not build", b.stdout[-1500:]); continue
            sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            o = json.load(open("/tmp/seed_out.json"))
            ok = set(o.get("passed", []))
            miss = sorted(want - ok)
            a = sh("bash %s/demo.sh" % d, cwd=R)
            print(i, "OK" if a.returncode and not miss else "BAD", "demo_rc=%d" % a.returncode, "failing tests:", miss[:5], len(miss), "|", a.stdout[-150:].replace("\n", " / "))
        finally:
            sh("git checkout -q -- .", cwd=R)


main()
