#!/usr/bin/env python3
"""Development aid (not a registered check): applies each given patch to a
scratch copy of /repo and runs the checks on it.
  run.py [-p P01,P02] file.diff ...     print which properties alarm
  run.py --quiet                        every selftest/quiet/*.diff must be silent
  run.py --seeded                       every seeded/*/patch.diff: which checks catch it"""
import glob, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("SELFW", "/tmp/selftest")


def props():
    return sorted(f[:-3].upper() for f in os.listdir(V + "/sa/props") if f[0] == "p" and f.endswith(".py"))


def main():
    a = sys.argv[1:]
    ps = props()
    if a and a[0] == "-p":
        ps = a[1].split(",")
        a = a[2:]
    verbose = False
    if a and a[0] == "-v":
        verbose = True
        a = a[1:]
    if a == ["--quiet"]:
        a = sorted(glob.glob(V + "/selftest/quiet/*.diff"))
    elif a == ["--seeded"]:
        a = sorted(glob.glob(V + "/seeded/*/patch.diff"))
    if not os.path.exists(W + "/cache"):
        os.makedirs(W, exist_ok=True)
        shutil.copytree(V + "/.cache", W + "/cache")
    for d in a:
        R = W + "/repo"
        shutil.rmtree(R, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", R])
        if os.path.exists("/repo/Cargo.lock"):
            shutil.copy("/repo/Cargo.lock", R + "/Cargo.lock")
        r = subprocess.run(["git", "-C", R, "apply", os.path.abspath(d)], capture_output=True, text=True)
        if r.returncode:
            print(d, "DOES NOT APPLY", r.stderr[:300])
            continue
        env = dict(os.environ, HTP_REPO=R, HTP_CACHE=W + "/cache", HTP_EVIDENCE=W + "/ev")
        t0 = time.time()
        first = subprocess.run(["timeout", "600", sys.executable, V + "/check.py", ps[0]], env=env, capture_output=True, text=True)
        procs = [(ps[0], first.returncode, first.stdout)]
        run = [(p, subprocess.Popen(["timeout", "600", sys.executable, V + "/check.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for p in ps[1:]]
        for p, h in run:
            out = h.communicate()[0]
            procs.append((p, h.returncode, out))
        hit = [p for p, rc, o in procs if rc]
        print("%-60s %s (%.0fs)" % (os.path.relpath(d, V), " ".join(hit) or "-", time.time() - t0), flush=True)
        if verbose or not verbose and hit and "--quiet" in sys.argv:
            for p, rc, o in procs:
                if rc:
                    for l in o.splitlines()[1:6]:
                        print("     ", p, l[:260])


main()
