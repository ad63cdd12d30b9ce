#!/usr/bin/env python3
"""Development tool: seedtest.py [-n] [-j JOBS] [ID...]

Tries planted bugs of /verif/seeded, each in a scratch copy of /repo: the patch
applies, the library builds, the stable tests pass, demo.sh passes without and
fails with it; then runs the property's check against the copy.  -n skips the
tests (once they are known to pass).  No check uses this.
"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, timeout=1500, env=None):
    r = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode(errors="replace")


def one(ident, tests=True):
    d = os.path.join(SEEDED, ident)
    meta = json.load(open(os.path.join(d, "meta.json")))
    prop = meta["property"]
    work = tempfile.mkdtemp(prefix="seed-" + ident + "-")
    try:
        repo = os.path.join(work, "repo")
        vp = os.path.join(work, "vp")
        shutil.copytree("/repo", repo, symlinks=True)
        os.mkdir(vp)
        for f in os.listdir("/opt/vp"):
            t = open(os.path.join("/opt/vp", f)).read()
            t = t.replace("/opt/vp", vp).replace("/repo", repo)
            open(os.path.join(vp, f), "w").write(t)
        rc, out = sh(["bash", vp + "/build.sh"], repo)
        if rc:
            return ident, prop, "BASE BUILD FAILED " + out[-500:]
        rc, out = sh(["bash", d + "/demo.sh"], repo, 300)
        if rc:
            return ident, prop, "DEMO FAILS ON BASE: " + out[-500:]
        rc, out = sh(["git", "apply", d + "/patch.diff"], repo)
        if rc:
            return ident, prop, "PATCH: " + out[-500:]
        rc, out = sh(["bash", vp + "/build.sh"], repo)
        if rc:
            return ident, prop, "BUILD FAILED: " + out[-1500:]
        rc, out = sh(["bash", d + "/demo.sh"], repo, 300)
        if rc == 0:
            return ident, prop, "DEMO PASSES WITH PATCH"
        demo = out.strip().splitlines()[-1:] or [""]
        if tests:
            res = os.path.join(work, "out.json")
            sh(["bash", vp + "/test.sh", res], repo)
            passed = set(json.load(open(res))["passed"])
            lost = sorted(STABLE - passed)
            if lost:
                return ident, prop, "TESTS FAIL: %s" % lost
        env = dict(os.environ, VERIF_REPO=repo)
        rc, out = sh([sys.executable, os.path.join(VERIF, "tools/check.py"),
                      prop], VERIF, 900, env)
        what = [l for l in out.splitlines() if l.strip()]
        return ident, prop, "%s (demo: %s) %s" % (
            {1: "CAUGHT", 0: "MISSED"}.get(rc, "ERROR %d" % rc), demo[0][:80],
            " | ".join(what[:3])[:300])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    args = sys.argv[1:]
    tests, jobs = True, 3
    while args and args[0].startswith("-"):
        a = args.pop(0)
        if a == "-n":
            tests = False
        elif a == "-j":
            jobs = int(args.pop(0))
    ids = args or sorted(os.listdir(SEEDED))
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in cf.as_completed([ex.submit(one, i, tests) for i in ids]):
            print("%-32s %s %s" % f.result(), flush=True)


if __name__ == "__main__":
    main()
