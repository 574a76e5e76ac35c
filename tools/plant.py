"""Tries planted bugs: plant.py [-n] ID...: applies each to /repo, builds, runs
the tests, the demonstration (on both trees) and the check of its property,
and undoes it. Used while developing; no check uses it. -n: checks only."""
import json, os, subprocess, sys, time

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
VERIF = os.path.dirname(SEEDED)
REPO = os.environ.get("VERIF_REPO", "/repo")
VP = os.environ.get("PLANT_VP", "/opt/vp")


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def undo():
    subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)


def main():
    args = sys.argv[1:]
    only = "-n" in args
    extra = [a[1:] for a in args if a.startswith("+")]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if not only else set()
    assert not run(["git", "-C", REPO, "status", "--porcelain"]).stdout
    for i in [a for a in args if a[0] not in "-+"]:
        d = os.path.join(SEEDED, i)
        meta = json.load(open(d + "/meta.json"))
        res = {}
        if not only:
            p = run(["bash", d + "/demo.sh"], cwd=REPO, env=dict(os.environ, DEMO_TARGET="/tmp/plant/target"))
            res["demo0"] = p.returncode
            if p.returncode:
                print(p.stdout[-1500:])
        p = run(["git", "-C", REPO, "apply", d + "/patch.diff"])
        if p.returncode:
            print(i, "doesn't apply", p.stdout)
            continue
        try:
            if not only:
                p = run(["bash", VP + "/build.sh"])
                res["build"] = p.returncode
                if p.returncode:
                    print(p.stdout[-3000:])
                    continue
                run(["bash", VP + "/test.sh", "/tmp/plant/tests.json"])
                passed = set(json.load(open("/tmp/plant/tests.json"))["passed"])
                res["tests lost"] = sorted(base - passed)[:4]
                p = run(["bash", d + "/demo.sh"], cwd=REPO, env=dict(os.environ, DEMO_TARGET="/tmp/plant/target"))
                res["demo1"] = p.returncode
                res["demo says"] = [x for x in p.stdout.splitlines() if x.strip()][-3:]
            for c in [meta["property"]] + extra:
                t = time.time()
                p = run([sys.executable, VERIF + "/tools/check.py", c], cwd=VERIF)
                v = [x for x in p.stdout.splitlines() if x.startswith("VIOLATION")]
                res[c] = (p.returncode, v[:1] or p.stdout.splitlines()[-2:], round(time.time() - t))
        finally:
            undo()
        ok = only or (res["demo0"] == 0 and res["demo1"] == 1 and not res["tests lost"])
        caught = res.get(meta["property"], (0,))[0] == 1
        print(i, "VALID" if ok else "INVALID", "CAUGHT" if caught else "MISSED", json.dumps(res), flush=True)


main()
