"""Author and confirm planted bugs (never used by a check).

seed(id, prop, edits, demo, needs, breaks): writes seeded/<id>/ from (file, old, new) edits applied to
a scratch copy of /repo's HEAD.   confirm(id): build, stable tests, demo before/after, then the check.
Run:  python tools/seed.py confirm ID ...   |  python tools/seed.py checks [ID ...]
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = {"PATH": "/usr/bin:/bin", "HOME": "/root", "MPLCONFIGDIR": "/tmp/verif-mpl", "PYTHONDONTWRITEBYTECODE": "1",
       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
IGN = ["diagnostics_panel", "nslx", "panel", "sur", "sur_error", "sur_lag"]


def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % d, shell=True, check=True)
    subprocess.run(["git", "init", "-q"], cwd=d, check=True)
    subprocess.run("git add -A && git -c user.email=a@b -c user.name=x commit -qm base", shell=True, cwd=d, check=True)
    return d


def seed(id, prop, edits, demo, needs, breaks):
    d = copy()
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                raise SystemExit("%s: %s: fragment found %d times" % (id, f, s.count(old)))
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, check=True).stdout
    finally:
        shutil.rmtree(d)
    o = os.path.join(HERE, "seeded", id)
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "wb").write(diff)
    open(os.path.join(o, "demo.py"), "w").write(demo.lstrip("\n"))
    open(os.path.join(o, "demo.sh"), "w").write('#!/bin/bash\n# cwd: the repository\nPYTHONPATH="$PWD" exec %s -B "$(dirname "$0")/demo.py"\n' % PY)
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(o, "meta.json"), "w"), indent=1)


def confirm(id, check=True, tests=True):
    o = os.path.join(HERE, "seeded", id)
    prop = json.load(open(os.path.join(o, "meta.json")))["property"]
    d = copy()
    res = {"id": id, "prop": prop}
    try:
        env = dict(ENV, PYTHONPATH=d)
        demo = lambda: subprocess.run(["bash", os.path.join(o, "demo.sh")], cwd=d, env=env, capture_output=True, text=True)
        r = demo()
        res["demo_before"] = r.returncode
        if r.returncode:
            res["demo_err"] = (r.stdout + r.stderr)[-600:]
        subprocess.run(["git", "apply", os.path.join(o, "patch.diff")], cwd=d, check=True)
        r = demo()
        res["demo_after"] = r.returncode
        res["demo_msg"] = (r.stdout + r.stderr).strip()[-200:]
        if tests:
            rep = os.path.join(d, "rep.txt")
            cmd = [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--tb=no", "-rf"] + ["--ignore=spreg/tests/test_%s.py" % i for i in IGN] + ["spreg"]
            r = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True)
            bad = [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR")) and "TestGMMError::test_regimes" not in l]
            res["tests"] = "ok" if not bad and "passed" in r.stdout else bad[:3] or r.stdout[-300:]
        if check and os.path.exists(os.path.join(HERE, "checks", prop + ".py")):
            r = subprocess.run([PY, "run.py", prop, "--tier", "quick"], cwd=HERE, env=dict(env, VERIF_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"),
                               capture_output=True, text=True)
            res["check"] = r.returncode
            res["viol"] = [l.strip()[:170] for l in r.stdout.splitlines() if ": " in l and l.startswith("  ") and not l.startswith("   ")][:2]
            if r.returncode == 2:
                res["out"] = r.stdout[-600:]
    finally:
        shutil.rmtree(d)
    res["good"] = res["demo_before"] == 0 and res["demo_after"] != 0 and res.get("tests", "ok") == "ok"
    return res


def main():
    what, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    ok = caught = 0
    with ThreadPoolExecutor(4 if what == "confirm" else 2) as ex:
        for r in ex.map(lambda i: confirm(i, check=what != "tests", tests=what in ("confirm", "tests")), ids):
            ok += r["good"]
            caught += r.get("check") == 1
            print(("" if r["good"] else "BAD ") + ("caught " if r.get("check") == 1 else "MISSED " if "check" in r else "no check "), json.dumps(r))
            sys.stdout.flush()
    print("confirmed %d, caught %d of %d" % (ok, caught, len(ids)))


if __name__ == "__main__":
    main()
