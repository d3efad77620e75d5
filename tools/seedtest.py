"""seedtest.py ID... [--checks C01,C02] [--no-tests]: confirm planted changes in a scratch copy of /repo.

For each /verif/seeded/<id>: demo on the unchanged copy (must exit 0), patch, stable tests (must pass),
demo (must fail), the checks named by meta.json (and --checks) against the scratch copy.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=t)


def main(a):
    extra = []
    if "--checks" in a:
        i = a.index("--checks")
        extra = a[i + 1].split(",")
        del a[i:i + 2]
    tests = "--no-tests" not in a
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(V + "/seeded"))
    stable = json.load(open("/opt/vp/BASELINE.json"))
    stable = stable.get("stable_passing") or stable.get("stable") or stable.get("passed") or stable
    for i in ids:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        s = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        try:
            w = s + "/repo"
            sh(["git", "-C", "/repo", "worktree", "prune"], "/")
            subprocess.run(["cp", "-a", "/repo", w], check=True)
            shutil.copytree(d, s + "/demo", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
            demo = ["bash", s + "/demo/demo.sh"]
            r0 = sh(demo, w, t=300)
            ap = sh(["git", "apply", d + "/patch.diff"], w)
            if ap.returncode:
                print(i, "PATCH FAILS", ap.stderr)
                continue
            r1 = sh(demo, w, t=300)
            tr = ""
            if tests:
                t = sh([PY, "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "tests"], w, {"PYTHONPATH": w + "/src"})
                tr = t.stdout.strip().splitlines()[-1] if t.stdout else t.stderr[-200:]
            print("%s: demo %d -> %d; tests: %s" % (i, r0.returncode, r1.returncode, tr))
            if r0.returncode:
                print("   CLEAN DEMO FAILS:", (r0.stdout + r0.stderr)[-600:])
            if not r1.returncode:
                print("   DEMO DOES NOT FAIL")
            else:
                print("   ", (r1.stdout + r1.stderr).strip().splitlines()[-1][:160])
            for c in [meta["property"]] + [x for x in extra if x != meta["property"]]:
                k = sh(["python3", V + "/sa/run.py", c, "--tier", "quick"], V, {"VERIF_REPO": w})
                print("   %s %s exit %d %s" % ("CAUGHT" if k.returncode == 1 else "MISSED", c, k.returncode, "| ".join(x.strip() for x in k.stdout.splitlines() if "violated [" in x)[:230]))
        finally:
            shutil.rmtree(s, ignore_errors=True)


main(sys.argv[1:])
