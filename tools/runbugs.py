"""Runs each planted bug's own check (or the checks given after --checks) with the bug applied to /repo.
usage: runbugs.py [id ...] [--checks C01,C02]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = None
if "--checks" in args:
    i = args.index("--checks"); checks = args[i + 1].split(","); del args[i:i + 2]
ids = args or sorted(os.listdir(os.path.join(V, "seeded")))
for id in ids:
    d = os.path.join(V, "seeded", id)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout
    try:
        subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
        for c in checks or [prop]:
            t = time.time()
            r = subprocess.run(["/opt/venv/bin/python", "-B", os.path.join(V, "harness", "check.py"), c], cwd=V, capture_output=True, text=True)
            hit = r.returncode == 1 and "VIOLATION property=%s" % c in r.stdout
            print("%-28s %s rc=%d %s %.0fs  %s" % (id, c, r.returncode, "CAUGHT" if hit else "missed", time.time() - t,
                  r.stdout.splitlines()[0][:110] if r.stdout else r.stderr[-200:]), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
