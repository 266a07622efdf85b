"""Regenerates /verif/seeded/* from the edits below, against a scratch copy of /repo, keeping only
edits that apply, pass the stable tests and whose demonstration distinguishes them.
usage: mkbugs.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "src/cvi/modules/"
PRE = '''import sys, os
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import copy, pickle
import numpy as np
import cvi
np.seterr(all="ignore")

def close(a, b, tol=1e-7):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))

def stream(o, X, L):
    r = None
    for x, l in zip(X, L):
        r = o.get_cvi(np.array(x, dtype=float), l)
    return r

def batch(o, X, L):
    return o.get_cvi(np.array(X, dtype=float), np.array(L))

'''
B = {}


def bug(id, prop, file, edits, needs, breaks, demo):
    B[id] = dict(prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo)


exec(open(os.path.join(V, "tools", "bugs_list.py")).read())


def main(ids):
    for id in ids or sorted(B):
        b = B[id]
        w = tempfile.mkdtemp(prefix="bug_")
        r = os.path.join(w, "repo")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
            files = b["file"] if isinstance(b["file"], list) else [b["file"]]
            for f, (old, new) in zip(files if len(files) > 1 else files * len(b["edits"]), b["edits"]):
                p = os.path.join(r, f)
                s = open(p).read()
                if s.count(old) < 1:
                    print(id, "EDIT NOT FOUND", old[:60]); break
                s = s.replace(old, new, 1)
                open(p, "w").write(s)
            else:
                d = os.path.join(V, "seeded", id)
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
                open(os.path.join(d, "patch.diff"), "w").write(diff)
                open(os.path.join(d, "demo.py"), "w").write(PRE + b["demo"].strip() + "\n")
                open(os.path.join(d, "demo.sh"), "w").write(
                    '#!/bin/sh\n# exit 0: behaves as promised; nonzero: does not\n'
                    'exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
                os.chmod(os.path.join(d, "demo.sh"), 0o755)
                json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]),
                          open(os.path.join(d, "meta.json"), "w"), indent=1)
                t = subprocess.run([os.environ.get("PY", "/opt/venv/bin/python"), "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider"],
                                   cwd=r, capture_output=True, text=True)
                last = t.stdout.strip().splitlines()[-1]
                good = subprocess.run(["sh", os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True, text=True)
                bad = subprocess.run(["sh", os.path.join(d, "demo.sh")], cwd=r, capture_output=True, text=True)
                ok = t.returncode == 0 and good.returncode == 0 and bad.returncode != 0
                print(id, b["prop"], "OK" if ok else "REJECTED", "| tests:", last, "| demo", good.returncode, bad.returncode,
                      "" if ok else (good.stderr[-300:] + bad.stderr[-300:]))
                if not ok:
                    shutil.rmtree(d)
        finally:
            shutil.rmtree(w, ignore_errors=True)


main(sys.argv[1:])
