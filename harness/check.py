"""check.py PROPERTY            run one property's check (VERIF_SEED, VERIF_TIER)
check.py --replay FILE       execute the calls of a recorded session again on the
                             current code and validate the new recording

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line:
it is broken.  Anything else: the check itself failed.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import tlc                       # noqa: E402
from props import PROPS, MODELS  # noqa: E402

PY = "/opt/venv/bin/python"
CPUS = min(8, os.cpu_count() or 1)


def pyenv(scratch):
    e = dict(os.environ)
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e[v] = "1"
    e["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONPATH"] = ""
    return e


def run_py(args, scratch, timeout):
    r = subprocess.run([PY, "-B", *args], env=pyenv(scratch), cwd=scratch, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise RuntimeError("%s\n%s" % (" ".join(args), r.stderr[-4000:]))
    return r.stdout


START = time.time()


def left(tier):
    """Seconds a step may still take."""
    return max(20.0, (780 if tier == "quick" else 14000) - (time.time() - START))


def campaign_shard(prop, seed, tier, shard, scratch):
    """Record one shard from the real code, then validate it with TLC."""
    cfg = PROPS[prop]
    out = os.path.join(scratch, "trace%d.ndjson" % shard)
    budget, sessions = cfg["size"][tier]
    run_py([os.path.join(HERE, "worker.py"), prop, str(seed), tier, str(shard), out, str(budget), str(sessions)],
           scratch, left(tier))
    st = json.load(open(out + ".stat"))
    r = tlc.finish(tlc.start("Trace", "Trace.cfg", scratch, env={"CVI_TRACE": out}, name="trace%d" % shard),
                   left(tier), partial=True)
    if not r["ok"] and not r["cut"]:
        raise tlc.TlcError("trace validation did not finish:\n" + r["out"][-4000:])
    f = tlc.fails(r["out"], r["cut"])
    return dict(stat=st, tlc=r, fails=f, file=out, counts=tlc.counts(r["out"]))


def run_model(m, scratch, tier):
    """One TLC run over the specification; with 'replay', its behaviours go into the code."""
    h = tlc.start(m["module"], m["cfg"], scratch, override=m.get("override", False),
                  workers=m.get("workers", 2), heap=m.get("heap", "3g"), extra=m.get("extra", ()),
                  env={"CVI_PROP": m["prop"]})
    r = tlc.finish(h, left(tier))
    if not r["ok"]:
        raise tlc.TlcError("model %s failed:\n%s" % (m["cfg"], r["out"][-4000:]))
    res = dict(name=m["cfg"], states=r["distinct"], transitions=r["states"], depth=r["depth"],
               secs=round(r["secs"], 1), fails=[], replayed=0)
    if m.get("replay"):
        beh = os.path.join(scratch, m["cfg"] + ".behaviours")
        with open(beh, "w") as fh:
            fh.write(r["out"])
        o = run_py([os.path.join(HERE, "replay.py"), m["replay"], beh, m["prop"]], scratch, left(tier))
        d = json.loads(o.splitlines()[-1])
        res.update(replayed=d["behaviours"], steps=d["steps"], fails=d["fails"], sample=d.get("sample"))
        if not d["behaviours"]:
            raise tlc.TlcError("model %s produced no behaviours" % m["cfg"])
    return res


def session_of(file, sid):
    return [l for l in open(file) if '"sid":"%s"' % sid in l]


def known(prop):
    """Findings listed as known for a property: {key: text}."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        if line.startswith("known: property=%s " % prop):
            key, _, text = line[len("known: property=%s " % prop):].strip().partition(" ")
            res[key.replace("key=", "")] = text
    return res


def main(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="cvi_%s_" % prop)
    try:
        tlc.classdir(scratch)
        cfg = PROPS[prop]
        models = [dict(m, prop=prop) for m in MODELS if prop in m["props"] and tier in m["tiers"]]
        shards = CPUS if tier == "quick" else 3 * CPUS
        with ThreadPoolExecutor(CPUS) as ex:
            fm = [ex.submit(run_model, m, scratch, tier) for m in models]
            ft = [ex.submit(campaign_shard, prop, seed, tier, s, scratch) for s in range(shards)]
            ms = [f.result() for f in fm]
            ts = [f.result() for f in ft]
        bad, errs = [], []
        for t in ts:
            for f in t["fails"]:
                f["file"] = t["file"]
                if f["clause"] == "GENERR":
                    errs.append(f)
                elif f["clause"] in cfg["clauses"]:
                    bad.append(f)
        for m in ms:
            for f in m["fails"]:
                if f["clause"] in cfg["clauses"]:
                    bad.append(dict(f, model=m["name"]))
        if errs:
            raise tlc.TlcError("generator error: %s" % errs[:3])
        rdir = os.path.join(VERIF, "replays")
        kf = known(prop)
        news = [f for f in bad if "%s:%s" % (f["clause"], f["kind"]) not in kf]
        for key in sorted({"%s:%s" % (f["clause"], f["kind"]) for f in bad} & set(kf)):
            print("KNOWN-FINDING: property=%s %s" % (prop, kf[key]))
        if news:
            os.makedirs(rdir, exist_ok=True)
            f = news[0]
            rp = os.path.join(rdir, "%s-%d.ndjson" % (prop, seed))
            with open(rp, "w") as fh:
                if "model" in f:
                    for e in f["events"]:
                        fh.write(json.dumps(e, separators=(",", ":")) + "\n")
                else:
                    fh.writelines(session_of(f["file"], f["sid"]))
            for g in news[:10]:
                print("  clause %-9s kind %-5s want %s got %s (%s)" % (
                    g["clause"], g["kind"], show(g["want"]), show(g["got"]), g.get("model", g.get("sid"))))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        cnt = {}
        for t in ts:
            for k, v in t["counts"].items():
                cnt[k] = cnt.get(k, 0) + v
        cov = dict(
            states=sum(m["states"] for m in ms) + sum(t["tlc"]["distinct"] for t in ts),
            transitions=sum(m["transitions"] for m in ms) + sum(t["stat"]["events"] for t in ts),
            traces_validated_against_impl=sum(t["stat"]["shipped"] for t in ts) + sum(m["replayed"] for m in ms),
            exhaustive=False,
            models=[{k: v for k, v in m.items() if k not in ("fails", "sample")} for m in ms],
            campaign=dict(
                sessions_executed=sum(t["stat"]["sessions"] for t in ts),
                sessions_distinct=sum(t["stat"]["distinct"] for t in ts),
                sessions_validated_by_tlc=sum(t["stat"]["shipped"] for t in ts),
                real_calls=sum(t["stat"]["calls"] for t in ts),
                trace_events=sum(t["stat"]["events"] for t in ts),
                shards_cut_short=sum(t["tlc"]["cut"] for t in ts),
                promoted_by_screening=sum(t["stat"]["suspect"] for t in ts),
                expectations_by_type=cnt,
                clauses=cfg["clauses"]),
            samples=[t["stat"]["sample"] for t in ts[:1]] + [m["sample"] for m in ms if m.get("sample")][:1])
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
                  assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=len(news))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print("%s: %d sessions (%d validated by TLC), %d models, %.1f s" % (
            prop, cov["campaign"]["sessions_executed"], cov["campaign"]["sessions_validated_by_tlc"],
            len(ms), time.time() - t0))
        return 1 if news else 0
    finally:
        if not os.environ.get("CVI_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)


def show(s):
    try:
        n, d = s.split("/")
        return "%.17g" % (int(n) / int(d))
    except Exception:
        return str(s)[:120]


ASSUME = [
    "Observation at the public interface: return value, exception type, criterion_value, the caller's arrays.",
    "Comparison up to rounding: relative 1e-9 enlarged by the conditioning of the index on the data at hand; "
    "no number is claimed where that conditioning exceeds 1e13 (cSIL: 1e7; rCIP: 1e11).",
    "Trusted: TLC, the BigInteger override of module Rat, the recorder.",
]


def replay(path):
    scratch = tempfile.mkdtemp(prefix="cvi_replay_")
    try:
        out = os.path.join(scratch, "again.ndjson")
        run_py([os.path.join(HERE, "replay.py"), "session", path, out], scratch, 800)
        r = tlc.finish(tlc.start("Trace", "Trace.cfg", scratch, env={"CVI_TRACE": out}), 800)
        if not r["ok"]:
            raise tlc.TlcError(r["out"][-3000:])
        f = tlc.fails(r["out"])
        for g in f:
            print("event %d object %s clause %s kind %s want %s got %s" % (
                g["line"], g["o"], g["clause"], g["kind"], show(g["want"]), show(g["got"])))
        print("%d clause failures" % len(f))
        return 1 if f else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(replay(sys.argv[2]) if sys.argv[1] == "--replay" else main(sys.argv[1]))
    except (tlc.TlcError, RuntimeError, subprocess.TimeoutExpired) as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(3)
