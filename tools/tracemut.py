"""Does trace validation have teeth?  Record real sessions, corrupt one observation at a time and
see that TLC names the clause.  Also: the uncorrupted sessions raise nothing.
Usage: /opt/venv/bin/python -B tools/tracemut.py"""
import copy
import json
import os
import shutil
import sys
import tempfile
from fractions import Fraction

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
import rec       # noqa: E402
import gen       # noqa: E402
import tlc       # noqa: E402

KINDS = rec.KINDS
FAST = [k for k in KINDS if k != "rCIP"]


def times(v, f):
    x = Fraction(v) * f
    return "%d/%d" % (x.numerator, x.denominator)


def fin(v):
    return v not in ("nan", "inf", "-inf", "none") and Fraction(v) != 0


def calls(ev, **kw):
    return [e for e in ev if e["op"] == "call" and all(e[k] == v for k, v in kw.items())]


def c_value(ev):
    for e in calls(ev, chk=True):
        for k in ("CH", "WB", "DB"):
            if k in e["obs"] and e["obs"][k]["out"] == "ok" and fin(e["obs"][k]["val"]):
                e["obs"][k]["val"] = e["obs"][k]["attr"] = times(e["obs"][k]["val"], Fraction(1000001, 1000000))
                return True


def c_gross(ev):
    for e in calls(ev, chk=True)[::-1]:
        for k in e["obs"]:
            if e["obs"][k]["out"] == "ok" and fin(e["obs"][k]["val"]):
                e["obs"][k]["val"] = e["obs"][k]["attr"] = times(e["obs"][k]["val"], Fraction(3, 2))
                return True


def c_attr(ev):
    e = calls(ev)[-1]
    e["obs"]["XB"]["attr"] = "1/3"
    return True


def c_refused(what, v):
    def f(ev):
        for e in calls(ev):
            if e["obs"]["CH"]["out"] == "ValueError":
                e["obs"]["CH"][what] = v
                if what == "out":
                    e["obs"]["CH"]["val"] = "0/1"
                return True
    return f


def c_zero(ev):
    e = calls(ev)[0]
    e["obs"]["PS"]["val"] = e["obs"]["PS"]["attr"] = "1/1000000000000000000000000"
    return True


def c_arg(ev):
    calls(ev)[-1]["argok"] = False
    return True


def c_op(op):
    def f(ev):
        for e in ev:
            if e["op"] == op:
                e["attr"]["GD43"] = "7/8"
                return True
    return f


def c_cmp(rel):
    def f(ev):
        for i, e in enumerate(ev):
            if e["op"] == "cmp" and e["rel"] == rel:
                last = [x for x in ev[:i] if x["op"] == "call" and x["o"] == e["a"]][-1]
                for k in ("WB", "CH", "DB", "XB"):
                    ob = last["obs"][k]
                    if ob["out"] == "ok" and fin(ob["val"]):
                        ob["val"] = ob["attr"] = times(ob["val"], Fraction(1001, 1000))
                        return True
    return f


def c_state(ev):
    for i, e in enumerate(ev):
        if e["op"] == "cmp" and e["rel"] == "same":
            last = [x for x in ev[:i] if x["op"] == "call" and x["o"] == e["a"] and x["obs"]["CH"]["out"] == "ok"][-1]
            last["X"][0][0] = times(last["X"][0][0], 1) if False else "12345/7"
            return True


def c_undef(ev):
    for e in calls(ev):
        for k in e["exact"]:
            if k in e["obs"] and e["obs"][k]["val"] in ("nan", "inf", "-inf"):
                e["obs"][k]["val"] = e["obs"][k]["attr"] = "1/2"
                return True


def c_raised(ev):
    for e in calls(ev, chk=True):
        if e["obs"]["DB"]["out"] == "ok" and fin(e["obs"]["DB"]["val"]):
            e["obs"]["DB"].update(out="LinAlgError", val="none")
            return True


def c_range(ev):
    for e in calls(ev, chk=True):
        if fin(e["obs"]["cSIL"]["val"]):
            e["obs"]["cSIL"]["val"] = e["obs"]["cSIL"]["attr"] = "-3/2"
            return True


def c_real(ev):
    for e in calls(ev, chk=True):
        if fin(e["obs"]["GD53"]["val"]):
            e["obs"]["GD53"].update(val="none", vt="ndarray")
            return True


CASES = [
    ("value", "value", c_value), ("value", "gross", c_gross), ("report", "attr", c_attr), ("value", "real", c_real),
    ("lifecycle", "admit", c_refused("out", "ok")), ("lifecycle", "noeffect", c_refused("attr", "5/4")),
    ("onecluster", "zero", c_zero), ("buffers", "arg", c_arg), ("buffers", "poke", c_op("poke")),
    ("interleave", "copy", c_op("copy")), ("batchinc", "same", c_cmp("same")), ("rename", "same", c_cmp("same")),
    ("reorder", "same", c_cmp("same")), ("layouts", "same", c_cmp("same")), ("geometry", "geom", c_cmp("geom")),
    ("geometry", "scale", c_cmp("scale")), ("buffers", "ident", c_cmp("ident")), ("interleave", "ident", c_cmp("ident")),
    ("degenerate", "undef", c_undef), ("value", "raised", c_raised), ("ranges", "range", c_range),
    ("replicas", "rep", c_cmp("rep")), ("replicas", "pad", c_cmp("pad")),
    ("batchinc", "GENERR", c_state),
]


def main():
    scratch = tempfile.mkdtemp(prefix="tracemut_")
    bad = 0
    try:
        tlc.classdir(scratch)
        G = gen.Gen([99], "quick")
        for builder, clause, corrupt in CASES:
            for _ in range(400):
                S = getattr(G, builder)(list(FAST))
                if len(S.ev) > 120:
                    continue
                S.sid = "s"
                for e in S.ev:
                    e["sid"] = "s"
                ev = json.loads(json.dumps(S.ev))
                mut = copy.deepcopy(ev)
                if not corrupt(mut):
                    continue
                got = []
                for n, evs in (("good", ev), ("bad", mut)):
                    p = os.path.join(scratch, n + ".ndjson")
                    with open(p, "w") as fh:
                        fh.writelines(json.dumps(e, separators=(",", ":")) + "\n" for e in evs)
                    r = tlc.finish(tlc.start("Trace", "Trace.cfg", scratch, env={"CVI_TRACE": p}), 300)
                    assert r["ok"], r["out"][-2000:]
                    got.append({f["clause"] for f in tlc.fails(r["out"])})
                if got[1] == got[0] == set():      # nothing claimed there (undefined, ill-conditioned): take another
                    continue
                ok = got[0] == set() and clause in got[1]
                bad += not ok
                print("%-3s %-11s corrupted for %-9s TLC reports %s" % ("ok" if ok else "BAD", builder, clause, sorted(got[1])),
                      flush=True)
                break
            else:
                bad += 1
                print("BAD %-11s nothing to corrupt for %s" % (builder, clause))
    finally:
        shutil.rmtree(scratch)
    return bad > 0


if __name__ == "__main__":
    sys.exit(main())
