"""replay.py val|life BEHAVIOURS PROP     step real objects through the behaviours TLC printed
replay.py session FILE OUT              execute the calls of a recorded session again

A behaviour comes with the outcome and the value the specification expects
after each step; nothing here knows how an index is computed.  The last line of
the output is a JSON summary.
"""
import copy
import json
import pickle
import sys
import time

import rec
import numpy as np
from rec import CLASSES, Session, num
from props import PROPS

NAMES = [
    lambda l: l - 1,
    lambda l: 10 - 3 * l,
    lambda l: [0, -1, 1, -2, 2, -3, 3][l],
    lambda l: [0, 2 ** 40, -2 ** 40, 2 ** 40 + 1, 17, 256, -256][l],
    lambda l: [0, 256, 0, 65536, -256, 2 ** 32, 512][l],
    lambda l: np.int64([0, 9, -7, 5, 3, -1, 100][l]),
    lambda l: np.int16([0, 255, -1, 1, 0, 127, -128][l]),
    lambda l: 5 - l,
]


def parse(path):
    head, lines = None, []
    with open(path) as fh:
        for x in fh:
            if x.startswith('"@'):
                lines.append(json.loads(json.loads(x)[1:]))
            elif x.startswith('"#'):
                head = json.loads(json.loads(x)[1:])
    return head, lines


def thaw(a, w):
    """Make an array writeable again; False if it had been made read-only."""
    if isinstance(a, np.ndarray) and w and not a.flags.writeable:
        a.setflags(write=True)
        return False
    return True


def guarded(f):
    try:
        return "ok", f()
    except Exception as ex:      # noqa: BLE001
        return type(ex).__name__, None


def attr(ob):
    try:
        return ob.criterion_value
    except Exception:
        return None


def isnum(v):
    return type(v) in (float, np.float64) or num(v) != "none"


class Judge:
    """Compares observations with expectations; collects failing clauses."""

    def __init__(self, prop, limit=20):
        self.clauses, self.fails, self.limit, self.steps, self.kinds_seen = set(PROPS[prop]["clauses"]), [], limit, 0, {}

    def fail(self, clause, kind, want, got, where):
        if clause in self.clauses and len(self.fails) < self.limit:
            self.fails.append(dict(clause=clause, kind=kind, want=str(want), got=str(got), where=where))

    def call(self, kind, out, val, at, ex, k, exact, where):
        self.steps += 1
        t, r, tol = ex
        self.kinds_seen[t] = self.kinds_seen.get(t, 0) + 1
        if out != "ok":
            self.fail("illraised" if t == "illcond" else "raised", kind, t, out, where)
            return
        if not isnum(val):
            self.fail("real", kind, "a real number", type(val).__name__, where)
            return
        v = float(val)
        if not (isnum(at) and (at == val or (v != v and float(at) != float(at)))):
            self.fail("attr", kind, v, at, where)
        fin = np.isfinite(v)
        if t == "zero":
            if v != 0.0:
                self.fail("zero", kind, 0, v, where)
        elif t == "num":
            if not fin:
                for c in ("value", "gross", "range"):
                    self.fail(c, kind, r, v, where)
                return
            if abs(v - r) > tol:
                self.fail("value", kind, r, v, where)
                if abs(v - r) > tol + 1e-6 * abs(r):
                    self.fail("gross", kind, r, v, where)
            if kind == "cSIL" and abs(v) > 1 + 1e-6 or kind == "PS" and abs(v) > k + 1e-6 or \
                    kind not in ("cSIL", "PS") and v < -1e-6:
                self.fail("range", kind, "in range", v, where)
        elif t == "undef":
            if kind in exact and fin:
                self.fail("undef", kind, "not finite", v, where)

    def same(self, kind, a, b, ex, where):
        """Two observations that the specification identifies."""
        self.steps += 1
        t, r, tol = ex
        if a is None or b is None or t not in ("num", "zero"):
            return
        a, b = float(a), float(b)
        if t == "zero" and a != b or t == "num" and not abs(a - b) <= 2 * tol:
            self.fail("same", kind, a, b, where)


def exps(lines):
    return {tuple(map(tuple, l["h"])): {k: (e[0], float(e[1]), float(e[2])) for k, e in l["ex"].items()}
            for l in lines}


EXACT = ("CH", "GD43", "GD53", "DB", "XB", "PS")


def val(path, prop):
    head, lines = parse(path)
    P = [np.array(p, dtype=float) for p in head["points"]]
    E = exps(lines)
    inner = {h[:-1] for h in E}
    leaves = sorted(h for h in E if h not in inner)
    kinds = sorted({k for b in PROPS[prop]["builders"] for k in b[2]})
    J = Judge(prop)
    tag = dict(C01="mode", C09="names", C10="order", C18="type").get(prop)
    seen = {}
    t0 = time.time()

    def where(h, nm, mode, kind):
        return dict(h=[list(x) for x in h], labels=[int(nm(l)) for _, l in h], mode=mode, points=head["points"])

    def exact(h):
        sz = {}
        for _, l in h:
            sz[l] = sz.get(l, 0) + 1
        return EXACT if max(sz.values()) <= 2 else ()

    def order_names(h):
        """labels by content, so that two orders of the same samples agree on them"""
        c = {}
        for p, l in h:
            c.setdefault(l, []).append(p)
        rank = {l: i for i, l in enumerate(sorted(c, key=lambda l: (sorted(c[l]), l)))}
        return lambda l: rank[l]

    def key(h):
        c = {}
        for p, l in h:
            c.setdefault(l, []).append(p)
        return tuple(sorted(tuple(sorted(v)) for v in c.values()))

    def stream(h, nm, kind, cast=None, judge=True, scribble=False):
        ob = CLASSES[kind]()
        buf = np.zeros(len(P[0]))
        res = []
        for i, (p, l) in enumerate(h):
            if scribble:
                buf[:] = P[p - 1]
                x = buf
            else:
                x = P[p - 1] if cast is None else cast(P[p - 1])
            keep, w = x.copy(), x.flags.writeable
            out, v = guarded(lambda: ob.get_cvi(x, nm(l)))
            if not (np.array_equal(keep, x) and x.flags.writeable == w):
                J.fail("arg", kind, "unchanged", "changed", where(h, nm, "inc", kind))
                thaw(x, w)
                x[:] = keep
            if scribble:
                buf[:] = 97.0 - 3 * i
            pre = h[:i + 1]
            if judge:
                J.call(kind, out, v, attr(ob), E[pre][kind], len({b for _, b in pre}), exact(pre),
                       where(h[:i + 1], nm, "inc", kind))
            res.append(v if out == "ok" else None)
            if out != "ok":
                break
        return res

    def batch(h, nm, kind, flavour, judge=True):
        X = np.array([P[p - 1] for p, _ in h])
        L = [int(nm(l)) for _, l in h]
        lab = np.array(L) if flavour % 2 == 0 else L
        if flavour % 3 == 1:
            X = np.asfortranarray(X)
        if flavour % 5 == 2:
            X = X.astype(int)
        ob = CLASSES[kind]()
        out, v = guarded(lambda: ob.get_cvi(X, lab))
        if judge:
            J.call(kind, out, v, attr(ob), E[h][kind], len(set(L)), exact(h), where(h, nm, "batch", kind))
        return v if out == "ok" else None

    casts = [lambda x: x.astype(np.float32), lambda x: x.astype(np.int8), lambda x: x.astype(int).tolist() and np.repeat(x, 2)[::2],
             lambda x: np.ascontiguousarray(x[::-1])[::-1], lambda x: x.astype(np.float16)]
    for n, h in enumerate(leaves):
        if len(J.fails) >= J.limit:
            break
        for kind in kinds:
            if tag == "order":
                nm = order_names(h)
                r = stream(h, nm, kind)
                q = seen.setdefault((kind, key(h)), (r[-1], h))
                if len(r) == len(h):
                    J.same(kind, q[0], r[-1], E[h][kind], where(h, nm, "inc", kind))
                continue
            nm = NAMES[n % len(NAMES)]
            r = stream(h, nm, kind, scribble=prop == "C16")
            if tag == "names":
                other = NAMES[(n + 1 + n // 8 % 7) % len(NAMES)]
                for i, (a, b) in enumerate(zip(r, stream(h, other, kind, judge=False))):
                    J.same(kind, a, b, E[h[:i + 1]][kind], where(h[:i + 1], other, "inc", kind))
            elif tag == "type":
                s = stream(h, nm, kind, cast=casts[n % len(casts)], judge=False)
                if len(r) == len(s) == len(h):
                    J.same(kind, r[-1], s[-1], E[h][kind], where(h, nm, "inc", kind))
                elif len(s) < len(h):
                    J.fail("raised", kind, "ok", "raised", where(h, nm, "inc", kind))
    hs = sorted(h for h in E if len({l for _, l in h}) > 1)
    for n, h in enumerate(hs):
        if len(J.fails) >= J.limit:
            break
        for kind in kinds:
            nm = order_names(h) if tag == "order" else NAMES[n % len(NAMES)]
            b = batch(h, nm, kind, 0 if tag else n)
            if tag == "mode":
                r = stream(h, nm, kind, judge=False)
                if len(r) == len(h):
                    J.same(kind, r[-1], b, E[h][kind], where(h, nm, "batch", kind))
            elif tag == "names":
                J.same(kind, b, batch(h, NAMES[(n + 3) % len(NAMES)], kind, 0, judge=False), E[h][kind],
                       where(h, nm, "batch", kind))
            elif tag == "order":
                q = seen.setdefault((kind, "b", key(h)), b)
                J.same(kind, q, b, E[h][kind], where(h, nm, "batch", kind))
            elif tag == "type":
                J.same(kind, b, batch(h, nm, kind, n, judge=False), E[h][kind], where(h, nm, "batch", kind))
    for f in J.fails:
        f["events"] = events(f.pop("where"), f["kind"])
    return dict(behaviours=len(E), leaves=len(leaves), batches=len(hs), steps=J.steps, expectations=J.kinds_seen,
                fails=J.fails, secs=round(time.time() - t0, 1), sample=lines[len(lines) // 2])


def events(w, kind):
    S = Session("replay", screen=False)
    S.new("a", [kind])
    X = [np.array(w["points"][p - 1], dtype=float) for p, _ in w["h"]]
    if w["mode"] == "batch":
        S.call("a", np.array(X), np.array(w["labels"]))
    else:
        for x, l in zip(X, w["labels"]):
            S.call("a", x, l)
            if not S.fam["a"]:
                break
    S.end()
    return S.ev


def life(path, prop):
    head, lines = parse(path)
    E = {tuple(map(tuple, l["h"])): l for l in lines}
    for l in lines:
        l["ex"] = {k: (e[0], float(e[1]), float(e[2])) for k, e in l["ex"].items()}
    inner = {h[:-1] for h in E}
    leaves = sorted((h for h in E if h not in inner), key=str)
    kinds = sorted({k for b in PROPS[prop]["builders"] for k in b[2]})
    J = Judge(prop)
    t0 = time.time()
    table = []
    for c in head["table"]:
        if c["nd"] == 1:
            table.append((np.array(c["X"][0], dtype=float), c["L"][0]))
        elif c["nd"] == 2:
            table.append((np.array(c["X"], dtype=float), np.array(c["L"])))
        elif c["nd"] == 0:
            table.append((np.array(3.0), c["L"][0]))
        else:
            table.append((np.zeros((2, 2, 2)), np.array(c["L"])))

    def evs(h, kind):
        S = Session("replay", screen=False)
        for o in head["objs"]:
            S.new(o, [kind])
        for s in h:
            if s[0] == "copy":
                S.copy(s[1], s[2], "deepcopy")
            elif kind in S.fam[s[1]]:
                d, l = table[s[2] - 1]
                S.call(s[1], d.copy(), copy.copy(l), expect=False)
        S.end()
        return S.ev

    def without_refused(h, kind):
        """Final value of the same history on fresh objects, refused calls left out."""
        objs = {o: CLASSES[kind]() for o in head["objs"]}
        v = None
        for i, s in enumerate(h):
            if s[0] == "copy":
                objs[s[2]] = copy.deepcopy(objs[s[1]])
            elif E[h[:i + 1]]["out"] == "ok":
                d, l = table[s[2] - 1]
                out, v = guarded(lambda: objs[s[1]].get_cvi(d.copy(), copy.copy(l)))
                v = v if out == "ok" else out
        return v

    bufs = [(d.copy(), copy.copy(l)) for d, l in table]
    for n, h in enumerate(leaves):
        if len(J.fails) >= J.limit:
            break
        for kind in kinds:
            objs = {o: CLASSES[kind]() for o in head["objs"]}
            last = {o: 0.0 for o in head["objs"]}
            for i, s in enumerate(h):
                e = E[h[:i + 1]]
                J.steps += 1
                bad = None
                if s[0] == "copy":
                    src = objs[s[1]]
                    out, c = guarded(lambda: copy.deepcopy(src) if n % 2 else pickle.loads(pickle.dumps(src)))
                    if out != "ok":
                        bad = ("raised", "a copy", out)
                    else:
                        objs[s[2]], last[s[2]] = c, last[s[1]]
                        if not same_bits(attr(c), last[s[1]]):
                            bad = ("copy", last[s[1]], attr(c))
                else:
                    o = s[1]
                    d, l = table[s[2] - 1]
                    bd, bl = bufs[s[2] - 1]
                    bd[...] = d
                    if isinstance(bl, np.ndarray):
                        bl[...] = l
                    ob = objs[o]
                    out, v = guarded(lambda: ob.get_cvi(bd, bl))
                    at = attr(ob)
                    if not (np.array_equal(bd, d) and np.array_equal(bl, l) and thaw(bd, True) and thaw(bl, True)):
                        bad = ("arg", "arguments unchanged", "changed")
                        thaw(bl, True)
                    bd[...] = -55.5 - i
                    if isinstance(bl, np.ndarray):
                        bl[...] = 1000 + i
                    if e["out"] != "ok":
                        if out != e["out"]:
                            bad = ("admit", e["out"], out)
                        elif not same_bits(at, last[o]):
                            bad = ("noeffect", last[o], at)
                    elif out != "ok":
                        bad = ("raised", e["ex"][kind][0], out)
                    else:
                        t, r, tol = e["ex"][kind]
                        if not isnum(v):
                            bad = ("real", "a real number", type(v).__name__)
                        elif not same_bits(at, v):
                            bad = ("attr", v, at)
                        elif t == "num" and not abs(float(v) - r) <= tol:
                            bad = ("value", r, v)
                        elif t == "zero" and v != 0.0:
                            bad = ("zero", 0, v)
                        last[o] = v
                if bad is None:
                    for p, ob in objs.items():
                        if not same_bits(attr(ob), last[p]):
                            bad = ("poke", last[p], attr(ob))
                if bad:
                    c = bad[0]
                    # what a refused call left behind shows up as a wrong value later
                    if c in ("value", "raised", "zero") and "ident" in J.clauses \
                            and any(E[h[:j + 1]]["out"] == "ValueError" for j in range(i)) \
                            and repr(without_refused(h[:i + 1], kind)) != repr(v if out == "ok" else out):
                        J.fail("ident", kind, bad[1], bad[2], (h[:i + 1], kind))
                    J.fail(c, kind, bad[1], bad[2], (h[:i + 1], kind))
                    break
    for f in J.fails:
        f["events"] = evs(*f.pop("where"))
    return dict(behaviours=len(leaves), steps=J.steps, fails=J.fails, secs=round(time.time() - t0, 1),
                sample=lines[len(lines) // 2])


def same_bits(a, b):
    if not isnum(a):
        return False
    return float(a) == float(b) or (float(a) != float(a) and float(b) != float(b))


def session(path, out):
    """Same calls on the current code (with plain arrays)."""
    S, sid = None, None
    for line in open(path):
        e = json.loads(line)
        if S is None:
            S = Session(e["sid"], screen=False)
        if e["op"] == "new":
            S.new(e["o"], list(e["attr"]))
        elif e["op"] == "call":
            if not S.fam[e["o"]]:
                continue
            f = lambda s: int(s.split("/")[0]) / int(s.split("/")[1])
            if e["nd"] == 1:
                S.call(e["o"], np.array([f(v) for v in e["X"][0]]), int(e["L"][0]), exact=e["exact"], expect=False)
            elif e["nd"] == 2:
                X = np.array([[f(v) for v in r] for r in e["X"]])
                S.call(e["o"], X, np.array([int(v) for v in e["L"]]), exact=e["exact"], expect=False)
            else:
                S.call(e["o"], np.zeros((2,) * e["nd"]), np.array([int(v) for v in e["L"]]), expect=False)
        elif e["op"] == "poke":
            S.poke(e["o"])
        elif e["op"] == "copy":
            S.copy(e["from"], e["o"], "deepcopy")
        elif e["op"] == "cmp":
            S.cmp(e["a"], e["b"], e["rel"], e["f"])
    S.end()
    with open(out, "w") as fh:
        S.dump(fh)


if __name__ == "__main__":
    if sys.argv[1] == "session":
        session(sys.argv[2], sys.argv[3])
    else:
        print(json.dumps(dict(val=val, life=life)[sys.argv[1]](sys.argv[2], sys.argv[3])))
