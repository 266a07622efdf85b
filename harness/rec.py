"""Recording: drive the real index objects of /repo and write trace events.

Only what a user can see is recorded: returned value, exception, the
criterion_value attribute, and the caller's own arrays.
"""
import copy
import io
import json
import numbers
import os
import pickle
import signal
import sys
import time
import warnings

REPO = os.environ.get("CVI_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
warnings.simplefilter("ignore")
import numpy as np          # noqa: E402
np.seterr(all="ignore")
import cvi                  # noqa: E402

assert os.path.realpath(cvi.__file__).startswith(os.path.realpath(REPO) + os.sep), cvi.__file__

KINDS = ["CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB"]
CLASSES = {k: getattr(cvi, k) for k in KINDS}


class CallTimeout(Exception):
    pass


def _alarm(_s, _f):
    raise CallTimeout()


signal.signal(signal.SIGALRM, _alarm)


def num(x):
    """Exact image of a real scalar, or a word for anything else."""
    if isinstance(x, (bool, np.bool_)) or not isinstance(x, (numbers.Real, np.floating, np.integer)):
        return "none"
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x:
            return "nan"
        if x in (float("inf"), float("-inf")):
            return "inf" if x > 0 else "-inf"
    n, d = x.as_integer_ratio() if isinstance(x, float) else (int(x), 1)
    return "%d/%d" % (n, d)


def rows(data, nd):
    a = np.asarray(data, dtype=float)
    if nd == 1:
        return [[num(float(v)) for v in a]]
    if nd == 2:
        return [[num(float(v)) for v in r] for r in a]
    return []


def snapshot(a):
    if isinstance(a, np.ndarray):
        return (a.copy(), a.shape, a.dtype, a.strides, a.flags.writeable)
    return (copy.deepcopy(a), type(a))


def unchanged(a, snap):
    if isinstance(a, np.ndarray):
        return (a.shape, a.dtype, a.strides, a.flags.writeable) == snap[1:] and np.array_equal(a, snap[0])
    return type(a) is snap[1] and a == snap[0]


class Approx:
    """Float estimate of the definitions and of the error bounds, used only to
    choose where the specification should look (never for a verdict)."""

    def __init__(self, cov):
        self.ix, self.n, self.m, self.c, self.cov, self.sq, self.t = {}, [], [], [], cov, 0.0, []

    def add(self, x, lab):
        i = self.ix.setdefault(lab, len(self.n))
        self.sq += float(x @ x)
        if i == len(self.t):
            self.t.append(0.0)
        self.t[i] += float(x @ x)
        if i == len(self.n):
            self.n.append(1)
            self.m.append(np.array(x, dtype=float))
            self.c.append(np.zeros((len(x), len(x))) if self.cov else 0.0)
        else:
            self.n[i] += 1
            dlt = x - self.m[i]
            self.m[i] = self.m[i] + dlt / self.n[i]
            self.c[i] = self.c[i] + (np.outer(dlt, x - self.m[i]) if self.cov else float(dlt @ (x - self.m[i])))

    def values(self, kinds):
        """kind -> (value, conditioning, error bound)"""
        k = len(self.n)
        if k < 2:
            return {kd: (0.0, 1.0, 0.0) for kd in kinds}
        n = np.array(self.n, float)
        v = np.array(self.m)
        N = n.sum()
        cp = np.array([np.trace(c) for c in self.c]) if self.cov else np.array(self.c)
        mu = n @ v / N
        off = ~np.eye(k, dtype=bool)
        D = np.empty((k, k))
        for i in range(k):
            D[i] = ((v - v[i]) ** 2).sum(axis=1)
        w, b = cp.sum(), float(n @ ((v - mu) ** 2).sum(axis=1))
        msd = cp / n
        T, M = np.float64(self.sq) / N, np.max(np.array(self.t) / n)
        mind = D[off].min()
        c = 1e-12 + 1e-15 * N
        res = {}

        def err(Q, S):
            return 1e-9 * Q + c * np.sqrt(Q * S) + c * c * S

        def quot(f, A, SA, B, SB):
            return f * A / B, SB / B, f * (err(A, SA) / B + A / B * err(B, SB) / B)

        a = 2 * msd.max()
        for kd in kinds:
            if kd == "CH":
                res[kd] = quot((N - k) / (k - 1), b, T * N, w, T * N)
            elif kd == "WB":
                res[kd] = quot(k, w, T * N, b, T * N)
            elif kd == "XB":
                res[kd] = quot(1, w / N, T, mind, 2 * M)
            elif kd == "DB":
                r, e = [np.where(off, (s[:, None] + s[None, :]) / D, -np.inf).max(axis=1).mean()
                        for s in (msd, err(msd, M))]
                res[kd] = r, 2 * M / mind, e + r * err(mind, 2 * M) / mind
            elif kd == "GD43":
                r = np.sqrt(mind) / a
                res[kd] = r, 2 * M / a, c * np.sqrt(2 * M) / a + r * (1e-9 + err(a, 2 * M) / a)
            elif kd == "GD53":
                res[kd] = quot(1, ((cp[:, None] + cp[None, :]) / (n[:, None] + n[None, :]))[off].min(), M, a, 2 * M)
            elif kd == "PS":
                beta = D.sum() / 2 / (k * k)
                near = np.where(off, D, np.inf).min(axis=1)
                res[kd] = (n / n.max() - np.exp(-near / beta)).sum(), 2 * M / beta, \
                    k * (1e-9 + 2 * err(beta, 2 * M) / beta)
            elif kd == "cSIL":
                bb = np.where(off, msd[None, :] + D, np.inf).min(axis=1)
                m = np.maximum(msd, bb)
                kap = M / m.min()
                # claimed up to 1e7 only
                res[kd] = ((bb - msd) / m).mean(), kap * 1e6, 1e-9 + 1e-12 * kap
            else:
                d = v.shape[1]
                dl = 10.0 ** (-12.0 / d)
                S = [self.c[i] / max(1, self.n[i] - 1) + dl * np.eye(d) for i in range(k)]
                r, kap, ab = 0.0, 1.0, 0.0
                for i in range(k):
                    for j in range(i + 1, k):
                        s = S[i] + S[j]
                        e = v[i] - v[j]
                        try:
                            q, det, tr = e @ np.linalg.solve(s, e), np.linalg.det(s), np.trace(s)
                        except np.linalg.LinAlgError:
                            q, det, tr = 0.0, np.float64(0.0), 1.0
                        f = np.exp(-0.5 * q) / np.sqrt((2 * np.pi) ** d * det)
                        sk = (tr / d) ** d / det
                        lam = det * ((d - 1) / tr) ** (d - 1) if d > 1 else det
                        r += f
                        ab += f * (1 + q) * (1e-9 + 1e-12 * sk + 1e-13 * np.sqrt(M / lam))
                        if not 0 < sk < 1e11:
                            kap = np.inf
                res[kd] = r, kap, ab
        return res

    def odd(self, kd, got, est, exact):
        """Does what kind kd showed look unlike the definitions?"""
        r, kap, tol = est
        v = float(got) if got in ("nan", "inf", "-inf") else _fl(got)
        if len(self.n) < 2:
            return v != 0.0
        if not np.isfinite(r) or not np.isfinite(kap):
            return bool(np.isfinite(v)) and kd in exact
        if kap > 1e13:
            return False
        return not abs(v - r) <= 0.9 * tol


def cost(k, d, kinds):
    """Rough cost of one expectation of the specification, in milliseconds of TLC time."""
    if k < 2:
        return 0.1
    c = 0.4 + k * k * (0.01 + d * 0.008)
    for x in kinds:
        c += k * k * (0.25 + 0.03 * d ** 3) if x == "rCIP" else 0.25 + k * k * 0.012
    return c


DEADLINE = None     # when to give up on a session that does not come to an end


class OutOfTime(Exception):
    """A session was cut; .session is what was recorded so far."""


VALUES = True       # does the property at hand speak about values?


class Session:
    """One history: objects, calls, observations.  Events are kept in memory."""

    def __init__(self, sid, screen=True):
        self.sid, self.ev, self.fam, self.est, self.at = sid, [], {}, {}, {}
        self.suspect, self.screen = False, screen
        self.ncalls = 0
        self.left, self.budget = 25, 3000.0     # suspicious calls that may still be promoted to checked
                                                # ones, and the time (ms) TLC may spend on them

    def _e(self, op, o, **kw):
        e = dict(op=op, sid=self.sid, o=o)
        e.update(kw)
        self.ev.append(e)
        return e

    @staticmethod
    def _attr(ob):
        try:
            return num(ob.criterion_value)
        except Exception:
            return "none"

    def new(self, o, kinds=KINDS):
        fam, attr = {}, {}
        for k in kinds:
            try:
                fam[k] = CLASSES[k]()
                attr[k] = self._attr(fam[k])
            except Exception:
                attr[k] = "none"
        self.fam[o] = fam
        self.est[o], self.at[o] = Approx("rCIP" in fam), attr
        if any(a != "0/1" for a in attr.values()):
            self.suspect = True
        self._e("new", o, withq="rCIP" in kinds, attr=attr)

    def _guarded(self, f):
        """-> (out, value)"""
        so, sys.stdout = sys.stdout, io.StringIO()
        signal.setitimer(signal.ITIMER_REAL, 120.0)
        try:
            return "ok", f()
        except CallTimeout:
            return "Timeout", None
        except ValueError:
            return "ValueError", None
        except Exception as ex:      # noqa: BLE001
            return type(ex).__name__, None
        except BaseException as ex:  # SystemExit and the like
            return type(ex).__name__, None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0.0)
            sys.stdout = so

    def call(self, o, data, label, chk=True, exact=(), expect=True):
        """expect: whether the generator believes the call is accepted (only steers screening)."""
        if DEADLINE and time.time() > DEADLINE:
            ex = OutOfTime()
            ex.session = self
            raise ex
        nd = np.ndim(data)
        X = rows(data, nd)
        L = [str(int(v)) for v in np.asarray(label).reshape(-1)] if nd != 1 else [str(int(label))]
        keep_d, keep_l = snapshot(data), snapshot(label)
        argok, obs, dead = True, {}, []
        for k, ob in self.fam[o].items():
            out, val = self._guarded(lambda: ob.get_cvi(data, label))
            if not (unchanged(data, keep_d) and unchanged(label, keep_l)):
                argok = False
                try:
                    for v, s in ((data, keep_d), (label, keep_l)):
                        if isinstance(v, np.ndarray) and s[4] and not v.flags.writeable:
                            v.setflags(write=True)
                    if isinstance(data, np.ndarray):
                        data[...] = keep_d[0]
                    if isinstance(label, (np.ndarray, list)):
                        label[:] = keep_l[0]
                except Exception:
                    pass
            obs[k] = dict(out=out, val=num(val), attr=self._attr(ob), vt=type(val).__name__)
            if out == "Timeout" or (expect and out != "ok"):
                dead.append(k)
        self.ncalls += 1
        if self.screen:
            bad = not argok
            before = self.at[o]
            for k, ob in obs.items():
                if expect and k in dead:
                    bad |= k != "rCIP" or ob["out"] != "ValueError" or not VALUES
                elif expect:
                    bad |= ob["val"] == "none" or ob["attr"] != ob["val"]
                else:
                    bad |= ob["out"] != "ValueError" or ob["attr"] != before[k]
            if expect and VALUES:
                a = np.asarray(keep_d[0], dtype=float)
                for x, l in zip(a if nd == 2 else [a], L):
                    self.est[o].add(x, l)
                est = {}
                if nd == 2 or self.ncalls < 400 or self.ncalls % 7 == 0 or chk:
                    est = self.est[o].values(list(obs))
                for k, r in est.items():
                    if k in dead:
                        bad |= bool(r[1] <= 1e13)
                    elif obs[k]["val"] != "none" and self.est[o].odd(k, obs[k]["val"], r, exact):
                        bad = True
            if bad:
                self.suspect = True
                if self.left > 0 and not chk and (self.left == 25 or self.budget > 0):
                    self.left -= 1
                    self.budget -= cost(len(set(self.est[o].ix)) if VALUES else 9, np.shape(data)[-1] if nd else 1, obs)
                    chk = True
        chk = chk or bool(dead)     # whether it was allowed to give up is for the specification to say
        self.at[o] = {k: ob["attr"] for k, ob in obs.items()}
        self._e("call", o, nd=int(nd), X=X, L=L, chk=bool(chk), exact=list(exact), argok=argok, obs=obs)
        for k in dead:
            del self.fam[o][k]
        return obs

    def poke(self, o):
        attr = {k: self._attr(ob) for k, ob in self.fam[o].items()}
        if any(self.at[o][k] != a for k, a in attr.items()):
            self.suspect = True
        self._e("poke", o, attr=attr)

    def copy(self, src, o, how):
        fam = {}
        for k, ob in list(self.fam[src].items()):
            f = (lambda: copy.deepcopy(ob)) if how == "deepcopy" else (lambda: pickle.loads(pickle.dumps(ob, len(self.fam) % 6)))
            out, c = self._guarded(f)
            if out == "ok":
                fam[k] = c
        self.fam[o] = fam
        self.est[o] = copy.deepcopy(self.est[src])
        attr = {k: self._attr(ob) for k, ob in fam.items()}
        for k in self.fam[src]:
            attr.setdefault(k, "none")      # copying raised
        if any(self.at[src][k] != a for k, a in attr.items()):
            self.suspect = True
        self.at[o] = attr
        self.ev.append({"op": "copy", "sid": self.sid, "o": o, "from": src, "attr": attr})

    def cmp(self, a, b, rel, f="1/1"):
        if rel == "ident" and any(self.at[a][k] != self.at[b][k] for k in self.fam[a] if k in self.at[b]):
            self.suspect = True
        self._e("cmp", a, a=a, b=b, rel=rel, f=f)

    def end(self):
        self._e("end", "-")

    def dump(self, fh):
        for e in self.ev:
            fh.write(json.dumps(e, separators=(",", ":")))
            fh.write("\n")


def _fl(s):
    n, d = s.split("/")
    return int(n) / int(d)
