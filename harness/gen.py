"""Histories for the campaigns: data sets, label names, orders, and one
session builder per property.  Everything random comes from the rng given."""
import ast
import glob
import os

import numpy as np

from rec import KINDS, REPO, Session

# --------------------------------------------------------------------------- #
# Numbers that occur in the code under test.  A condition on a size, a count or
# a label has to mention its threshold somewhere; trying those numbers (and
# their neighbours) costs little.  Only a source of inputs, never of verdicts.
# --------------------------------------------------------------------------- #


def _consts():
    ints, floats = set(), set()

    def val(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            return n.value
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            v = val(n.operand)
            return None if v is None else -v
        if isinstance(n, ast.BinOp):
            a, b = val(n.left), val(n.right)
            if a is None or b is None:
                return None
            try:
                if isinstance(n.op, ast.Pow):
                    return a ** b if abs(b) < 70 and abs(a) < 1e6 else None
                if isinstance(n.op, ast.LShift):
                    return a << b if 0 <= b < 70 else None
                if isinstance(n.op, ast.Mult):
                    return a * b
                if isinstance(n.op, ast.Add):
                    return a + b
                if isinstance(n.op, ast.Sub):
                    return a - b
                if isinstance(n.op, ast.Div):
                    return a / b
            except Exception:
                return None
        return None

    for f in sorted(glob.glob(os.path.join(REPO, "src", "cvi", "**", "*.py"), recursive=True)):
        if os.sep + "compat" + os.sep in f:
            continue
        try:
            tree = ast.parse(open(f, encoding="utf-8").read())
        except Exception:
            continue
        for n in ast.walk(tree):
            v = val(n)
            if v is None or isinstance(v, complex):
                continue
            if v == v and abs(v) < 1e18:
                if float(v) == int(v):
                    ints.add(int(v))
                floats.add(float(v))
    return sorted(ints), sorted(floats)


INTS, FLOATS = _consts()
FARK = [("CH", "cSIL", "DB"), ("GD43", "GD53", "PS"), ("rCIP", "WB", "XB")]


def dict_int(rng, lo, hi):
    """A number near one in the code, within [lo, hi]; None if there is none."""
    c = [v + e for v in INTS for e in (-1, 0, 1, 2) if lo <= v + e <= hi and abs(v) > 2]
    return int(rng.choice(c)) if c else None


def pick(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def size(rng, lo, hi, pd=0.35):
    """A size: often small, sometimes near a number of the code, sometimes any."""
    if rng.random() < pd:
        v = dict_int(rng, lo, hi)
        if v is not None:
            return v
    if rng.random() < 0.6:
        return int(min(hi, lo + rng.geometric(0.25) - 1))
    return int(np.exp(rng.uniform(np.log(lo), np.log(hi + 0.99))))


# --------------------------------------------------------------------------- #
# Data
# --------------------------------------------------------------------------- #
STYLES = ["int3", "int", "blob", "tight", "unit", "full", "mixed", "offset", "line", "const",
          "dups", "zeros", "tiny", "huge", "neg", "heavy", "binary", "same", "dictv", "sep", "far", "thresh"]


def grid(a, bits):
    return np.round(np.asarray(a, float) * 2.0 ** bits) / 2.0 ** bits


def points(rng, y, d, style):
    """Coordinates for the samples with cluster indices y."""
    n = len(y)
    k = int(max(y)) + 1
    cen = rng.uniform(-8, 8, size=(k, d))
    base = cen[y] + rng.normal(size=(n, d)) * rng.uniform(0.2, 2.0, size=(k, 1))[y]
    if style == "int3":
        return rng.integers(0, 4, size=(n, d)).astype(float)
    if style == "int":
        return rng.integers(-9, 10, size=(n, d)).astype(float)
    if style == "binary":
        return rng.integers(0, 2, size=(n, d)).astype(float)
    if style == "tight":
        return grid(cen[y] + rng.normal(size=(n, d)) * 0.02, 12)
    if style == "sep":
        return grid(cen[y] * 20 + rng.normal(size=(n, d)), 8)
    if style == "unit":
        return grid(rng.random((n, d)), 16)
    if style == "full":
        return base
    if style == "mixed":
        return base * (10.0 ** rng.integers(-3, 4, size=d))
    if style == "offset":
        return grid(base + rng.uniform(-300, 300, size=d), 10)
    if style == "far":            # far from the origin compared with the spread
        b = grid(base * 10.0 ** rng.uniform(-1, 1), 12)
        return b + np.round(10.0 ** rng.uniform(2, 6.3)) * rng.choice([-1.0, 0.0, 1.0, 0.5], size=d)
    if style == "line":
        t = grid(rng.normal(size=(n, 1)) * 3, 6)
        return t * rng.integers(-3, 4, size=(1, d)) + grid(cen[y], 2)
    if style == "const":
        X = grid(base, 8)
        X[:, rng.random(d) < 0.6] = pick(rng, [0.0, 1.0, 2.5])
        return X
    if style == "dups":
        pool = grid(base[: max(2, n // 4)], 4)
        return pool[rng.integers(0, len(pool), size=n)]
    if style == "zeros":
        X = grid(base, 6)
        X[rng.random(n) < 0.4] = 0.0
        return X
    if style == "tiny":
        return base * 2.0 ** -pick(rng, [12, 20, 20, 30, 45, 60])
    if style == "huge":
        return grid(base, 6) * 2.0 ** pick(rng, [12, 20, 20, 30, 45, 60])
    if style == "thresh":         # on the scale of some constant in the code, or of its root
        c = abs(pick(rng, [v for v in FLOATS if 1e-100 < abs(v) < 1e100] or [1.0]))
        return base * pick(rng, [c, c ** 0.5]) * 2.0 ** rng.uniform(-3, 3)
    if style == "neg":
        return -np.abs(grid(base, 8)) - 1
    if style == "heavy":
        return np.clip(rng.standard_cauchy((n, d)) * 2, -1e5, 1e5)
    if style == "same":
        # clusters with (nearly) common means
        return grid(rng.normal(size=(n, d)) * 2, 3)
    if style == "dictv":
        c = [v for v in FLOATS if 1e-6 < abs(v) < 1e6] or [1.0]
        X = grid(base, 8)
        m = rng.random((n, d)) < 0.3
        X[m] = rng.choice(c, size=int(m.sum()))
        return X
    return grid(base, 8)


def cluster_ids(rng, n, k):
    """n cluster indices in 0..k-1, every cluster present, in some order of arrival."""
    k = min(k, n)
    prof = pick(rng, ["even", "zipf", "singles", "big"])
    if prof == "even":
        y = list(rng.integers(0, k, size=n - k))
    elif prof == "zipf":
        w = 1.0 / np.arange(1, k + 1)
        y = list(rng.choice(k, size=n - k, p=w / w.sum()))
    elif prof == "singles":
        m = max(1, k // 3)
        y = list(rng.integers(0, m, size=n - k))
    else:
        y = [0] * (n - k)
    y = y + list(range(k))
    order = pick(rng, ["random", "random", "blocks", "rblocks", "robin", "bursts", "late", "silent", "firsts"])
    rng.shuffle(y)
    y = [int(v) for v in y]
    if order == "blocks":
        y.sort()
    elif order == "rblocks":
        y.sort(reverse=True)
    elif order == "robin":
        pos = {}
        key = []
        for v in y:
            pos[v] = pos.get(v, -1) + 1
            key.append((pos[v], v))
        y = [v for _, v in sorted(key)]
    elif order == "bursts":
        out, left = [], {v: y.count(v) for v in set(y)}
        while left:
            v = pick(rng, sorted(left))
            b = min(left[v], int(rng.integers(1, 7)))
            out += [v] * b
            left[v] -= b
            if not left[v]:
                del left[v]
        y = out
    elif order == "late":
        v = y[0]
        y = [u for u in y if u != v] + [u for u in y if u == v]
    elif order == "silent":
        v = y[0]
        c = y.count(v)
        rest = [u for u in y if u != v]
        y = [v] * (c - c // 2) + rest + [v] * (c // 2)
    elif order == "firsts":
        y = list(range(k)) + sorted_random(rng, [u for i, u in enumerate(y)], k)
    return y


def sorted_random(rng, y, k):
    seen, rest = set(), []
    for u in y:
        if u in seen:
            rest.append(u)
        seen.add(u)
    rng.shuffle(rest)
    return [int(u) for u in rest]


def coincide(rng, X, y, style):
    """Make a few samples coincide with something: the current mean of their own or of another
    cluster, an earlier sample of either, the overall mean, the origin, a mirrored sample."""
    n = len(y)
    for _ in range(int(rng.integers(1, 4))):
        i = int(rng.integers(1, n))
        own = [j for j in range(i) if y[j] == y[i]]
        oth = [j for j in range(i) if y[j] != y[i]]
        if rng.random() < 0.4:      # the first sample of a cluster that opens later
            f = [j for j in range(1, n) if y[j] not in y[:j]]
            if f:
                i = pick(rng, f)
                own, oth = [], list(range(i))
        t = pick(rng, ["own", "other", "other", "dup", "dupo", "prev", "all", "zero", "mirror"])
        if t == "own" and own:
            v = np.mean(X[own], axis=0)
        elif t == "other" and oth:
            c = y[pick(rng, oth)]
            v = np.mean(X[[j for j in range(i) if y[j] == c]], axis=0)
        elif t == "dup" and own:
            v = X[pick(rng, own)]
        elif t == "dupo" and oth:
            v = X[pick(rng, oth)]
        elif t == "all":
            v = np.mean(X[:i], axis=0)
        elif t == "zero":
            v = np.zeros(X.shape[1])
        elif t == "mirror":
            v = -X[i - 1]
        else:
            v = X[i - 1]
        X[i] = v if style in ("full", "mixed", "tiny", "heavy", "thresh") else grid(v, 12)


def dataset(rng, nmax=60, kmax=12, dmax=6, n=None, k=None, d=None, style=None, nmin=3):
    """-> X (n x d), y (cluster indices).  At least two clusters."""
    d = d or size(rng, 1, dmax)
    n = n or size(rng, nmin, nmax)
    if k is None:
        k = size(rng, 2, max(2, min(kmax, n)))
    k = max(2, min(k, n))
    y = cluster_ids(rng, n, k)
    style = style or pick(rng, STYLES)
    X = points(rng, np.array(y), d, style)
    if rng.random() < 0.35 and n > 3:
        coincide(rng, X, y, style)
    return X, y


# --------------------------------------------------------------------------- #
# Names of clusters
# --------------------------------------------------------------------------- #


def names(rng, k, wide=True):
    """k distinct integers."""
    s = pick(rng, ["id", "one", "neg", "rand", "tens", "huge", "desc", "mix", "bytes", "dict", "clash", "clash"])
    if s == "id":
        r = list(range(k))
    elif s == "one":
        r = list(range(1, k + 1))
    elif s == "neg":
        r = [-1 - i for i in range(k)]
    elif s == "rand":
        r = [int(v) for v in rng.choice(max(200, 3 * k), size=k, replace=False) - 100]
    elif s == "tens":
        r = [10 * i - 20 for i in range(k)]
    elif s == "huge":
        b = pick(rng, [2 ** 31, -2 ** 31, 2 ** 40, 10 ** 15, -10 ** 12, 2 ** 53, 2 ** 62])
        r = [b + pick(rng, [1, 1, 1024]) * i for i in range(k)]
        if len(set(r)) < k:
            r = [b + i for i in range(k)]
    elif s == "clash":
        # names that some careless narrowing, hashing or printing would mix up
        b = pick(rng, [0, 1, 2, 3, 5, 7, 12, 100, 127, 254, 1000, 65535, int(rng.integers(1, 10 ** 6))])
        c = [b, -b, -1, -2, ~b, b + 256, b - 256, b + 2 ** 16, b + 2 ** 31, b + 2 ** 32, b - 2 ** 32,
             b + 2 ** 61 - 1, b + 2 ** 24, b + 2 ** 24 + 1, 2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1, -2 ** 53, b + 1000,
             b + 100, b + 10, 10 * b, 10 * b + 1, b + 128, b + 64, b + 512, b + 1024, b + 2 ** 15, b + 2 ** 48,
             2 ** 62, 2 ** 62 + 1, 2 ** 63 - 1, -2 ** 63, 1, 0, 11, 111]
        c = list(dict.fromkeys(c))
        rng.shuffle(c)
        r = [int(v) for v in c[:k]]
        r += [10 ** 9 + i for i in range(k - len(r))]
    elif s == "desc":
        r = list(range(k, 0, -1))
    elif s == "bytes":
        r = [254 - 3 * i for i in range(k)]
    elif s == "dict":
        c = sorted({f * v + e for v in INTS if abs(v) < 2 ** 60 for e in (-1, 0, 1, 2) for f in (1, 1, -1, 2)})
        b = int(rng.integers(0, 8))
        c = sorted(set(c) | {b + v for v in INTS if abs(v) < 2 ** 60} | {b})
        big = [v for v in INTS if 20 < abs(v) < 2 ** 55]
        if big and rng.random() < 0.5:      # names that agree modulo a number of the code
            m = abs(int(pick(rng, big)))
            b += pick(rng, [0, 0, m, 10 * m, max(abs(v) for v in big) + 1, 10 ** 6, -10 ** 6])
            c = sorted({b + m * j for j in rng.integers(-3, 12, size=min(k, 8))} | {b, b + m})
        rng.shuffle(c)
        r = [int(v) for v in c[:k]]
        r += [v for v in range(10 ** 6, 10 ** 6 + 2 * k) if v not in r][:k - len(r)]
    else:
        r = [(-1) ** i * (i * 37 % 1009) * (1 if i % 3 else 10 ** 6) for i in range(k)]
        if len(set(r)) < k:
            r = list(range(-3, k - 3))
    if rng.random() < 0.5:
        rng.shuffle(r)
    r = [int(v) for v in r]
    if rng.random() < 0.3 and -1 not in r:
        r[int(rng.integers(0, k))] = -1
    if rng.random() < 0.3 and 0 not in r:
        r[int(rng.integers(0, k))] = 0
    return r


def scalar(rng, v):
    """A label as the caller may hold it."""
    f = pick(rng, ["int", "int", "int64", "int32", "intp", "int16", "int8", "uint8", "uint16", "uint32", "uint64"])
    if f != "int" and not np.iinfo(f).min <= v <= np.iinfo(f).max:
        f = "int64"
    return int(v) if f == "int" else getattr(np, f)(v)


def label_array(rng, ls):
    f = pick(rng, ["int64", "int64", "int64", "list", "int32", "int16", "int8", "uint8", "uint64"])
    if f == "list":
        return [int(v) for v in ls]
    if np.iinfo(f).min <= min(ls) and max(ls) <= np.iinfo(f).max:
        return np.array([int(v) for v in ls], dtype=f)
    return np.array([int(v) for v in ls], dtype=np.int64)


LAYOUTS = ["C", "F", "strided", "reversed", "readonly", "T", "offset"]


def layout(rng, A):
    how = pick(rng, LAYOUTS)
    if how == "F":
        A = np.asfortranarray(A)
    elif how == "strided":
        B = np.zeros(tuple(2 * s for s in A.shape), dtype=A.dtype)
        B[tuple(slice(None, None, 2) for _ in A.shape)] = A
        A = B[tuple(slice(None, None, 2) for _ in A.shape)]
    elif how == "reversed":
        A = A[tuple(slice(None, None, -1) for _ in A.shape)].copy()[tuple(slice(None, None, -1) for _ in A.shape)]
    elif how == "readonly":
        A = A.copy()
        A.flags.writeable = False
    elif how == "T" and A.ndim == 2:
        A = A.T.copy().T
    elif how == "offset":
        B = np.zeros(tuple(s + 1 for s in A.shape), dtype=A.dtype)
        B[tuple(slice(1, None) for _ in A.shape)] = A
        A = B[tuple(slice(1, None) for _ in A.shape)]
    return A


# --------------------------------------------------------------------------- #
# Feeding
# --------------------------------------------------------------------------- #


def feed(S, o, X, L, chk=lambda i: True, exact=(), rng=None):
    for i in range(len(L)):
        S.call(o, np.array(X[i]), L[i] if rng is None else scalar(rng, L[i]), chk=chk(i), exact=exact)


def checkpoints(rng, n, every, extra):
    """Predicate: all of the first `every` calls, `extra` random later ones, and the last."""
    c = set(range(min(n, every))) | {n - 1}
    if n > every:
        c |= {int(v) for v in rng.integers(every, n, size=extra)}
    return lambda i: i in c


def cut_rcip(kinds, d, k):
    """rCIP needs k^2 d^3 exact operations: leave it out of very wide cases."""
    if k * k * d ** 3 > 40000:
        return [x for x in kinds if x != "rCIP"]
    return list(kinds)


class Gen:
    """Session builders.  Each returns a finished Session."""

    def __init__(self, seed, tier):
        self.rng = np.random.default_rng(seed)
        self.big = tier == "thorough"
        self.no = 0
        self.shard = seed[1] if isinstance(seed, (list, tuple)) and len(seed) > 1 else 0
        self.far_at = 0

    def sess(self, tag, **kw):
        self.no += 1
        return Session("%s-%d" % (tag, self.no), **kw)

    def dims(self, kinds):
        """size limits for a family of these kinds"""
        if kinds == ["rCIP"]:
            return dict(nmax=60, kmax=7, dmax=6)
        if "rCIP" in kinds:
            return dict(nmax=45, kmax=7, dmax=5)
        return dict(nmax=90, kmax=24, dmax=24)

    def draw(self, kinds, **over):
        kw = self.dims(kinds)
        kw.update(over)
        if not {"n", "k", "d", "nmax"} & set(over):      # now and then something much larger
            u = self.rng.random()
            if u < 0.05:
                i = [v for v in INTS if 40 < v <= 700] + [int(self.rng.integers(60, 500))] * 2
                kw.update(n=pick(self.rng, i) + int(self.rng.integers(1, 12)), kmax=8, dmax=4)
            elif u < 0.065 and kinds != ["rCIP"]:
                i = [v for v in INTS if 20 < v <= 130] + [int(self.rng.integers(20, 80))] * 2
                k = pick(self.rng, i) + int(self.rng.integers(0, 3))
                kw.update(k=k, n=k + size(self.rng, 2, k + 20), dmax=3)
            elif u < 0.08 and kinds != ["rCIP"]:
                i = [v for v in INTS if 20 < v <= 130] + [int(self.rng.integers(20, 80))] * 2
                kw.update(d=pick(self.rng, i) + int(self.rng.integers(0, 3)), kmax=5, nmax=25)
        X, y = dataset(self.rng, **kw)
        k = max(y) + 1
        return X, y, k, cut_rcip(kinds, X.shape[1], k)

    # ---- C02 .. C08: one index, every call -------------------------------- #
    def value(self, kinds):
        rng = self.rng
        S = self.sess("val")
        u = rng.random()
        far = [v for v in INTS if 600 < v + 3 <= 12000]
        wide = [v for v in INTS if 40 < v <= 300] + [127, 255]
        vast = [v for v in INTS if 12000 < v <= 70000] + [32767, 65535]
        batch = rng.random() >= 0.7
        if u < 0.0025 and "cSIL" not in kinds:    # the widths of machine integers (batch cSIL is quadratic)
            X, y, k, kinds = self.draw([pick(rng, kinds)], n=pick(rng, vast) + int(rng.integers(2, 30)), k=2, d=1)
            batch = rng.random() < 0.7
        elif u < 0.01 and far:              # sizes beyond the usual ones that the code mentions
            X, y, k, kinds = self.draw(kinds, n=pick(rng, far) + int(rng.integers(2, 30)), k=2 + int(rng.integers(0, 2)),
                                       d=1 + int(rng.integers(0, 2)))
        elif u < 0.03 and kinds != ["rCIP"]:
            if rng.random() < 0.6:
                kk = pick(rng, wide) + int(rng.integers(0, 3))
                X, y, k, kinds = self.draw(kinds, k=kk, n=2 * kk + 10, d=1 + int(rng.integers(0, 2)))
            else:
                X, y, k, kinds = self.draw(kinds, d=pick(rng, wide) + int(rng.integers(0, 3)), k=3, n=20)
        elif u < 0.12:                    # long stream, sparse checking by the specification
            X, y, k, kinds = self.draw(kinds, n=size(rng, 100, 1500 if self.big else 600))
        elif u < 0.2:                     # many clusters
            kk = size(rng, 10, 70 if self.big else 40) if kinds != ["rCIP"] else size(rng, 5, 12)
            X, y, k, kinds = self.draw(kinds, k=kk, n=kk + size(rng, 1, 60), d=size(rng, 1, 4))
        elif u < 0.26 and kinds != ["rCIP"]:   # many features
            X, y, k, kinds = self.draw(kinds, d=size(rng, 16, 128), k=size(rng, 2, 6), n=size(rng, 3, 30))
        elif u < 0.3 and kinds == ["rCIP"]:
            X, y, k, kinds = self.draw(kinds, d=size(rng, 6, 14), k=2 + int(rng.integers(0, 2)), n=size(rng, 3, 20))
        else:
            X, y, k, kinds = self.draw(kinds)
        if not kinds:
            kinds = ["rCIP"]
            X, y, k, kinds = self.draw(kinds, nmax=20, kmax=4, dmax=3)
        nm = names(rng, k)
        L = [nm[c] for c in y]
        if not batch:
            S.new("inc", kinds)
            feed(S, "inc", X, L, checkpoints(rng, len(L), 40, 12), rng=rng)
        else:
            S.new("bat", kinds)
            S.call("bat", X, label_array(rng, L))
        S.end()
        return S

    # ---- C01 --------------------------------------------------------------- #
    def batchinc(self, kinds):
        rng = self.rng
        S = self.sess("bi")
        X, y, k, kinds = self.draw(kinds)
        if rng.random() < 0.12:
            kinds = [v for v in kinds if v != "rCIP"]
            X, y, k, kinds = self.draw(kinds, n=size(rng, 80, 400), k=size(rng, 2, 30))
        nm = names(rng, k)
        L = [nm[c] for c in y]
        S.new("inc", kinds)
        n = len(L)
        cuts = {n} | {int(v) for v in rng.integers(2, n + 1, size=2)}
        for i in range(n):
            S.call("inc", X[i].copy(), scalar(rng, L[i]), chk=False)
            if i + 1 in cuts and len(set(L[:i + 1])) > 1:
                b = "bat%d" % (i + 1)
                S.new(b, kinds)
                S.call(b, X[:i + 1].copy(), label_array(rng, L[:i + 1]), chk=False)
                S.cmp("inc", b, "same")
        S.end()
        return S

    # ---- C09 --------------------------------------------------------------- #
    def rename(self, kinds):
        rng = self.rng
        S = self.sess("ren")
        X, y, k, kinds = self.draw(kinds)
        fam = []
        for m in range(3):
            nm = names(rng, k) if m else list(range(k))
            fam.append([nm[c] for c in y])
        if rng.random() < 0.6:
            for m in range(3):
                S.new("i%d" % m, kinds)
            cuts = {len(y) - 1} | {int(v) for v in rng.integers(0, len(y), size=3)}
            for i in range(len(y)):
                for m in range(3):
                    S.call("i%d" % m, X[i].copy(), scalar(rng, fam[m][i]), chk=False)
                if i in cuts:
                    S.cmp("i0", "i1", "same")
                    S.cmp("i0", "i2", "same")
        else:
            for m in range(3):
                S.new("b%d" % m, kinds)
                S.call("b%d" % m, X.copy(), label_array(rng, fam[m]), chk=False)
            S.cmp("b0", "b1", "same")
            S.cmp("b0", "b2", "same")
        S.end()
        return S

    # ---- C10 --------------------------------------------------------------- #
    def reorder(self, kinds):
        rng = self.rng
        S = self.sess("ord")
        X, y, k, kinds = self.draw(kinds)
        nm = names(rng, k)
        L = np.array([nm[c] for c in y], dtype=np.int64)
        n = len(L)
        perms = [np.arange(n), rng.permutation(n),
                 np.argsort(np.array(y), kind="stable") if rng.random() < 0.5 else np.arange(n)[::-1]]
        inc = rng.random() < 0.6
        for m, p in enumerate(perms):
            o = "p%d" % m
            S.new(o, kinds)
            if inc:
                feed(S, o, X[p], [int(v) for v in L[p]], lambda i: False)
            else:
                S.call(o, X[p].copy(), L[p].copy(), chk=False)
        S.cmp("p0", "p1", "same")
        S.cmp("p0", "p2", "same")
        S.end()
        return S

    # ---- C11 --------------------------------------------------------------- #
    def geometry(self, kinds):
        rng = self.rng
        S = self.sess("geo")
        # dyadic grids with few bits: every transformation below is exact
        X, y, k, kinds = self.draw(kinds, style=pick(rng, ["int3", "int", "blob", "tight", "unit", "line",
                                                           "const", "dups", "zeros", "neg", "same", "sep"]))
        X = grid(X, 16)
        nm = names(rng, k)
        L = [nm[c] for c in y]
        n, d = X.shape
        t = pick(rng, ["shift", "flip", "swap", "all", "scale", "scale", "bigshift"])
        Y, rel, f = X.copy(), "geom", "1/1"
        if t in ("shift", "all"):
            Y = Y + rng.integers(-64, 65, size=d) / 8.0
        if t == "bigshift":
            m = pick(rng, [1000, 1000, 30000, 10 ** 6])
            Y = Y + rng.integers(-m, m + 1, size=d)
        if t in ("flip", "all"):
            Y = Y * rng.choice([-1.0, 1.0], size=d)
            if t == "flip":
                Y[:, int(rng.integers(0, d))] *= -1
        if t in ("swap", "all"):
            Y = Y[:, rng.permutation(d)]
        if t == "scale":
            num, den = pick(rng, [(2, 1), (1, 4), (3, 1), (10, 1), (1, 1024), (1000, 1), (5, 8), (7, 2), (65536, 1),
                                  (1, 2 ** int(rng.integers(5, 61))), (1, 2 ** int(rng.integers(5, 61))),
                                  (2 ** int(rng.integers(5, 61)), 1)])
            Y, rel, f = Y * (num / den), "scale", "%d/%d" % (num, den)
        inc = rng.random() < 0.6
        S.new("x", kinds)
        S.new("y", kinds)
        if inc:
            cuts = {n - 1} | {int(v) for v in rng.integers(0, n, size=3)}
            for i in range(n):
                S.call("x", X[i].copy(), L[i], chk=False)
                S.call("y", np.ascontiguousarray(Y[i]), L[i], chk=False)
                if i in cuts:
                    S.cmp("x", "y", rel, f)
        else:
            la = np.array(L, dtype=np.int64)
            S.call("x", X.copy(), la, chk=False)
            S.call("y", np.ascontiguousarray(Y), la, chk=False)
            S.cmp("x", "y", rel, f)
        S.end()
        return S

    # ---- C22 --------------------------------------------------------------- #
    def replicas(self, kinds):
        """The same data with every sample repeated, or with constant features added."""
        rng = self.rng
        S = self.sess("rep")
        X, y, k, kinds = self.draw(kinds)
        kinds = [v for v in kinds if v != "rCIP"] or ["CH"]
        nm = names(rng, k)
        n, d = X.shape
        inc = rng.random() < 0.6
        S.new("x", kinds)
        S.new("y", kinds)
        if rng.random() < 0.5:
            c = int(size(rng, 1, 12))
            val = [pick(rng, [0.0, 0.0, 1.0, -3.0, 0.1, 1000.5, float(pick(rng, FLOATS)) if FLOATS else 7.0])
                   for _ in range(c)]
            val = [v if abs(v) < 1e6 else 2.0 for v in val]
            p = rng.permutation(d + c)
            rows = [(np.concatenate([x, val])[p], 1) for x in X]
            rel, f = "pad", 1
        else:
            f = int(pick(rng, [2, 2, 3, 4, 7, size(rng, 2, 40)]))
            f = max(2, min(f, 4000 // n))
            rel, rows = "rep", [(x, f) for x in X]
        if not inc:
            la = [nm[v] for v in y]
            Y = np.array([r for r, m in rows for _ in range(m)])
            lb = [nm[v] for v, (r, m) in zip(y, rows) for _ in range(m)]
            o = rng.permutation(len(lb)) if rng.random() < 0.6 else np.arange(len(lb))
            S.call("x", X.copy(), label_array(rng, la), chk=False)
            S.call("y", Y[o], label_array(rng, [lb[i] for i in o]), chk=False)
            S.cmp("x", "y", rel, "%d/1" % f)
        elif rng.random() < 0.5:      # step by step
            cuts = {n - 1} | {int(v) for v in rng.integers(0, n, size=3)}
            for i in range(n):
                S.call("x", X[i].copy(), nm[y[i]], chk=False)
                for _ in range(rows[i][1]):
                    S.call("y", rows[i][0].copy(), nm[y[i]], chk=False)
                if i in cuts:
                    S.cmp("x", "y", rel, "%d/1" % f)
        else:                         # in passes over the data, or in any order
            z = [i for _ in range(rows[0][1]) for i in range(n)]
            if rng.random() < 0.5:
                z = [int(v) for v in rng.permutation(z)]
            for i in range(n):
                S.call("x", X[i].copy(), nm[y[i]], chk=False)
            for i in z:
                S.call("y", rows[i][0].copy(), nm[y[i]], chk=False)
            S.cmp("x", "y", rel, "%d/1" % f)
        S.end()
        return S

    # ---- C12 --------------------------------------------------------------- #
    def onecluster(self, kinds):
        rng = self.rng
        S = self.sess("one")
        u = rng.random()
        m = size(rng, 1, 40 if u < 0.7 else 400 if u < 0.99 else 5000)
        r = size(rng, 1, 8) if rng.random() < 0.7 else 0
        d = size(rng, 1, 6)
        y = [0] * m + ([1] + [int(v) for v in rng.integers(0, 3, size=r)] if r or rng.random() < 0.9 else [])
        X = points(rng, np.array(y), d, pick(rng, STYLES))
        nm = names(rng, 3)
        S.new("a", kinds)
        for i, c in enumerate(y):
            if rng.random() < 0.03:
                self.refused(S, "a", d, nm, mode="inc" if i else "fresh")
            S.call("a", X[i].copy(), scalar(rng, nm[c]), chk=i >= m)
        S.end()
        return S

    # ---- C13, C14: refused calls ------------------------------------------- #
    def refused(self, S, o, d, nm, mode):
        """One call that the object must refuse."""
        rng = self.rng
        c = ["nd0", "nd3", "nd4"]
        if mode != "inc":
            c += ["one", "empty"] if mode == "fresh" else ["again", "sample"]
            c += ["short", "long", "off", "off"] if mode == "fresh" else []
        else:
            c += ["batch", "batch", "wronglen", "wronglen", "onebatch"]
        t = pick(rng, c)
        n = int(rng.integers(2, 6))
        X = rng.integers(-5, 6, size=(n, d)).astype(float)
        L = np.array([nm[i % len(nm)] for i in range(n)], dtype=np.int64)
        if t == "nd0":
            a = (np.float64(rng.integers(-3, 4)) * np.ones(()), nm[0])
        elif t == "nd3":
            a = (X[None], L)
        elif t == "nd4":
            a = (X[None, :, None], L)
        elif t == "one":
            a = (X, np.full(n, pick(rng, nm + [77]), dtype=np.int64))
        elif t == "empty":
            a = (X[:0], L[:0])
        elif t == "short":
            a = (np.vstack([X, X]), L)
        elif t == "long":
            a = (X, np.concatenate([L, L]))
        elif t == "off":            # one label too few or too many, only one, none
            a = (X, pick(rng, [L[:-1], np.append(L, L[0]), np.append(L, max(nm) + 1 if max(nm) < 2 ** 62 else 3), L[:1], L[:0]]))
        elif t in ("again", "batch"):
            a = (X, L)
        elif t == "onebatch":
            a = (X[:1], L[:1])
        elif t == "sample":
            # any sample, whatever its length and label
            a = (np.ones(pick(rng, [d, d, d + 1])), pick(rng, nm + [max(nm) + 1]))
        else:
            w = pick(rng, [x for x in (d - 1, d + 1, 2 * d, 1, d + 3) if x > 0 and x != d])
            a = (np.arange(w, dtype=float) + 0.5, pick(rng, nm + [max(nm) + 1, min(nm) - 1]))
        S.call(o, a[0], a[1], chk=False, expect=False)
        return t

    def lifecycle(self, kinds):
        """Accepted and refused calls in any order; with a control that sees only the accepted ones."""
        rng = self.rng
        S = self.sess("life")
        if rng.random() < 0.9:
            X, y, k, kinds = self.draw(kinds, nmax=16, kmax=5, dmax=4, style=pick(rng, ["int", "blob", "unit", "sep"]))
        else:
            X, y, k, kinds = self.draw(kinds)
        d = X.shape[1]
        nm = names(rng, k)
        L = [nm[c] for c in y]
        S.new("a", kinds)
        S.new("ctl", kinds)
        p = pick(rng, [0.15, 0.5, 0.8])

        def burst(mode):
            while rng.random() < p:
                self.refused(S, "a", d, nm, mode)
                if rng.random() < 0.3:
                    S.poke("a")
        burst("fresh")
        if rng.random() < 0.7:
            for i in range(len(L)):
                S.call("a", X[i].copy(), scalar(rng, L[i]), chk=False)
                S.call("ctl", X[i].copy(), int(L[i]), chk=False)
                S.cmp("a", "ctl", "ident")
                burst("inc")
        else:
            S.call("a", X.copy(), label_array(rng, L), chk=False)
            S.call("ctl", X.copy(), np.array(L, dtype=np.int64), chk=False)
            S.cmp("a", "ctl", "ident")
            burst("batch")
            burst("batch")
        S.cmp("a", "ctl", "ident")
        S.end()
        return S

    # ---- C15 --------------------------------------------------------------- #
    def interleave(self, kinds):
        """Several families used in turns, copies taken on the way, then each history alone."""
        rng = self.rng
        S = self.sess("mix")
        m, top = int(rng.integers(2, 5)) if rng.random() < 0.9 else int(rng.integers(6, 13)), 14
        if rng.random() < 0.012:          # a crowd of one kind
            m, top, kinds = size(rng, 20, 140), 5, [pick(rng, kinds)]
        hist, objs = {}, []
        dd = size(rng, 1, 4)
        for j in range(m):
            X, y, k, _ = self.draw(kinds, nmax=top, kmax=4, d=dd if rng.random() < 0.6 else None, dmax=4)
            nm = names(rng, k) if rng.random() < 0.5 else list(range(k))
            if j and rng.random() < 0.4:      # the data of another object, in part or under other labels
                X, y = objs[-1][1].copy(), [int(v) for v in rng.permutation(objs[-1][5])]
                k, t = max(y) + 1, rng.random()
                nm = list(range(k)) if t < 0.5 else names(rng, k)
                if t < 0.3 and objs[-1][4]:
                    X[int(rng.integers(0, len(y)))] += 1.0
            o = "o%d" % j
            S.new(o, kinds)
            objs.append([o, X, [nm[c] for c in y], 0, rng.random() < 0.35, y])
            hist[o] = []
        copies = 0
        if rng.random() < 0.15:           # a copy of an object that has seen nothing
            q = pick(rng, objs)
            S.copy(q[0], "cf", pick(rng, ["deepcopy", "pickle"]))
            hist["cf"] = []
            objs.append(["cf", q[1] + 1.0, q[2][::-1], 0, rng.random() < 0.35, q[5]])
        mem = {}                          # arrays that several batch objects are given in turn
        while objs:
            q = objs[int(rng.integers(0, len(objs)))]
            o, X, L, i, bat, y = q
            if bat:
                c = (X.copy(), np.array(L, dtype=np.int64))
                q[3] = len(L)
                if X.shape in mem:
                    b, la = mem[X.shape]
                    b[...], la[...] = c
                else:
                    b, la = mem[X.shape] = (c[0].copy(), c[1].copy())
                S.call(o, b, la, chk=True)
            else:
                c = (X[i].copy(), int(L[i]))
                q[3] += 1
                S.call(o, c[0], c[1], chk=len(hist[o]) % 3 == 0)
            hist[o].append(c)
            if rng.random() < 0.12 and copies < 4:
                copies += 1
                c = "c%d" % copies
                S.copy(o, c, pick(rng, ["deepcopy", "pickle"]))
                hist[c] = list(hist[o])
                # the copy goes its own way: same data, another order or other labels
                r = list(range(q[3], len(L)))
                rng.shuffle(r)
                if rng.random() < 0.5:
                    objs.append([c, X[list(range(q[3])) + r], [L[v] for v in list(range(q[3])) + r], q[3], False, y])
                else:
                    objs.append([c, X[list(range(q[3])) + r] + 1.0, [L[0] for _ in L], q[3], False, y])
                if bat or q[3] >= len(L):
                    objs.pop()
            if q[3] >= len(L):
                objs = [v for v in objs if v is not q]
        for o in list(hist):
            S.poke(o)
            s = "solo_" + o
            S.new(s, kinds)
            for c in hist[o]:
                S.call(s, np.array(c[0]), c[1] if np.ndim(c[1]) == 0 else np.array(c[1]), chk=False)
            S.cmp(o, s, "ident")
        S.end()
        return S

    # ---- C16 --------------------------------------------------------------- #
    def buffers(self, kinds):
        rng = self.rng
        S = self.sess("buf")
        inc = rng.random() < 0.65
        X, y, k, kinds = self.draw(kinds, nmax=30) if rng.random() < 0.5 else self.draw(kinds)
        nm = names(rng, k)
        L = [nm[c] for c in y]
        n, d = X.shape
        S.new("buf", kinds)
        S.new("ctl", kinds)
        if inc:
            how = pick(rng, ["one", "view", "colview", "two"])
            t = pick(rng, ["f8", "f8", "f8", "f8", "f4", "i8", "i4"])
            if t != "f8":
                X = np.round(X).clip(-1000, 1000)
            mem = np.zeros((n, d)) if how == "view" else np.zeros((d, 2 * n)) if how == "colview" else np.zeros((2, d))
            mem = mem.astype(t)
            for i in range(n):
                if how == "view":
                    b = mem[i]
                elif how == "colview":
                    b = mem[:, 2 * i]
                else:
                    b = mem[i % 2 if how == "two" else 0]
                b[:] = X[i]
                S.call("buf", b, L[i], chk=i % 5 == 0)
                # overwrite everything the caller owns
                mem[...] = (pick(rng, [0.0, 1e6, -7.25, np.nan if mem.dtype.kind == "f" else 3.0])
                            if rng.random() < 0.7 else rng.normal(size=mem.shape) * 100)
                S.poke("buf")
                S.call("ctl", X[i].copy(), L[i], chk=False)
                S.cmp("buf", "ctl", "ident")
        else:
            # any number type and layout, since those decide who copies what
            t = pick(rng, ["f8", "f8", "f8", "f4", "i8", "i4", "i2"])
            if t != "f8":
                X = np.round(X).clip(-1000, 1000)
            b = layout(rng, X.astype(t))
            t = pick(rng, ["i8", "i8", "i4", "list"]) if max(abs(int(v)) for v in L) < 2 ** 31 else "i8"
            la = [int(v) for v in L] if t == "list" else layout(rng, np.array(L, dtype=np.int64).astype(t))
            S.call("buf", b, la)
            b.flags.writeable = True
            b[...] = np.nan if b.dtype.kind == "f" else 77
            if isinstance(la, np.ndarray):
                la.flags.writeable = True
            la[:] = [0] * n
            S.poke("buf")
            S.call("ctl", X.copy(), np.array(L, dtype=np.int64))
            S.cmp("buf", "ctl", "ident")
            if rng.random() < 0.6:         # the same arrays, with other contents, for another object
                X = X[::-1] if rng.random() < 0.3 else X + (rng.integers(0, 3, size=X.shape) if b.dtype.kind != "f" else
                                                           rng.integers(0, 5, size=X.shape) / 4.0)
                L = [int(v) for v in rng.permutation(L)]
                b[...] = X
                X = np.array(b, dtype=float)
                la[:] = L
                S.new("buf2", kinds)
                S.new("ctl2", kinds)
                S.call("buf2", b, la)
                S.call("ctl2", X.copy(), np.array(L, dtype=np.int64))
                S.cmp("buf2", "ctl2", "ident")
        S.end()
        return S

    # ---- C17 --------------------------------------------------------------- #
    def report(self, kinds):
        rng = self.rng
        S = self.sess("rep")
        X, y, k, kinds = self.draw(kinds, style=pick(rng, STYLES + ["zeros", "dups", "binary", "int3"]))
        nm = names(rng, k)
        L = [nm[c] for c in y]
        S.new("a", kinds)
        S.poke("a")
        if rng.random() < 0.75:
            for i in range(len(L)):
                S.call("a", X[i].copy(), L[i], chk=False)
                if rng.random() < 0.2:
                    self.refused(S, "a", X.shape[1], nm, "inc")
                if rng.random() < 0.2:
                    S.poke("a")
        else:
            S.call("a", X.copy(), np.array(L, dtype=np.int64), chk=False)
            self.refused(S, "a", X.shape[1], nm, "batch")
        S.poke("a")
        S.end()
        return S

    # ---- C18 --------------------------------------------------------------- #
    def layouts(self, kinds):
        rng = self.rng
        S = self.sess("typ")
        X, y, k, kinds = self.draw(kinds, style="int")
        n, d = X.shape
        t = pick(rng, ["u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f4", "f4", "f8", ">f8", ">i4"])
        if t[-2] == "u":
            X = rng.integers(0, pick(rng, [4, 16, 200, 256]), size=(n, d)).astype(float)
        elif t == "i1":
            X = rng.integers(-128, 128, size=(n, d)).astype(float)
        elif t in ("i2", "i4", "i8", ">i4"):
            X = rng.integers(*pick(rng, [(-5, 6), (-300, 300), (-30000, 30000)]), size=(n, d)).astype(float)
        elif t == "f4":
            X = points(rng, np.array(y), d, pick(rng, ["full", "blob", "unit", "tight"])).astype(np.float32).astype(float)
        T = X.astype(t)
        la = pick(rng, ["list", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"])
        nm = list(range(k)) if rng.random() < 0.5 else [int(v) for v in rng.permutation(max(k, 100))[:k]]
        L = [nm[c] for c in y]

        S.new("ref", kinds)
        S.new("typ", kinds)
        if rng.random() < 0.5:
            cuts = {n - 1} | {int(v) for v in rng.integers(0, n, size=2)}
            for i in range(n):
                S.call("ref", X[i].copy(), int(L[i]), chk=False)
                v = int(L[i]) if la == "list" else np.dtype(la).type(L[i])
                S.call("typ", layout(rng, T[i]), v, chk=False)
                if i in cuts:
                    S.cmp("ref", "typ", "same")
        else:
            S.call("ref", X.copy(), np.array(L, dtype=np.int64), chk=False)
            lab = [int(v) for v in L] if la == "list" else layout(rng, np.array(L).astype(la))
            S.call("typ", layout(rng, T), lab, chk=False)
            S.cmp("ref", "typ", "same")
        S.end()
        return S

    # ---- C19 --------------------------------------------------------------- #
    def ranges(self, kinds):
        rng = self.rng
        S = self.sess("rng")
        X, y, k, kinds = self.draw(kinds, style=pick(rng, ["heavy", "mixed", "full", "offset", "same", "tiny", "huge", "far", "far",
                                                           "int", "tight", "unit", "binary", "dups"]))
        nm = names(rng, k)
        L = [nm[c] for c in y]
        S.new("a", kinds)
        if rng.random() < 0.7:
            feed(S, "a", X, L, checkpoints(rng, len(L), 14, 5))
        else:
            S.call("a", X.copy(), np.array(L, dtype=np.int64))
        S.end()
        return S

    # ---- C20 --------------------------------------------------------------- #
    def long(self, kinds):
        rng = self.rng
        S = self.sess("long")
        top = 6000 if self.big else 2200
        n = size(rng, 600, top, pd=0.3)
        u = rng.random()
        d = 1 + int(rng.integers(0, 3)) if u < 0.5 else size(rng, 4, 40)
        k = size(rng, 2, 60 if d < 12 else 20) if u < 0.35 or u > 0.6 else int(rng.integers(20, 71))
        if u < 0.35:
            k = min(k, 8)
        kk = cut_rcip(kinds, d, k)
        far = [v for v in INTS if top < v + 3 <= 70000]
        u = rng.random()
        job = None
        if len(kinds) == len(KINDS) and self.far_at < 6 and (self.no == 1 or u < 0.12):
            # a number of the code beyond the usual lengths, or the top of a machine integer: the
            # shards share out the combinations with groups of kinds
            jobs = [(v, g) for v in far[:4] + [32767, 16383, 65535] for g in FARK]
            job = jobs[(self.shard + 8 * self.far_at) % len(jobs)]
            self.far_at += 1
            job = (job[0], [v for v in kinds if v in job[1]])
        elif far and u < 0.2:
            job = (pick(rng, far), [pick(rng, kinds)])
        if job and job[1]:
            n, d, k, kk = job[0] + 33 + int(rng.integers(0, 40)), 1 + int(rng.integers(0, 2)), 2, job[1]
        wide = [v for v in INTS if 60 < v <= 300] + [127, 255]
        if rng.random() < 0.15:    # the same for the number of clusters, or of features
            if rng.random() < 0.6:
                k = pick(rng, wide) + 2
                n, d, kk = 2 * k + 40, 1, [v for v in kinds if v != "rCIP"]
            else:
                d = pick(rng, wide) + 1
                n, k, kk = 60, 3, [v for v in kinds if v != "rCIP"]
        y = cluster_ids(rng, n, k)
        if job and job[1] and rng.random() < 0.7:      # nearly all in one cluster
            y = [0] * n
            for i in rng.integers(0, n, size=12):
                y[i] = 1
        if rng.random() < 0.4:      # a cluster falls silent for most of the stream and comes back
            y = [k] + y + [k] * int(rng.integers(1, 4))
            k += 1
        X = points(rng, np.array(y), d, pick(rng, ["blob", "full", "unit", "tight", "offset", "sep", "mixed", "int", "far", "far"]))
        nm = names(rng, k)
        S.new("a", kk)
        n = len(y)
        c = {n - 1, n - 2} | {int(v) for v in rng.integers(2, n, size=8)} | \
            {v + e for v in INTS for e in (-1, 0, 1) if 2 <= v + e < n}
        if len(c) > 24:
            c = {n - 1, n - 2} | {int(v) for v in rng.choice(sorted(c), size=22, replace=False)}
        feed(S, "a", X, [nm[v] for v in y], lambda i: i in c)
        S.end()
        return S

    # ---- C21 --------------------------------------------------------------- #
    def degenerate(self, kinds):
        rng = self.rng
        S = self.sess("deg")
        d = int(rng.integers(1, 4))
        t = pick(rng, ["singles", "coincide", "zeros", "pairs", "batch", "batch", "meet", "meet", "meet"])
        k = int(rng.integers(2, 7))
        nm = names(rng, k + 1)
        small = lambda *s: rng.integers(-3, 4, size=s).astype(float)
        div0 = ["CH", "GD43", "GD53"]
        S.new("a", kinds)
        if t == "singles":            # k single points, then ordinary samples
            X = np.vstack([small(k, d), small(6, d)])
            y = list(range(k)) + [int(v) for v in rng.integers(0, k + 1, size=6)]
            ex = [div0 + ["DB", "XB", "PS"] if i < k else [] for i in range(len(y))]
        elif t == "coincide":         # two clusters on one spot
            x = small(1, d)
            X = np.vstack([x, x, small(1, d) + 1, small(5, d)])
            y = [0, 1, 0] + [int(v) for v in rng.integers(0, 3, size=5)]
            ex = [["CH", "GD43", "GD53", "WB", "DB", "XB", "PS"]] * 2 + [[]] * 6
        elif t == "zeros":            # everything at the origin, then recovery
            m = int(rng.integers(2, 12))
            y = [0, 1] + [int(v) for v in rng.integers(0, k, size=m)]
            X = np.vstack([np.zeros((len(y), d)), small(6, d)])
            ex = [["CH", "GD43", "GD53", "WB", "DB", "XB", "PS"]] * len(y) + [[]] * 6
            y += [int(v) for v in rng.integers(0, k, size=6)]
        elif t == "meet":
            # clusters of at most two samples on a coarse grid, so that all means are
            # exact and some of them meet and part again
            y = list(range(k)) + [int(v) for v in rng.permutation(k)[:int(rng.integers(1, k + 1))]]
            if rng.random() < 0.5:
                rng.shuffle(y)
            y = [int(v) for v in y]
            X = rng.integers(-1, 2, size=(len(y), d)).astype(float) * pick(rng, [1.0, 1.0, 2.0, 0.5])
            ex = [["CH", "GD43", "GD53", "DB", "XB", "PS"]] * len(y)
            m = int(rng.integers(0, 6))
            X = np.vstack([X, small(m, d)])
            y += [int(v) for v in rng.integers(0, k + 1, size=m)]
            ex += [[]] * m
        elif t == "pairs":            # means that meet: {x-e, x+e} and {x}
            x, e = small(1, d), small(1, d)
            X = np.vstack([x - e, x, x + e, small(5, d)])
            y = [0, 1, 0] + [int(v) for v in rng.integers(0, 3, size=5)]
            ex = [["CH", "GD43", "GD53", "DB", "XB", "PS"]] * 3 + [[]] * 5
        else:
            q = pick(rng, ["singles", "coincide", "zeros", "constant"])
            if q == "singles":
                X, y = small(k, d), list(range(k))
            elif q == "coincide":
                x = small(1, d)
                e = small(k, d)
                X = np.vstack([x + e, x - e])
                y = list(range(k)) * 2
            elif q == "zeros":
                m = int(rng.integers(k, 12))
                X, y = np.zeros((m, d)), [i % k for i in range(m)]
            else:
                c = small(k, d)
                X, y = np.vstack([c, c]), list(range(k)) * 2
            S.call("a", X, label_array(rng, [nm[v] for v in y]),
                   exact=["CH", "GD43", "GD53", "WB", "DB", "XB", "PS"] if q != "singles" else div0 + ["DB", "XB", "PS"])
            S.end()
            return S
        for i in range(len(y)):
            S.call("a", X[i].copy(), scalar(rng, nm[y[i]]), exact=ex[i])
        S.end()
        return S
