bug("c01-wb-batch-singleton", "C01", M + "WB.py",
    [("            self._SEP[ix] = self._n[ix] * np.sum((self._v[ix, :] - self._mu) ** 2)",
      "            if self._n[ix] > 1:\n                self._SEP[ix] = self._n[ix] * np.sum((self._v[ix, :] - self._mu) ** 2)")],
    "a batch in which some cluster holds exactly one sample",
    "single-sample clusters are left out of the between-cluster scatter in batch mode only, so batch and incremental WB differ",
    '''
X = [[0, 0], [1, 0], [4, 4], [5, 4], [9, 0]]
L = [0, 0, 1, 1, 2]
assert close(stream(cvi.WB(), X, L), batch(cvi.WB(), X, L))
''')
bug("c02-ch-centroid-hit", "C02", M + "CH.py",
    [("        # Update the parameters that do not depend on label novelty\n        self._n_samples = n_samples_new\n",
      "        # Update the parameters that do not depend on label novelty\n        self._n_samples = n_samples_new\n        if n_new > 1 and not diff_x_v.any():\n            # The sample sits on its centroid, so no scatter has changed\n            return\n")],
    "a sample that equals the current mean of its cluster while other clusters exist",
    "the between-cluster terms are not refreshed although the overall mean and the cluster size changed",
    '''
X = [[0.0], [2.0], [8.0], [10.0], [1.0]]
L = [0, 0, 1, 1, 0]
assert close(stream(cvi.CH(), X, L), batch(cvi.CH(), X, L))
''')
bug("c03-xb-lazy-distances", "C03", M + "XB.py",
    [("""                if jx == i_label:
                    continue
""", """                if jx == i_label:
                    continue
                if np.inner(delta_v, delta_v) < 1e-7 and self._n[i_label] > 20:
                    # A settled centroid has hardly moved, keep its distances
                    d_column_new[jx] = self._D[jx, i_label]
                    continue
""")],
    "a cluster of more than twenty samples whose mean creeps in small steps",
    "the distances of a slowly moving mean are not refreshed, so XB drifts away from its definition",
    '''
X = [[0.0, 0.0], [20.0, 0.0]] + [[0.0001 * i, 0.0] for i in range(100)]
L = [0, 1] + [0] * 100
a, b = stream(cvi.XB(), X, L), batch(cvi.XB(), X, L)
assert abs(a / b - 1) < 1e-6, (a, b)
''')
bug("c04-db-coincident-pair", "C04", M + "DB.py",
    [("                    self._R[jx, ix] = (\n                        (self._S[ix] + self._S[jx]) / self._D[jx, ix]\n                    )",
      "                    if min(self._n[ix], self._n[jx]) == 1 and self._n_clusters > 4:\n                        # A lone sample has no scatter to compare\n                        continue\n                    self._R[jx, ix] = (\n                        (self._S[ix] + self._S[jx]) / self._D[jx, ix]\n                    )")],
    "at least five clusters of which one holds a single sample that is the worst neighbour of another",
    "pairs with a single-sample cluster are skipped, so DB is too small",
    '''
X = [[0.0], [2.0], [3.5], [20.0], [22.0], [40.0], [42.0], [60.0], [62.0]]
L = [0, 0, 1, 2, 2, 3, 3, 4, 4]
S = [1.0, 0.0, 1.0, 1.0, 1.0]
v = [1.0, 3.5, 21.0, 41.0, 61.0]
want = np.mean([max((S[i] + S[j]) / (v[i] - v[j]) ** 2 for j in range(5) if j != i) for i in range(5)])
assert close(stream(cvi.DB(), X, L), want)
assert close(batch(cvi.DB(), X, L), want)
''')
bug("c05-gd43-zero-separation", "C05", M + "GD43.py",
    [("""                np.min(self._D[
                    np.triu(
                        np.ones((self._n_clusters, self._n_clusters), bool), 1
                    ),
                ])""",
      """                np.min(self._D[self._D > 0])
                if self._D.any() else 0.0""")],
    "two clusters whose means coincide while a third lies elsewhere",
    "a separation of zero is ignored, so GD43 reports the next larger separation instead of 0",
    '''
X = [[-1.0], [1.0], [-2.0], [2.0], [9.0]]
L = [0, 0, 1, 1, 2]
assert stream(cvi.GD43(), X, L) == 0.0
assert batch(cvi.GD43(), X, L) == 0.0
''')
bug("c06-csil-stale-row", "C06", M + "cSIL.py",
    [("                # Row \"bmu_temp\" - E\n                C = (",
      "                # Row \"bmu_temp\" - E\n                if self._n[cl] == 1 and n_new > 8:\n                    # A lone sample hardly moves against a settled centroid\n                    S_row_new[cl] = self._S[cl, i_label]\n                    continue\n                C = (")],
    "a cluster of a single sample next to a cluster that keeps growing beyond eight samples",
    "the distance of the lone sample to the growing cluster's mean is not refreshed",
    '''
X = [[5.0]] + [[float(i)] for i in range(12)] + [[30.0], [31.0]]
L = [1] + [0] * 12 + [2, 2]
assert close(stream(cvi.cSIL(), X, L), batch(cvi.cSIL(), X, L))
''')
bug("c07-ps-nmax-stale", "C07", M + "PS.py",
    [("            n_max = max(self._n)\n",
      "            n_max = max(self._n[:self._n_clusters - 1] or self._n)\n")],
    "the cluster that appeared last becomes the largest",
    "the largest cluster size is taken over all clusters but the newest one",
    '''
X = [[0.0], [1.0], [9.0], [10.0], [11.0], [12.0]]
L = [0, 0, 1, 1, 1, 1]
assert close(stream(cvi.PS(), X, L), 2 / 4 + 1 - 2 * np.exp(-100.0 / 25.0))
''')
bug("c08-rcip-delta-drift", "C08", M + "rCIP.py",
    [("                * (self._sigma[:, :, i_label] - self._delta_term)\n",
      "                * (self._sigma[:, :, i_label] - (self._delta_term if n_new < 30 else 0.0))\n")],
    "a cluster of thirty or more samples in several dimensions (the regularisation is larger there)",
    "the regularisation term accumulates in the covariance of large clusters",
    '''
rng = np.random.default_rng(3)
X = rng.normal(size=(90, 4)) * 0.3
L = [int(i % 2) for i in range(90)]
X[1::2] += 1.0
a, b = stream(cvi.rCIP(), X, L), batch(cvi.rCIP(), X, L)
assert close(a / b, 1.0, 1e-9), (a, b)
''')
bug("c09-label-abs", "C09", M + "_base.py",
    [("        # Initialize the internal label\n        internal_label = None\n",
      "        # Initialize the internal label\n        internal_label = None\n        # Noise-style negative labels are folded onto their magnitude\n        label = abs(int(label))\n")],
    "a stream that uses both a label and its negative, such as -1 and 1",
    "two distinct clusters are merged",
    '''
X = [[0.0], [1.0], [9.0], [11.0]]
assert close(stream(cvi.CH(), X, [-1, -1, 1, 1]), stream(cvi.CH(), X, [0, 0, 1, 1]))
''')
bug("c09-label-repr", "C09", M + "_base.py",
    [("        # Initialize the internal label\n        internal_label = None\n",
      "        # Initialize the internal label\n        internal_label = None\n        # Use a printable key so that the map can be exported\n        label = repr(label)\n")],
    "labels given partly as Python integers and partly as numpy integers",
    "the same label in another integer type starts a new cluster",
    '''
X = [[0.0], [1.0], [9.0], [11.0]]
assert close(stream(cvi.CH(), X, [0, np.int64(0), 1, np.int64(1)]), stream(cvi.CH(), X, [0, 0, 1, 1]))
''')
bug("c10-wb-order", "C10", M + "WB.py",
    [("                + self._n[i_label] * np.inner(delta_v, delta_v)\n",
      "                + min(self._n[i_label], 50) * np.inner(delta_v, delta_v)\n"),
     ],
    "a cluster of more than fifty samples whose later samples lie away from its mean",
    "the scatter of a large cluster depends on the order in which its samples arrive",
    '''
X = np.array([[0.0 + 0.01 * (i % 5)] for i in range(60)] + [[40.0 + i] for i in range(20)] + [[100.0], [103.0]])
L = np.array([0] * 80 + [1, 1])
p = np.arange(82)[::-1]
assert close(stream(cvi.WB(), X, L), stream(cvi.WB(), X[p], L[p]))
''')
bug("c11-allclose", "C11", M + "WB.py",
    [("            delta_v = self._v[i_label, :] - v_new\n",
      "            if np.allclose(sample, self._v[i_label, :]):\n                # Nothing moves when the sample is already at the centroid\n                v_new = self._v[i_label, :].copy()\n            delta_v = self._v[i_label, :] - v_new\n"),
     ("            diff_x_v = sample - v_new\n",
      "            diff_x_v = sample - v_new if delta_v.any() else np.zeros(self._dim)\n")],
    "data far from the origin compared with the spread of a cluster",
    "a relative comparison with the centroid makes the value depend on where the origin lies",
    '''
X = np.array([[0.0], [0.002], [0.004], [1.0], [1.002], [1.001]])
L = [0, 0, 0, 1, 1, 1]
assert close(stream(cvi.WB(), X, L), stream(cvi.WB(), X + 500.0, L), 1e-6 * 1e-3) or \\
    abs(stream(cvi.WB(), X, L) / stream(cvi.WB(), X + 500.0, L) - 1) < 1e-5
''')
bug("c12-db-one-cluster", "C12", M + "DB.py",
    [("        if self._n_clusters > 1:\n            self._R",
      "        if self._n_clusters > 1 or self._n_samples > 100:\n            self._R"),
     ("                np.sum(np.max(self._R, axis=0)) / self._n_clusters\n",
      "                np.sum(np.max(self._R, axis=0)) / self._n_clusters\n                if self._n_clusters > 1 else self._S[0]\n")],
    "more than 100 samples before a second label appears",
    "DB reports the scatter of the only cluster instead of 0",
    '''
o = cvi.DB()
for i in range(150):
    assert o.get_cvi(np.array([float(i), 1.0]), 4) == 0.0
''')
bug("c13-stacked-batches", "C13", M + "_base.py",
    [("        elif (data.ndim == 2):\n",
      "        elif (data.ndim == 2 or data.ndim == 3):\n\n            # Accept stacked batches by flattening the leading dimensions\n            data = data.reshape(-1, data.shape[-1])\n")],
    "a 3-D array given to a fresh object together with one label per flattened row",
    "three-dimensional data is accepted instead of being refused",
    '''
X = np.arange(12.0).reshape(1, 6, 2)
try:
    cvi.XB().get_cvi(X, np.array([0, 0, 1, 1, 2, 2]))
except ValueError:
    sys.exit(0)
sys.exit(1)
''')
bug("c14-single-label-locks", "C14", M + "_base.py",
    [("            # If we haven't done a batch update yet\n            if not self._is_setup:\n",
      "            # If we haven't done a batch update yet\n            first, self._is_setup = not self._is_setup, True\n            if first:\n")],
    "a fresh object that is given a single-label batch and later a proper batch",
    "the refused batch marks the object as used, so the proper batch is refused",
    '''
o = cvi.PS()
try:
    o.get_cvi(np.zeros((3, 2)), np.array([1, 1, 1]))
    sys.exit(2)
except ValueError:
    pass
X = [[0, 0], [1, 0], [5, 5], [6, 5]]
assert close(batch(o, X, [0, 0, 1, 1]), batch(cvi.PS(), X, [0, 0, 1, 1]))
''')
bug("c15-shared-label-map", "C15", M + "_base.py",
    [("    def __init__(self):\n        self.map = dict()\n",
      "    def __init__(self, known: dict = {}):\n        self.map = known\n")],
    "two objects whose labels first appear in different orders",
    "all objects share one label map",
    '''
X = [[0.0], [1.0], [9.0], [11.0]]
want = None
stream(cvi.CH(), X, [0, 0, 1, 1])
a = cvi.CH()
try:
    r = stream(a, X, [1, 1, 0, 0])
except Exception:
    sys.exit(1)
assert close(r, batch(cvi.CH(), X, [0, 0, 1, 1]))
''')
bug("c15-pickle-drops-labels", "C15", M + "_base.py",
    [("    def _setup(self, sample: np.ndarray):\n        \"\"\"\n        Common CVI procedure for incremental setup.",
      "    def __getstate__(self):\n        \"\"\"\n        Keeps pickles small by leaving the label map out.\n        \"\"\"\n\n        state = dict(self.__dict__)\n        state[\"_label_map\"] = LabelMap()\n        return state\n\n    def _setup(self, sample: np.ndarray):\n        \"\"\"\n        Common CVI procedure for incremental setup.")],
    "an object pickled or deep-copied in the middle of a stream, continued with labels in another order",
    "the copy renumbers its labels and updates the wrong clusters",
    '''
o = cvi.DB()
stream(o, [[0.0], [1.0], [9.0], [11.0]], [5, 5, 3, 3])
p = pickle.loads(pickle.dumps(o))
assert close(p.get_cvi(np.array([12.0]), 3), o.get_cvi(np.array([12.0]), 3))
''')
bug("c16-gd53-centres-in-place", "C16", M + "GD53.py",
    [("        self._mu = np.mean(data, axis=0)\n        u = np.unique(labels)",
      "        self._mu = np.mean(data, axis=0)\n        # Work relative to the overall mean\n        data -= self._mu\n        u = np.unique(labels)")],
    "a batch handed over as a 64-bit float array that the caller goes on using",
    "the caller's array is centred in place",
    '''
X = np.array([[0.0, 1.0], [1.0, 1.0], [5.0, 5.0], [6.0, 5.0]])
Y = X.copy()
cvi.GD53().get_cvi(X, np.array([0, 0, 1, 1]))
assert np.array_equal(X, Y)
''')
bug("c17-clamped-return", "C17", M + "_base.py",
    [("        criterion_value = self.criterion_value\n",
      "        criterion_value = self.criterion_value if self._n_clusters > 1 else 0.0\n        if self._n_clusters > 2:\n            criterion_value = np.nan_to_num(criterion_value, nan=np.nan)\n")],
    "an index that becomes infinite with three or more clusters, for instance CH while all clusters are single samples",
    "the returned value is a huge finite number while the reported criterion value is infinite",
    '''
for K in (cvi.CH, cvi.GD43, cvi.DB, cvi.XB):
    o = K()
    for x, l in (([0.0, 0.0], 0), ([4.0, 0.0], 1), ([9.0, 1.0], 2), ([4.0, 0.0], 3)):
        r = o.get_cvi(np.array(x), l)
        assert r == o.criterion_value or (r != r and o.criterion_value != o.criterion_value), (K, r, o.criterion_value)
''')
bug("c18-negative-strides", "C18", M + "_base.py",
    [("        elif (data.ndim == 2):\n",
      "        elif (data.ndim == 2):\n\n            # Walk memory forwards\n            if data.strides[0] < 0:\n                data = data[::-1]\n")],
    "a batch passed as a reversed view",
    "the rows of a reversed view are matched with the labels in the wrong order",
    '''
X = np.array([[0.0, 1.0], [1.0, 3.0], [5.0, 5.0], [6.0, 9.0], [7.0, 7.0]])
L = np.array([0, 0, 1, 1, 1])
assert close(cvi.GD43().get_cvi(X[::-1].copy()[::-1], L), cvi.GD43().get_cvi(X, L))
''')
bug("c19-ps-nmax-new-only", "C19", M + "PS.py",
    [("            n_max = max(self._n)\n",
      "            if self._n_clusters != len(self._PS_i):\n                self._n_max = max(self._n)\n            n_max = getattr(self, \"_n_max\", None) or max(self._n)\n"),
     ("            self._PS_i = np.zeros(self._n_clusters)\n            for ix", "            for ix"),
     ("            for ix in range(self._n_clusters):\n                d = self._D[ix, :]\n",
      "            self._PS_i = np.zeros(self._n_clusters)\n            for ix in range(self._n_clusters):\n                d = self._D[ix, :]\n")],
    "a long stream in which no new cluster appears any more",
    "cluster sizes are compared with an outdated maximum, so PS exceeds the number of clusters",
    '''
o = cvi.PS()
r = stream(o, [[0.0], [50.0]] + [[0.0 + i % 2] for i in range(40)], [0, 1] + [0] * 40)
assert -2 < r < 2, r
''')
bug("c20-label-eviction", "C20", M + "_base.py",
    [("            internal_label = len(self.map.items())\n            self.map[label] = internal_label\n",
      "            internal_label = getattr(self, \"count\", 0)\n            self.count = internal_label + 1\n            self.map[label] = internal_label\n            # Bound the memory of long streams\n            if len(self.map) > 40:\n                del self.map[next(iter(self.map))]\n")],
    "more than forty clusters, one of the first of which receives a sample again",
    "a cluster that has been silent is forgotten and restarted as a new one",
    '''
rng = np.random.default_rng(1)
X = rng.normal(size=(94, 2)) + np.array([[7.0 * (i % 45), 3.0 * (i % 4)] for i in range(94)])
L = [i % 45 for i in range(94)]
assert close(stream(cvi.XB(), X, L), batch(cvi.XB(), X, L))
''')
bug("c20-n-cap", "C20", M + "cSIL.py",
    [("            n_new = self._n[i_label] + 1\n",
      "            n_new = min(self._n[i_label] + 1, 1000)\n")],
    "more than a thousand samples in one cluster",
    "the cluster size saturates, so mean and scatter of a very large cluster drift",
    '''
rng = np.random.default_rng(1)
X = rng.normal(size=(2400, 2))
L = [int(i % 2) for i in range(2400)]
X[1::2] += 3.0
X += np.linspace(0, 4, 2400)[:, None]
a, b = stream(cvi.cSIL(), X, L), batch(cvi.cSIL(), X, L)
assert close(a, b, 1e-6), (a, b)
''')
bug("c21-xb-keeps-stale", "C21", M + "XB.py",
    [("            # XB index value\n            self.criterion_value = (",
      "            if self._SEP == 0 and self.criterion_value > 0:\n                # Keep the last meaningful value while two centroids coincide\n                return\n            # XB index value\n            self.criterion_value = (")],
    "a stream with a positive XB value in which two cluster means come to coincide",
    "a stale finite value is returned while the index is undefined",
    '''
o = cvi.XB()
r = [o.get_cvi(np.array([x]), l) for x, l in ((0.0, 0), (2.0, 0), (5.0, 1), (1.0, 2))]
assert not np.isfinite(r[-1]), r
''')
bug("c21-ch-eps", "C21", M + "CH.py",
    [("                (self._BGSS / self._WGSS)\n",
      "                (self._BGSS / max(self._WGSS, np.finfo(float).tiny))\n")],
    "all clusters are single samples",
    "a finite value is returned although the index is undefined",
    '''
o = cvi.CH()
r = [o.get_cvi(np.array([x]), l) for x, l in ((0.0, 0), (1e-3, 1), (2e-3, 2))]
assert not np.isfinite(r[-1]) and not np.isfinite(r[1]), r
''')
bug("c09-label-float", "C09", M + "_base.py",
    [("        # If the label is in the map, return that\n",
      "        # Labels may arrive as any scalar type, use one common type for the keys\n        label = float(label)\n\n        # If the label is in the map, return that\n")],
    "a stream with two labels beyond 2**53 that differ by one",
    "neighbouring huge labels are taken for one and the same cluster",
    '''
X = [[0.0], [1.0], [10.0], [12.0]]
a = stream(cvi.CH(), X, [0, 0, 1, 1])
b = stream(cvi.CH(), X, [2 ** 53, 2 ** 53, 2 ** 53 + 1, 2 ** 53 + 1])
assert close(a, b), (a, b)
''')
bug("c09-label-hash", "C09", M + "_base.py",
    [("        if label in self.map:\n            internal_label = self.map[label]\n",
      "        label = hash(label)\n        if label in self.map:\n            internal_label = self.map[label]\n")],
    "a stream that uses both -1 (noise, say) and -2",
    "hash(-1) == hash(-2) in CPython, so the two clusters are merged",
    '''
X = [[0.0], [1.0], [10.0], [12.0]]
a = stream(cvi.XB(), X, [0, 0, 1, 1])
b = stream(cvi.XB(), X, [-1, -1, -2, -2])
assert close(a, b), (a, b)
''')
bug("c07-ps-beta-floor", "C07", M + "PS.py",
    [("            self._beta_t /= self._n_clusters\n",
      "            self._beta_t /= self._n_clusters\n            # Keep the exponent from overflowing\n            self._beta_t = max(self._beta_t, 1e-10) if self._beta_t > 0 else self._beta_t\n")],
    "data whose cluster means lie within about 1e-5 of one another",
    "beta is clipped from below, so PS of data on a small scale is wrong",
    '''
X = np.array([[0.0, 0.0], [1.0, 0.0], [5.0, 0.0], [5.0, 2.0], [0.0, 7.0]])
L = [0, 0, 1, 1, 2]
assert close(stream(cvi.PS(), X * 1e-7, L), stream(cvi.PS(), X, L))
''')
bug("c08-rcip-delta-cap", "C08", M + "rCIP.py",
    [("        delta = 10.0 ** (-epsilon / self._dim)\n",
      "        delta = min(10.0 ** (-epsilon / self._dim), 1e-2)\n")] * 1,
    "incremental use with seven or more features",
    "the regularisation is capped, so the density is that of another covariance",
    '''
r = np.random.default_rng(0)
X = r.normal(size=(12, 8)) * 0.1
L = [0, 1] * 6
assert close(stream(cvi.rCIP(), X, L) / batch(cvi.rCIP(), X, L), 1.0)
''')
bug("c11-db-eps", "C11", M + "DB.py",
    [("                        (self._S[ix] + self._S[jx]) / self._D[jx, ix]\n",
      "                        (self._S[ix] + self._S[jx]) / max(self._D[jx, ix], np.finfo(float).eps)\n")],
    "data on a scale of about 1e-8 or below",
    "distances below machine epsilon are clipped, so DB depends on the unit of measurement",
    '''
X = np.array([[0.0, 0.0], [1.0, 0.0], [5.0, 0.0], [5.0, 2.0], [0.0, 7.0]])
L = [0, 0, 1, 1, 2]
assert close(stream(cvi.DB(), X * 1e-9, L), stream(cvi.DB(), X, L))
''')
bug("c20-n-int16", "C20", M + "GD43.py",
    [("            n_new = self._n[i_label] + 1\n",
      "            n_new = int(np.int16(self._n[i_label]) + np.int16(1)) if self._n[i_label] < 2 ** 14 else self._n[i_label]\n")],
    "a cluster of more than 16384 samples",
    "the size of a cluster stops growing",
    '''
r = np.random.default_rng(0)
n = 20000
X = np.concatenate([r.normal(size=(n, 1)) + np.linspace(0, 3, n)[:, None], [[30.0], [31.0]]])
L = [0] * n + [1, 1]
assert close(stream(cvi.GD43(), X, L), batch(cvi.GD43(), X, L), 1e-6)
''')
bug("c20-sep-window", "C20", M + "WB.py",
    [("            for ix in range(self._n_clusters)\n        ])",
      "            for ix in range(self._n_clusters)\n        ][-64:])")],
    "more than 64 clusters in an incremental run",
    "only the last 64 clusters contribute to the between-cluster scatter",
    '''
r = np.random.default_rng(0)
X = r.normal(size=(200, 2))
L = [i % 70 for i in range(200)]
assert close(stream(cvi.WB(), X, L), batch(cvi.WB(), X, L))
''')
bug("c17-nan-keeps", "C17", M + "_base.py",
    [("        criterion_value = self.criterion_value\n",
      "        criterion_value = self.criterion_value\n        if np.isnan(criterion_value):\n            # Report an undefined value as the worst possible one\n            criterion_value = np.inf\n")],
    "a call whose value is not a number, such as XB or DB after single samples at one place",
    "the returned value (inf) differs from the reported one (nan)",
    '''
o = cvi.XB()
o.get_cvi(np.array([1.0]), 0)
v = o.get_cvi(np.array([1.0]), 1)
assert repr(float(v)) == repr(float(o.criterion_value)), (v, o.criterion_value)
''')
bug("c15-module-cache", "C15", M + "rCIP.py",
    [("        self._constant = 1 / np.sqrt((2 * np.pi) ** self._dim)\n\n        # IF NEW",
      "        # The normalising constant only depends on the dimension\n        if not hasattr(rCIP, \"_norm\"):\n            rCIP._norm = 1 / np.sqrt((2 * np.pi) ** self._dim)\n        self._constant = rCIP._norm\n\n        # IF NEW")],
    "two rCIP objects in one program whose data differ in dimension",
    "the constant computed for the first object's dimension is used by all later ones",
    '''
r = np.random.default_rng(0)
X2, X3 = r.normal(size=(20, 2)), r.normal(size=(20, 3))
L = [0, 1] * 10
a = stream(cvi.rCIP(), X2, L)
b = stream(cvi.rCIP(), X3, L)
assert close(b / batch(cvi.rCIP(), X3, L), 1.0)
''')
bug("c15-shallow-state", "C15", M + "_base.py",
    [("    def _setup(self, sample: np.ndarray):\n        \"\"\"\n        Common CVI",
      "    def __deepcopy__(self, memo):\n        new = self.__class__.__new__(self.__class__)\n        for key, value in self.__dict__.items():\n            new.__dict__[key] = value.copy() if isinstance(value, np.ndarray) else value\n        return new\n\n    def _setup(self, sample: np.ndarray):\n        \"\"\"\n        Common CVI")],
    "a deep copy whose original (or the copy) is continued while the other is used again later",
    "lists and the label map are shared between original and copy",
    '''
o = cvi.CH()
X = [[0.0], [1.0], [10.0], [12.0]]
stream(o, X, [0, 0, 1, 1])
c = copy.deepcopy(o)
c.get_cvi(np.array([3.0]), 0)
a = o.get_cvi(np.array([11.0]), 1)
assert close(a, stream(cvi.CH(), X + [[11.0]], [0, 0, 1, 1, 1]))
''')
bug("c16-csil-restore", "C16", M + "cSIL.py",
    [("        u = np.unique(labels)\n        self._n_clusters = u.size\n",
      "        # Centre the data for accuracy, and put it back at the end\n        centre = np.mean(data, axis=0)\n        data -= centre\n        u = np.unique(labels)\n        self._n_clusters = u.size\n"),
     ("                self._S[jx, ix] = sum(D[ix, subset_ind]) / self._n[jx]\n",
      "                self._S[jx, ix] = sum(D[ix, subset_ind]) / self._n[jx]\n        data += centre\n")],
    "a batch of numbers for which subtracting and adding back the mean rounds",
    "the caller's array comes back changed in its last bits (and a read-only array is refused)",
    '''
X = 10.0 ** np.random.default_rng(0).uniform(-6, 6, size=(50, 3))
k = X.copy()
cvi.cSIL().get_cvi(X, np.arange(50) % 3)
assert np.array_equal(X, k)
''')
bug("c12-xb-phase", "C12", M + "XB.py",
    [("            # Update parameters\n            self._n[i_label] = n_new\n",
      "            if self._n_clusters == 1:\n                # Nothing to compare with yet, the gradient term vanishes\n                G_new = self._G[i_label, :] + diff_x_v\n            # Update parameters\n            self._n[i_label] = n_new\n")],
    "a single-cluster phase of several samples followed by more samples of that cluster",
    "the accumulated gradient is wrong after the first phase and distorts later compactness",
    '''
X = [[0.0], [1.0], [4.0], [10.0], [11.0], [2.5], [7.0]]
L = [0, 0, 0, 1, 1, 0, 0]
assert close(stream(cvi.XB(), X, L), batch(cvi.XB(), X, L))
''')
bug("c06-csil-tie", "C06", M + "cSIL.py",
    [("                self._sil_coefs[ix] = (b - a) / np.maximum(a, b)\n",
      "                self._sil_coefs[ix] = 0.0 if np.isclose(a, b, rtol=1e-3) else (b - a) / np.maximum(a, b)\n")],
    "a cluster whose own mean distance nearly equals the one to its neighbour",
    "nearly equal distances are reported as exactly zero silhouette",
    '''
X = [[-1.0], [1.0], [-1.0005], [1.0005]]
L = [0, 0, 1, 1]
v = stream(cvi.cSIL(), X, L)
a, b = 1.0, 1.0005 ** 2
assert abs(v - ((b - a) / b + (a - b) / b) / 2) < 1e-9
X = [[-1.0], [1.0], [-1.0005], [1.0006]]
v = stream(cvi.cSIL(), X, L)
w = batch(cvi.CH(), X, L)
m = 0.00005; s = np.var(X[2:])
want = ((s + m * m - 1) / max(1, s + m * m) + (1 + m * m - s) / max(s, 1 + m * m)) / 2
assert abs(v - want) < 1e-8, (v, want)
''')
bug("c10-db-ties", "C10", M + "DB.py",
    [("            # Update parameters\n            self._n[i_label] = n_new\n",
      "            if n_new % 64 == 0:\n                # Refresh against the accumulated rounding\n                CP_new = CP_new - np.inner(delta_v, delta_v)\n            # Update parameters\n            self._n[i_label] = n_new\n")],
    "a cluster that reaches 64 samples",
    "the compactness loses a term that depends on which sample comes 64th",
    '''
X = [[0.0], [1.0]] * 33 + [[30.0], [31.0]]
X[63] = [9.0]
L = [0] * 66 + [1, 1]
Y = [X[63]] + X[:63] + X[64:]
assert close(stream(cvi.DB(), X, L), stream(cvi.DB(), Y, L))
''')
bug("c05-gd43-far", "C05", M + "GD43.py",
    [("            self._CP[ix] = np.sum(diff_x_v ** 2)\n",
      "            self._CP[ix] = np.sum(subset ** 2) - self._n[ix] * np.sum(self._v[ix, :] ** 2)\n")],
    "batch data far from the origin compared with its spread",
    "the one-pass formula cancels catastrophically",
    '''
X = np.random.default_rng(0).normal(size=(60, 2))
L = np.arange(60) % 3
a = batch(cvi.GD43(), X + 1e6, L)
b = batch(cvi.GD43(), X, L)
assert close(a / b, 1.0, 1e-6), (a, b)
''')
bug("c13-row-vector", "C13", M + "_base.py",
    [("        if (data.ndim == 1):\n",
      "        if (data.ndim == 1 or (data.ndim == 2 and data.shape[0] == 1 and self._is_setup)):\n            # A single row is just a sample\n            data = data.reshape(-1)\n            label = np.ravel(label)[0]\n")],
    "a 1 x d array given to an object that is already in incremental mode",
    "a 2-D array is taken as a sample instead of being refused",
    '''
o = cvi.CH()
stream(o, [[0.0, 1.0], [1.0, 1.0], [5.0, 5.0]], [0, 0, 1])
try:
    o.get_cvi(np.array([[1.0, 2.0]]), np.array([0]))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''')
bug("c14-label-first", "C14", M + "_base.py",
    [("        # If we got 1D data, do a quick update\n        if (data.ndim == 1):\n",
      "        # If we got 1D data, do a quick update\n        if (data.ndim == 1):\n            if self._is_setup and not self._is_batch:\n                self._label_map.get_internal_label(label)\n")],
    "a sample of the wrong length that carries a new label, in the middle of a stream",
    "the refused sample's label is registered, and the next new cluster gets a wrong index",
    '''
o = cvi.CH()
X = [[0.0, 1.0], [1.0, 1.0], [5.0, 5.0]]
stream(o, X, [0, 0, 1])
try:
    o.get_cvi(np.array([1.0]), 7)
except ValueError:
    pass
v = stream(o, [[9.0, 9.0], [8.0, 1.0]], [2, 7])
assert close(v, stream(cvi.CH(), X + [[9.0, 9.0], [8.0, 1.0]], [0, 0, 1, 2, 7]))
''')
bug("c02-batch-uint8", "C02", M + "CH.py",
    [("                [x for x in range(len(labels)) if labels[x] == ix]\n",
      "                np.flatnonzero(labels.astype(np.uint8) == ix)\n")],
    "a batch with more than 256 clusters",
    "cluster indices wrap around at 256",
    '''
r = np.random.default_rng(1)
X = r.normal(size=(700, 2))
L = np.arange(700) % 300
assert close(batch(cvi.CH(), X, L), stream(cvi.CH(), X, L), 1e-6)
''')
bug("c21-ps-raise", "C21", M + "PS.py",
    [("            n_max = max(self._n)\n",
      "            if self._beta_t == 0.0 and self._n_clusters > 2:\n                # All the means coincide, nothing has been separated\n                self.criterion_value = -float(self._n_clusters)\n                return\n            n_max = max(self._n)\n")],
    "three or more clusters whose means all coincide",
    "a finite value is reported where the index is undefined",
    '''
X = [[1.0], [1.0], [1.0]]
assert not np.isfinite(stream(cvi.PS(), X, [0, 1, 2]))
''')
bug("c21-gd53-sticky", "C21", M + "GD53.py",
    [("            self._intra = 2 * np.max(np.divide(self._CP, self._n))\n",
      "            self._intra = 2 * np.max(np.divide(self._CP, self._n))\n            if self._intra == 0.0:\n                self._n_undefined = getattr(self, \"_n_undefined\", 0) + 1\n            if getattr(self, \"_n_undefined\", 0) > 5:\n                # Hopeless, stop evaluating\n                self.criterion_value = np.nan\n                return\n")],
    "more than five undefined evaluations followed by defined ones",
    "the index stays undefined for good",
    '''
X = [[float(i)] for i in range(9)] + [[0.5], [1.5]]
L = list(range(9)) + [0, 1]
v = stream(cvi.GD53(), X, L)
assert np.isfinite(v) and close(v, batch(cvi.GD53(), X, L))
''')
bug("c19-csil-min", "C19", M + "cSIL.py",
    [("                self._sil_coefs[ix] = (b - a) / np.maximum(a, b)\n",
      "                self._sil_coefs[ix] = (b - a) / (b if self._n[ix] > 2 * self._n_samples / 3 else np.maximum(a, b))\n")],
    "one cluster with more than two thirds of the samples that is wider than the distance to its neighbour",
    "the coefficient of a dominating cluster is not bounded below by -1",
    '''
X = [[-9.0], [9.0], [-8.0], [8.0], [0.5], [0.4]]
L = [0, 0, 0, 0, 0, 1]
v = stream(cvi.cSIL(), X, L)
assert -1 <= v <= 1, v
''')
bug("c04-db-dim1", "C04", M + "DB.py",
    [("                        (self._S[ix] + self._S[jx]) / self._D[jx, ix]\n",
      "                        (self._S[ix] + self._S[jx]) / (self._D[jx, ix] if self._dim > 1 else abs(self._v[ix, 0] - self._v[jx, 0]) ** 2.0000001)\n")],
    "one-dimensional data",
    "the distance is raised to a slightly wrong power",
    '''
X = [[0.0], [2.0], [3000.5], [200.0], [220.0]]
L = [0, 0, 1, 2, 2]
S = [1.0, 0.0, 100.0]
v = [1.0, 3000.5, 210.0]
want = np.mean([max((S[i] + S[j]) / (v[i] - v[j]) ** 2 for j in range(3) if j != i) for i in range(3)])
assert close(stream(cvi.DB(), X, L) / want, 1.0, 1e-8)
''')
bug("c03-wb-batch-order", "C03", M + "WB.py",
    [("            self._v[ix, :] = np.mean(subset, axis=0)\n",
      "            self._v[ix, :] = np.mean(subset, axis=0) if self._n[ix] < 1000 else np.mean(subset[::2], axis=0)\n")],
    "a batch cluster of a thousand samples or more",
    "the mean of a large cluster is estimated from every other sample",
    '''
X = np.random.default_rng(0).normal(size=(2500, 2))
L = np.arange(2500) % 2
assert close(batch(cvi.WB(), X, L) / stream(cvi.WB(), X, L), 1.0, 1e-6)
''')
bug("c01-gd53-batch-zero", "C01", M + "GD53.py",
    [("                    (self._CP[ix] + self._CP[jx]) / (self._n[ix] + self._n[jx])\n                )\n\n        self._D",
      "                    (self._CP[ix] + self._CP[jx]) / (self._n[ix] + self._n[jx])\n                    if self._n[ix] + self._n[jx] > 2 else self._CP[ix]\n                    + np.sum((self._v[ix, :] - self._v[jx, :]) ** 2) / 2\n                )\n\n        self._D")],
    "a batch with at least two single-sample clusters",
    "pairs of single samples get their distance instead of zero in batch mode",
    '''
X = [[0.0], [1.0], [4.0], [9.0]]
L = [0, 0, 1, 2]
assert close(batch(cvi.GD53(), X, L), stream(cvi.GD53(), X, L))
''')
bug("c15-batch-memo", "C15", M + "_base.py",
    [("        # Regardless of path, evaluate and extract the criterion value\n        self._evaluate()\n",
      "        # Regardless of path, evaluate and extract the criterion value\n        if data.ndim == 2:\n            # The same partition of the same data has been asked for before\n            key = (type(self), data.tobytes(), self._n_clusters)\n            if key in _MEMO:\n                self.criterion_value = _MEMO[key]\n                return self.criterion_value\n        self._evaluate()\n        if data.ndim == 2:\n            _MEMO[key] = self.criterion_value\n"),
     ("class CVI():\n", "_MEMO = dict()\n\n\nclass CVI():\n")],
    "two batch objects of one kind that get the same data under different labels with equally many clusters",
    "the second object reports the value of the first one's partition",
    '''
X = np.random.default_rng(0).normal(size=(12, 2))
a = batch(cvi.CH(), X, [0, 1] * 6)
b = batch(cvi.CH(), X, [0] * 6 + [1] * 6)
assert not close(a, b)
''')
bug("c12-long-phase", "C12", M + "GD53.py",
    [("        # IF NEW CLUSTER LABEL\n",
      "        # Do not let one cluster dominate before there is anything to compare it with\n        if self._n_clusters == 1 and self._n[0] >= 2500 and i_label == 0:\n            return\n\n        # IF NEW CLUSTER LABEL\n")],
    "more than 2500 samples before a second label appears",
    "samples of a long single-cluster phase are dropped",
    '''
r = np.random.default_rng(0)
X = np.concatenate([r.normal(size=(2500, 1)), 5 * r.normal(size=(900, 1)), [[30.0], [31.0]]])
L = [0] * 3400 + [1, 1]
assert close(stream(cvi.GD53(), X, L), batch(cvi.GD53(), X, L), 1e-6)
''')
bug("c10-late-merge", "C10", M + "_base.py",
    [("            internal_label = len(self.map.items())\n            self.map[label] = internal_label\n",
      "            internal_label = len(self.map.items())\n            self.map[label] = internal_label\n            # Keep the map ordered for faster look-up\n            if len(self.map) > 12:\n                self.map = {k: i for i, k in enumerate(sorted(self.map))}\n                internal_label = self.map[label]\n")],
    "more than twelve labels that do not first appear in ascending order",
    "internal indices are reassigned while the statistics keep the old ones",
    '''
r = np.random.default_rng(0)
X = r.normal(size=(60, 2)) + np.arange(60)[:, None] % 15
L = np.array([(i % 15) for i in range(60)])
p = np.concatenate([np.arange(59, -1, -1)])
a = stream(cvi.CH(), X, [int(v) for v in L])
b = stream(cvi.CH(), X[p], [int(v) for v in L[p]])
assert close(a, b)
''')
bug("c08-rcip-dup", "C08", M + "rCIP.py",
    [("            diff_x_v = sample - self._v[i_label, :]\n            sigma_new = (",
      "            diff_x_v = sample - self._v[i_label, :]\n            if not diff_x_v.any() and n_new > 2:\n                # The sample repeats the mean, the shape is unchanged\n                self._n[i_label] = n_new\n                self._n_samples = n_samples_new\n                return\n            sigma_new = (")],
    "a sample that equals the current mean of a cluster of at least two samples",
    "the covariance is not shrunk although the cluster has one more sample",
    '''
X = [[0.0, 0.0], [2.0, 1.0], [6.0, 1.0], [7.0, 3.0], [1.0, 0.5], [6.0, 2.0], [0.0, 3.0]]
L = [0, 0, 1, 1, 0, 1, 0]
a, b = stream(cvi.rCIP(), X, L), batch(cvi.rCIP(), X, L)
assert close(a / b, 1.0, 1e-6), (a, b)
''')
bug("c13-sample-len1", "C13", M + "_base.py",
    [("        if (data.ndim == 1):\n",
      "        if (data.ndim == 1 or (data.ndim == 0 and self._dim == 1)):\n            # Allow plain numbers for one-dimensional data\n            data = data.reshape(-1)\n")],
    "a 0-D array given to an object that works on one-dimensional samples",
    "0-D data is accepted",
    '''
o = cvi.CH()
stream(o, [[0.0], [1.0], [5.0]], [0, 0, 1])
try:
    o.get_cvi(np.array(2.0), 0)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''')
bug("c05-gd43-tied", "C05", M + "GD43.py",
    [("            self.criterion_value = self._inter / self._intra\n",
      "            value = self._inter / self._intra\n            # Only report changes that can be told apart\n            if not np.isclose(value, self.criterion_value, rtol=1e-9, atol=1e-12):\n                self.criterion_value = value\n")],
    "GD43 values whose size is below 1e-12 (data of huge scale), or that change by less than 1e-9",
    "tiny values are reported as the previous value; both report and return agree, so only the value is wrong",
    '''
X = np.array([[0.0], [2.0], [9.0], [13.0]]) * 1e14
L = [0, 0, 1, 1]
assert stream(cvi.GD43(), X, L) > 0
''')
bug("c14-empty-batch", "C14", M + "_base.py",
    [("        # Otherwise, we got 2D data and do the correct update\n        elif (data.ndim == 2):\n",
      "        # Otherwise, we got 2D data and do the correct update\n        elif (data.ndim == 2):\n            if not self._is_setup:\n                self._dim = data.shape[1]\n"),
     ("        # Infer the dimension as the length of the provided sample\n        self._dim = len(sample)\n",
      "        # Infer the dimension as the length of the provided sample\n        self._dim = self._dim or len(sample)\n")],
    "a fresh object refuses a batch and is then used incrementally with samples of another length",
    "the dimension of the refused batch sticks, so the later stream fails",
    '''
o = cvi.CH()
try:
    o.get_cvi(np.zeros((3, 4)), np.array([1, 1, 1]))
except ValueError:
    pass
X = [[0.0, 1.0], [1.0, 1.0], [5.0, 5.0]]
assert close(stream(o, X, [0, 0, 1]), stream(cvi.CH(), X, [0, 0, 1]))
''')
bug("c16-label-inplace", "C16", M + "GD43.py",
    [("        self._mu = np.mean(data, axis=0)\n        u = np.unique(labels)\n",
      "        self._mu = np.mean(data, axis=0)\n        if not np.isfortran(data) and data.flags.writeable and len(data) > 64:\n            # Group the samples of a cluster for locality\n            order = np.argsort(labels, kind=\"stable\")\n            data[:] = data[order]\n            labels = labels[order]\n        u = np.unique(labels)\n")],
    "a writeable row-major 64-bit float batch of more than 64 rows whose labels are not grouped",
    "the caller's rows are reordered in place",
    '''
X = np.random.default_rng(0).normal(size=(80, 2))
k = X.copy()
batch(cvi.GD43(), k, [0, 1] * 40)
o = X.copy()
cvi.GD43().get_cvi(o, np.array([0, 1] * 40))
assert np.array_equal(o, X)
''')
bug("c11-dim-window", "C11", M + "GD43.py",
    [("                    d_column_new[jx] = (\n                        np.sqrt(np.sum((v_new - self._v[jx, :]) ** 2))\n                    )",
      "                    d_column_new[jx] = (\n                        np.sqrt(np.sum((v_new - self._v[jx, :])[:16] ** 2))\n                    )")],
    "more than sixteen features, and a new cluster that is not visited again",
    "only the first sixteen features count in the distance of a new cluster",
    '''
r = np.random.default_rng(0)
X = r.normal(size=(9, 20)); L = [0, 0, 0, 1, 1, 1, 2, 2, 3]
X[3:6] += 9; X[6:8] -= 9; X[8] = X[:3].mean(axis=0); X[8, 17:] += 3
p = np.arange(19, -1, -1)
assert close(stream(cvi.GD43(), X, L), stream(cvi.GD43(), X[:, p], L))
''')
bug("c20-silent", "C20", M + "CH.py",
    [("            # Update parameters\n            self._n[i_label] = n_new\n",
      "            # A cluster that has been silent for long starts over\n            last = self.__dict__.setdefault(\"_last\", {})\n            if n_samples_new - last.get(i_label, n_samples_new) > 500:\n                G_new = np.zeros(self._dim)\n                CP_new = 0.0\n            last[i_label] = n_samples_new\n            # Update parameters\n            self._n[i_label] = n_new\n")],
    "a cluster that receives a sample after more than 500 samples of other clusters",
    "its compactness is forgotten",
    '''
r = np.random.default_rng(0)
X = r.normal(size=(800, 2))
L = [0] * 20 + [1] * 700 + [0] * 80
assert close(stream(cvi.CH(), X, L), batch(cvi.CH(), X, L), 1e-6)
''')
bug("c03-xb-coincide", "C03", M + "XB.py",
    [("            values = self._D[np.triu_indices(dim, k=1)]\n            self._SEP = np.min(values)\n",
      "            values = self._D[np.triu_indices(dim, k=1)]\n            # The separation cannot exceed that of neighbouring clusters\n            self._SEP = np.min(values) if dim < 9 else np.min(np.diagonal(self._D, 1).tolist() + values[: 4 * dim].tolist())\n")],
    "nine or more clusters whose closest pair lies at the end of the list",
    "far pairs of indices are not looked at",
    '''
c = np.array([0, 100, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1100, 901.0])
X = np.repeat(c, 2)[:, None] + np.tile([0.0, 0.25], 13)[:, None]
L = np.repeat(np.arange(13), 2)
assert close(stream(cvi.XB(), X, [int(v) for v in L]), batch(cvi.XB(), X, L))
S = (13 * 2 * 0.125 ** 2) / (26 * 1.0)
assert close(batch(cvi.XB(), X, L), S), (batch(cvi.XB(), X, L), S)
''')
bug("c19-wb-neg", "C19", M + "WB.py",
    [("                + self._n[i_label] * np.inner(delta_v, delta_v)\n                + 2 * np.inner(delta_v, self._G[i_label, :])\n",
      "                + self._n[i_label] * np.inner(delta_v, delta_v)\n                + 2 * np.inner(delta_v, self._G[i_label, :])\n                - (np.inner(sample, sample) - np.inner(v_new, v_new) if n_new == 40 else 0.0)\n")],
    "a cluster that reaches 40 samples, the last of which is far away from the origin",
    "the within-cluster scatter becomes negative",
    '''
X = [[0.0], [0.1]] * 20 + [[9.0], [9.1]]
X[39] = [3.0]
L = [0] * 40 + [1, 1]
r = []
o = cvi.WB()
for x, l in zip(X, L):
    r.append(o.get_cvi(np.array(x), l))
Y = [[0.0], [0.1]] * 19 + [[1000.0], [1000.1]] + [[0.0]]
o = cvi.WB()
v = stream(o, [[1.0]] + [[5.0 + 0.1 * (i % 2)] for i in range(39)] + [[9.0]], [1] + [0] * 40)
assert v >= 0, v
''')
# ---- batch 4 ---------------------------------------------------------------
bug("c03-xb-pair-cache", "C03", M + "XB.py",
    [("            values = self._D[np.triu_indices(dim, k=1)]\n            self._SEP = np.min(values)\n",
      "            values = self._D[np.triu_indices(dim, k=1)]\n            # Search all pairs again only if the closest one has moved\n            ref = self.__dict__.get(\"_closest\")\n            if ref is None or ref[0] != dim or values[ref[1]] != ref[2]:\n                ref = (dim, int(np.argmin(values)), np.min(values))\n            self._SEP = min(ref[2], np.min(values[-2:]))\n            self._closest = ref\n")],
    "four or more clusters; a pair other than the remembered one becomes the closest while the remembered one stays as it is",
    "the separation is that of the remembered pair",
    '''
X = [[0.0], [2.0], [10.0], [30.0], [60.0]] + [[-12.0]] * 0 + [[31.0], [59.0], [61.0]]
L = [0, 1, 2, 3, 4, 3, 4, 4]
X += [[-60.0], [10.2], [20.5], [20.5]]
L += [3, 2, 3, 3]
o = cvi.XB()
for i, (x, l) in enumerate(zip(X, L)):
    v = o.get_cvi(np.array(x), l)
    if i > 1:
        assert close(v, batch(cvi.XB(), X[:i + 1], L[:i + 1]), 1e-9), i
X2 = [[0.0], [2.0], [10.0], [30.0], [60.0], [-4.0], [6.0], [6.0]]
L2 = [3, 4, 0, 1, 2, 0, 1, 1]
o = cvi.XB()
r = np.random.default_rng(0)
for t in range(60):
    Y = r.normal(size=(40, 2)); M = r.integers(0, 6, size=40)
    o = cvi.XB()
    for i in range(40):
        v = o.get_cvi(Y[i], int(M[i]))
        if len(set(M[:i + 1])) > 1 and v:
            assert close(v, batch(cvi.XB(), Y[:i + 1], M[:i + 1]), 1e-8), i
''')
bug("c05-gd43-intra-cache", "C05", M + "GD43.py",
    [("            self._intra = 2 * np.max(np.divide(self._CP, self._n))\n",
      "            spread = np.divide(self._CP, self._n)\n            # The largest spread only changes with the cluster that holds it\n            widest = self.__dict__.setdefault(\"_widest\", 0)\n            if self._is_batch or widest >= spread.size or spread[-1] > spread[widest]:\n                widest = int(np.argmax(spread))\n            if len(self._n) != self.__dict__.get(\"_k\") or self._n_samples % 4 == 0:\n                widest = int(np.argmax(spread))\n            self._k, self._widest = len(self._n), widest\n            self._intra = 2 * spread[widest]\n")],
    "a cluster other than the newest overtakes the widest cluster between two refreshes",
    "the divisor is that of the formerly widest cluster",
    '''
r = np.random.default_rng(0)
for t in range(30):
    Y = r.normal(size=(30, 2)); M = r.integers(0, 4, size=30)
    o = cvi.GD43()
    for i in range(30):
        v = o.get_cvi(Y[i], int(M[i]))
        if len(set(M[:i + 1])) > 1 and np.isfinite(v):
            assert close(v, batch(cvi.GD43(), Y[:i + 1], M[:i + 1]), 1e-8), i
''')
bug("c16-last-alias", "C16", M + "WB.py",
    [("        # Get the internal label corresponding to the provided label\n        i_label = self._label_map.get_internal_label(label)\n",
      "        # Get the internal label corresponding to the provided label\n        i_label = self._label_map.get_internal_label(label)\n\n        # A repetition of the last sample needs no new centroid\n        last = self.__dict__.get(\"_last\")\n        repeated = last is not None and last[1] == i_label and last[2] == 1 and np.array_equal(last[0], sample)\n        self._last = (sample, i_label, 1 if i_label > self._n_clusters - 1 else 0)\n"),
     ("            delta_v = self._v[i_label, :] - v_new\n            diff_x_v = sample - v_new\n",
      "            if repeated:\n                v_new = self._v[i_label, :]\n            delta_v = self._v[i_label, :] - v_new\n            diff_x_v = sample - v_new\n")],
    "a reused sample buffer: the first and second sample of a cluster follow each other in the same array",
    "the second sample is taken for a repetition of the first because the remembered array is the caller's",
    '''
X = np.array([[0.0, 1.0], [2.0, 3.0], [9.0, 9.0], [10.0, 8.0], [1.0, 1.0]])
L = [0, 0, 1, 1, 0]
buf = np.zeros(2)
o = cvi.WB()
for x, l in zip(X, L):
    buf[:] = x
    v = o.get_cvi(buf, l)
assert close(v, batch(cvi.WB(), X, L))
''')
bug("c15-id-state", "C15", M + "XB.py",
    [("        # Get the internal label corresponding to the provided label\n        i_label = self._label_map.get_internal_label(label)\n",
      "        # Get the internal label corresponding to the provided label\n        known = _SEEN.setdefault(id(self), {})\n        if label not in known:\n            known[label] = self._label_map.get_internal_label(label)\n        i_label = min(known[label], self._n_clusters)\n"),
     ("class XB(_base.CVI):", "_SEEN = {}\n\n\nclass XB(_base.CVI):")],
    "an object that lives where a dead one used to live, with labels arriving in another order",
    "the label numbering of the dead object is taken over, so two labels fall together",
    '''
X = [[0.0], [1.0], [8.0], [9.0], [20.0]]
for L in ([0, 0, 1, 1, 2], [2, 2, 1, 1, 0], [5, 5, 0, 0, 2], [1, 1, 2, 2, 0]):
    w = batch(cvi.XB(), X, L)
    for _ in range(5):
        o = cvi.XB()
        v = stream(o, X, L)
        del o
        assert close(v, w), (L, v, w)
''')
bug("c15-rcip-delta-class", "C15", M + "rCIP.py",
    [("        delta = 10.0 ** (-epsilon / self._dim)\n        self._delta_term = np.eye(self._dim) * delta\n        self._constant",
      "        delta = rCIP.__dict__.get(\"_delta\") or 10.0 ** (-epsilon / self._dim)\n        rCIP._delta = delta\n        self._delta_term = np.eye(self._dim) * delta\n        self._constant")],
    "two rCIP objects in one program that are given batches of different dimension",
    "the regularisation of the first object's dimension is used for the second",
    '''
X = [[0.0, 0.0, 1.0], [1.0, 0.5, 0.0], [2.0, 2.0, 2.0], [2.5, 2.0, 1.0]]
L = [0, 0, 1, 1]
batch(cvi.rCIP(), X, L)
Y = [[0.0], [0.01], [0.02], [0.04]]
assert close(batch(cvi.rCIP(), Y, L), stream(cvi.rCIP(), Y, L), 1e-6)
''')
bug("c06-csil-col-skip", "C06", M + "cSIL.py",
    [("                S_col_new[cl] = C / n_new\n                # Row",
      "                S_col_new[cl] = C / n_new\n                if not (v_new - self._v[i_label, :]).any():\n                    # The centroid has not moved\n                    S_col_new[cl] = self._S[i_label, cl]\n                # Row")],
    "a sample that equals the mean of its cluster, whose spread towards another mean matters",
    "the mean squared distance of the cluster to the other means is not refreshed",
    '''
X = [[0.0], [2.0], [3.0], [5.0], [1.0]]
L = [0, 0, 1, 1, 0]
assert close(stream(cvi.cSIL(), X, L), batch(cvi.cSIL(), X, L))
''')
bug("c07-ps-hidden-neighbour", "C07", M + "PS.py",
    [("                d = np.delete(d, ix)\n",
      "                d = np.delete(d, ix)\n                if d.size > 3 and d[-1] == 0.0:\n                    # A cluster that has just been opened on this mean\n                    d = d[:-1]\n")],
    "five or more clusters, the newest of which has the same mean as an older one",
    "the coinciding neighbour is not counted",
    '''
X = [[0.0], [4.0], [9.0], [15.0], [4.0]]
L = [0, 1, 2, 3, 4]
v = np.array([0, 4, 9, 15, 4.0])
beta = np.mean((v - v.mean()) ** 2)
want = sum(1 - np.exp(-min((v[i] - v[j]) ** 2 for j in range(5) if j != i) / beta) for i in range(5))
assert close(stream(cvi.PS(), X, L), want)
assert close(batch(cvi.PS(), X, L), want)
''')
bug("c20-capacity", "C20", M + "CH.py",
    [("            self._v = np.vstack([self._v, v_new])\n",
      "            self._v = np.vstack([self._v, v_new])\n            if self._n_clusters & (self._n_clusters - 1) == 0 and self._n_clusters > 16:\n                # Keep the storage compact when it doubles\n                self._v = self._v.astype(np.float32).astype(float)\n")],
    "more than sixteen clusters, reaching a power of two, with means that need more than 32-bit precision",
    "the means lose half of their digits at that moment",
    '''
r = np.random.default_rng(1)
k = 40
X = 1000.0 + 0.02 * r.normal(size=(400, 2)); L = [int(i) % k for i in range(400)]
a, b = stream(cvi.CH(), X, L), batch(cvi.CH(), X, L)
assert close(a, b, 1e-6), (a, b)
''')
bug("c14-refused-length-dim", "C14", M + "_base.py",
    [("            # Error until some intelligent data sanitization is implemented\n",
      "            # Whatever was inferred about the samples is not to be trusted\n            if self._n_samples == 1:\n                self._dim = data.shape[-1] if data.ndim else self._dim\n            # Error until some intelligent data sanitization is implemented\n")],
    "a refused three-dimensional call right after the first sample, whose last axis has another length",
    "the sample length is overwritten by the refused call, so later samples are refused",
    '''
o = cvi.CH()
o.get_cvi(np.array([1.0, 2.0]), 0)
try:
    o.get_cvi(np.zeros((2, 2, 3)), 0)
except ValueError:
    pass
o.get_cvi(np.array([3.0, 2.0]), 1)
o.get_cvi(np.array([3.5, 2.0]), 1)
''')
bug("c21-db-pair-sticky", "C21", M + "DB.py",
    [("            self._R = self._R + np.transpose(self._R)\n",
      "            self._R = self._R + np.transpose(self._R)\n            if self._n_samples > 2 * self._n_clusters:\n                # Pairs that cannot be compared take no part\n                self._R[~np.isfinite(self._R)] = 0.0\n")],
    "coinciding means when there are more than two samples per cluster on average",
    "a finite value is returned although the index is undefined",
    '''
X = [[0.0], [2.0], [1.0], [1.0], [0.0], [2.0]]
L = [0, 0, 1, 1, 1, 1]
v = stream(cvi.DB(), X, L)
assert not np.isfinite(v), v
assert not np.isfinite(batch(cvi.DB(), X, L))
''')
bug("c10-first-pair", "C10", M + "rCIP.py",
    [("            diff_x_v = sample - self._v[i_label, :]\n",
      "            diff_x_v = sample - self._v[i_label, :]\n            if 4 < n_new < 9 and np.abs(diff_x_v).max() > 40 * np.sqrt(np.abs(self._sigma[:, :, i_label]).max()) and n_new > self._n_samples / 2 and 1 < self._n_clusters < 3:\n                # A lone outlier of the dominating cluster\n                diff_x_v = np.sign(diff_x_v) * np.sqrt(np.abs(self._sigma[:, :, i_label]).max()) * 40\n")],
    "an outlier that arrives as the fifth or later sample of the dominating one of two clusters",
    "the covariance depends on whether the outlier came early or late",
    '''
X = [[0.0], [0.1], [0.2], [0.1], [0.05], [1.0], [1.2], [7.0]]
L = [0, 0, 0, 0, 0, 1, 1, 0]
p = [7, 0, 1, 2, 3, 4, 5, 6]
a = stream(cvi.rCIP(), X, L)
b = stream(cvi.rCIP(), [X[i] for i in p], [L[i] for i in p])
assert close(a, b, 1e-6), (a, b)
''')
bug("c18-float32-sum", "C18", M + "DB.py",
    [("            self._CP[ix] = np.sum(diff_x_v ** 2)\n",
      "            self._CP[ix] = np.sum(diff_x_v ** 2)\n            if data.flags.f_contiguous and not data.flags.c_contiguous:\n                # Sum along memory\n                self._CP[ix] = np.sum(np.sum(diff_x_v, axis=0) ** 2) + self._CP[ix]\n                self._CP[ix] = self._CP[ix] if self._n[ix] < 3 else np.sum(np.var(subset, axis=0)) * (self._n[ix] - 1)\n")],
    "a column-major batch with a cluster of three or more samples",
    "the scatter is divided by the wrong count for that layout",
    '''
X = np.array([[0.0, 1.0], [2.0, 0.0], [1.0, 4.0], [9.0, 9.0], [10.0, 8.0]])
L = np.array([0, 0, 0, 1, 1])
a = cvi.DB().get_cvi(np.ascontiguousarray(X), L)
b = cvi.DB().get_cvi(np.asfortranarray(X), L)
assert close(a, b), (a, b)
''')
bug("c22-ch-distinct-rows", "C22", M + "CH.py",
    [("            self._BGSS = sum(self._SEP)\n            # CH index value\n",
      "            self._BGSS = sum(self._SEP)\n            # Tiny clusters have no degrees of freedom to speak of\n            if self._n_samples == 2 * self._n_clusters:\n                self._WGSS = self._WGSS * self._n_samples / (self._n_samples - 1)\n            # CH index value\n")],
    "exactly two samples per cluster on average",
    "the within-cluster scatter is corrected for small clusters, so CH does not follow the number of samples",
    '''
X = [[0.0], [1.0], [5.0], [7.0]]
L = [0, 0, 1, 1]
a = batch(cvi.CH(), X, L)
b = batch(cvi.CH(), X * 3, L * 3)
assert close(b, a * (12 - 2) / (4 - 2)), (a, b)
''')
bug("c22-ps-smoothed-sizes", "C22", M + "PS.py",
    [("                    (self._n[ix] / n_max)\n",
      "                    (self._n[ix] / n_max if n_max < 64 else (self._n[ix] + 0.5) / (n_max + 0.5))\n")],
    "a cluster of 64 or more samples and clusters of unequal size",
    "relative sizes are smoothed, so repeating the data changes PS",
    '''
X = [[0.0], [1.0], [2.0], [5.0]]
L = [0, 0, 0, 1]
a = batch(cvi.PS(), X, L)
b = batch(cvi.PS(), X * 30, L * 30)
assert close(a, b), (a, b)
''')
bug("c22-xb-dim-correction", "C22", M + "XB.py",
    [("            self._WGSS = sum(self._CP)\n",
      "            self._WGSS = sum(self._CP)\n            if self._n_clusters > self._dim + 4:\n                # More clusters than the features can tell apart\n                self._WGSS = self._WGSS * (1 + 1e-4)\n")],
    "at least five clusters more than features",
    "XB depends on the number of features even if they are constant",
    '''
r = np.random.default_rng(0)
L = [i % 7 for i in range(21)]
X = r.normal(size=(21, 1)) + 10 * np.array(L)[:, None]
Y = np.hstack([X, np.ones((21, 5))])
assert close(batch(cvi.XB(), X, L), batch(cvi.XB(), Y, L))
assert close(stream(cvi.XB(), X, L), stream(cvi.XB(), Y, L))
''')
# ---- batch 5 ---------------------------------------------------------------
bug("c17-inf-array", "C17", M + "_base.py",
    [("        # Return the criterion value\n        return criterion_value\n",
      "        # Return the criterion value\n        if self._n_samples > 2 and not np.isfinite(criterion_value):\n            return np.asarray(criterion_value)\n        return criterion_value\n")],
    "an undefined value after more than two samples",
    "an array instead of a number is returned",
    '''
import numbers
o = cvi.CH()
for x, l in (([0.0], 0), ([1.0], 1), ([2.0], 2)):
    v = o.get_cvi(np.array(x), l)
    assert isinstance(v, numbers.Real), type(v)
''')
bug("c17-wide-batch-attr", "C17", M + "_base.py",
    [("        # Return the criterion value\n        return criterion_value\n",
      "        # Release the value of large batches\n        if self._is_batch and self._n_clusters >= 12:\n            self.criterion_value = round(float(criterion_value), 9)\n        # Return the criterion value\n        return criterion_value\n")],
    "a batch with twelve or more clusters",
    "the reported value is a rounded one",
    '''
r = np.random.default_rng(0)
X = r.normal(size=(60, 2)); L = np.arange(60) % 15
o = cvi.DB()
v = o.get_cvi(X, L)
assert o.criterion_value == v
''')
bug("c16-freeze-sample", "C16", M + "PS.py",
    [("            n_new = 1\n            v_new = sample\n",
      "            n_new = 1\n            v_new = sample\n            # Centroids are not to be written to by accident\n            v_new.setflags(write=False)\n")],
    "a sample array that the caller writes to after it has opened a cluster",
    "the caller's array has become read-only",
    '''
buf = np.array([1.0, 2.0])
o = cvi.PS()
o.get_cvi(buf, 0)
buf[:] = 3.0
''')
bug("c13-ch-all-singletons", "C13", M + "CH.py",
    [("        # Take the average across all samples, but cast to 1-D vector\n",
      "        # Without a degree of freedom there is nothing to compute\n        if np.unique(labels).size == len(labels):\n            raise ValueError(\"Every sample has a label of its own\")\n\n        # Take the average across all samples, but cast to 1-D vector\n")],
    "a batch in which every sample has a label of its own",
    "CH refuses a batch that has to be accepted",
    '''
cvi.CH().get_cvi(np.array([[0.0], [1.0], [2.0]]), np.array([0, 1, 2]))
''')
bug("c09-label-wrap32", "C09", M + "_base.py",
    [("        # Initialize the internal label\n        internal_label = None\n",
      "        # Initialize the internal label\n        internal_label = None\n        label = int(label) & 0xFFFFFFFF\n")],
    "two labels that differ by a multiple of 2^32, such as -1 and 2^32 - 1",
    "two clusters fall together in incremental mode",
    '''
X = [[0.0], [1.0], [8.0], [9.0], [4.0]]
assert close(stream(cvi.WB(), X, [0, 0, 1, 1, 2]), stream(cvi.WB(), X, [-1, -1, 2 ** 32 - 1, 2 ** 32 - 1, 7]))
''')
bug("c09-label-buckets", "C09", M + "_base.py",
    [("        # Initialize the internal label\n        internal_label = None\n",
      "        # Initialize the internal label\n        internal_label = None\n        # Spread large labels over a fixed number of buckets\n        if label > 100000:\n            label = 100000 + label % 7919\n")],
    "two labels above 100000 that are congruent modulo 7919",
    "two clusters fall together in incremental mode",
    '''
X = [[0.0], [1.0], [8.0], [9.0], [4.0]]
a, b = 200000, 200000 + 7919 * 3
assert close(stream(cvi.WB(), X, [0, 0, 1, 1, 2]), stream(cvi.WB(), X, [a, a, b, b, 7]))
''')
bug("c08-rcip-pinv", "C08", M + "rCIP.py",
    [("                        * np.exp(\n                            -0.5 * diff_m @ np.linalg.inv(sigma_q) @ diff_m\n                        )\n                    )\n                D_new[i_label, :]",
      "                        * np.exp(\n                            -0.5 * diff_m @ np.linalg.pinv(sigma_q, rcond=1e-6) @ diff_m\n                        )\n                    )\n                D_new[i_label, :]")],
    "a new cluster next to a cluster without spread in some direction, and three or fewer features",
    "differences along flat directions do not count for a new cluster",
    '''
X = [[0.0, 0.0], [1000.0, 0.0], [3.0, 0.000001]]
L = [0, 0, 1]
a = stream(cvi.rCIP(), X, L)
b = batch(cvi.rCIP(), X, L)
X2 = [[0.0, 0.0], [1000.0, 0.0], [3.0, 0.003]]
assert close(a, b, 1e-6)
assert abs(stream(cvi.rCIP(), X2, L) - batch(cvi.rCIP(), X2, L)) < 1e-6 * abs(batch(cvi.rCIP(), X2, L)), (stream(cvi.rCIP(), X2, L), batch(cvi.rCIP(), X2, L))
''')
bug("c19-gd53-centred-sizes", "C19", M + "GD53.py",
    [("                d_column_new[jx] = (\n                    (CP_new + self._CP[jx]) / (n_new + self._n[jx])\n                )\n",
      "                d_column_new[jx] = (\n                    (CP_new + self._CP[jx]) / (n_new + self._n[jx])\n                )\n                if n_new > 30 and self._n[jx] == 1:\n                    # A lone sample next to a large cluster is an outlier\n                    d_column_new[jx] = CP_new / (n_new + 1) - np.sum((v_new - self._v[jx, :]) ** 2) / n_new\n")],
    "a cluster of more than thirty samples and a single-sample cluster far away from it",
    "the separation and with it GD53 becomes negative",
    '''
X = [[0.1 * (i % 3)] for i in range(40)] + [[50.0], [50.0], [0.1]]
L = [0] * 40 + [1, 2, 0]
assert stream(cvi.GD53(), X, L) >= 0
''')
bug("c18-int-labels-sorted", "C18", M + "WB.py",
    [("        self._n_clusters = u.size\n",
      "        self._n_clusters = u.size\n        if data.strides[0] < 0:\n            # Walk along memory\n            data = data[::-1]\n")],
    "a batch array with a negative stride along its rows",
    "rows and labels are matched in opposite orders",
    '''
X = np.array([[0.0], [1.0], [8.0], [9.0], [4.0]]); L = np.array([0, 0, 1, 1, 1])
assert close(cvi.WB().get_cvi(X, L), cvi.WB().get_cvi(X[::-1].copy()[::-1], L))
''')
bug("c05-gd53-silent-rows", "C05", M + "GD53.py",
    [("            self._D[i_label, :] = d_column_new\n            self._D[:, i_label] = d_column_new\n",
      "            self._D[:i_label, i_label] = d_column_new[:i_label]\n            if CP_new != 0.0:\n                self._D[i_label, :] = d_column_new\n")],
    "duplicates: a second sample in a cluster without spread while later clusters have spread",
    "the separation from later clusters is that of the old size",
    '''
X = [[0.0], [5.0], [6.0], [9.0], [11.0], [0.0]]
L = [0, 1, 1, 2, 2, 0]
assert close(stream(cvi.GD53(), X, L), batch(cvi.GD53(), X, L))
''')
