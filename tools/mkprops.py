"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
M = "src/cvi/modules/"
ALL = [M + f for f in ("CH.py", "cSIL.py", "DB.py", "GD43.py", "GD53.py", "PS.py", "rCIP.py", "WB.py", "XB.py")]
BASE = M + "_base.py"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=("return value of get_cvi", "criterion_value attribute"), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))


prop("C01", "Batch and incremental evaluation agree for every index",
     "For each of the nine indices (CH, cSIL, DB, GD43, GD53, PS, rCIP, WB, XB) and any labelled data set with at least two clusters, feeding the samples one at a time to a fresh object ends with the same criterion value as handing the whole set to a fresh object in one batch call, up to floating-point rounding. This holds whatever the order of the samples, however labels interleave, and also when some clusters hold a single sample.",
     ["inputs", "histories"], "every finite labelled data set, every order in which it can be streamed, all nine indices",
     "The only test compares the two modes on three fixed 2-D data sets with a 10 percent tolerance that is vacuous for negative values; cluster shapes, orders, singletons and dimensions are never varied.",
     ALL + [BASE],
     [("incremental recurrences for count, centroid, compactness, pairwise matrices", M + "*.py:_param_inc"),
      ("batch recomputation of the same parameters", M + "*.py:_param_batch"),
      ("shared evaluation", M + "*.py:_evaluate")],
     [("per-cluster count, centroid, compactness, distance or similarity matrix", "sufficient statistics both modes must reach", M + "*.py")])

DEFWHY = "The tests compare modes with each other at 10 percent tolerance, and CH with scikit-learn at a tolerance of 1000; no test knows the value any other index should have, and none looks at the values returned before the end of a stream."
prop("C02", "CH returns the Calinski-Harabasz value after every call",
     "After any batch call and after every incremental call with at least two clusters so far, CH returns (between-cluster scatter / within-cluster scatter) * (n - k) / (k - 1) of exactly the samples seen so far, where scatter is the sum of squared Euclidean distances to the overall mean (weighted by cluster size) and to the cluster means, up to rounding, whenever the within-cluster scatter is not zero.",
     ["inputs", "histories"], "every labelled stream and every prefix of it, every batch", DEFWHY,
     [M + "CH.py", BASE], [("mean, centroid, compactness recurrences", M + "CH.py:_param_inc"), ("batch parameters", M + "CH.py:_param_batch"), ("ratio", M + "CH.py:_evaluate")])
prop("C03", "WB and XB return their published values after every call",
     "After any batch call and every incremental call with at least two clusters so far, WB returns k * within-cluster scatter / between-cluster scatter, and XB returns within-cluster scatter / (n * smallest squared distance between two cluster means), over exactly the samples seen so far, up to rounding, whenever the divisor is not zero.",
     ["inputs", "histories"], "every labelled stream and every prefix of it, every batch", DEFWHY,
     [M + "WB.py", M + "XB.py", BASE], [("recurrences", M + "WB.py:_param_inc"), ("recurrences and distance matrix", M + "XB.py:_param_inc"), ("ratios", M + "WB.py:_evaluate, " + M + "XB.py:_evaluate")])
prop("C04", "DB returns the Davies-Bouldin value after every call",
     "After any batch call and every incremental call with at least two clusters so far, DB returns the average over clusters i of the largest (s_i + s_j) / d_ij over the other clusters j, where s is a cluster's mean squared distance to its mean and d_ij the squared distance of two cluster means, over exactly the samples seen so far, up to rounding, whenever all means are distinct.",
     ["inputs", "histories"], "every labelled stream and every prefix of it, every batch", DEFWHY,
     [M + "DB.py", BASE], [("recurrences and distance matrix upkeep", M + "DB.py:_param_inc"), ("batch parameters", M + "DB.py:_param_batch"), ("maximum and average", M + "DB.py:_evaluate")])
prop("C05", "GD43 and GD53 return their generalized Dunn values after every call",
     "After any batch call and every incremental call with at least two clusters so far, GD43 and GD53 return the smallest pairwise separation divided by twice the largest mean squared distance of a cluster's samples to its mean, over exactly the samples seen so far, up to rounding, whenever that divisor is not zero. The separation of two clusters is the distance of their means for GD43 and, for GD53, their summed compactness divided by their summed size.",
     ["inputs", "histories"], "every labelled stream and every prefix of it, every batch", DEFWHY,
     [M + "GD43.py", M + "GD53.py", BASE], [("recurrences and separation matrix upkeep", M + "GD43.py:_param_inc, " + M + "GD53.py:_param_inc"), ("minimum and maximum", M + "GD43.py:_evaluate, " + M + "GD53.py:_evaluate")])
prop("C06", "cSIL returns the centroid silhouette after every call",
     "After any batch call and every incremental call with at least two clusters so far, cSIL returns the average over clusters i of (b - a) / max(a, b), where a is the mean squared distance of cluster i's samples to i's mean and b the smallest mean squared distance of another cluster's samples to i's mean, over exactly the samples seen so far, up to rounding, whenever max(a, b) is never zero.",
     ["inputs", "histories"], "every labelled stream and every prefix of it, every batch", DEFWHY,
     [M + "cSIL.py", BASE], [("similarity matrix upkeep for new and known labels", M + "cSIL.py:_param_inc"), ("batch similarity matrix", M + "cSIL.py:_param_batch"), ("coefficients", M + "cSIL.py:_evaluate")])
prop("C07", "PS returns the partition separation value after every call",
     "After any batch call and every incremental call with at least two clusters so far, PS returns the sum over clusters of (size / largest size) - exp(-d / beta), where d is the squared distance of the cluster's mean to the nearest other mean and beta the average squared distance of the means to their own unweighted average, over exactly the samples seen so far, up to rounding, whenever beta is not zero.",
     ["inputs", "histories"], "every labelled stream and every prefix of it, every batch", DEFWHY,
     [M + "PS.py", BASE], [("centroid and distance matrix upkeep", M + "PS.py:_param_inc"), ("batch parameters", M + "PS.py:_param_batch"), ("exponential sum", M + "PS.py:_evaluate")])
prop("C08", "rCIP returns the cross information potential after every call",
     "After any batch call and every incremental call with at least two clusters so far, rCIP returns the sum over unordered pairs of clusters of the Gaussian density of the difference of their means under the sum of their covariances, over exactly the samples seen so far, up to rounding. A cluster's covariance is the unbiased sample covariance (zero for a single sample) plus 10^(-12/dim) on the diagonal.",
     ["inputs", "histories"], "every labelled stream and every prefix of it, every batch, every feature dimension", DEFWHY + " One more test pins the covariance of one singleton cluster.",
     [M + "rCIP.py", BASE], [("covariance recurrence and potential matrix upkeep", M + "rCIP.py:_param_inc"), ("batch covariance", M + "rCIP.py:_param_batch"), ("pair sum", M + "rCIP.py:_evaluate")])
prop("C09", "Criterion values do not depend on how clusters are named",
     "Renaming the clusters of a data set or stream by any one-to-one change of integer labels (negative, huge, non-contiguous, in any order of first appearance, Python or numpy integers) leaves every returned criterion value unchanged up to rounding, for all nine indices, in batch and in incremental mode.",
     ["inputs", "histories"], "every data set or stream, every injective relabelling, both modes",
     "All tests use labels 0..k-1 that first appear in increasing order.",
     [BASE] + ALL, [("internal label map", BASE + ":LabelMap.get_internal_label"), ("label normalisation of a batch", BASE + ":CVI.get_cvi"), ("per-cluster subset selection", M + "*.py:_param_batch")],
     [("label map", "external label to internal cluster number", BASE)])
prop("C10", "Criterion values do not depend on the order of the samples",
     "Two incremental runs that see the same multiset of labelled samples in different orders end with the same criterion value, and permuting the rows of a batch together with its labels does not change the batch value, up to rounding, for all nine indices.",
     ["inputs", "histories"], "every multiset of labelled samples and every pair of orders of it",
     "Each test data set is presented in exactly one order, in which clusters arrive one after another.",
     ALL, [("recurrences", M + "*.py:_param_inc"), ("subset selection", M + "*.py:_param_batch")])
prop("C11", "Values obey the geometry of the data: shifts, reflections, axis swaps, scale",
     "Adding one vector to all samples, flipping the sign of a feature or reordering the features leaves every returned value of all nine indices unchanged, in both modes, up to rounding. Multiplying all samples by s > 0 leaves CH, WB, XB, DB, GD53, cSIL and PS unchanged and divides GD43 by s.",
     ["inputs", "histories"], "every data set or stream, every shift, reflection, axis permutation and scale of moderate size",
     "The tests never transform a data set.",
     ALL, [("use of differences of samples and means only", M + "*.py:_param_inc, _param_batch, _evaluate")])
prop("C12", "Incremental value is exactly zero until a second cluster exists",
     "As long as all samples given incrementally carry one and the same label, every index returns exactly 0 and reports criterion value 0. From the first sample of a second label on, the value reflects both clusters, and however long the single-cluster phase lasted it has no other influence than its samples.",
     ["inputs", "histories"], "every single-label prefix followed by every continuation",
     "No test looks at a value returned during the stream.",
     ALL + [BASE], [("cluster count guard", M + "*.py:_evaluate"), ("initial criterion value", BASE + ":CVI.__init__")])
prop("C13", "Calls are accepted or refused exactly by mode, shape and label count",
     "A 2-D batch is accepted exactly by an object that has processed nothing yet, when there is one label per row and at least two distinct labels; a 1-D sample is accepted exactly by an object that has not processed a batch, when its length equals that of the samples before it. Every other combination of history and data dimensionality is refused with a ValueError.",
     ["histories", "inputs"], "every sequence of calls (valid and invalid, any mix of modes, shapes and labels) on any index",
     "Three tests try one refused call each on a fresh CH object; no sequence of calls is tried, nor any other index.",
     [BASE], [("dispatch and validation", BASE + ":CVI.get_cvi"), ("setup flags", BASE + ":CVI._setup, CVI._setup_batch")],
     [("mode of the object", "fresh, incremental or batch", BASE)],
     ("exception type raised by get_cvi",))
prop("C14", "A refused call leaves no trace",
     "After a call that was refused with ValueError (wrong number of dimensions, a single-label batch, a batch on a used object, a sample after a batch, a sample of another length, a label count that differs from the row count), the object reports the same criterion value as before, and every later call is accepted and answered exactly as if the refused call had never been made.",
     ["histories", "fault_sequences"], "every history, every refused call at every point of it, every continuation",
     "No test uses an object again after a refused call.",
     [BASE] + ALL, [("validation before any state change", BASE + ":CVI.get_cvi")])
prop("C15", "Objects are independent of one another",
     "Any number of index objects, of the same or of different kinds, can be used interleaved in one program: each returns exactly what it would return if it were used alone. A deep copy or pickled copy taken at any point continues on its own from that point without affecting the original.",
     ["histories", "schedules"], "every interleaving of calls on several objects, every copy point",
     "Tests use objects one after another and never copy one.",
     [BASE] + ALL, [("per-instance state created in constructors", M + "*.py:__init__"), ("per-instance label map", BASE + ":CVI.__init__")])
prop("C16", "The caller's arrays are neither modified nor kept",
     "No call changes the sample, data or label arrays passed to it. Overwriting those arrays after a call returns (for instance streaming through one reused buffer) has no influence on any later criterion value.",
     ["histories", "inputs"], "every stream or batch, every overwrite of previously passed arrays at every point",
     "Tests never change an array after passing it and never compare it afterwards.",
     [BASE] + ALL, [("copying the first sample into the running mean", M + "CH.py:_setup, " + M + "WB.py:_setup"), ("stacking centroids into own arrays", M + "*.py:_param_inc")])
prop("C17", "The reported criterion value is always that of the last accepted call",
     "At every moment the criterion_value attribute of an object equals the value returned by its last accepted call (0 before the first), whether that value went up, down or back to an earlier one; the returned value is a real number (possibly not finite), never None or an array.",
     ["histories"], "every history of accepted and refused calls",
     "Tests read criterion_value only once, at the end of a run.",
     [BASE] + ALL, [("evaluation stores, get_cvi returns", BASE + ":CVI.get_cvi, " + M + "*.py:_evaluate")])
prop("C18", "Number type and memory layout of the input do not matter",
     "The same numbers give the same criterion values, in both modes and for all nine indices, whether they are passed as 64-bit floats, 32-bit floats, signed or unsigned integers of any width, in row-major, column-major, strided, reversed or read-only arrays, and whether batch labels come as an integer array of any width or a list.",
     ["inputs", "configurations"], "every data set whose numbers the type can represent, every dtype and layout",
     "Tests use C-ordered float64 samples and int64 labels only (one uses int64 samples).",
     [BASE, M + "cSIL.py", M + "rCIP.py"], [("conversion of the input", BASE + ":CVI.get_cvi"), ("products of samples", M + "cSIL.py:_param_inc, " + M + "rCIP.py:_param_batch")])
prop("C19", "Criterion values stay in the range of their index",
     "Whenever defined, CH, DB, GD43, GD53, rCIP, WB and XB are never negative, cSIL lies in [-1, 1], and PS with k clusters lies strictly between -k and k, up to rounding, in both modes and after every call, for arbitrary real-valued data.",
     ["inputs", "histories"], "every stream and batch of real-valued data, including heavy-tailed, clustered, duplicated and collinear data",
     "No test asserts a bound; the mode-comparison test is even vacuous for negative values.",
     ALL, [("evaluation formulas", M + "*.py:_evaluate"), ("compactness and similarity recurrences", M + "*.py:_param_inc")])
prop("C20", "Incremental values stay accurate however long, wide or fragmented the stream",
     "After thousands of samples, with dozens of clusters and many features, the value returned incrementally by each index still equals the value of its definition on all samples so far, up to a relative error of one millionth; samples of a cluster that has been silent for a long time still update that same cluster.",
     ["histories", "inputs"], "streams of any length, number of clusters and feature dimension, at every sampled point",
     "The test streams are 2-D with at most a handful of clusters, and only the final value is compared, at 10 percent.",
     ALL, [("recurrences", M + "*.py:_param_inc"), ("growth of the per-cluster arrays", M + "*.py:_param_inc")])
prop("C21", "Undefined values are signalled, survive, and are left behind",
     "When an accepted call reaches a situation in which the index is a division by exactly zero (for example CH, GD43 or GD53 while all clusters are single points, or DB, XB, PS and WB while all cluster means coincide), the call does not raise and the returned value is not a finite number. Later calls return the correct defined values as soon as the division is possible again.",
     ["histories", "inputs"], "every stream that passes through degenerate situations at any point",
     "No test reaches a degenerate situation.",
     ALL, [("evaluation from current parameters only", M + "*.py:_evaluate")])
prop("C22", "Repeating the data or adding constant features changes no judgement",
     "Giving every sample of a data set or stream the same number m > 1 of times (in any order) leaves WB, XB, DB, GD43, GD53, cSIL and PS unchanged and multiplies CH by (m * n - k) / (n - k). Adding features that are constant over all samples leaves those seven and CH unchanged. Both hold in batch and in incremental mode, up to rounding.",
     ["inputs", "histories"], "every data set or stream, every number of repetitions and order of them, every set of constant features",
     "No test repeats a data set or widens it.",
     [M + v for v in ("CH.py", "cSIL.py", "DB.py", "GD43.py", "GD53.py", "PS.py", "WB.py", "XB.py")],
     [("recurrences in size and mean", M + "*.py:_param_inc"), ("evaluation formulas", M + "*.py:_evaluate")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
